package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["L01"] = ruleLogCalls
	properties["L02"] = ruleLevels
	properties["L03"] = ruleLogContext
}

const logPkg = "log"

type logRule struct {
	own                                 bool // records given to handlers are private objects
	c                                   *Check
	h, ctx, swap                        *types.Var
	rTime, rLvl, rMsg, rCtx, rCall, rKN *types.Var
	knTime, knMsg, knLvl, knCtx         *types.Var
	levels                              map[string]*T // Crit -> 0 ...
	lvlType                             types.Type
	ctxType                             types.Type
	q                                   *quietSet
}

func (c *Check) logRule() *logRule {
	f := c.fields(logPkg, "logger.h", "logger.ctx", "swapHandler.handler", "Record.Time", "Record.Lvl", "Record.Msg", "Record.Ctx", "Record.Call", "Record.KeyNames",
		"RecordKeyNames.Time", "RecordKeyNames.Msg", "RecordKeyNames.Lvl", "RecordKeyNames.Ctx")
	if f == nil {
		return nil
	}
	l := &logRule{c: c, h: f[0], ctx: f[1], swap: f[2], rTime: f[3], rLvl: f[4], rMsg: f[5], rCtx: f[6], rCall: f[7], rKN: f[8], knTime: f[9], knMsg: f[10], knLvl: f[11], knCtx: f[12]}
	l.levels = map[string]*T{}
	l.lvlType = l.rLvl.Type()
	if t := c.p.TypeOf(logPkg, "Ctx"); t != nil {
		l.ctxType = t
	}
	scope := c.p.SPkgs[modPath+"/"+logPkg].Pkg.Scope()
	for _, n := range []string{"Crit", "Error", "Warn", "Info", "Debug", "Trace"} {
		k, ok := scope.Lookup("Lvl" + n).(*types.Const)
		if !ok {
			c.fail("anchor", "log.Lvl"+n, 0, "the level does not exist any more")
			return nil
		}
		v, _ := constant.Int64Val(k.Val())
		l.levels[n] = mkInt(v)
	}
	return l
}

// swapHook: a logger's handler cell holds a handler pointer (checked where it is
// stored); loading it gives that pointer.
func (l *logRule) swapHook(c *callCtx) []Outcome {
	if c.callee() != "(*sync/atomic.Value).Load" || len(c.args) != 1 {
		return nil
	}
	a := c.args[0]
	if a.op != "field" || a.v != any(l.swap) {
		return nil
	}
	pt := l.handlerPtr()
	c.in.noteAtomic(c, a, false)
	v := mkApp("handlerof", pt, a, mkInt(int64(c.in.nfreshNext())))
	c.st.assume(mkEqRaw(tNil, v), false)
	r := mkIface(pt, v)
	c.ev("aload", "", c.args, r)
	return c.ret(r)
}

func (l *logRule) handlerPtr() types.Type {
	return types.NewPointer(l.c.p.SPkgs[modPath+"/"+logPkg].Pkg.Scope().Lookup("Handler").Type())
}

// handled: the records this path hands to handlers.
func handled(evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.kind == "invoke" && e.name == "(flychain/log.Handler).Log" || e.kind == "callback" {
			out = append(out, e)
		}
	}
	return out
}

// currentOf: t is the handler a logger has at that moment.
func (l *logRule) currentOf(st *State, t *T) *T {
	if t.isApp("init") && t.a[0].isApp("handlerof") {
		return t.a[0].a[0]
	}
	return nil
}

func ruleLogCalls(c *Check) {
	l := c.logRule()
	if l == nil {
		return
	}
	n := 0
	for name := range l.levels {
		if m := c.fn(logPkg, "logger."+name); m != nil {
			r := c.analyse(m, nil, withHook(l.swapHook))
			l.logCall(r, r.param(0), l.levels[name], r.param(1), r.param(2), nil, name == "Crit")
			n++
		}
		if m := c.fn(logPkg, name); m != nil {
			r := c.analyse(m, nil, withHook(l.swapHook))
			l.logCall(r, l.root(), l.levels[name], r.param(0), r.param(1), nil, name == "Crit")
			n++
		}
	}
	if m := c.fn(logPkg, "Output"); m != nil {
		r := c.analyse(m, nil, withHook(l.swapHook))
		l.logCall(r, l.root(), r.param(1), r.param(0), r.param(3), r.param(2), false)
		n++
	}
	c.count("log entry points", n)
	c.floor("delivery", "log entry points", n, 13)
	// the package functions and Root() speak of the same logger
	if m := c.fn(logPkg, "Root"); m != nil {
		r := c.analyse(m, nil)
		for _, o := range r.outs {
			c.ok("root", "log.Root", o.kind == outReturn && o.val.op == "iface" && o.val.a[0] == l.root(), o.pos, "Root does not return the logger the package functions use")
		}
	}
}

func (l *logRule) root() *T { return l.c.p.globalVal(logPkg, "root") }

func (l *logRule) logCall(r *Run, logger, lvl, msg, args, depth *T, crit bool) {
	c, in := l.c, r.in
	label := fnLabel(r.fn)
	if logger == nil {
		c.fail("anchor", label, r.fn.Pos(), "the logger is not known")
		return
	}
	st0 := newState()
	hptr := in.loadField(st0, logger, l.h)
	for _, o := range r.outs {
		want := outReturn
		if crit {
			want = outExit
		}
		if !c.ok("delivery", label+" ends", o.kind == want, o.pos, "a log call of this level can end in: %s", o.kind) {
			continue
		}
		evs := events(o.st)
		hs := handled(evs)
		if !c.ok("delivery", label, len(hs) == 1, o.pos, "%d records are handed over by one log call", len(hs)) {
			continue
		}
		e := hs[0]
		cell := l.currentOf(o.st, e.args[0])
		c.ok("delivery", label+" handler", cell != nil && cell.op == "field" && cell.a[0] == hptr, e.pos, "the record does not go to the logger's own current handler: %v", e.args[0])
		if crit {
			var exit *Event
			for _, x := range evs {
				if x.kind == "exit" {
					exit = x
				}
			}
			c.ok("crit", label, exit != nil && exit.n > e.n && exit.args[0] == tOne, o.pos, "a critical record does not end the program with status 1 after it was handled")
		}
		rec := e.args[1]
		st := stAt(e)
		ok := rec.op == "alloc"
		c.ok("record", label+" own record", ok, e.pos, "the record is not made for this call")
		if !ok {
			continue
		}
		get := func(v *types.Var) *T { return in.loadField(st, rec, v) }
		c.ok("record", label+" level", st.proves(mkIntEq(get(l.rLvl), lvl)), e.pos, "the record carries level %v instead of %v", get(l.rLvl), lvl)
		c.ok("record", label+" message", get(l.rMsg) == msg, e.pos, "the record's message is not the one logged: %v", get(l.rMsg))
		var call, now *Event
		for _, x := range evs {
			if x.kind == "call" && x.name == "github.com/go-stack/stack.Caller" {
				call = x
			}
			if x.kind == "call" && x.name == "time.Now" {
				now = x
			}
		}
		c.ok("record", label+" time", now != nil && get(l.rTime) == now.res, e.pos, "the record's time is not the time of the call")
		if c.ok("record", label+" call site", call != nil && get(l.rCall) == call.res, e.pos, "the record's call site is not looked up in this call: %v", get(l.rCall)) {
			d := mkInt(int64(len(call.stack)))
			if depth != nil {
				d = tAdd(d, depth)
			}
			c.ok("record", label+" call site", st.proves(mkIntEq(call.args[0], d)), call.pos, "the call site is looked up %v frames up, the caller is %v up", call.args[0], d)
		}
		kn := mkField(rec, l.rKN, l.rKN.Type())
		for _, k := range []struct {
			v    *types.Var
			want string
		}{{l.knTime, "t"}, {l.knMsg, "msg"}, {l.knLvl, "lvl"}, {l.knCtx, "ctx"}} {
			c.ok("record", label+" key names", in.loadField(st, kn, k.v) == mkLit(k.want), e.pos, "the record's key name %s is not %q", k.v.Name(), k.want)
		}
		_, seq := in.sliceParts(st, get(l.rCtx))
		l.context(in, o.st, st0, label, seq, in.loadField(st0, logger, l.ctx), args, e.pos)
	}
}

// context: seq is the logger's context followed by the call's, in pairs.
func (l *logRule) context(in *Interp, st, st0 *State, label string, seq, own, args *T, pos token.Pos) {
	c := l.c
	p := pos
	_, pre := in.sliceParts(st0, own)
	_, as := in.sliceParts(st0, args)
	if !c.ok("context", label+" context", seq != nil && pre != nil && as != nil, p, "the record's context is not a list the analysis can follow") {
		return
	}
	f := st.facts
	c.ok("context", label+" inherits", seqEq(f, subSeq(f, seq, tZero, seqLen(pre)), pre), p, "the record does not start with the logger's own context: %v", seq)
	rest := subSeq(f, seq, seqLen(pre), seqLen(seq))
	n := seqLen(as)
	single := st.proves(mkIntEq(n, tOne))
	if single && l.ctxType != nil {
		a0 := atTerm(f, as, tZero)
		if st.facts.decide(mkTypeIs(a0, l.ctxType)) == yes {
			c.ok("context", label+" map", l.pairs(in, st, rest), p, "a map given as context is not expanded into its key/value pairs: %v", rest)
			return
		}
	}
	got := subSeq(f, rest, tZero, f.normInt(n))
	c.ok("context", label+" arguments", seqEq(f, got, as), p, "the record does not carry the call's arguments in order: %v", rest)
	extra := subSeq(f, rest, f.normInt(n), seqLen(rest))
	switch st.facts.decide(even(n)) {
	case yes:
		c.ok("context", label+" nothing added", st.proves(mkIntEq(seqLen(extra), tZero)), p, "context is added to complete key/value pairs: %v", extra)
	case no:
		es := seqElems(extra)
		ok := len(es) == 3 && es[0] == tNil && isStr(es[1])
		c.ok("context", label+" completed", ok, p, "a key without a value is not completed with a nil value and an error note: %v", extra)
	default:
		if !c.ok("context", label+" parity", false, p, "the record's context may be left with a key that has no value") {
			return
		}
	}
}

func isStr(t *T) bool { return t.op == "iface" && t.a[0].op == "lit" }

// pairs: rest holds exactly the keys and values of a map.
func (l *logRule) pairs(in *Interp, st *State, rest *T) bool {
	for _, rec := range loopsOf(st) {
		if len(rec.backs) == 0 {
			continue
		}
		good := true
		for _, b := range rec.backs {
			var key, val *T
			nm := 0
			for _, e := range own(rec, b) {
				if e.kind == "rangemap" {
					key, val = e.args[1], e.args[2]
					nm++
				}
			}
			if nm != 1 {
				good = false
				break
			}
			want := []*T{mkIface(types.Typ[types.String], key), val}
			ok := false
			for head, x := range in.growth(rec, b) {
				es := seqElems(x)
				ok = ok || in.sliceSeq(rec.assumed, head) == rest && len(es) == 2 && es[0] == want[0] && es[1] == want[1]
			}
			// or two consecutive slots of a list made to size
			for a, h := range rec.assumed.heap {
				v := b.st.heap[a]
				if v == nil || v == h || h != rest {
					continue
				}
				for _, lv := range in.loopVars(rec) {
					for i, bk := range rec.backs {
						if bk != b || lv.backs[i] == nil || !b.st.proves(mkIntEq(lv.backs[i], tAddI(lv.head, 2))) || lv.entry != tZero {
							continue
						}
						w := mkUpd(b.st, mkUpd(b.st, h, lv.head, want[0]), tAddI(lv.head, 1), want[1])
						if w == v || seqEq(b.st.facts, w, v) {
							ok = true
						}
					}
				}
			}
			good = good && ok
		}
		if !good {
			continue
		}
		// and the list has room for all of them
		var m *T
		for _, e := range events(st) {
			if e.kind == "iterdone" {
				m = e.args[2]
			}
		}
		if m == nil {
			continue
		}
		want := tMul(mkInt(2), mapLen(m))
		if st.proves(mkIntEq(seqLen(rest), want)) || growsFromEmpty(rec) {
			return true
		}
	}
	for _, e := range events(st) { // an empty map has nothing to expand
		if e.kind == "iterdone" && st.proves(mkIntEq(mapLen(e.args[2]), tZero)) && st.proves(mkIntEq(seqLen(rest), tZero)) {
			return true
		}
	}
	return false
}

func growsFromEmpty(rec *LoopRec) bool {
	for p, e := range rec.ePhis {
		if e != nil && e.op == "slice" && rec.phis[p] != e && e.a[2] == tZero {
			return true
		}
	}
	return false
}

// ---- levels ----

// level names as the package documents them, by level constant.
var lvlNames = map[string][2]string{
	"Crit": {"crit", "CRIT"}, "Error": {"eror", "ERROR"}, "Warn": {"warn", "WARN"}, "Info": {"info", "INFO"}, "Debug": {"dbug", "DEBUG"}, "Trace": {"trce", "TRACE"},
}

var lvlInputs = map[string]string{
	"trace": "Trace", "trce": "Trace", "debug": "Debug", "dbug": "Debug", "info": "Info", "warn": "Warn", "error": "Error", "eror": "Error", "crit": "Crit",
}

var lvlColor = map[string]int64{"Crit": 35, "Error": 31, "Warn": 33, "Info": 32, "Debug": 36, "Trace": 34}

var lvlSyslog = map[string]string{"Crit": "Crit", "Error": "Err", "Warn": "Warning", "Info": "Info", "Debug": "Debug", "Trace": ""}

var lvlOrder = []string{"Crit", "Error", "Warn", "Info", "Debug", "Trace"}

func ruleLevels(c *Check) {
	l := c.logRule()
	if l == nil {
		return
	}
	// the levels are ordered by severity
	for i, n := range lvlOrder {
		v, _ := l.levels[n].int64()
		c.ok("order", "log.Lvl"+n, v == int64(i), 0, "level %s has the value %d, not %d: levels are not ordered by severity", n, v, i)
	}
	str, al, from := c.fn(logPkg, "Lvl.String"), c.fn(logPkg, "Lvl.AlignedString"), c.fn(logPkg, "LvlFromString")
	if str == nil || al == nil || from == nil {
		return
	}
	text := func(fn *ssa.Function, lvl *T) (string, bool) {
		r := c.analyse(fn, []*T{lvl})
		s, ok := "", len(r.outs) > 0
		for i, o := range r.outs {
			if o.kind != outReturn || o.val.op != "lit" || i > 0 && o.val.s != s {
				return "", false
			}
			s = o.val.s
		}
		return s, ok
	}
	parse := func(s string) (*T, bool) {
		r := c.analyse(from, []*T{mkLit(s)})
		var v *T
		for _, o := range r.outs {
			if o.kind != outReturn || o.val.op != "tuple" || o.val.a[1] != tNil || v != nil && v != o.val.a[0] {
				return nil, false
			}
			v = o.val.a[0]
		}
		return v, v != nil
	}
	for _, n := range lvlOrder {
		s, ok := text(str, l.levels[n])
		c.ok("names", "log.Lvl.String "+n, ok && s == lvlNames[n][0], str.Pos(), "the name of level %s is %q", n, s)
		a, ok2 := text(al, l.levels[n])
		c.ok("names", "log.Lvl.AlignedString "+n, ok2 && strings.TrimSpace(a) == lvlNames[n][1] && len(a) == 5, al.Pos(), "the aligned name of level %s is %q", n, a)
		if ok {
			v, ok3 := parse(s)
			c.ok("names", "log.LvlFromString "+n, ok3 && v == l.levels[n], from.Pos(), "the name %q of level %s does not parse to it", s, n)
		}
	}
	for s, n := range lvlInputs {
		v, ok := parse(s)
		c.ok("names", "log.LvlFromString "+s, ok && v == l.levels[n], from.Pos(), "%q is not parsed as level %s: %v", s, n, v)
	}
	// other strings are refused, and so are levels without a name
	r := c.analyse(from, nil)
	nerr := 0
	for _, o := range r.outs {
		if !c.ok("names", "log.LvlFromString", o.kind == outReturn && o.val.op == "tuple", o.pos, "parsing a level can end in a %s", o.kind) {
			continue
		}
		if o.val.a[1] != tNil {
			nerr++
			c.ok("names", "log.LvlFromString error", o.st.facts.decideEq(o.val.a[1], tNil) == no, o.pos, "a string that names no level may be accepted")
			continue
		}
		// an accepted string is one of the names
		p := o.st.facts.rep(r.param(0))
		if v := o.val.a[0]; v.isApp("mapget") && o.st.facts.rep(v.a[1]) == p {
			if tab := constMap(v.a[0]); tab != nil {
				for k, x := range tab {
					n := ""
					if k.op == "lit" {
						n = lvlInputs[k.s]
					}
					c.ok("names", "log.LvlFromString accepts names", n != "" && x == l.levels[n], o.pos, "%v is accepted as level %v", k, x)
				}
				continue
			}
		}
		lit := p.op == "lit"
		c.ok("names", "log.LvlFromString accepts names", lit && lvlInputs[p.s] != "" && o.val.a[0] == l.levels[lvlInputs[p.s]], o.pos, "a string other than the level names is accepted as level %v", o.val.a[0])
	}
	c.ok("names", "log.LvlFromString refuses", nerr > 0, from.Pos(), "no string is refused")
	for _, fn := range []*ssa.Function{str, al} {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			lvl := r.param(0)
			in := o.st.proves(mkLe(l.levels["Crit"], lvl)) && o.st.proves(mkLe(lvl, l.levels["Trace"]))
			c.ok("names", fnLabel(fn)+" of others", o.kind == outPanic || in, o.pos, "a value that is no level gets the name %v", o.val)
		}
	}
	l.colors()
	l.syslog()
}

// colors: the terminal format shows each level in its colour and under its name.
func (l *logRule) colors() {
	c := l.c
	ctor := c.fn(logPkg, "TerminalFormat")
	if ctor == nil {
		return
	}
	for _, use := range []bool{true, false} {
		for _, n := range lvlOrder {
			rec, _ := l.record("r")
			rs := l.format(ctor, []*T{mkBool(use)}, rec, func(st *State) {
				st.set(mkField(rec, l.rLvl, l.rLvl.Type()), l.levels[n])
				st.set(mkField(rec, l.rCtx, l.rCtx.Type()), tNilSlice)
			})
			label := "log.TerminalFormat " + n
			c.ok("colour", label, len(rs) > 0, ctor.Pos(), "the terminal format gives no text")
			for _, o := range rs {
				seq := o.seq
				head := leading(seq)
				want := strings.TrimSpace(lvlNames[n][1])
				if use {
					esc := "\x1b[" + itoa(lvlColor[n]) + "m"
					c.ok("colour", label, strings.HasPrefix(head, esc+want), o.pos, "level %s is shown as %q", n, head)
				} else {
					c.ok("colour", label+" plain", strings.HasPrefix(head, want), o.pos, "level %s is shown as %q", n, head)
				}
			}
		}
	}
}

// syslog: each level goes to the syslog severity of its name, trace to none.
func (l *logRule) syslog() {
	c := l.c
	for _, name := range []string{"SyslogHandler", "SyslogNetHandler"} {
		ctor := c.fn(logPkg, name)
		if ctor == nil {
			continue
		}
		for _, n := range lvlOrder {
			rec, _ := l.record("r")
			nmade := 0
			r := c.analyse(ctor, nil)
			for _, o := range r.outs {
				if o.kind != outReturn || o.val.op != "tuple" || o.val.a[1] != tNil {
					continue
				}
				h := o.val.a[0]
				nmade++
				st := r.after(o)
				st.set(mkField(rec, l.rLvl, l.rLvl.Type()), l.levels[n])
				st.set(mkField(rec, l.rCtx, l.rCtx.Type()), tNilSlice)
				from := st.clone()
				for _, ho := range r.method(st, h, "Log", rec) {
					var got []string
					for _, e := range eventsSince(ho.st, from) {
						if e.kind == "call" && strings.HasPrefix(e.name, "(*log/syslog.Writer).") {
							got = append(got, strings.TrimPrefix(e.name, "(*log/syslog.Writer)."))
						}
					}
					c.count("syslog records", 1)
					c.ok("syslog", "log."+name+" "+n, ho.kind == outReturn && strings.Join(got, ",") == lvlSyslog[n], ho.pos, "a record of level %s is sent to syslog as %v", n, got)
				}
			}
			c.ok("syslog", "log."+name, nmade > 0, ctor.Pos(), "%s makes no handler", name)
		}
	}
}

func ruleLogContext(c *Check) {
	l := c.logRule()
	if l == nil {
		return
	}
	c.ok("owned", "logger.ctx", c.p.immutable[l.ctx], l.ctx.Pos(), "a logger's context is changed after the logger was made")
	c.ok("owned", "logger.h", c.p.immutable[l.h], l.h.Pos(), "a logger's handler cell is replaced after the logger was made")
	// log calls
	for name, lvl := range l.levels {
		if m := c.fn(logPkg, "logger."+name); m != nil {
			l.isolatedCall(c.analyse(m, nil, withHook(l.swapHook)), nil, 2)
		}
		if m := c.fn(logPkg, name); m != nil {
			l.isolatedCall(c.analyse(m, nil, withHook(l.swapHook)), l.root(), 1)
		}
		_ = lvl
	}
	if m := c.fn(logPkg, "Output"); m != nil {
		l.isolatedCall(c.analyse(m, nil, withHook(l.swapHook)), l.root(), 3)
	}
	// children
	if m := c.fn(logPkg, "logger.New"); m != nil {
		r := c.analyse(m, nil, withHook(l.swapHook))
		l.child(r, r.param(0), r.param(1))
	}
	if m := c.fn(logPkg, "New"); m != nil {
		r := c.analyse(m, nil, withHook(l.swapHook))
		l.child(r, l.root(), r.param(0))
	}
	l.handlers()
}

// untouched: nothing a slice refers to was written on the path.
func untouched(in *Interp, st, st0 *State, sl *T) bool {
	shape, q0 := in.sliceParts(st0, sl)
	if shape == nil {
		return false
	}
	c := in.content(st, shape.a[0])
	return c == in.content(st0, shape.a[0]) && q0 != nil
}

// isolatedCall: a log call leaves its arguments and the logger's context alone,
// and the record's context is a list of its own.
func (l *logRule) isolatedCall(r *Run, logger *T, arg int) {
	c, in := l.c, r.in
	label := fnLabel(r.fn)
	if logger == nil {
		logger = r.param(0)
	}
	st0 := newState()
	own := in.loadField(st0, logger, l.ctx)
	for _, o := range r.outs {
		hs := handled(events(o.st))
		if len(hs) == 0 {
			continue
		}
		st := stAt(hs[0])
		c.ok("isolated", label+" arguments", untouched(in, st, st0, r.param(arg)), hs[0].pos, "a log call writes into the slice of arguments it was given")
		c.ok("isolated", label+" context", untouched(in, st, st0, own), hs[0].pos, "a log call writes into the logger's own context")
		rec := hs[0].args[1]
		if rec.op == "alloc" {
			sh, q := in.sliceParts(st, in.loadField(st, rec, l.rCtx))
			c.ok("isolated", label+" record", sh != nil && (ownList(sh) || seqLen(q) == tZero && sh.a[3] == tZero), hs[0].pos, "the record's context shares memory with the logger's context or the arguments, where handlers change it: %v", sh)
		}
	}
}

// ownList: the slice is all of an array made on this path.
func ownList(sh *T) bool { return sh.a[0].op == "alloc" }

func (l *logRule) child(r *Run, parent, args *T) {
	c, in := l.c, r.in
	label := fnLabel(r.fn)
	st0 := newState()
	own := in.loadField(st0, parent, l.ctx)
	ph := in.loadField(st0, parent, l.h)
	n := 0
	for _, o := range r.outs {
		ok := o.kind == outReturn && o.val.op == "iface" && o.val.a[0].op == "alloc" && deref(o.val.typ) != nil
		if !c.ok("child", label, ok, o.pos, "New does not return a logger of its own (%s)", o.kind) {
			continue
		}
		n++
		kid := o.val.a[0]
		sh, seq := in.sliceParts(o.st, in.loadField(o.st, kid, l.ctx))
		if !c.ok("child", label+" context", sh != nil, o.pos, "the child's context is not known") {
			continue
		}
		c.ok("isolated", label+" own list", sh.a[0].op == "alloc" || seqLen(seq) == tZero, o.pos, "the child's context shares memory with its parent's or with the arguments: %v", sh)
		c.ok("isolated", label+" arguments", untouched(in, o.st, st0, args), o.pos, "New writes into the slice of arguments it was given")
		c.ok("isolated", label+" parent", untouched(in, o.st, st0, own), o.pos, "New writes into the parent's context")
		l.context(in, o.st, st0, label, seq, own, args, o.pos)
		hp := in.loadField(o.st, kid, l.h)
		c.ok("child", label+" handler cell", hp.op == "alloc" && hp != ph, o.pos, "the child does not have a handler cell of its own: setting its handler changes others")
		l.stores(in, o, label, hp, func(v *T) bool {
			return v.op == "iface" && v.a[0] == ph
		}, "the child does not start out following its parent's handler")
	}
	c.floor("child", label+" results", n, 1)
}

// stores: exactly one handler is stored on the path, in the cell of hp, and good
// says it is the right one.
func (l *logRule) stores(in *Interp, o Outcome, label string, hp *T, good func(v *T) bool, msg string) {
	c := l.c
	n := 0
	for _, e := range events(o.st) {
		if e.kind != "astore" {
			continue
		}
		n++
		a := e.args[0]
		c.ok("handler", label+" cell", a.op == "field" && a.v == any(l.swap) && a.a[0] == hp, e.pos, "another logger's handler is changed: %v", a)
		c.ok("handler", label+" type", e.args[1].op == "iface" && types.Identical(e.args[1].typ, l.handlerPtr()), e.pos, "a handler cell is given something other than a pointer to a handler; loading it panics")
		if e.args[1].op == "iface" {
			p := e.args[1].a[0]
			v := in.load(o.st, p, deref(l.handlerPtr()))
			c.ok("handler", label, p.op == "alloc" && good(o.st.facts.rep(v)), e.pos, "%s: %v", msg, v)
		}
	}
	c.ok("handler", label+" stores", n == 1, o.pos, "%d handlers are stored", n)
}

func (l *logRule) handlers() {
	c := l.c
	if m := c.fn(logPkg, "logger.SetHandler"); m != nil {
		r := c.analyse(m, nil, withHook(l.swapHook))
		for _, o := range r.outs {
			c.ok("handler", fnLabel(m), o.kind == outReturn, o.pos, "SetHandler can end in a %s", o.kind)
			l.stores(r.in, o, fnLabel(m), r.in.loadField(newState(), r.param(0), l.h), func(v *T) bool { return v == r.param(1) }, "SetHandler does not set the handler given")
		}
	}
	if m := c.fn(logPkg, "logger.GetHandler"); m != nil {
		r := c.analyse(m, nil, withHook(l.swapHook))
		for _, o := range r.outs {
			cell := l.currentOf(o.st, o.val)
			c.ok("handler", fnLabel(m), o.kind == outReturn && cell != nil && cell.a[0] == r.in.loadField(newState(), r.param(0), l.h), o.pos, "GetHandler does not return the logger's current handler")
		}
	}
	if t := c.p.TypeOf(logPkg, "swapHandler"); t != nil {
		if m := c.p.methodNamed(types.NewPointer(t), "Log"); m != nil {
			r := c.analyse(m, nil, withHook(l.swapHook))
			for _, o := range r.outs {
				hs := handled(events(o.st))
				ok := o.kind == outReturn && len(hs) == 1 && hs[0].args[1] == r.param(1)
				if ok {
					cell := l.currentOf(o.st, hs[0].args[0])
					ok = cell != nil && cell.a[0] == r.param(0) && o.val == hs[0].res
				}
				c.ok("handler", fnLabel(m), ok, o.pos, "a record reaching a handler cell is not passed on to the current handler, once, with its answer")
			}
		} else {
			c.fail("anchor", "swapHandler.Log", t.Obj().Pos(), "the handler cell cannot be used as a handler any more")
		}
	}
	// the root logger has a handler before anybody sets one
	sp := c.p.SPkgs[modPath+"/"+logPkg]
	root := l.root()
	st := c.p.initEv[sp]
	if !c.ok("usable", "log.root", root != nil && root.op == "alloc" && st != nil, 0, "the root logger is not made at initialisation") {
		return
	}
	in := newInterp(c.p)
	hp := c.p.initHeap[mkField(root, l.h, l.h.Type())]
	n := 0
	for _, e := range events(st) {
		if e.kind != "astore" || hp == nil || e.args[0] != mkField(hp, l.swap, l.swap.Type()) {
			continue
		}
		n++
		ok := e.args[1].op == "iface" && types.Identical(e.args[1].typ, l.handlerPtr())
		if ok {
			v := c.p.initHeap[e.args[1].a[0]]
			ok = v != nil && v.op == "iface"
			if ok { // it accepts records without panicking
				r := c.analyse(c.fn(logPkg, "logger.GetHandler"), nil, withHook(l.swapHook))
				for _, o := range r.outs {
					for _, ho := range r.method(r.after(o), v, "Log", mkSym("rec", types.NewPointer(c.p.TypeOf(logPkg, "Record")))) {
						c.ok("usable", "log.root handler", ho.kind == outReturn, ho.pos, "the handler the root logger starts with can end in a %s", ho.kind)
					}
				}
			}
		}
		c.ok("usable", "log.root handler", ok, e.pos, "the root logger starts with something that is not a handler")
	}
	c.ok("usable", "log.root", n > 0, sp.Func("init").Pos(), "the root logger has no handler until somebody sets one: logging before that panics")
	_ = in
}
