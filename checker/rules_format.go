package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["L07"] = ruleFormats
}

// Two alphabets: what keys and values may consist of unquoted, and what a
// message may.
const (
	safeWord = 2
	safeMsg  = 1
)

func safeRune(r rune, level int) bool {
	switch {
	case r > '~' || r == '=':
		return false
	case r > '"':
		return true
	}
	return level == safeMsg && (r >= ' ' || r == '\n' || r == '\r')
}

// runeSafe: the facts put the rune in the alphabet (yes), outside (no), or neither.
func runeSafe(f *Facts, r *T, level int) truth {
	if n, ok := r.int64(); ok {
		if safeRune(rune(n), level) {
			return yes
		}
		return no
	}
	le := func(lo, hi int64) truth {
		a, b := f.decide(mkLe(mkInt(lo), r)), f.decide(mkLe(r, mkInt(hi)))
		switch {
		case a == yes && b == yes:
			return yes
		case a == no || b == no:
			return no
		}
		return unknown
	}
	eq := f.decide(mkIntEq(r, mkInt('=')))
	low := int64('"' + 1)
	var extra = no
	if level == safeMsg {
		low = ' '
		for _, n := range []int64{'\n', '\r'} {
			switch f.decide(mkIntEq(r, mkInt(n))) {
			case yes:
				return yes
			case unknown:
				extra = unknown
			}
		}
	}
	in := le(low, '~')
	switch {
	case in == yes && eq == no:
		return yes
	case (in == no || eq == yes) && (extra == no || f.decide(mkLe(mkInt(low), r)) == yes || f.decide(mkLt(r, mkInt('\n'))) == yes || eq == yes):
		return no
	}
	return unknown
}

type textRule struct {
	*logRule
	safe map[*ssa.Function]int // functions whose result is safe text whatever they are given
}

// hook replaces calls of functions already shown to return safe text.
func (l *textRule) hook(c *callCtx) []Outcome {
	fn := c.common.StaticCallee()
	if fn == nil || l.safe[fn] == 0 || c.common.IsInvoke() {
		return nil
	}
	args := make([]*T, len(c.args))
	copy(args, c.args)
	return c.ret(mkApp("safe:"+itoa(int64(l.safe[fn]))+":"+fn.Name(), types.Typ[types.String], args...))
}

// isSafe: the text can only consist of runes of the alphabet, or is quoted.
func (l *textRule) isSafe(in *Interp, st *State, t *T, level int) bool {
	switch {
	case t == nil:
		return false
	case t.op == "lit":
		for _, r := range t.s {
			if !safeRune(r, level) {
				return false
			}
		}
		return true
	case t.op == "cat":
		for _, p := range t.a {
			if !l.isSafe(in, st, p, level) {
				return false
			}
		}
		return true
	case t.isApp("quote"), t.isApp("itoa"), t.isApp("bigtext"):
		return true
	case t.op == "app" && strings.HasPrefix(t.s, "safe:"):
		return int(t.s[5]-'0') >= level
	case t.op == "app" && (strings.HasPrefix(t.s, "call:strconv.Format") || t.s == "call:(*math/big.Int).String"):
		return true
	case t.isApp("call:(time.Time).Format") && len(t.a) == 2:
		return l.isSafe(in, st, t.a[1], level)
	}
	return l.scanned(in, st, t, level)
}

// scanned: every rune of the text was looked at on this path and found safe.
func (l *textRule) scanned(in *Interp, st *State, s *T, level int) bool {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind != "iterdone" || len(e.args) < 2 || e.args[0] != s {
			continue
		}
		if e.name == "func" {
			if l.predicate(in, stAt(e), e.args[1], level, no) {
				return true
			}
			continue
		}
		if e.name != "string" {
			continue
		}
		cell := mkApp("cell", nil, e.args[1])
		for _, lp := range loopsOf(st) {
			head := lp.assumed.heap[cell]
			if head == nil || len(lp.backs) == 0 || lp.entry.heap[cell] != nil && lp.entry.heap[cell] != tZero {
				continue
			}
			r := mkApp("rune", types.Typ[types.Int32], s, head)
			ok := true
			for _, b := range lp.backs {
				ok = ok && runeSafe(b.st.facts, r, level) == yes
			}
			if ok {
				return true
			}
		}
	}
	for _, lp := range loopsOf(st) { // by bytes
		for _, v := range in.loopVars(lp) {
			if !in.covers(lp, st, v.head, seqLen(s)) {
				continue
			}
			ok := len(lp.backs) > 0
			for _, b := range lp.backs {
				ok = ok && runeSafe(b.st.facts, atTerm(b.st.facts, s, v.head), level) == yes
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// predicate: a function of a rune answers want exactly for the safe ones (so
// far as its answers are that).
func (l *textRule) predicate(in *Interp, st *State, f *T, level int, want truth) bool {
	ss := l.verdicts(st, f, level)
	if len(ss) == 0 {
		return false
	}
	for _, s := range ss {
		if s.answer == unknown || s.answer == want && s.safe != yes {
			return false
		}
	}
	return true
}

type verdict struct{ answer, safe truth }

func (l *textRule) verdicts(st *State, f *T, level int) []verdict {
	if f == nil || f.op != "fn" {
		return nil
	}
	fn, ok := f.v.(*ssa.Function)
	if !ok || len(fn.Blocks) == 0 {
		return nil
	}
	r := mkSym("anyrune", types.Typ[types.Int32])
	run := l.c.analyseFrom(st, fn, []*T{r}, f.a, withHook(l.hook))
	var out []verdict
	for _, o := range run.outs {
		v := verdict{unknown, unknown}
		if o.kind == outReturn {
			v.answer = o.st.facts.decide(o.val)
			v.safe = runeSafe(o.st.facts, r, level)
			if v.answer == unknown { // the condition itself is returned
				for _, want := range []bool{true, false} {
					s2 := o.st.clone()
					if s2.assume(o.val, want) {
						out = append(out, verdict{map[bool]truth{true: yes, false: no}[want], runeSafe(s2.facts, r, level)})
					}
				}
				continue
			}
		}
		out = append(out, v)
	}
	return out
}

// numbersOnly: no text flows into the function.
func numbersOnly(fn *ssa.Function) bool {
	if len(fn.Params) == 0 {
		return false
	}
	for _, p := range fn.Params {
		t := p.Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
			continue
		}
		if pt, ok := t.(*types.Pointer); ok && isBigInt(pt.Elem()) {
			continue
		}
		return false
	}
	return true
}

// summaries finds the functions of the package that return safe text only.
func (l *textRule) summaries() {
	c := l.c
	var cands []*ssa.Function
	for _, fn := range c.p.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/"+logPkg {
			continue
		}
		res := fn.Signature.Results()
		if fn.Parent() == nil && len(fn.Blocks) > 0 && res.Len() == 1 && types.Identical(res.At(0).Type(), types.Typ[types.String]) && len(fn.Params) > 0 {
			cands = append(cands, fn)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return fnLabel(cands[i]) < fnLabel(cands[j]) })
	for _, fn := range cands {
		if numbersOnly(fn) && fn.Signature.Recv() == nil {
			l.safe[fn] = safeWord
		}
	}
	done := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if done[fn] || l.safe[fn] != 0 {
			return
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if k, ok := i.(ssa.CallInstruction); ok {
					if f := k.Common().StaticCallee(); f != nil && inCands(cands, f) {
						visit(f)
					}
				}
			}
		}
		run := c.analyse(fn, nil, withHook(l.hook))
		level := safeWord
		for _, o := range run.outs {
			if o.kind != outReturn {
				continue
			}
			for level > 0 && !l.isSafe(run.in, o.st, o.val, level) {
				level--
			}
			if level == 0 {
				dbg("not safe %s: %v", fnLabel(fn), o.val)
			}
		}
		if level == 0 {
			return
		}
		l.safe[fn] = level
		dbg("safe text: %s %d", fnLabel(fn), level)
		l.summarised(run, fn, level)
	}
	for _, fn := range cands {
		visit(fn)
	}
}

func inCands(xs []*ssa.Function, f *ssa.Function) bool {
	for _, x := range xs {
		if x == f {
			return true
		}
	}
	return false
}

// summarised: the safe text a function returns is that of what it was given.
func (l *textRule) summarised(run *Run, fn *ssa.Function, level int) {
	c, label := l.c, fnLabel(fn)
	c.count("text functions", 1)
	var text, value *T
	for i, p := range fn.Params {
		if isStringT(p.Type()) {
			text = run.param(i)
		} else if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			value = run.param(i)
		}
	}
	for _, o := range run.outs {
		if o.kind == outFault {
			c.fail("format", label, o.pos, "formatting can fail with a run-time error")
		}
		if o.kind != outReturn {
			continue
		}
		switch {
		case value != nil:
			l.rendersValue(run, o, label, value)
		case text != nil && fn.Signature.Recv() == nil:
			l.rendersText(run.in, o.st, o.val, label, text, level, o)
		}
	}
}

// rendersText: a text is returned as it is when safe, and quoted when not.
func (l *textRule) rendersText(in *Interp, st *State, v *T, label string, text *T, level int, o Outcome) {
	c := l.c
	switch {
	case v == text:
		c.ok("escape", label+" as is", l.scanned(in, st, text, level), o.pos, "text is printed as it is although not all of it was found harmless")
	case v.isApp("quote") && v.a[0] == text:
		c.ok("escape", label+" quoted", l.unsafeFound(in, st, text, level), o.pos, "text is quoted although nothing in it needs quoting")
	case v.op == "app" && strings.HasPrefix(v.s, "safe:") && len(v.a) == 1 && v.a[0] == text:
	default:
		c.fail("escape", label, o.pos, "the text is printed as something else: %v", v)
	}
}

func (l *textRule) unsafeFound(in *Interp, st *State, text *T, level int) bool {
	found := false
	anyAtom := func(t *T) {
		if (t.isApp("rune") || t.isApp("at")) && t.a[0] == text && runeSafe(st.facts, t, level) == no {
			found = true
		}
	}
	st.facts.eachTerm(anyAtom)
	for e := st.ev; e != nil && !found; e = e.prev {
		if e.kind == "iterfound" && e.args[0] == text {
			ok := true
			ss := l.verdicts(stAt(e), e.args[1], level)
			for _, s := range ss {
				if s.answer == unknown || s.answer == yes && s.safe != no {
					ok = false
				}
			}
			found = found || ok && len(ss) > 0
		}
	}
	return found
}

// rendersValue: what is printed for a value is made from that value.
func (l *textRule) rendersValue(run *Run, o Outcome, label string, value *T) {
	c, v, f := l.c, o.val, o.st.facts
	c.count("value renderings", 1)
	if f.decide(mkTypeIs(value, types.Typ[types.String])) == yes {
		want := mkApp("val:string", types.Typ[types.String], value)
		ok := v.op == "app" && strings.HasPrefix(v.s, "safe:") && v.a[0] == want || v.isApp("quote") && v.a[0] == want || v == want
		c.ok("value", label+" text", ok, o.pos, "a string value is printed as %v", v)
		return
	}
	if madeFrom(events(o.st), o.st, v, value) {
		c.ok("value", label, true, o.pos, "")
		return
	}
	isNil := knownNil(f, value)
	isBool := f.decide(mkTypeIs(value, types.Typ[types.Bool])) == yes
	switch {
	case isNil:
		c.ok("value", label+" nil", v.op == "lit" || v.op == "app" && len(v.a) == 1 && v.a[0].op == "lit", o.pos, "a nil value is printed as %v", v)
	case isBool:
		c.ok("value", label+" bool", f.decide(mkApp("val:bool", types.Typ[types.Bool], value)) == map[string]truth{"true": yes, "false": no}[litText(v)], o.pos, "a boolean is printed as %v", v)
	default:
		c.fail("value", label, o.pos, "a value is printed as %v, which is not made from it", v)
	}
}

func litText(t *T) string {
	if t.op == "lit" {
		return t.s
	}
	return ""
}

func ruleFormats(c *Check) {
	lr := c.logRule()
	if lr == nil {
		return
	}
	l := &textRule{lr, map[*ssa.Function]int{}}
	l.summaries()
	l.json()
	l.lines()
}

// pairVar counts pairs: its position is that of a pair's key.
type pairVar struct {
	v   *loopVar
	pos *T
}

// stepTwo is the variable with which a loop takes pairs one after the other:
// the key's index, the value's, or the number of the pair.
func stepTwo(in *Interp, loop *LoopRec) *pairVar {
	for _, v := range in.loopVars(loop) {
		step := int64(0)
		good := len(v.backs) > 0
		for _, b := range v.backs {
			d, ok := tSub(b, v.head).int64()
			good = good && ok && (step == 0 || d == step)
			step = d
		}
		switch {
		case !good:
		case step == 2 && v.entry == tZero:
			return &pairVar{v, v.head}
		case step == 2 && v.entry == tOne:
			return &pairVar{v, tAddI(v.head, -1)}
		case step == 1 && v.entry == tZero:
			return &pairVar{v, tMul(mkInt(2), v.head)}
		}
	}
	return nil
}

// done: no pair is left of n elements.
func (p *pairVar) done(st *State, n *T) bool {
	return st.proves(mkLe(n, p.pos)) || st.facts.decide(even(n)) == yes && st.proves(mkLe(n, tAddI(p.pos, 1)))
}

// noPairs: there are not even two elements.
func noPairs(st *State, n *T) bool {
	return st.proves(mkLe(n, tZero)) || st.facts.decide(even(n)) == yes && st.proves(mkLe(n, tOne))
}

// json: a JSON record is one object with the time, the level, the message and
// each pair under its own key, and its newline if one was asked for.
func (l *textRule) json() {
	c := l.c
	for _, name := range []string{"JSONFormatEx", "JSONFormatOrderedEx", "JSONFormat"} {
		ctor := c.fn(logPkg, name)
		if ctor == nil {
			continue
		}
		rec := l.ownRecord(newState())
		var sep *T
		n := 0
		if name != "JSONFormat" {
			sep = mkSym(ctor.Params[1].Name(), types.Typ[types.Bool])
		}
		for _, x := range l.format(ctor, nil, rec, l.privateRecord, withHook(l.hook)) {
			if x.seq == nil {
				continue // a value's own method panicked
			}
			n++
			l.jsonRecord(name, x, rec, sep)
		}
		c.floor("json", "JSON shapes of "+name, n, 2)
	}
}

func (l *textRule) jsonRecord(name string, x formatted, rec, sep *T) {
	c, st, in := l.c, x.st, x.in
	label := "log." + name
	c.count("JSON records", 1)
	c.ok("record", label, untouched(in, st, x.st0, in.loadField(x.st0, rec, l.rCtx)), x.pos, "formatting changes the record's context")
	var marsh, sets []*Event
	for _, e := range events(st) {
		if e.kind == "json.Marshal" {
			marsh = append(marsh, e)
		}
		if e.kind == "mapset" {
			sets = append(sets, e)
		}
	}
	if !c.ok("json", label, len(marsh) > 0, x.pos, "a record is formatted without being encoded") {
		return
	}
	// the text is the encoding, with a newline if asked for
	want := yes
	if sep != nil {
		want = st.facts.decide(sep)
	}
	parts := catParts(x.seq)
	nl := len(parts) > 0 && parts[len(parts)-1] == mkLit("\n")
	if nl {
		parts = parts[:len(parts)-1]
	}
	c.ok("json", label+" newline", want != unknown && nl == (want == yes), x.pos, "a record does not end with a newline exactly when records are to be separated: %v", x.seq)
	last := marsh[len(marsh)-1]
	body := mkCat(parts...)
	okBody := body.isApp("jsonenc") && len(body.a) == 1 && body.a[0] == last.args[0] || body == tEmpty && len(marsh) > 1
	c.ok("json", label+" body", okBody, x.pos, "what is written is not the encoding of the record: %v", x.seq)
	m := marsh[0].args[0]
	if !c.ok("json", label+" object", m.op == "iface" && m.a[0].op == "mkmap", x.pos, "a record is not encoded as an object: %v", m) {
		return
	}
	obj := m.a[0]
	if len(marsh) > 1 { // the record could not be encoded: the reason is, instead
		c.ok("json", label+" failure", len(marsh) == 2 && last.args[0].op == "iface" && last.args[0].a[0].op == "mkmap" && l.tellsWhy(sets, last.args[0].a[0], marsh[0].res), x.pos, "an encoding failure is not reported in the record's place")
	}
	kn := mkField(rec, l.rKN, l.rKN.Type())
	has := func(key *T, val func(*T) bool) bool {
		for _, e := range sets {
			if e.args[0] == obj && e.args[1] == key && val(e.args[2]) {
				return true
			}
		}
		return false
	}
	fld := func(v *types.Var) *T { return in.loadField(x.st0, rec, v) }
	c.ok("json", label+" time", has(in.loadField(x.st0, kn, l.knTime), func(v *T) bool { return v == mkIface(l.rTime.Type(), fld(l.rTime)) }), x.pos, "the object does not hold the record's time")
	c.ok("json", label+" level", has(in.loadField(x.st0, kn, l.knLvl), func(v *T) bool { return v.op == "iface" && isStringT(v.typ) && l.levelName(st, v.a[0], fld(l.rLvl)) }), x.pos, "the object does not hold the record's level")
	c.ok("json", label+" message", has(in.loadField(x.st0, kn, l.knMsg), func(v *T) bool { return v == mkIface(types.Typ[types.String], fld(l.rMsg)) }), x.pos, "the object does not hold the record's message")
	// the pairs
	n := seqLenOf(in, x.st0, rec, l.rCtx)
	var loop *LoopRec
	var idx *pairVar
	for _, lp := range loopsOf(st) {
		if v := stepTwo(in, lp); v != nil {
			loop, idx = lp, v
		}
	}
	if loop == nil {
		c.ok("json", label+" pairs", noPairs(st, n), x.pos, "the pairs of the context are not all taken")
		return
	}
	c.ok("json", label+" pairs", idx.done(st, n), x.pos, "taking the pairs can stop before the last")
	var list *T // a list of keys and values
	if name == "JSONFormatOrderedEx" {
		has(in.loadField(x.st0, kn, l.knCtx), func(v *T) bool {
			if v.op == "iface" && v.a[0].op == "slice" && v.a[0].a[1] == tZero && st.proves(mkIntEq(v.a[0].a[2], n)) {
				list = v.a[0].a[0]
			}
			return false
		})
		if !c.ok("json", label+" list", list != nil, x.pos, "the object does not hold the list of keys and values, as long as the context") {
			return
		}
	}
	for _, b := range loop.backs {
		c.count("JSON pairs", 1)
		key, val := l.ctxElem(b.st, idx.pos), l.ctxElem(b.st, tAddI(idx.pos, 1))
		if b.st.facts.decide(mkTypeIs(key, types.Typ[types.String])) != yes {
			continue // a key that is none
		}
		key = mkApp("val:string", types.Typ[types.String], key)
		if list != nil {
			q := b.st.heap[list]
			ok := q != nil && atTerm(b.st.facts, q, idx.pos) == key
			c.ok("json", label+" key", ok, x.pos, "a key is not put in its place in the list")
			v := tNil
			if q != nil {
				v = atTerm(b.st.facts, q, tAddI(idx.pos, 1))
			}
			c.ok("json", label+" value", madeFrom(own(loop, b), b.st, v, val), x.pos, "what is put after a key is not made from its value: %v", v)
			continue
		}
		var put []*Event
		for _, e := range own(loop, b) {
			if e.kind == "mapset" && e.args[0] == obj {
				put = append(put, e)
			}
		}
		ok := len(put) == 1 && put[0].args[1] == key
		if c.ok("json", label+" key", ok, x.pos, "a pair is not put into the object under its key") {
			c.ok("json", label+" value", madeFrom(own(loop, b), b.st, put[0].args[2], val), x.pos, "what is put under a key is not made from its value: %v", put[0].args[2])
		}
	}
}

func (l *textRule) ctxElem(st *State, i *T) *T {
	return atTerm(st.facts, mkSym("record.Ctx", l.rCtx.Type()), i)
}

// tellsWhy: the map is filled with the error's text, and nothing else.
func (l *textRule) tellsWhy(sets []*Event, m, err *T) bool {
	n := 0
	for _, e := range sets {
		if e.args[0] != m {
			continue
		}
		n++
		if !anyTerm(e.args[2], func(y *T) bool { return y == err }) {
			return false
		}
	}
	return n == 1
}

// levelName: the text is the level's name, however obtained.
func (l *textRule) levelName(st *State, t, lvl *T) bool {
	return t.op == "app" && strings.HasPrefix(t.s, "safe:") && strings.HasSuffix(t.s, ":String") && len(t.a) == 1 && t.a[0] == lvl
}

// madeFrom: a rendering of the value, or of what its methods return, or the
// text for nil if it is nil.
func madeFrom(evs []*Event, st *State, v, value *T) bool {
	derived := map[*T]bool{value: true}
	for _, e := range evs {
		if e.res == nil {
			continue
		}
		for _, a := range e.args {
			if anyTerm(a, func(x *T) bool { return derived[x] }) {
				derived[e.res] = true
			}
		}
	}
	if anyTerm(v, func(x *T) bool { return derived[x] }) {
		return true
	}
	return knownNil(st.facts, value) && !hasSym(v, func(string) bool { return true })
}

func knownNil(f *Facts, value *T) bool {
	isNil := f.decideEq(value, tNil) == yes
	f.eachTerm(func(t *T) {
		if anyTerm(t, func(x *T) bool { return x == value }) && (t.isApp("call:(reflect.Value).IsNil") && f.decide(t) == yes || t != value && f.decideEq(t, tNil) == yes) {
			isNil = true
		}
	})
	return isNil
}

// lines: what a logfmt or terminal line consists of.
func (l *textRule) lines() {
	c := l.c
	n := 0
	for _, k := range []struct {
		name string
		args []*T
	}{{"LogfmtFormat", nil}, {"TerminalFormat", []*T{tTrue}}, {"TerminalFormat", []*T{tFalse}}} {
		ctor := c.fn(logPkg, k.name)
		if ctor == nil {
			continue
		}
		rec := l.ownRecord(newState())
		for _, x := range l.format(ctor, k.args, rec, l.privateRecord, withHook(l.hook)) {
			if x.seq == nil {
				continue // a context that is not in pairs (L01 rules them out)
			}
			n++
			l.line(k.name, x, rec)
		}
	}
	c.floor("lines", "line shapes", n, 3)
}

// privateRecord gives a state the record to be formatted, which nobody else has.
func (l *logRule) privateRecord(st *State) {
	rec := l.ownRecord(st)
	r := intern(&T{op: "alloc", s: "ctx#2", typ: l.rCtx.Type()})
	q := mkSym("record.Ctx", l.rCtx.Type()) // with whatever lies in spare capacity
	n := mkSym("record.Ctx.len", types.Typ[types.Int])
	st.assume(mkLe(tZero, n), true)
	st.assume(mkLe(n, seqLen(q)), true)
	st.assume(even(n), true)
	st.set(r, q)
	st.set(mkField(rec, l.rCtx, l.rCtx.Type()), mkSlice(r, tZero, n, seqLen(q)))
}

func (l *textRule) line(name string, x formatted, rec *T) {
	c, st, in := l.c, x.st, x.in
	label := "log." + name
	c.count("lines", 1)
	for _, v := range []*types.Var{l.rTime, l.rLvl, l.rMsg, l.rCtx} {
		cell := mkField(rec, v, v.Type())
		c.ok("record", label, st.heap[cell] == nil || st.heap[cell] == in.loadField(x.st0, rec, v), x.pos, "formatting changes the record's %s", v.Name())
	}
	c.ok("record", label, untouched(in, st, x.st0, in.loadField(x.st0, rec, l.rCtx)), x.pos, "formatting changes the record's context")
	parts := catParts(x.seq)
	last := parts[len(parts)-1]
	if !c.ok("newline", label, last.op == "lit" && strings.HasSuffix(last.s, "\n"), x.pos, "a line does not end with a newline: %v", x.seq) {
		return
	}
	rest := append(append([]*T{}, parts[:len(parts)-1]...), mkLit(strings.TrimSuffix(last.s, "\n")))
	body := mkCat(rest...)
	// the pairs
	var loop *LoopRec
	var buf *T
	for _, lp := range loopsOf(st) {
		for _, b := range lp.backs {
			for a, v := range b.st.heap {
				if a.isApp("ghost") && a.a[1].s == "buf" && lp.assumed.heap[a] != nil && lp.assumed.heap[a] != v {
					if !c.ok("pairs", label+" loop", loop == nil || loop == lp && buf == a, x.pos, "a line is written by several loops") {
						return
					}
					loop, buf = lp, a
				}
			}
		}
	}
	ctxLen := seqLenOf(in, x.st0, rec, l.rCtx)
	if loop == nil {
		c.ok("pairs", label+" none", name == "TerminalFormat" && noPairs(st, ctxLen), x.pos, "a record's context is not printed")
		l.header(label, st, body, rec, x)
		return
	}
	if !c.ok("pairs", label+" end", body == loop.assumed.heap[buf], x.pos, "something is printed after the pairs: %v", body) {
		return
	}
	head := in.peek(loop.entry, buf, body)
	if name == "TerminalFormat" {
		l.header(label, st, head, rec, x)
	} else {
		c.ok("pairs", label+" start", head == tEmpty, x.pos, "something is printed before the pairs: %v", head)
	}
	// one round prints one pair
	idx := stepTwo(in, loop)
	if !c.ok("pairs", label+" step", idx != nil, x.pos, "the pairs are not taken one after the other, two by two") {
		return
	}
	n := ctxLen
	if name == "LogfmtFormat" {
		n = tAddI(n, 6)
	}
	c.ok("pairs", label+" all", idx.done(st, n), x.pos, "printing can stop before the last pair")
	for _, b := range loop.backs {
		l.pair(name, label, in, loop, b, idx.pos, buf, rec, x)
	}
}

func (l *textRule) pair(name, label string, in *Interp, loop *LoopRec, b *backEdge, i, buf, rec *T, x formatted) {
	c, f := l.c, b.st.facts
	c.count("pair shapes", 1)
	hs, bs := catParts(loop.assumed.heap[buf]), catParts(b.st.heap[buf])
	if !c.ok("pairs", label, len(bs) > len(hs) && mkCat(bs[:len(hs)]...) == loop.assumed.heap[buf], x.pos, "printing a pair changes what was printed before") {
		return
	}
	first := f.decide(mkIntEq(i, tZero))
	at := func(t *T, off int64) bool { // mentions element i+off of what is printed, and no other
		n, bad := 0, 0
		anyTerm(t, func(y *T) bool {
			if y.isApp("at") && len(y.a) == 2 && (hasSym(y.a[0], func(s string) bool { return s == "record.Ctx" || s == "record.Time" })) {
				if y.a[1] == tAddI(i, off) && l.printed(name, in, y.a[0], rec, x) {
					n++
				} else {
					bad++
				}
			}
			return false
		})
		if first == yes && name == "LogfmtFormat" { // the element is known
			v := in.loadField(x.st0, mkField(rec, l.rKN, l.rKN.Type()), l.knTime)
			if off == 1 {
				v = mkIface(l.rTime.Type(), in.loadField(x.st0, rec, l.rTime))
			}
			return bad == 0 && (n > 0 || anyTerm(t, func(y *T) bool { return y == v }))
		}
		return n > 0 && bad == 0
	}
	text := ""
	dbg("pair %v %v", first, mkCat(bs[len(hs):]...))
	for _, p := range bs[len(hs):] {
		switch {
		case p.op == "lit":
			text += p.s
		case isSpaces(p):
			text += "\x03"
		case at(p, 0) && l.isSafe(in, b.st, p, safeWord):
			text += "\x01"
		case at(p, 1) && l.isSafe(in, b.st, p, safeWord), !strings.Contains(text, "\x01") && l.isSafe(in, b.st, p, safeWord):
			text += "\x02"
		default:
			c.fail("pairs", label, x.pos, "a pair is printed with text that is neither its escaped key nor its escaped value: %v", p)
			return
		}
	}
	c.ok("pairs", label+" separator", first != unknown && strings.HasPrefix(text, " ") == (first == no), x.pos, "pairs are not separated by one space: %q", text)
	text = strings.TrimPrefix(text, " ")
	if j := strings.Index(text, "\x1b[0m="); j >= 0 && strings.HasPrefix(text, "\x1b[") {
		if k := strings.Index(text, "m"); k < j {
			text = text[k+1:j] + text[j+4:]
		}
	}
	text = strings.TrimSuffix(text, "\x03")
	text = strings.TrimRight(text, " ")
	key := text
	if j := strings.Index(text, "="); j >= 0 {
		key = text[:j]
	}
	c.ok("pairs", label+" shape", text == key+"=\x02" && (key == "\x01" || l.badKey(b.st, key, i)), x.pos, "a pair is not printed as key=value: %q %v", text, mkCat(bs[len(hs):]...))
}

// badKey: a fixed name stands in for a key that is not a string.
func (l *textRule) badKey(st *State, key string, i *T) bool {
	if key == "" || strings.ContainsAny(key, "\x01\x02\x03 =\"") {
		return false
	}
	found := false
	for t, v := range st.facts.atoms {
		found = found || !v && t.isApp("typeis:string") && t.a[0].isApp("at") && t.a[0].a[1] == i
	}
	return found
}

// printed: the sequence whose elements are printed is the one documented.
func (l *textRule) printed(name string, in *Interp, q, rec *T, x formatted) bool {
	_, ctx := in.sliceParts(x.st0, in.loadField(x.st0, rec, l.rCtx))
	ps := catParts(q)
	if name != "LogfmtFormat" {
		return (ps[0] == ctx || ps[0] == mkSym("record.Ctx", l.rCtx.Type())) && slackOnly(ps[1:])
	}
	kn := mkField(rec, l.rKN, l.rKN.Type())
	var want []*T
	for _, k := range []struct{ name, fld *types.Var }{{l.knTime, l.rTime}, {l.knLvl, l.rLvl}, {l.knMsg, l.rMsg}} {
		want = append(want, mkIface(types.Typ[types.String], in.loadField(x.st0, kn, k.name)), mkIface(k.fld.Type(), in.loadField(x.st0, rec, k.fld)))
	}
	if len(ps) == 1 {
		return ps[0] == mkSeq(want) // a context known to be empty
	}
	return ps[0] == mkSeq(want) && (ps[1] == ctx || x.st.proves(mkLe(seqLen(ctx), tZero))) && slackOnly(ps[2:])
}

func slackOnly(ps []*T) bool {
	for _, p := range ps {
		if !strings.HasPrefix(p.String(), "slack#") {
			return false
		}
	}
	return true
}

func isSpaces(t *T) bool {
	return t.op == "app" && strings.HasPrefix(t.s, "hav:repeat") && len(t.a) == 2 && t.a[1].op == "lit" && strings.Trim(t.a[1].s, " ") == ""
}

// header: the terminal format's text before the pairs holds the message once,
// escaped, and nothing else that a caller chose.
func (l *textRule) header(label string, st *State, q, rec *T, x formatted) {
	c, in := l.c, x.in
	msg := in.loadField(x.st0, rec, l.rMsg)
	_, ctx := in.sliceParts(x.st0, in.loadField(x.st0, rec, l.rCtx))
	nmsg, nlvl, ntime := 0, 0, 0
	for _, p := range catParts(q) {
		has := func(t *T) bool { return anyTerm(p, func(y *T) bool { return y == t }) }
		switch {
		case p.op == "lit":
			c.ok("header", label, !strings.Contains(p.s, "\n"), x.pos, "the header of a line holds a line break: %v", p)
		case has(msg) && !isSpaces(p):
			nmsg++
			c.ok("header", label+" message", l.isSafe(in, st, p, safeMsg), x.pos, "the message is printed without being escaped: %v", p)
		case isSpaces(p):
		case has(ctx):
			c.fail("header", label, x.pos, "the header holds part of the context: %v", p)
		case has(in.loadField(x.st0, rec, l.rLvl)):
			nlvl++
		case has(in.loadField(x.st0, rec, l.rTime)):
			ntime++
		}
	}
	lvlKnown := st.facts.decideEq(in.loadField(x.st0, rec, l.rLvl), in.loadField(x.st0, rec, l.rLvl)) == yes
	_ = lvlKnown
	c.ok("header", label+" parts", nmsg == 1 && ntime == 1, x.pos, "the header does not hold the message and the time once each: %v", q)
}
