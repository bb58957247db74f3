package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	properties["L06"] = ruleGlog
}

type glogRule struct {
	*logRule
	origin, level, override, backtrace, patterns, cache, location, pRe, pLevel *types.Var
}

func ruleGlog(c *Check) {
	l := c.logRule()
	f := c.fields(logPkg, "GlogHandler.origin", "GlogHandler.level", "GlogHandler.override", "GlogHandler.backtrace", "GlogHandler.patterns", "GlogHandler.siteCache", "GlogHandler.location", "pattern.pattern", "pattern.level")
	if l == nil || f == nil {
		return
	}
	g := &glogRule{l, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]}
	g.filter()
	g.setup()
	g.vmodule()
	g.backtraceAt()
}

// ownRecord is a record nobody else knows, with symbolic fields.
func (l *logRule) ownRecord(st *State) *T {
	rt := l.c.p.TypeOf(logPkg, "Record")
	rec := intern(&T{op: "alloc", s: "record#1", typ: rt})
	in := newInterp(l.c.p)
	for _, v := range []*types.Var{l.rTime, l.rLvl, l.rMsg, l.rCtx, l.rCall} {
		in.storeField(st, rec, v, in.expand(mkSym("record."+v.Name(), v.Type()), v.Type()))
	}
	kn := mkField(rec, l.rKN, l.rKN.Type())
	for _, v := range []*types.Var{l.knTime, l.knMsg, l.knLvl, l.knCtx} {
		in.storeField(st, kn, v, mkSym("record.KeyNames."+v.Name(), v.Type()))
	}
	lvl := in.loadField(st, rec, l.rLvl)
	st.assume(mkLe(tZero, lvl), true)
	st.assume(mkLe(lvl, mkInt(5)), true)
	return rec
}

func loadOf(evs []*Event, base *T, v *types.Var) *T {
	for _, e := range evs {
		if e.kind == "aload" && e.args[0].op == "field" && e.args[0].a[0] == base && e.args[0].v == any(v) {
			return e.res
		}
	}
	return nil
}

func (g *glogRule) filter() {
	c := g.c
	fn := c.fn(logPkg, "GlogHandler.Log")
	if fn == nil {
		return
	}
	st := newState()
	rec := g.ownRecord(st)
	h := mkSym("glog", types.NewPointer(c.p.TypeOf(logPkg, "GlogHandler")))
	st0 := st.clone()
	r := c.analyseFrom(st, fn, []*T{h, rec}, nil)
	in := r.in
	call := in.loadField(st0, rec, g.rCall)
	label := fnLabel(fn)
	pass, drop, raised := 0, 0, 0
	for _, o := range r.outs {
		if !c.ok("filter", label, o.kind == outReturn, o.pos, "filtering a record can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		fw := served(evs)
		end := o.st
		if len(fw) > 0 {
			end = stAt(fw[0])
		}
		cur := in.loadField(end, rec, g.rLvl)
		if g.raise(r, o, evs, end, st0, h, rec, call, label) {
			raised++
		}
		want, why := g.verdict(r, o, evs, h, call, cur)
		if !c.ok("filter", label+" decided", want != unknown, o.pos, "a record is %s although that is not what its levels decide: %s", map[bool]string{true: "passed on", false: "dropped"}[len(fw) > 0], why) {
			continue
		}
		if want == yes {
			pass++
			if c.ok("filter", label+" passes", len(fw) == 1, o.pos, "a record the levels admit is passed on %d times", len(fw)) {
				e := fw[0]
				c.ok("filter", label+" target", fieldBase(e.args[0], g.origin) == h && e.args[1] == rec, e.pos, "the record does not go to the wrapped handler: %v", e.args[0])
				c.ok("filter", label+" answer", o.val == e.res, e.pos, "the wrapped handler's answer is not returned")
			}
		} else {
			drop++
			c.ok("filter", label+" drops", len(fw) == 0 && o.val == tNil, o.pos, "a record neither level admits is passed on or reported as a failure")
		}
	}
	c.count("filter paths", pass+drop)
	c.floor("filter", "paths that pass a record on", pass, 6)
	c.floor("filter", "paths that drop a record", drop, 4)
	c.floor("backtrace", "paths that raise a record", raised, 1)
}

// raise: the record is changed exactly when it was logged at the location.
func (g *glogRule) raise(r *Run, o Outcome, evs []*Event, end, st0 *State, h, rec, call *T, label string) bool {
	c, in := g.c, r.in
	get := func(st *State, v *types.Var) *T { return in.loadField(st, rec, v) }
	changed := false
	for _, v := range []*types.Var{g.rLvl, g.rMsg, g.rCall, g.rTime} {
		changed = changed || get(end, v) != get(st0, v)
	}
	c.ok("backtrace", label+" keeps", get(end, g.rCall) == call && get(end, g.rTime) == get(st0, g.rTime) && get(end, g.rCtx) == get(st0, g.rCtx), o.pos, "the filter changes a record's call site, time or context")
	at := unknown
	for _, e := range evs {
		if e.kind != "unlock" {
			continue
		}
		loc := in.loadField(stAt(e), h, g.location)
		for t, v := range o.st.facts.atoms {
			if t.op == "eq" && (t.a[0] == loc || t.a[1] == loc) && anyTerm(t, func(x *T) bool { return x == call }) {
				at = no
				if v {
					at = yes
				}
			}
		}
	}
	if bt := loadOf(evs, h, g.backtrace); bt != nil && at == unknown && o.st.proves(mkIntEq(bt, tZero)) {
		at = no // no location is set
	}
	if !changed {
		c.ok("backtrace", label+" location", at == no, o.pos, "a record is left alone although its call site was not found to differ from the location")
		return false
	}
	c.ok("backtrace", label+" location", at == yes, o.pos, "a record is changed although it was not logged at the location")
	c.ok("backtrace", label+" level", get(end, g.rLvl) == g.levels["Info"], o.pos, "a record logged at the location is not raised to info")
	var stack *Event
	for _, e := range evs {
		if e.kind == "call" && (e.name == "runtime.Stack" || e.name == "runtime/debug.Stack") {
			stack = e
		}
	}
	msg := get(end, g.rMsg)
	ps := catParts(msg)
	c.ok("backtrace", label+" stacks", stack != nil && len(ps) >= 2 && ps[0] == get(st0, g.rMsg), o.pos, "a record logged at the location does not carry the stacks after its message: %v", msg)
	return true
}

// verdict: should this path pass the record on?
func (g *glogRule) verdict(r *Run, o Outcome, evs []*Event, h, call, cur *T) (truth, string) {
	c, in, st := g.c, r.in, o.st
	label := fnLabel(r.fn)
	admits := func(lvl *T) truth { return st.facts.decide(mkLe(cur, lvl)) }
	gl := loadOf(evs, h, g.level)
	if gl == nil {
		return unknown, "the global level is not looked at"
	}
	switch admits(stripConv(gl)) {
	case yes:
		return yes, ""
	case unknown:
		return unknown, "the global level does not decide"
	}
	if ov := loadOf(evs, h, g.override); ov != nil && st.proves(mkIntEq(ov, tZero)) {
		return no, ""
	}
	var get, set *Event
	for _, e := range evs {
		if e.kind == "mapget" && isMapOf(e.args[0], h, g.cache) {
			get = e
		}
		if e.kind == "mapset" && isMapOf(e.args[0], h, g.cache) {
			c.ok("cache", label+" once", set == nil, e.pos, "a verdict is remembered twice")
			set = e
		}
	}
	if get != nil && get.args[2] == tTrue {
		c.ok("cache", label+" read only", set == nil, o.pos, "a remembered verdict is replaced")
		c.ok("cache", label+" key", siteKey(get.args[1], call), get.pos, "verdicts are looked up by something that does not tell the files of call sites apart: %v", get.args[1])
		return admits(get.res), "the remembered verdict does not decide"
	}
	// the first matching rule, looked up
	verdict := unknown
	var lvl, seq *T
	for _, rec := range loopsOf(st) {
		if lvl = g.firstMatch(r, rec, st, h, call); lvl != nil {
			verdict = admits(lvl)
			if set != nil {
				_, seq = in.sliceParts(stAt(set), in.loadField(stAt(set), h, g.patterns))
				ok := false
				for _, b := range rec.backs {
					for t := range b.st.facts.atoms {
						ok = ok || anyTerm(t, func(x *T) bool { return x.isApp("at") && (x.a[0] == seq || x.a[0] == baseSeq(seq)) })
					}
				}
				c.ok("cache", label+" in force", ok && wHeld(set), set.pos, "a verdict is remembered in another critical section than the one its rules were read in: it may be stale")
			}
		}
	}
	if lvl == nil { // no rules at all
		for _, e := range evs {
			_, q := in.sliceParts(stAt(e), in.loadField(stAt(e), h, g.patterns))
			if q != nil && st.proves(mkIntEq(seqLen(q), tZero)) {
				lvl = tZero
				verdict = admits(lvl)
			}
		}
	}
	if lvl == nil {
		return unknown, "the rules are not tried in order"
	}
	if set != nil {
		c.ok("cache", label+" value", st.proves(mkIntEq(set.args[2], lvl)), set.pos, "what is remembered is not the level of the first matching rule: %v instead of %v", set.args[2], lvl)
		c.ok("cache", label+" key", siteKey(set.args[1], call) && (get == nil || get.args[1] == set.args[1]), set.pos, "the verdict is remembered under another key than it is looked up: %v", set.args[1])
	}
	return verdict, "the matching rule's level does not decide"
}

func baseSeq(q *T) *T {
	if q != nil && q.op == "sub" {
		return q.a[0]
	}
	return q
}

func stripConv(t *T) *T {
	for t.op == "app" && strings.HasPrefix(t.s, "conv:") && len(t.a) == 1 {
		t = t.a[0]
	}
	return t
}

// siteKey: the key determines the file the rules are matched against.
func siteKey(k, call *T) bool {
	if k == call {
		return true
	}
	if !anyTerm(k, func(x *T) bool { return x == call }) {
		return false
	}
	return !anyTerm(k, func(x *T) bool {
		return x.op == "app" && (x.s == "fld:Line" || strings.HasPrefix(x.s, "len"))
	})
}

// firstMatch: the loop tries the rules in order and goes on only when one does
// not match; the level that results on the path st: the hit's, or 0 for none.
func (g *glogRule) firstMatch(r *Run, rec *LoopRec, st *State, h, call *T) *T {
	if len(rec.backs) == 0 {
		return nil
	}
	var re, seq, idx *T
	match := func(f *Facts, want bool) *T {
		for t, v := range f.atoms {
			if t.isApp("call:(*regexp.Regexp).MatchString") && v == want && anyTerm(t.a[1], func(x *T) bool { return x == call }) && strings.Contains(t.a[1].String(), "%+s") {
				p := t.a[0]
				var at *T
				anyTerm(p, func(x *T) bool {
					if x.isApp("at") {
						at = x
					}
					return false
				})
				if at == nil || re != nil && p != re {
					continue
				}
				re, seq, idx = p, at.a[0], at.a[1]
				return at
			}
		}
		return nil
	}
	for _, b := range rec.backs {
		if match(b.st.facts, false) == nil {
			return nil
		}
	}
	if seq == nil || fieldRgn(seq, g.patterns) != h {
		return nil
	}
	if at := match(st.facts, true); at != nil {
		if !firstHit(r.in, rec, idx) {
			return nil
		}
		return mkFldOf(r.in, st, at, g.pLevel)
	}
	n := lenOfRgn(seq)
	if n != nil && r.in.covers(rec, st, idx, n) {
		return tZero
	}
	return nil
}

// firstHit: the loop reached index idx counting up from 0.
func firstHit(in *Interp, rec *LoopRec, idx *T) bool {
	for _, lv := range in.loopVars(rec) {
		off := tSub(idx, lv.head)
		if !off.isInt() || lv.entry == nil {
			continue
		}
		up := true
		for _, b := range lv.backs {
			up = up && b == tAddI(lv.head, 1)
		}
		if up && rec.entry.proves(mkIntEq(tAdd(lv.entry, off), tZero)) {
			return true
		}
	}
	return false
}

// fieldRgn: the sequence is the content of the slice in field v of which object.
func fieldRgn(q *T, v *types.Var) *T {
	q = baseSeq(q)
	for q.isApp("init") && q.a[0].isApp("rgn") {
		if b := fieldBase(q.a[0].a[0], v); b != nil {
			return b
		}
		q = q.a[0].a[0]
	}
	return nil
}

// lenOfRgn: the length of the slice value a content sequence belongs to.
func lenOfRgn(q *T) *T {
	if q.isApp("init") && q.a[0].isApp("rgn") {
		return mkApp("len", types.Typ[types.Int], q.a[0].a[0])
	}
	return seqLen(q)
}

// mkFldOf reads a field of a struct value.
func mkFldOf(in *Interp, st *State, v *T, f *types.Var) *T {
	if v.op == "struct" {
		if s, ok := v.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i) == f {
					return v.a[i]
				}
			}
		}
	}
	return mkApp("fld:"+f.Name(), f.Type(), v)
}

func (g *glogRule) setup() {
	c := g.c
	if fn := c.fn(logPkg, "NewGlogHandler"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			ok := o.kind == outReturn && o.val.op == "alloc" && r.in.loadField(o.st, o.val, g.origin) == r.param(0)
			for _, v := range []*types.Var{g.level, g.override, g.backtrace} {
				z := r.in.loadField(o.st, o.val, v)
				ok = ok && (z == tZero || z == tFalse || isZeroTerm(z))
			}
			c.ok("setup", fnLabel(fn), ok, o.pos, "a new glog handler does not wrap the given handler with nothing set")
		}
	}
	if fn := c.fn(logPkg, "GlogHandler.Verbosity"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			n := 0
			for _, e := range events(o.st) {
				if e.kind == "astore" && e.args[0].op == "field" && e.args[0].v == any(g.level) && e.args[0].a[0] == r.param(0) && stripConv(e.args[1]) == r.param(1) {
					n++
				}
			}
			c.ok("setup", fnLabel(fn), o.kind == outReturn && n == 1, o.pos, "setting the verbosity does not set the global level to it")
		}
	}
	if fn := c.fn(logPkg, "GlogHandler.SetHandler"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("setup", fnLabel(fn), o.kind == outReturn && r.in.loadField(o.st, r.param(0), g.origin) == r.param(1), o.pos, "replacing the wrapped handler does not take the new one")
		}
	}
}

// writes: the handler state a path changes.
func (g *glogRule) writes(r *Run, st *State, h *T) []*types.Var {
	var out []*types.Var
	for _, v := range []*types.Var{g.origin, g.patterns, g.cache, g.location} {
		if x, ok := st.heap[mkField(h, v, v.Type())]; ok && !isFieldInit(x, h, v) && !isOldSlice(x, h, v) {
			out = append(out, v)
		}
	}
	for _, e := range events(st) {
		if e.kind == "astore" && e.args[0].op == "field" && e.args[0].a[0] == h {
			out = append(out, e.args[0].v.(*types.Var))
		}
		if (e.kind == "mapset" || e.kind == "mapdelete") && isMapOf(e.args[0], h, g.cache) {
			out = append(out, g.cache)
		}
	}
	return out
}

func isOldSlice(x, h *T, v *types.Var) bool {
	return x.op == "slice" && x.a[0].isApp("rgn") && isFieldInit(x.a[0].a[0], h, v)
}

// parseFailed / parsed: what the path knows about a number in text.
func parseFailed(st *State, s *T) bool {
	for a, v := range st.heap {
		if a.op == "field" && v == s && a.v.(*types.Var).Name() == "Num" && a.v.(*types.Var).Pkg().Path() == "strconv" {
			return true
		}
	}
	return st.facts.decide(mkApp("isnum", types.Typ[types.Bool], s)) == no
}

func parsed(st *State, s *T) bool {
	return st.facts.decide(mkApp("isnum", types.Typ[types.Bool], s)) == yes && !parseFailed(st, s)
}

// suffix: does the path know that s ends in suf?
func suffix(st *State, s *T, suf string) truth {
	n := seqLen(s)
	if st.proves(mkLt(n, mkInt(int64(len(suf))))) {
		return no
	}
	all := st.proves(mkLe(mkInt(int64(len(suf))), n))
	for i := range suf {
		x := atTerm(st.facts, s, tAddI(n, int64(i-len(suf))))
		switch st.facts.decide(mkIntEq(x, mkInt(int64(suf[i])))) {
		case no:
			return no
		case unknown:
			all = false
		}
	}
	if all {
		return yes
	}
	return unknown
}

func empty(st *State, s *T) truth {
	if d := st.facts.decide(mkIntEq(seqLen(s), tZero)); d != unknown {
		return d
	}
	return st.facts.decideEq(s, tEmpty)
}

func mkSplit(s *T, sep string) *T {
	return mkApp("split", types.NewSlice(types.Typ[types.String]), s, mkLit(sep))
}

func trimmed(st *State, parts *T, i int64) *T {
	return mkApp("trimspace", types.Typ[types.String], atTerm(st.facts, parts, mkInt(i)))
}

// wellFormed: two non-empty parts, the second a number.
func wellFormed(st *State, parts *T) (good, bad bool) {
	two := st.facts.decide(mkIntEq(seqLen(parts), mkInt(2)))
	if two != yes {
		return false, two == no
	}
	a, b := trimmed(st, parts, 0), trimmed(st, parts, 1)
	ea, eb := empty(st, a), empty(st, b)
	return ea == no && eb == no && parsed(st, b), ea == yes || eb == yes || parseFailed(st, b)
}

func (g *glogRule) vmodule() {
	c := g.c
	fn := c.fn(logPkg, "GlogHandler.Vmodule")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in := r.in
	h, rules := r.param(0), r.param(1)
	label := fnLabel(fn)
	list := mkSplit(rules, ",")
	good, bad := 0, 0
	for _, o := range r.outs {
		if !c.ok("rules", label, o.kind == outReturn, o.pos, "setting module rules can end in a %s", o.kind) {
			continue
		}
		w := g.writes(r, o.st, h)
		loop, idx := g.ruleLoop(in, o.st, list)
		if o.val != tNil {
			bad++
			c.ok("rules", label+" refusal", len(w) == 0, o.pos, "a refused rule set changes the handler: %v", w)
			ok := false
			if loop != nil {
				_, ok = wellFormed(o.st, mkSplit(atTerm(o.st.facts, list, idx), "="))
			}
			c.ok("rules", label+" refused", ok, o.pos, "a rule set is refused although no rule of it is known to be malformed")
			continue
		}
		good++
		if !c.ok("rules", label+" all rules", loop != nil && in.covers(loop, o.st, idx, seqLen(list)), o.pos, "a rule set is accepted without looking at every rule") {
			continue
		}
		filter := in.loadField(o.st, h, g.patterns)
		m := in.loadField(o.st, h, g.cache)
		c.ok("rules", label+" forgets", m.op == "app" && m.s == "mkmap" || m.op == "alloc" || strings.HasPrefix(m.String(), "mkmap:"), o.pos, "the verdicts remembered from the old rules are kept: %v", m)
		if m.op != "" && len(w) > 0 {
			mc := in.mapContent(o.st, m)
			c.ok("rules", label+" forgets", mc.op == "sym" && mc.s == "mapempty", o.pos, "the verdicts remembered from the old rules are kept: %v", mc)
		}
		var ov *Event
		nl := 0
		for _, e := range events(o.st) {
			if e.kind == "astore" && e.args[0].op == "field" && e.args[0].v == any(g.override) && e.args[0].a[0] == h {
				ov = e
			}
			if e.kind == "lock" && e.name == "w" {
				nl++
			}
		}
		c.ok("rules", label+" at once", nl == 1, o.pos, "the new rules are not put in force in one critical section")
		n := filter
		if filter.op == "slice" {
			n = filter.a[2]
		}
		if filter == tNil {
			n = tZero
		}
		ok := ov != nil && (stripConv(ov.args[1]) == n ||
			o.st.proves(mkIntEq(n, tZero)) && o.st.proves(mkIntEq(ov.args[1], tZero)) || o.st.proves(mkLt(tZero, n)) && o.st.proves(mkLt(tZero, ov.args[1])))
		c.ok("rules", label+" switched on", ok, o.pos, "whether rules are looked at does not follow from whether there are any")
		g.rounds(r, loop, o, list, idx, filter, label)
	}
	c.floor("rules", "accepting paths of Vmodule", good, 1)
	c.floor("rules", "refusing paths of Vmodule", bad, 3)
}

// ruleLoop is the loop that goes over the parts of list.
func (g *glogRule) ruleLoop(in *Interp, st *State, list *T) (*LoopRec, *T) {
	for _, rec := range loopsOf(st) {
		for _, lv := range in.loopVars(rec) {
			for _, off := range []int64{0, 1} {
				idx := tAddI(lv.head, off)
				for _, b := range rec.backs {
					x := atTerm(b.st.facts, list, idx)
					for t := range b.st.facts.atoms {
						if anyTerm(t, func(y *T) bool { return y == x }) {
							return rec, idx
						}
					}
					for _, t := range b.st.facts.le {
						if anyTerm(t, func(y *T) bool { return y == x }) {
							return rec, idx
						}
					}
					for _, t := range b.st.facts.ne {
						if anyTerm(t, func(y *T) bool { return y == x }) {
							return rec, idx
						}
					}
				}
			}
		}
	}
	return nil, nil
}

// rounds: each rule adds its one filter, or none when it is empty or says 0.
func (g *glogRule) rounds(r *Run, loop *LoopRec, o Outcome, list, idx, filter *T, label string) {
	c, in := g.c, r.in
	added, skipped := 0, 0
	for _, b := range loop.backs {
		rule := atTerm(b.st.facts, list, idx)
		parts := mkSplit(rule, "=")
		pos := loopPos(loop)
		var grown *T
		same := false
		for p, hd := range loop.phis {
			if hd == filter || samePlace(hd, filter) {
				bk := b.phis[p]
				same = bk == hd
				if !same && bk != nil && bk.op == "slice" {
					q := normSeq(b.st.facts, in.sliceSeq(b.st, bk))
					n0 := tZero
					if hd.op == "slice" {
						n0 = hd.a[2]
					}
					if seqEq(b.st.facts, subSeq(b.st.facts, q, tZero, n0), in.sliceSeq(loop.assumed, hd)) {
						grown = normSeq(b.st.facts, subSeq(b.st.facts, q, n0, seqLen(q)))
					}
				}
			}
		}
		if same {
			skipped++
			lvl := mkApp("parseint", types.Typ[types.Int], mkInt(10), trimmed(b.st, parts, 1))
			ok, _ := wellFormed(b.st, parts)
			c.ok("rules", label+" skipped", empty(b.st, rule) == yes || ok && b.st.proves(mkLe(lvl, tZero)), pos, "a rule is left out although it is neither empty nor sets level 0")
			continue
		}
		added++
		ok, _ := wellFormed(b.st, parts)
		c.ok("rules", label+" checked", ok, pos, "a rule is put in force without having been found well-formed")
		es := seqElems(grown)
		if !c.ok("rules", label+" added", grown != nil && len(es) == 1, pos, "a rule does not add exactly one filter at the end: %v", grown) {
			continue
		}
		lvl := mkApp("parseint", types.Typ[types.Int], mkInt(10), trimmed(b.st, parts, 1))
		c.ok("rules", label+" level", b.st.proves(mkIntEq(mkFldOf(in, b.st, es[0], g.pLevel), lvl)), pos, "a filter's level is not its rule's: %v", mkFldOf(in, b.st, es[0], g.pLevel))
		g.matcher(r, loop, b, mkFldOf(in, b.st, es[0], g.pRe), trimmed(b.st, parts, 0), label, pos)
	}
	c.floor("rules", "rules added", added, 1)
	c.floor("rules", "rules skipped", skipped, 2)
}

func samePlace(a, b *T) bool {
	return a != nil && b != nil && a.op == "slice" && b.op == "slice" && a.a[0] == b.a[0]
}

func loopPos(l *LoopRec) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return 0
}

// matcher: the expression compiled is the one the glob pattern stands for.
func (g *glogRule) matcher(r *Run, outer *LoopRec, b *backEdge, re, pat *T, label string, pos token.Pos) {
	c, in, f := g.c, r.in, b.st.facts
	var comp *Event
	for _, e := range eventsSince(b.st, outer.assumed) {
		if e.kind == "call" && strings.HasPrefix(e.name, "regexp.") && strings.HasSuffix(e.name, "ompile") && (projOf(e.res, 0) == re || e.res == re) {
			comp = e
		}
	}
	var expr *T
	if comp != nil {
		expr = comp.args[0]
	} else if t := pureCompile(re); t != nil {
		expr = t
	}
	if !c.ok("rules", label+" pattern", expr != nil, pos, "a filter's expression is not compiled from its rule: %v", re) {
		return
	}
	comps := mkSplit(pat, "/")
	for _, l := range loopsOf(b.st) {
		if l == outer || len(l.backs) == 0 {
			continue
		}
		for p, hd := range l.phis {
			if hd == nil || hd.typ == nil || !isStringT(hd.typ) || !anyTerm(expr, func(x *T) bool { return x == hd }) {
				continue
			}
			ok := l.ePhis[p] == mkLit(".*")
			kinds := map[string]bool{}
			var idx *T
			for _, ib := range l.backs {
				k := ""
				for _, lv := range in.loopVars(l) {
					for _, off := range []int64{0, 1} {
						cm := atTerm(ib.st.facts, comps, tAddI(lv.head, off))
						bk := ib.phis[p]
						switch {
						case bk == hd && empty(ib.st, cm) == yes:
							k = "empty"
						case seqEq(ib.st.facts, bk, mkCat(hd, mkLit("(/.*)?"))) && isLitText(ib.st, cm, "*") == yes:
							k = "any"
						case isQuoted(bk, hd, cm) && isLitText(ib.st, cm, "*") == no && empty(ib.st, cm) == no:
							k = "name"
						default:
							continue
						}
						if idx == nil {
							idx = tAddI(lv.head, off)
						}
					}
				}
				kinds[k] = true
			}
			ok = ok && !kinds[""] && kinds["any"] && kinds["name"] && idx != nil && in.covers(l, b.st, idx, seqLen(comps))
			c.ok("rules", label+" pattern components", ok, pos, "a pattern's components do not become what they stand for: names themselves, quoted, * any directories")
			want := mkCat(hd, mkLit("/[^/]+\\.go$"))
			sfx := suffix(b.st, pat, ".go")
			if sfx == yes {
				want = mkCat(hd, mkLit("$"))
			}
			c.ok("rules", label+" pattern end", sfx != unknown && seqEq(f, expr, want), pos, "a pattern does not name one file, or all the files of its package when it does not end in .go: %v", expr)
			return
		}
	}
	c.fail("rules", label+" pattern components", pos, "the loop over a pattern's components is not found")
}

func pureCompile(re *T) *T {
	var out *T
	anyTerm(re, func(x *T) bool {
		if x.op == "app" && (strings.HasPrefix(x.s, "call:regexp.Compile") || strings.HasPrefix(x.s, "call:regexp.MustCompile")) && out == nil {
			out = x.a[0]
		}
		return false
	})
	return out
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isLitText: is the string this constant?
func isLitText(st *State, s *T, lit string) truth {
	if d := st.facts.decideEq(s, mkLit(lit)); d != unknown {
		return d
	}
	switch st.facts.decide(mkIntEq(seqLen(s), mkInt(int64(len(lit))))) {
	case no:
		return no
	case yes:
		all := true
		for i := range lit {
			switch st.facts.decide(mkIntEq(atTerm(st.facts, s, mkInt(int64(i))), mkInt(int64(lit[i])))) {
			case no:
				return no
			case unknown:
				all = false
			}
		}
		if all {
			return yes
		}
	}
	return unknown
}

func isQuoted(bk, hd, cm *T) bool {
	if bk == nil {
		return false
	}
	ps := catParts(bk)
	if len(ps) != 3 || ps[0] != hd || ps[1] != mkLit("/") {
		return false
	}
	q := ps[2]
	return q.op == "app" && strings.HasPrefix(q.s, "call:regexp.QuoteMeta") && q.a[0] == cm
}

func (g *glogRule) backtraceAt() {
	c := g.c
	fn := c.fn(logPkg, "GlogHandler.BacktraceAt")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	h, loc := r.param(0), r.param(1)
	label := fnLabel(fn)
	parts := mkSplit(loc, ":")
	good, bad := 0, 0
	for _, o := range r.outs {
		if !c.ok("location", label, o.kind == outReturn, o.pos, "setting the location can end in a %s", o.kind) {
			continue
		}
		w := g.writes(r, o.st, h)
		ok, wrong := wellFormed(o.st, parts)
		sfx := unknown
		if o.st.facts.decide(mkIntEq(seqLen(parts), mkInt(2))) == yes {
			sfx = suffix(o.st, trimmed(o.st, parts, 0), ".go")
		}
		if o.val != tNil {
			bad++
			c.ok("location", label+" refusal", len(w) == 0, o.pos, "a refused location changes the handler: %v", w)
			c.ok("location", label+" refused", wrong || sfx == no, o.pos, "a location is refused although it is not known to be malformed")
			continue
		}
		good++
		c.ok("location", label+" accepted", ok && sfx == yes, o.pos, "a location is accepted without having been found to be file.go:line")
		var bt *Event
		for _, e := range events(o.st) {
			if e.kind == "astore" && e.args[0].op == "field" && e.args[0].v == any(g.backtrace) && e.args[0].a[0] == h {
				bt = e
			}
		}
		set := r.in.loadField(o.st, h, g.location)
		c.ok("location", label+" set", set == loc || anyTerm(set, func(x *T) bool { return x == trimmed(o.st, parts, 0) }) && anyTerm(set, func(x *T) bool { return x == trimmed(o.st, parts, 1) }), o.pos, "the location set is not the one given: %v", set)
		c.ok("location", label+" switched on", bt != nil && (stripConv(bt.args[1]) == seqLen(loc) || stripConv(bt.args[1]) == seqLen(set) || o.st.proves(mkLt(tZero, bt.args[1]))), o.pos, "the location is set but not looked at")
	}
	c.floor("location", "accepting paths of BacktraceAt", good, 1)
	c.floor("location", "refusing paths of BacktraceAt", bad, 3)
}
