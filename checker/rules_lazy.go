package main

import (
	"go/types"
)

func init() { properties["L05"] = ruleLazy }

// ruleLazy: L05. The lazy handler replaces every lazy value of a record's
// context by what its function returns, and then passes the record on.
func ruleLazy(c *Check) {
	l := c.logRule()
	if l == nil {
		return
	}
	l.own = true
	lazyT := c.p.TypeOf(logPkg, "Lazy")
	fs := c.fields(logPkg, "Lazy.Fn")
	if lazyT == nil || fs == nil {
		return
	}
	z := &lazyRule{logRule: l, lazyT: lazyT, fn: fs[0]}
	if call, ok := l.rCall.Type().(*types.Named); ok && call.Obj().Pkg() != nil {
		if o := call.Obj().Pkg().Scope().Lookup("CallStack"); o != nil {
			z.stack = o.Type()
		}
	}
	if z.stack == nil {
		c.fail("anchor", "CallStack", 0, "the record's call no longer comes from the stack library")
		return
	}
	n := 0
	for _, x := range l.handle("LazyHandler", func(r *Run, st *State, rec *T) { l.privateRecord(st) }) {
		n++
		z.path(x)
		if n > 40 {
			break
		}
	}
	c.floor("lazy", "paths of the lazy handler", n, 3)
	c.floor("lazy", "lazy values evaluated, refused and left alone", min(c.counts["lazy values evaluated"], c.counts["lazy values refused"], c.counts["other values"]), 1)
}

type lazyRule struct {
	*logRule
	lazyT types.Type
	fn    *types.Var
	stack types.Type
}

func isErrorValue(v *T) bool {
	e := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return v.typ != nil && (types.Implements(v.typ, e) || v.op == "iface" && typeKey(v.typ) == "*errors.errorString")
}

func (z *lazyRule) path(x handling) {
	c, in, st := z.c, x.r.in, x.o.st
	e := z.forwards(x, x.r.param(0))
	if e == nil {
		return
	}
	n := seqLenOf(in, x.st0, x.rec, z.rCtx)
	shape0, _ := in.sliceParts(x.st0, in.loadField(x.st0, x.rec, z.rCtx))
	rgn := shape0.a[0]
	at := stAt(e)
	_, sent := in.sliceParts(at, in.loadField(at, x.rec, z.rCtx))
	if !c.ok("lazy", x.label+" context", sent != nil, e.pos, "the context passed on is not known") {
		return
	}
	var loop *LoopRec
	var idx *pairVar
	for _, lp := range loopsOf(st) {
		if v := stepTwo(in, lp); v != nil {
			c.ok("lazy", x.label+" one loop", loop == nil || loop == lp, e.pos, "the context is gone through more than once")
			loop, idx = lp, v
		}
	}
	if loop == nil {
		c.ok("lazy", x.label+" all", noPairs(st, n) && st.proves(mkIntEq(seqLen(sent), n)), e.pos, "the values of the context are not all looked at")
		return
	}
	c.ok("lazy", x.label+" all", idx.done(st, n), e.pos, "going through the context can stop before its last value")
	c.ok("lazy", x.label+" untouched before", loop.entry.heap[rgn] == in.content(x.st0, rgn), e.pos, "the context is changed before its values are looked at")
	flags := z.rounds(x, loop, idx, rgn)
	// what is passed on: the context, with a note if something was refused
	body := subSeq(st.facts, loop.assumed.heap[rgn], tZero, n)
	if loop.assumed.heap[rgn] == nil {
		body = subSeq(st.facts, in.content(x.st0, rgn), tZero, n)
	}
	same := seqEq(st.facts, subSeq(st.facts, sent, tZero, n), body)
	note := seqElems(subSeq(st.facts, sent, n, seqLen(sent)))
	refused := unknown
	for _, f := range flags {
		if v := f(st); v != unknown {
			refused = v
		}
	}
	switch refused {
	case yes:
		c.ok("lazy", x.label+" note", same && len(note) == 2 && isStr(note[0]) && isStr(note[1]), e.pos, "a refused lazy value is not noted at the end of the context: %v", sent)
	case no:
		c.ok("lazy", x.label+" no note", same && st.proves(mkIntEq(seqLen(sent), n)), e.pos, "the context passed on is not that of the record, its lazy values evaluated: %v", sent)
	default:
		c.fail("lazy", x.label+" note", e.pos, "whether a lazy value was refused does not decide what is passed on")
	}
}

// rounds judges what is done with one value, and returns the variables that
// tell afterwards whether any value was refused.
func (z *lazyRule) rounds(x handling, loop *LoopRec, idx *pairVar, rgn *T) []func(*State) truth {
	c, in := z.c, x.r.in
	label := x.label
	head := loop.assumed.heap[rgn]
	if head == nil {
		head = in.content(x.st0, rgn)
	}
	pos, p := tAddI(idx.pos, 1), loopPos(loop)
	bad := make([]bool, len(loop.backs))
	for i, b := range loop.backs {
		f := b.st.facts
		value := atTerm(f, head, pos)
		now := in.content(b.st, rgn)
		var calls []*Event
		for _, e := range own(loop, b) {
			if e.kind == "callback" || e.kind == "invoke" {
				calls = append(calls, e)
			}
		}
		switch f.decide(mkTypeIs(value, z.lazyT)) {
		case no:
			c.count("other values", 1)
			c.ok("lazy", label+" others", now == head && len(calls) == 0, p, "a value that is not lazy is changed, or something is called for it: %v", now)
			continue
		case unknown:
			c.ok("lazy", label+" decide", false, p, "a value is treated without looking at whether it is lazy")
			continue
		}
		// a lazy value is replaced, and nothing else
		var put *T
		if now.op == "upd" && now.a[0] == head && f.decide(mkIntEq(now.a[1], pos)) == yes {
			put = now.a[2]
		}
		if !c.ok("lazy", label+" replace", put != nil, p, "a lazy value is not replaced, or not alone: %v", now) {
			continue
		}
		fn := mkApp("fld:"+z.fn.Name(), z.fn.Type(), mkApp("val:"+typeKey(z.lazyT), z.lazyT, value))
		rt := mkApp("rtypeof", nil, fn)
		kind := mkApp("inv:(reflect.Type).Kind", types.Typ[types.Int], rt)
		nin := mkApp("inv:(reflect.Type).NumIn", types.Typ[types.Int], rt)
		nout := mkApp("inv:(reflect.Type).NumOut", types.Typ[types.Int], rt)
		isNil := mkApp("call:(reflect.Value).IsNil", types.Typ[types.Bool], mkApp("rvalue", nil, fn))
		some := func(s *State, n *T) bool { return s.proves(mkLe(tOne, n)) || s.facts.decide(mkIntEq(n, tZero)) == no }
		callable := func(s *State) bool { // what a call needs is established
			g := s.facts
			return g.decideEq(fn, tNil) == no && g.decide(mkIntEq(kind, mkInt(19))) == yes && g.decide(isNil) == no && s.proves(mkLe(nin, tZero)) && some(s, nout)
		}
		if len(calls) == 0 {
			bad[i] = true
			c.count("lazy values refused", 1)
			un := f.decideEq(fn, tNil) == yes || f.decideEq(fn, tNil) == no && (f.decide(mkIntEq(kind, mkInt(19))) == no || f.decide(isNil) == yes || some(b.st, nin) || b.st.proves(mkLe(nout, tZero)))
			c.ok("lazy", label+" refuse", un, p, "a lazy value is refused although it could be evaluated")
			c.ok("lazy", label+" refuse", isErrorValue(put), p, "a refused lazy value is not replaced by an error: %v", put)
			continue
		}
		c.count("lazy values evaluated", 1)
		e := calls[0]
		ok := len(calls) == 1 && e.name == "reflect.Call" && e.args[0].isApp("rvalue") && e.args[0].a[0] == fn && e.args[1].op == "slice" && b.st.proves(mkIntEq(e.args[1].a[2], tZero))
		if !c.ok("lazy", label+" evaluate", ok, e.pos, "a lazy value's function is not called once, and nothing else") {
			continue
		}
		c.ok("lazy", label+" callable", callable(stAt(e)), e.pos, "a lazy value's function is called although it may be nil, no function, take arguments or return nothing")
		c.ok("lazy", label+" result", z.result(x, b, e, put), p, "a lazy value is not replaced by what its function returned: %v", put)
	}
	// the variables that remember a refusal
	var flags []func(*State) truth
	for _, v := range in.flagVars(loop) {
		good := true
		for i, b := range v.backs {
			if bad[i] {
				good = good && v.set(loop.backs[i].st, b)
			} else {
				good = good && (b == v.head || loop.backs[i].st.facts.decideEq(b, v.head) == yes)
			}
		}
		if good {
			flags = append(flags, v.truth)
		}
	}
	c.ok("lazy", label+" remember", len(flags) > 0, x.o.pos, "nothing remembers whether a lazy value was refused")
	return flags
}

// result: the single value the function returned, a call stack trimmed, or the
// list of the values.
func (z *lazyRule) result(x handling, b *backEdge, e *Event, put *T) bool {
	in, st := x.r.in, b.st
	_, q := in.sliceParts(stAt(e), e.res)
	_, q2 := in.sliceParts(st, e.res)
	elem := func(s *State, i *T) []*T {
		var out []*T
		for _, y := range []*T{q, q2} {
			if y != nil {
				out = append(out, mkApp("rvinterface", nil, atTerm(s.facts, y, i)))
			}
		}
		return out
	}
	n := e.res.a[2]
	if st.proves(mkIntEq(n, tOne)) {
		for _, v := range elem(st, tZero) {
			if put == v {
				return st.facts.decide(mkTypeIs(v, z.stack)) == no
			}
			cs := mkApp("val:"+typeKey(z.stack), z.stack, v)
			if put.op == "iface" && types.Identical(put.typ, z.stack) && st.facts.decide(mkTypeIs(v, z.stack)) == yes {
				var trims [2]bool
				call := in.loadField(x.st0, x.rec, z.rCall)
				anyTerm(put, func(y *T) bool {
					if y.isApp("call:(github.com/go-stack/stack.CallStack).TrimRuntime") {
						trims[0] = true
					}
					if y.isApp("call:(github.com/go-stack/stack.CallStack).TrimBelow") && len(y.a) == 2 && y.a[1] == call && anyTerm(y.a[0], func(w *T) bool { return w == cs || w == v }) {
						trims[1] = true
					}
					return false
				})
				return trims[0] && trims[1]
			}
		}
		return false
	}
	if st.facts.decide(mkIntEq(n, tOne)) != no || put.op != "iface" || put.a[0].op != "slice" {
		return false
	}
	shape := put.a[0]
	if !st.proves(mkIntEq(shape.a[2], n)) || shape.a[1] != tZero {
		return false
	}
	for _, lp := range loopsOf(st) {
		for _, v := range in.loopVars(lp) { // a list appended to
			if v.entry == nil {
				continue
			}
			i := tSub(v.head, v.entry)
			good := len(lp.backs) > 0 && lp.assumed.proves(mkIntEq(shape.a[2], i)) && st.proves(mkLe(n, i))
			for k, ib := range lp.backs {
				x := in.growth(lp, ib)[shape]
				one := false
				for _, el := range elem(ib.st, i) {
					one = one || x == mkSeq([]*T{el})
				}
				good = good && one && v.backs[k] == tAddI(v.head, 1)
			}
			if good {
				return true
			}
		}
		was := lp.assumed.heap[shape.a[0]]
		if was == nil || was != st.heap[shape.a[0]] {
			continue
		}
		for _, v := range in.loopVars(lp) {
			if v.entry == nil {
				continue
			}
			i := tSub(v.head, v.entry)
			good := len(lp.backs) > 0 && st.proves(mkLe(n, i))
			for k, ib := range lp.backs {
				now := ib.st.heap[shape.a[0]]
				one := false
				for _, el := range elem(ib.st, i) {
					one = one || now != nil && now.op == "upd" && now.a[0] == was && now.a[1] == i && now.a[2] == el ||
						now != nil && seqEq(ib.st.facts, now, mkCat(was, mkSeq([]*T{el})))
				}
				good = good && one && v.backs[k] == tAddI(v.head, 1)
			}
			if good {
				return true
			}
		}
	}
	return false
}
