package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) event(st *State, kind, name string, fr *frame, pos token.Pos, args []*T, res *T) *Event {
	e := &Event{prev: st.ev, n: evN(st.ev) + 1, kind: kind, name: name, fn: fr.fn, pos: pos, args: args, res: res, held: st.held, onces: st.onces, heap: st.heap, epoch: st.epoch, escaped: st.escaped, facts: st.facts, stack: st.stack}
	st.hshared, st.fshared, st.eshared = true, true, true
	st.ev = e
	return e
}

func (in *Interp) oblige(st *State, kind string, fn *ssa.Function, pos token.Pos, cond *T) (ok bool) {
	switch st.facts.decide(cond) {
	case yes:
		in.oblig = append(in.oblig, Obligation{kind: kind, fn: fn, pos: pos, text: "", proven: true})
		return true
	case no:
		in.oblig = append(in.oblig, Obligation{kind: kind, fn: fn, pos: pos, text: "always fails: " + cond.String()})
		return false
	}
	in.oblig = append(in.oblig, Obligation{kind: kind, fn: fn, pos: pos, text: "not shown: " + cond.String()})
	st.assume(cond, true)
	return true
}

func (in *Interp) finish(st *State, fr *frame, kind outKind, val *T, pos token.Pos) {
	in.paths++
	*fr.out = append(*fr.out, Outcome{st: st, kind: kind, val: val, pos: pos, pval: fr.pval})
}

// unwind propagates a panic: deferred calls run, then the caller sees it
// unless one of them recovered.
func (in *Interp) unwind(st *State, fr *frame, pval *T, fault bool, pos token.Pos) {
	fr.panicking, fr.pval, fr.fault, fr.retPos = true, pval, fault, pos
	in.runDefers(st, fr, func(st *State, fr *frame) {
		if fr.recovered {
			if fr.fn.Recover != nil {
				fr.panicking = false
				fr.ctx = nil
				in.instrs(st, fr, fr.fn.Recover, 0)
				return
			}
			in.finish(st, fr, outReturn, in.zeroVal(resultType(fr.fn.Signature)), pos)
			return
		}
		k := outPanic
		if fault {
			k = outFault
		}
		in.finish(st, fr, k, nil, pos)
	})
}

func (in *Interp) runDefers(st *State, fr *frame, k func(*State, *frame)) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	c := &callCtx{in: in, st: st, fr: fr, common: d.call.Common(), pos: d.call.Pos(), fnv: d.fn, args: d.args, recv: d.recv, isDefer: true}
	outs := in.dispatch(c)
	for i, o := range outs {
		f := fr
		if len(outs) > 1 || i > 0 {
			f = fr.clone()
		}
		if c.recoverUsed && fr.panicking {
			f.recovered = true
		}
		switch o.kind {
		case outReturn:
			in.runDefers(o.st, f, k)
		case outExit:
			in.finish(o.st, f, outExit, nil, o.pos)
		default: // a deferred call panicked
			f.panicking, f.pval, f.recovered = true, o.pval, false
			f.fault = o.kind == outFault
			in.runDefers(o.st, f, func(st *State, fr *frame) { in.finish(st, fr, o.kind, nil, o.pos) })
		}
	}
}

func (in *Interp) instrs(st *State, fr *frame, b *ssa.BasicBlock, idx int) {
	for ; idx < len(b.Instrs); idx++ {
		if in.tooMuch("analysis budget exceeded in " + fr.fn.String()) {
			return
		}
		if st.facts.dead {
			return
		}
		switch ins := b.Instrs[idx].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			if ins.Heap || true {
				et := ins.Type().(*types.Pointer).Elem()
				a := in.freshAlloc(in.allocLabel(fr.fn, ins), et)
				fr.set(ins, a)
			}
		case *ssa.Store:
			addr := in.val(fr, ins.Addr)
			v := in.val(fr, ins.Val)
			in.noteAccess(st, fr, addr, true, ins.Pos())
			if in.onStore != nil {
				in.onStore(st, addr, v, ins.Pos(), fr.fn)
			}
			if addr == tNil {
				in.unwind(st, fr, nil, true, ins.Pos())
				return
			}
			in.store(st, addr, v, ins.Val.Type())
		case *ssa.UnOp:
			if ins.Op == token.MUL {
				addr := in.val(fr, ins.X)
				in.noteAccess(st, fr, addr, false, ins.Pos())
				if addr == tNil {
					in.unwind(st, fr, nil, true, ins.Pos())
					return
				}
				fr.set(ins, in.load(st, addr, ins.Type()))
				continue
			}
			if ins.Op == token.ARROW {
				in.doRecv(st, fr, ins, b, idx)
				return
			}
			fr.set(ins, in.unop(st, ins.Op, in.val(fr, ins.X), ins.Type()))
		case *ssa.BinOp:
			if ins.Op == token.QUO || ins.Op == token.REM {
				if bt, ok := ins.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					y := in.val(fr, ins.Y)
					if !in.oblige(st, "divide", fr.fn, ins.Pos(), mkNot(mkEq0(y))) {
						in.unwind(st, fr, nil, true, ins.Pos())
						return
					}
				}
			}
			fr.set(ins, in.binop(st, ins.Op, in.val(fr, ins.X), in.val(fr, ins.Y), ins.X.Type(), ins.Type()))
		case *ssa.Convert:
			fr.set(ins, in.convert(st, in.val(fr, ins.X), ins.X.Type(), ins.Type()))
		case *ssa.ChangeType:
			fr.set(ins, retype(in.val(fr, ins.X), ins.Type()))
		case *ssa.ChangeInterface:
			fr.set(ins, in.val(fr, ins.X))
		case *ssa.MultiConvert:
			fr.set(ins, in.val(fr, ins.X))
		case *ssa.MakeInterface:
			fr.set(ins, mkIface(ins.X.Type(), in.val(fr, ins.X)))
		case *ssa.MakeClosure:
			var bs []*T
			for _, x := range ins.Bindings {
				bs = append(bs, in.val(fr, x))
			}
			fr.set(ins, mkFn(ins.Fn.(*ssa.Function), bs))
		case *ssa.MakeChan:
			in.nfresh++
			fr.set(ins, intern(&T{op: "mkchan", v: ins, s: fmt.Sprintf("chan#%d", in.nfresh), typ: ins.Type(), a: []*T{in.val(fr, ins.Size)}}))
		case *ssa.MakeMap:
			in.nfresh++
			m := intern(&T{op: "mkmap", s: fmt.Sprintf("map#%d", in.nfresh)})
			st.set(mkApp("mapc", nil, m), mkSym("mapempty", nil))
			fr.set(ins, m)
		case *ssa.MakeSlice:
			ln, cp := in.val(fr, ins.Len), in.val(fr, ins.Cap)
			if !in.oblige(st, "makeslice", fr.fn, ins.Pos(), mkLe(tZero, ln)) {
				in.unwind(st, fr, nil, true, ins.Pos())
				return
			}
			if cp != ln {
				if !in.oblige(st, "makeslice", fr.fn, ins.Pos(), mkLe(ln, cp)) {
					in.unwind(st, fr, nil, true, ins.Pos())
					return
				}
			}
			et := ins.Type().Underlying().(*types.Slice).Elem()
			r := in.freshAlloc("make", ins.Type())
			st.set(r, mkZero(cp, in.zeroVal(et)))
			fr.set(ins, mkSlice(r, tZero, ln, cp))
		case *ssa.FieldAddr:
			x := in.val(fr, ins.X)
			if x == tNil {
				in.unwind(st, fr, nil, true, ins.Pos())
				return
			}
			v := fieldVar(ins)
			fr.set(ins, mkField(x, v, v.Type()))
		case *ssa.Field:
			x := in.val(fr, ins.X)
			if x.op == "struct" {
				fr.set(ins, x.a[ins.Field])
			} else {
				f := ins.X.Type().Underlying().(*types.Struct).Field(ins.Field)
				fr.set(ins, in.expand(mkApp("fld:"+f.Name(), f.Type(), x), f.Type()))
			}
		case *ssa.IndexAddr:
			x, i := in.val(fr, ins.X), in.val(fr, ins.Index)
			et := ins.Type().(*types.Pointer).Elem()
			var region, lo, n *T
			if x.op == "slice" {
				region, lo, n = x.a[0], x.a[1], x.a[2]
			} else { // pointer to array
				region, lo = x, tZero
				n = mkInt(ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			if !in.bounds(st, fr, i, n, ins.Pos()) {
				return
			}
			fr.set(ins, mkElem(region, tAdd(lo, i), et))
		case *ssa.Index:
			x, i := in.val(fr, ins.X), in.val(fr, ins.Index)
			if !in.bounds(st, fr, i, seqLen(x), ins.Pos()) {
				return
			}
			fr.set(ins, in.expand(atTyped(in, st, x, i, ins.Type()), ins.Type()))
		case *ssa.Slice:
			if !in.doSlice(st, fr, ins) {
				return
			}
		case *ssa.SliceToArrayPointer:
			x := in.val(fr, ins.X)
			fr.set(ins, mkApp("arrptr", ins.Type(), x))
		case *ssa.Lookup:
			in.doLookup(st, fr, ins, b, idx)
			return
		case *ssa.MapUpdate:
			m := in.val(fr, ins.Map)
			if m == tNil {
				in.unwind(st, fr, nil, true, ins.Pos())
				return
			}
			k, v := in.val(fr, ins.Key), in.val(fr, ins.Value)
			if m.op != "mkmap" || st.escaped[m] {
				in.escape(st, v)
			}
			cell := mkApp("mapc", nil, m)
			in.event(st, "mapset", "", fr, ins.Pos(), []*T{m, k, v}, nil)
			st.set(cell, mapPut(st.facts, in.mapContent(st, m), k, v))
		case *ssa.Range:
			x := in.val(fr, ins.X)
			in.nfresh++
			it := intern(&T{op: "alloc", s: fmt.Sprintf("iter#%d", in.nfresh), a: []*T{x}})
			st.set(mkApp("cell", nil, it), tZero)
			fr.set(ins, it)
		case *ssa.Next:
			in.doNext(st, fr, ins, b, idx)
			return
		case *ssa.Extract:
			t := in.val(fr, ins.Tuple)
			if t.op == "tuple" {
				fr.set(ins, t.a[ins.Index])
			} else {
				fr.set(ins, in.expand(mkApp(fmt.Sprintf("#%d", ins.Index), ins.Type(), t), ins.Type()))
			}
		case *ssa.TypeAssert:
			in.doAssert(st, fr, ins, b, idx)
			return
		case *ssa.Call:
			c := in.callCtxOf(st, fr, &ins.Call, ins.Pos())
			outs := in.dispatch(c)
			if len(outs) == 1 && outs[0].kind == outReturn {
				st = outs[0].st
				if outs[0].val != nil {
					fr.set(ins, outs[0].val)
				} else {
					fr.set(ins, tUnit)
				}
				if c.recoverUsed {
					fr.recovered = fr.recovered || false
				}
				continue
			}
			for i, o := range outs {
				f := fr
				if i < len(outs)-1 {
					f = fr.clone()
				}
				switch o.kind {
				case outReturn:
					if o.val != nil {
						f.set(ins, o.val)
					} else {
						f.set(ins, tUnit)
					}
					in.instrs(o.st, f, b, idx+1)
				case outExit:
					in.finish(o.st, f, outExit, nil, o.pos)
				default:
					in.unwind(o.st, f, o.pval, o.kind == outFault, o.pos)
				}
			}
			return
		case *ssa.Go:
			c := in.callCtxOf(st, fr, &ins.Call, ins.Pos())
			for _, a := range c.args {
				in.escape(st, a)
			}
			if c.fnv != nil {
				in.escape(st, c.fnv)
			}
			args := append([]*T{c.fnv}, c.args...)
			if c.fnv == nil {
				args[0] = tNil
			}
			e := in.event(st, "go", "", fr, ins.Pos(), args, nil)
			in.spawns = append(in.spawns, e)
		case *ssa.Defer:
			c := in.callCtxOf(st, fr, &ins.Call, ins.Pos())
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{ins, c.fnv, c.args, c.recv})
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			i := idx
			in.runDefers(st, fr, func(st *State, fr *frame) { in.instrs(st, fr, b, i+1) })
			return
		case *ssa.Send:
			ch, v := in.val(fr, ins.Chan), in.val(fr, ins.X)
			in.doSend(st, fr, ch, v, ins.Pos(), nil)
		case *ssa.Select:
			in.doSelect(st, fr, ins, b, idx)
			return
		case *ssa.Panic:
			v := in.val(fr, ins.X)
			in.event(st, "panic", "", fr, ins.Pos(), []*T{v}, nil)
			in.unwind(st, fr, v, false, ins.Pos())
			return
		case *ssa.Return:
			var v *T = tUnit
			if len(ins.Results) == 1 {
				v = in.val(fr, ins.Results[0])
			} else if len(ins.Results) > 1 {
				var es []*T
				for _, r := range ins.Results {
					es = append(es, in.val(fr, r))
				}
				v = mkTuple(es...)
			}
			in.finish(st, fr, outReturn, v, ins.Pos())
			return
		case *ssa.Jump:
			in.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := in.val(fr, ins.Cond)
			if in.cmpAtoms != nil {
				collectCmp(c, in.cmpAtoms)
			}
			switch st.facts.decide(c) {
			case yes:
				in.jump(st, fr, b, b.Succs[0])
			case no:
				in.jump(st, fr, b, b.Succs[1])
			default:
				if fr.ctx != nil && fr.ctx.undecidedHeader != nil && b == fr.ctx.header {
					*fr.ctx.undecidedHeader = true
					return
				}
				st2, fr2 := st.clone(), fr.clone()
				if st.assume(c, true) {
					in.jump(st, fr, b, b.Succs[0])
				}
				if st2.assume(c, false) {
					in.jump(st2, fr2, b, b.Succs[1])
				}
			}
			return
		default:
			panic(fmt.Sprintf("instruction %T not handled in %s", ins, fr.fn))
		}
	}
}

func collectCmp(c *T, out *[]*T) {
	switch c.op {
	case "not":
		collectCmp(c.a[0], out)
	case "le0", "eq0":
		*out = append(*out, c.a[0])
	}
}

func (in *Interp) allocLabel(fn *ssa.Function, a *ssa.Alloc) string {
	l := fn.String() + ":" + a.Name()
	if a.Comment != "" {
		l += "(" + a.Comment + ")"
	}
	return l
}

func retype(t *T, typ types.Type) *T {
	if t.op == "struct" {
		return mkStruct(typ, t.a)
	}
	return t
}

func (in *Interp) bounds(st *State, fr *frame, i, n *T, pos token.Pos) bool {
	ok1 := in.oblige(st, "index", fr.fn, pos, mkLe(tZero, i))
	ok2 := ok1 && in.oblige(st, "index", fr.fn, pos, mkLt(i, n))
	if !ok2 {
		in.unwind(st, fr, nil, true, pos)
		return false
	}
	return true
}

func (in *Interp) doSlice(st *State, fr *frame, ins *ssa.Slice) bool {
	x := in.val(fr, ins.X)
	lo := tZero
	if ins.Low != nil {
		lo = in.val(fr, ins.Low)
	}
	fail := func() bool { in.unwind(st, fr, nil, true, ins.Pos()); return false }
	if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		hi := seqLen(x)
		if ins.High != nil {
			hi = in.val(fr, ins.High)
		}
		if !in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(tZero, lo)) || !in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(lo, hi)) ||
			!in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(hi, seqLen(x))) {
			return fail()
		}
		fr.set(ins, subSeq(st.facts, x, lo, hi))
		return true
	}
	var region, base, ln, cp *T
	if x.op == "slice" {
		region, base, ln, cp = x.a[0], x.a[1], x.a[2], x.a[3]
	} else if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		n := mkInt(pt.Elem().Underlying().(*types.Array).Len())
		region, base, ln, cp = x, tZero, n, n
	} else {
		fr.set(ins, in.fresh("slice", ins.Type()))
		return true
	}
	hi := ln
	if ins.High != nil {
		hi = in.val(fr, ins.High)
	}
	max := cp
	if ins.Max != nil {
		max = in.val(fr, ins.Max)
		if !in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(max, cp)) {
			return fail()
		}
	}
	if !in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(tZero, lo)) || !in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(lo, hi)) ||
		!in.oblige(st, "slice", fr.fn, ins.Pos(), mkLe(hi, max)) {
		return fail()
	}
	fr.set(ins, mkSlice(region, tAdd(base, lo), tSub(hi, lo), tSub(max, lo)))
	return true
}

// ---- maps ----

func (in *Interp) mapContent(st *State, m *T) *T {
	if m == tNil {
		return mkSym("mapempty", nil)
	}
	cell := mkApp("mapc", nil, m)
	if v, ok := st.heap[cell]; ok {
		return v
	}
	if v, ok := in.p.initHeap[cell]; ok && m.op == "mkmap" && st.epoch == 0 {
		return v
	}
	if st.epoch > 0 {
		return mkApp("init", nil, cell, mkInt(int64(st.epoch)))
	}
	return mkApp("init", nil, cell)
}

func mapPut(f *Facts, c, k, v *T) *T {
	if c.isApp("mapupd") && f.decideEq(c.a[1], k) == yes {
		return mkApp("mapupd", nil, c.a[0], k, v)
	}
	return mkApp("mapupd", nil, c, k, v)
}

// mapGet resolves a lookup: has is yes/no/unknown.
func mapGet(f *Facts, c, k *T) (v *T, has truth, base *T) {
	for {
		switch {
		case c.isApp("mapupd"):
			switch f.decideEq(c.a[1], k) {
			case yes:
				return c.a[2], yes, c
			case no:
				c = c.a[0]
				continue
			}
			return nil, unknown, c
		case c.isApp("mapdel"):
			switch f.decideEq(c.a[1], k) {
			case yes:
				return nil, no, c
			case no:
				c = c.a[0]
				continue
			}
			return nil, unknown, c
		case c.op == "sym" && c.s == "mapempty":
			return nil, no, c
		}
		return nil, unknown, c
	}
}

func (in *Interp) doLookup(st *State, fr *frame, ins *ssa.Lookup, b *ssa.BasicBlock, idx int) {
	x, k := in.val(fr, ins.X), in.val(fr, ins.Index)
	if bt, ok := ins.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if !in.bounds(st, fr, k, seqLen(x), ins.Pos()) {
			return
		}
		fr.set(ins, atTerm(st.facts, x, k))
		in.instrs(st, fr, b, idx+1)
		return
	}
	et := ins.X.Type().Underlying().(*types.Map).Elem()
	c := in.mapContent(st, x)
	v, has, base := mapGet(st.facts, c, k)
	hasT := mkApp("maphas", types.Typ[types.Bool], base, k)
	if has == unknown {
		has = st.facts.decide(hasT)
		if x.op != "mkmap" && x != tNil && st.facts.decideEq(x, tNil) == yes {
			has = no
		}
		v = in.expand(mkApp("mapget", et, base, k), et)
	}
	done := func(st *State, fr *frame, v *T, ok bool) {
		in.event(st, "mapget", "", fr, ins.Pos(), []*T{x, k, mkBool(ok)}, v)
		if ins.CommaOk {
			fr.set(ins, mkTuple(v, mkBool(ok)))
		} else {
			fr.set(ins, v)
		}
		in.instrs(st, fr, b, idx+1)
	}
	switch has {
	case yes:
		done(st, fr, v, true)
	case no:
		done(st, fr, in.zeroVal(et), false)
	default:
		st2, fr2 := st.clone(), fr.clone()
		if st.assume(hasT, true) {
			done(st, fr, v, true)
		}
		if st2.assume(hasT, false) {
			done(st2, fr2, in.zeroVal(et), false)
		}
	}
}

func (in *Interp) doNext(st *State, fr *frame, ins *ssa.Next, b *ssa.BasicBlock, idx int) {
	it := in.val(fr, ins.Iter)
	cell := mkApp("cell", nil, it)
	pos := st.heap[cell]
	if pos == nil {
		pos = tZero
	}
	x := it.a[0]
	tt := ins.Type().(*types.Tuple)
	undecided := func() bool { // give up unrolling: the number of iterations is not constant
		if fr.ctx != nil && fr.ctx.undecidedHeader != nil && b == fr.ctx.header {
			*fr.ctx.undecidedHeader = true
			return true
		}
		return false
	}
	if ins.IsString {
		if x.op == "lit" {
			if p, ok := pos.int64(); ok {
				rs := x.s[p:]
				if rs == "" {
					fr.set(ins, mkTuple(tFalse, tZero, tZero))
					in.instrs(st, fr, b, idx+1)
					return
				}
				for j, r := range rs {
					_ = j
					n := len(string(r))
					fr.set(ins, mkTuple(tTrue, pos, mkInt(int64(r))))
					st.set(cell, mkInt(p+int64(n)))
					in.instrs(st, fr, b, idx+1)
					return
				}
			}
		}
		n := seqLen(x)
		if d := st.facts.decide(mkLt(pos, n)); d != yes && d != no && undecided() {
			return
		}
		st2, fr2 := st.clone(), fr.clone()
		if st.assume(mkLt(pos, n), true) {
			r := mkApp("rune", types.Typ[types.Int32], x, pos)
			w := mkApp("runelen", types.Typ[types.Int], x, pos)
			st.WF().le = append(st.WF().le, tSub(tOne, w), tAddI(w, -4), tSub(tAdd(pos, w), n), tNeg(r))
			fr.set(ins, mkTuple(tTrue, pos, r))
			st.set(cell, tAdd(pos, w))
			in.instrs(st, fr, b, idx+1)
		}
		if st2.assume(mkLe(n, pos), true) {
			fr2.set(ins, mkTuple(tFalse, tZero, tZero))
			in.event(st2, "iterdone", "string", fr2, ins.Pos(), []*T{x, it}, nil)
			in.instrs(st2, fr2, b, idx+1)
		}
		return
	}
	// map
	in.nfresh++
	var k, v *T = tNil, tNil
	id := mkSym(fmt.Sprintf("it#%d", in.nfresh), nil)
	mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	k = in.expand(mkApp("mapkey", mt.Key(), x, id), mt.Key())
	c := in.mapContent(st, x)
	v = in.expand(mkApp("mapget", mt.Elem(), c, k), mt.Elem())
	st2, fr2 := st.clone(), fr.clone()
	if !(c.op == "sym" && c.s == "mapempty" || x == tNil) && undecided() {
		return
	}
	if c.op == "sym" && c.s == "mapempty" || x == tNil {
		// nothing to range over
	} else {
		st.assume(mkApp("maphas", types.Typ[types.Bool], c, k), true)
		fr.set(ins, mkTuple(tTrue, k, v))
		st.set(cell, tAddI(pos, 1))
		in.event(st, "rangemap", "", fr, ins.Pos(), []*T{x, k, v, c}, nil)
		in.instrs(st, fr, b, idx+1)
	}
	_ = tt
	fr2.set(ins, mkTuple(tFalse, tNil, tNil))
	in.event(st2, "iterdone", "map", fr2, ins.Pos(), []*T{x, it, c}, nil)
	in.instrs(st2, fr2, b, idx+1)
}

// ---- interfaces ----

func mkTypeIs(x *T, typ types.Type) *T {
	return mkApp("typeis:"+typeKey(typ), types.Typ[types.Bool], x)
}

func (in *Interp) doAssert(st *State, fr *frame, ins *ssa.TypeAssert, b *ssa.BasicBlock, idx int) {
	x := st.facts.rep(in.val(fr, ins.X))
	at := ins.AssertedType
	_, toIface := at.Underlying().(*types.Interface)
	var payload *T
	var is truth
	switch {
	case x == tNil:
		is = no
	case x.op == "iface":
		if toIface {
			is = truthOf(types.Implements(x.typ, at.Underlying().(*types.Interface)))
			payload = x
		} else {
			is = truthOf(types.Identical(x.typ, at))
			payload = x.a[0]
		}
	default:
		cond := mkTypeIs(x, at)
		is = st.facts.decide(cond)
		if toIface {
			payload = x
			if it := at.Underlying().(*types.Interface); it.NumMethods() == 0 {
				cond = mkNot(mkEqRaw(x, tNil))
				is = st.facts.decide(cond)
			}
		} else {
			payload = in.expand(mkApp("val:"+typeKey(at), at, x), at)
			// a value known to have another concrete type
			for f, v := range st.facts.atoms {
				if v && f.op == "app" && strings.HasPrefix(f.s, "typeis:") && f.a[0] == x && f != cond && !f.isIfaceTest() {
					is = no
				}
			}
			if st.facts.decideEq(x, tNil) == yes {
				is = no
			}
			if g := in.dynType(st, x); g != nil && is == unknown {
				is = truthOf(types.Identical(g, at))
			}
		}
		if is == unknown {
			st2, fr2 := st.clone(), fr.clone()
			if st.assume(cond, true) {
				st.assume(mkEqRaw(x, tNil), false)
				in.assertDone(st, fr, ins, b, idx, payload, true)
			}
			if st2.assume(cond, false) {
				in.assertDone(st2, fr2, ins, b, idx, in.zeroVal(at), false)
			}
			return
		}
	}
	if is == yes {
		in.assertDone(st, fr, ins, b, idx, payload, true)
	} else {
		in.assertDone(st, fr, ins, b, idx, in.zeroVal(at), false)
	}
}

// dynType is a hook for values whose dynamic type a model knows.
func (in *Interp) dynType(st *State, x *T) types.Type {
	if x.op == "app" && strings.HasPrefix(x.s, "err:") && x.typ != nil {
		return x.typ
	}
	if extConst(x) {
		return types.NewPointer(extTypeOr(in, "errors", "errorString"))
	}
	return nil
}

func (t *T) isIfaceTest() bool {
	return strings.Contains(t.s, "interface{") || t.n != nil || ifaceTests[t.s]
}

var ifaceTests = map[string]bool{}

func (in *Interp) assertDone(st *State, fr *frame, ins *ssa.TypeAssert, b *ssa.BasicBlock, idx int, v *T, ok bool) {
	if !ok && !ins.CommaOk {
		in.oblig = append(in.oblig, Obligation{kind: "assert", fn: fr.fn, pos: ins.Pos(), text: "type assertion may fail"})
		in.unwind(st, fr, nil, true, ins.Pos())
		return
	}
	if ins.CommaOk {
		fr.set(ins, mkTuple(v, mkBool(ok)))
	} else {
		fr.set(ins, v)
	}
	in.instrs(st, fr, b, idx+1)
}

// ---- channels ----

func (in *Interp) doSend(st *State, fr *frame, ch, v *T, pos token.Pos, sel *ssa.Select) {
	in.escape(st, v)
	in.event(st, "send", "", fr, pos, []*T{ch, v}, nil).sel = sel
	in.tokenSend(st, ch)
}

func (in *Interp) doRecv(st *State, fr *frame, ins *ssa.UnOp, b *ssa.BasicBlock, idx int) {
	ch := in.val(fr, ins.X)
	et := ins.X.Type().Underlying().(*types.Chan).Elem()
	in.afterRecv(st, ch)
	v := in.fresh("recv", et)
	in.event(st, "recv", "", fr, ins.Pos(), []*T{ch}, v)
	in.tokenRecv(st, ch, ins.Pos())
	if ins.CommaOk {
		st2, fr2 := st.clone(), fr.clone()
		fr.set(ins, mkTuple(v, tTrue))
		in.instrs(st, fr, b, idx+1)
		st2.ev.name = st.ev.name
		in.event(st2, "recvclosed", "", fr2, ins.Pos(), []*T{ch}, nil)
		fr2.set(ins, mkTuple(in.zeroVal(et), tFalse))
		in.instrs(st2, fr2, b, idx+1)
		return
	}
	fr.set(ins, v)
	in.instrs(st, fr, b, idx+1)
}

func (in *Interp) afterRecv(st *State, ch *T) {
	if len(st.held) == 0 {
		in.havocShared(st)
	}
}

func (in *Interp) doSelect(st *State, fr *frame, ins *ssa.Select, b *ssa.BasicBlock, idx int) {
	tt := ins.Type().(*types.Tuple)
	var cases []selCase
	for _, s := range ins.States {
		c := selCase{send: s.Dir == types.SendOnly, ch: in.val(fr, s.Chan)}
		if c.send {
			c.val = in.val(fr, s.Send)
		}
		cases = append(cases, c)
	}
	n := len(ins.States)
	if !ins.Blocking {
		n++
	}
	for i := 0; i < n; i++ {
		s, f := st, fr
		if i < n-1 {
			s, f = st.clone(), fr.clone()
		}
		res := make([]*T, tt.Len())
		ri := 2
		for j := 2; j < tt.Len(); j++ {
			res[j] = in.zeroVal(tt.At(j).Type())
		}
		res[1] = tFalse
		if i == len(ins.States) {
			res[0] = mkInt(-1)
			e := in.event(s, "selectdefault", "", f, ins.Pos(), nil, nil)
			e.sel, e.cases = ins, cases
			f.set(ins, mkTuple(res...))
			in.instrs(s, f, b, idx+1)
			continue
		}
		res[0] = mkInt(int64(i))
		for j := 0; j < i; j++ {
			if ins.States[j].Dir == types.RecvOnly {
				ri++
			}
		}
		if s.facts.decideEq(cases[i].ch, tNil) == yes {
			continue // a nil channel is never ready
		}
		e := in.event(s, "select", "", f, ins.Pos(), []*T{mkInt(int64(i))}, nil)
		e.sel, e.cases = ins, cases
		if cases[i].send {
			in.doSend(s, f, cases[i].ch, cases[i].val, ins.Pos(), ins)
			f.set(ins, mkTuple(res...))
			in.instrs(s, f, b, idx+1)
			continue
		}
		in.afterRecv(s, cases[i].ch)
		et := ins.States[i].Chan.Type().Underlying().(*types.Chan).Elem()
		v := in.fresh("recv", et)
		e = in.event(s, "recv", "", f, ins.Pos(), []*T{cases[i].ch}, v)
		e.sel = ins
		in.tokenRecv(s, cases[i].ch, ins.Pos())
		res[ri] = v
		// whether the value came from a closed channel is not known
		res[1] = mkSym(fmt.Sprintf("recvok#%d", in.nfreshNext()), types.Typ[types.Bool])
		f.set(ins, mkTuple(res...))
		in.instrs(s, f, b, idx+1)
	}
}

func (in *Interp) nfreshNext() int { in.nfresh++; return in.nfresh }

// A channel used as a lock token: configured per struct field by the rules.
func (in *Interp) tokenRecv(st *State, ch *T, pos token.Pos) {
	if in.isToken != nil && in.isToken(ch) {
		st.held = append(st.held[:len(st.held):len(st.held)], Held{ch, "token", pos})
	}
}
func (in *Interp) tokenSend(st *State, ch *T) {
	if in.isToken != nil && in.isToken(ch) {
		in.release(st, ch, "token")
	}
}

func (in *Interp) release(st *State, l *T, mode string) bool {
	for i := len(st.held) - 1; i >= 0; i-- {
		if st.held[i].lock == l && st.held[i].mode == mode {
			st.held = append(append([]Held{}, st.held[:i]...), st.held[i+1:]...)
			return true
		}
	}
	return false
}

// ---- operators ----

func (in *Interp) unop(st *State, op token.Token, x *T, typ types.Type) *T {
	switch op {
	case token.NOT:
		return mkNot(x)
	case token.SUB:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return mkApp("fneg", typ, x)
		}
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && !x.isInt() {
			return mkApp("wneg", typ, x)
		}
		return wrapConst(tNeg(x), typ)
	case token.XOR:
		return bitNot(x, typ)
	}
	return mkApp("unop:"+op.String(), typ, x)
}

func widthOf(typ types.Type) (bits uint, unsigned bool) {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	unsigned = b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Uint8, types.Int8:
		return 8, unsigned
	case types.Uint16, types.Int16:
		return 16, unsigned
	case types.Uint32, types.Int32:
		return 32, unsigned
	}
	return 64, unsigned
}

func wrapConst(t *T, typ types.Type) *T {
	if !t.isInt() {
		return t
	}
	w, u := widthOf(typ)
	m := new(big.Int).Lsh(bigOne, w)
	v := new(big.Int).Mod(t.n, m)
	if !u && v.Bit(int(w)-1) == 1 {
		v.Sub(v, m)
	}
	if v.Cmp(t.n) == 0 {
		return t
	}
	return mkBig(v)
}

func bitNot(x *T, typ types.Type) *T {
	if x.isInt() {
		return wrapConst(mkBig(new(big.Int).Not(x.n)), typ)
	}
	if x.isApp("bnot") {
		return x.a[0]
	}
	return mkApp("bnot", typ, x)
}

func nary(f string, typ types.Type, xs ...*T) []*T {
	var fl []*T
	for _, x := range xs {
		if x.isApp(f) {
			fl = append(fl, x.a...)
		} else {
			fl = append(fl, x)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	return fl
}

func bitXor(typ types.Type, xs ...*T) *T {
	fl := nary("xor", typ, xs...)
	k := new(big.Int)
	var out []*T
	for _, x := range fl {
		if x.isInt() {
			k.Xor(k, x.n)
			continue
		}
		if len(out) > 0 && out[len(out)-1] == x {
			out = out[:len(out)-1]
			continue
		}
		out = append(out, x)
	}
	if k.Sign() != 0 {
		out = append(out, wrapConst(mkBig(k), typ))
	}
	switch len(out) {
	case 0:
		return tZero
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkApp("xor", typ, out...)
}

func bitAnd(typ types.Type, xs ...*T) *T {
	fl := nary("and", typ, xs...)
	var k *big.Int
	var out []*T
	for _, x := range fl {
		if x.isInt() {
			if k == nil {
				k = new(big.Int).Set(x.n)
			} else {
				k.And(k, x.n)
			}
			continue
		}
		if len(out) > 0 && out[len(out)-1] == x {
			continue
		}
		out = append(out, x)
	}
	if k != nil {
		if k.Sign() == 0 || len(out) == 0 {
			return mkBig(k)
		}
		out = append(out, mkBig(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkApp("and", typ, out...)
}

func bitOr(typ types.Type, xs ...*T) *T {
	fl := nary("or", typ, xs...)
	k := new(big.Int)
	var out []*T
	for _, x := range fl {
		if x.isInt() {
			k.Or(k, x.n)
			continue
		}
		if len(out) > 0 && out[len(out)-1] == x {
			continue
		}
		out = append(out, x)
	}
	if k.Sign() != 0 {
		out = append(out, mkBig(k))
	}
	// x<<a | x>>(w-a) is a rotation
	if w, u := widthOf(typ); u && len(out) == 2 {
		for i := 0; i < 2; i++ {
			l, r := out[i], out[1-i]
			if l.isApp("shl") && r.isApp("shr") && l.a[0] == r.a[0] {
				a, ok1 := l.a[1].int64()
				b, ok2 := r.a[1].int64()
				if ok1 && ok2 && a+b == int64(w) && a > 0 {
					return mkRot(l.a[0], a, typ)
				}
			}
		}
	}
	switch len(out) {
	case 0:
		return tZero
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mkApp("or", typ, out...)
}

func mkRot(x *T, n int64, typ types.Type) *T {
	w, _ := widthOf(typ)
	n = ((n % int64(w)) + int64(w)) % int64(w)
	if n == 0 {
		return x
	}
	if x.isApp("rot") {
		m, _ := x.a[1].int64()
		return mkRot(x.a[0], n+m, typ)
	}
	return mkApp("rot", typ, x, mkInt(n))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func floatVal(t *T) (constant.Value, bool) {
	if t.op == "app" && strings.HasPrefix(t.s, "float:") && len(t.a) == 0 {
		s := t.s[6:]
		if i := strings.IndexByte(s, '/'); i >= 0 {
			n := constant.MakeFromLiteral(s[:i], token.INT, 0)
			d := constant.MakeFromLiteral(s[i+1:], token.INT, 0)
			return constant.BinaryOp(n, token.QUO, d), true
		}
		v := constant.MakeFromLiteral(s, token.FLOAT, 0)
		if v.Kind() == constant.Unknown {
			v = constant.MakeFromLiteral(s, token.INT, 0)
		}
		return v, v.Kind() != constant.Unknown
	}
	return nil, false
}

func (in *Interp) binop(st *State, op token.Token, x, y *T, xt, rt types.Type) *T {
	switch op {
	case token.EQL:
		return simplEq2(st, x, y, xt)
	case token.NEQ:
		return mkNot(simplEq2(st, x, y, xt))
	}
	if isFloat(xt) {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
			}
			name := "flt"
			if op == token.LEQ || op == token.GEQ {
				name = "fle"
			}
			a, ok1 := floatVal(x)
			b, ok2 := floatVal(y)
			if ok1 && ok2 {
				o := token.LSS
				if name == "fle" {
					o = token.LEQ
				}
				return mkBool(constant.Compare(a, o, b))
			}
			return mkApp(name, types.Typ[types.Bool], x, y)
		}
		if op == token.ADD || op == token.MUL {
			if y.id < x.id {
				x, y = y, x
			}
		}
		return mkApp("f"+op.String(), rt, x, y)
	}
	bt, _ := xt.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return mkCat(x, y)
		case token.LSS:
			return mkApp("strlt", types.Typ[types.Bool], x, y)
		case token.GTR:
			return mkApp("strlt", types.Typ[types.Bool], y, x)
		case token.LEQ:
			return mkNot(mkApp("strlt", types.Typ[types.Bool], y, x))
		case token.GEQ:
			return mkNot(mkApp("strlt", types.Typ[types.Bool], x, y))
		}
	}
	w, uns := widthOf(rt)
	switch op {
	case token.LSS:
		return mkLt(x, y)
	case token.LEQ:
		return mkLe(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.GEQ:
		return mkLe(y, x)
	case token.ADD:
		r := tAdd(x, y)
		if r.isInt() {
			return wrapConst(r, rt)
		}
		if uns && w < 64 && !st.proves(mkLe(r, mkBig(maxOf[rt.Underlying().(*types.Basic).Kind()]))) {
			return mkApp("wadd", rt, sortPair(x, y)...)
		}
		return r
	case token.SUB:
		r := tSub(x, y)
		if r.isInt() {
			return wrapConst(r, rt)
		}
		if uns && !st.proves(mkLe(y, x)) {
			return mkApp("wsub", rt, x, y)
		}
		return r
	case token.MUL:
		r := tMul(x, y)
		if r.isInt() {
			return wrapConst(r, rt)
		}
		if uns && w < 64 && !st.proves(mkLe(r, mkBig(maxOf[rt.Underlying().(*types.Basic).Kind()]))) {
			return mkApp("wmul", rt, sortPair(x, y)...)
		}
		return r
	case token.QUO:
		return mkDiv(st, x, y)
	case token.REM:
		if x.isInt() && y.isInt() && y.n.Sign() != 0 {
			return mkBig(new(big.Int).Rem(x.n, y.n))
		}
		if y.isInt() {
			return tSub(x, tMul(y, mkDiv(st, x, y)))
		}
		return mkApp("rem", rt, x, y)
	case token.SHL:
		if s, ok := y.int64(); ok {
			if x.isInt() {
				return wrapConst(mkBig(new(big.Int).Lsh(x.n, uint(s))), rt)
			}
			if s == 0 {
				return x
			}
			if !uns {
				return tMul(x, mkBig(new(big.Int).Lsh(bigOne, uint(s))))
			}
			if x.isApp("shl") {
				if k, ok := x.a[1].int64(); ok {
					return mkApp("shl", rt, x.a[0], mkInt(k+s))
				}
			}
		}
		return mkApp("shl", rt, x, y)
	case token.SHR:
		if s, ok := y.int64(); ok {
			if x.isInt() {
				return mkBig(new(big.Int).Rsh(x.n, uint(s)))
			}
			if s == 0 {
				return x
			}
			if !uns || w < 64 || x.op == "sum" {
				return mkDiv(st, x, mkBig(new(big.Int).Lsh(bigOne, uint(s))))
			}
			if x.isApp("shr") {
				if k, ok := x.a[1].int64(); ok {
					return mkApp("shr", rt, x.a[0], mkInt(k+s))
				}
			}
		}
		return mkApp("shr", rt, x, y)
	case token.AND:
		if x.isInt() && y.isInt() {
			return wrapConst(mkBig(new(big.Int).And(x.n, y.n)), rt)
		}
		if x.isBool() || bt != nil && bt.Info()&types.IsBoolean != 0 {
			return mkApp("band", rt, x, y)
		}
		r := bitAnd(rt, x, y)
		// masking a length or a count with 2^k-1 is a remainder
		if (!uns || w < 64) && r.isApp("and") && len(r.a) == 2 {
			m, v := r.a[0], r.a[1]
			if !m.isInt() {
				m, v = v, m
			}
			if m.isInt() && m.n.Sign() > 0 && isPow2(new(big.Int).Add(m.n, big.NewInt(1))) && st.proves(mkLe(tZero, v)) {
				y := tAddI(m, 1)
				return tSub(v, tMul(y, mkDiv(st, v, y)))
			}
		}
		return r
	case token.OR:
		if x.isInt() && y.isInt() {
			return wrapConst(mkBig(new(big.Int).Or(x.n, y.n)), rt)
		}
		return bitOr(rt, x, y)
	case token.XOR:
		return bitXor(rt, x, y)
	case token.AND_NOT:
		return bitAnd(rt, x, bitNot(y, rt))
	}
	return mkApp("op:"+op.String(), rt, x, y)
}

func sortPair(x, y *T) []*T {
	if y.id < x.id {
		return []*T{y, x}
	}
	return []*T{x, y}
}

// byteTerm: an element of a sequence of bytes.
func byteTerm(x *T) bool { return x.isApp("at") && isByteT(x.typ) }

func mkDiv(st *State, x, y *T) *T {
	if x.isInt() && y.isInt() && y.n.Sign() != 0 {
		return mkBig(new(big.Int).Quo(x.n, y.n))
	}
	if y == tOne {
		return x
	}
	// exact division of every coefficient
	if y.isInt() && y.n.Sign() > 0 {
		l := toLin(x)
		exact := new(big.Int).Rem(l.k, y.n).Sign() == 0
		for _, c := range l.m {
			if new(big.Int).Rem(c, y.n).Sign() != 0 {
				exact = false
			}
		}
		if exact {
			r := newLin()
			r.k.Quo(l.k, y.n)
			for a, c := range l.m {
				r.m[a] = new(big.Int).Quo(c, y.n)
			}
			return r.term()
		}
		if !exact && st != nil && len(l.m) > 0 { // (y*q + r) / y with r less than y
			q, r := newLin(), newLin()
			q.k.QuoRem(l.k, y.n, r.k)
			for a, c := range l.m {
				d, m := new(big.Int).QuoRem(c, y.n, new(big.Int))
				if d.Sign() != 0 {
					q.m[a] = d
				}
				if m.Sign() != 0 {
					r.m[a] = m
				}
			}
			if (len(q.m) > 0 || q.k.Sign() != 0) && len(r.m) > 0 {
				q, r := q.term(), r.term()
				if st.proves(mkLe(tZero, q)) && st.proves(mkLe(tZero, r)) && st.proves(mkLe(tAddI(r, 1), y)) {
					return q
				}
			}
		}
		if !exact && l.k.Sign() > 0 && l.k.Cmp(y.n) < 0 && len(l.m) > 0 { // (y*q + r) / y
			q := newLin()
			whole := true
			for a, c := range l.m {
				d, m := new(big.Int).QuoRem(c, y.n, new(big.Int))
				if m.Sign() != 0 {
					whole = false
					break
				}
				q.m[a] = d
			}
			if whole {
				if t := q.term(); naturalLin(t) || st != nil && st.proves(mkLe(tZero, t)) {
					return t
				}
			}
		}
		if byteTerm(x) && y.n.Cmp(big.NewInt(255)) > 0 {
			return tZero
		}
		if x.isApp("div") && byteTerm(x.a[0]) && x.a[1].isInt() && new(big.Int).Mul(x.a[1].n, y.n).Cmp(big.NewInt(255)) > 0 {
			return tZero
		}
		if st != nil && len(l.m) == 1 && l.k.Sign() == 0 && !exact {
			if e := multipleOf(st, x, y); e != nil {
				return mkDiv(nil, e, y)
			}
		}
		// div(div(a,b),c) = div(a, b*c) for non-negative a
		if x.isApp("div") && x.a[1].isInt() && naturalLin(x.a[0]) {
			return mkApp("div", types.Typ[types.Int], x.a[0], tMul(x.a[1], y))
		}
		if naturalLin(x) {
			return mkApp("div", types.Typ[types.Int], x, y)
		}
		if st != nil && st.proves(mkLe(tZero, x)) {
			d := mkApp("div", types.Typ[types.Int], x, y)
			f := st.WF()
			cy := tMul(y, d)
			f.le = append(f.le, tNeg(d), tSub(cy, x), tSub(tAdd(tSub(x, y), tOne), cy))
			return d
		}
	}
	return mkApp("div", types.Typ[types.Int], x, y)
}

func simplEq2(st *State, x, y *T, xt types.Type) *T {
	x, y = st.facts.rep(x), st.facts.rep(y)
	if isFloat(xt) {
		return mkEqRaw(x, y)
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return mkIntEq(x, y)
	}
	return simplEq(x, y)
}

func (in *Interp) convert(st *State, x *T, from, to types.Type) *T {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	// string <-> []byte / []rune
	if fb != nil && fb.Info()&types.IsString != 0 {
		if s, ok := to.Underlying().(*types.Slice); ok {
			r := in.freshAlloc("bytes", to)
			c := x
			if !isByteT(s.Elem()) {
				c = mkApp("runes", to, x)
			}
			st.set(r, c)
			n := seqLen(c)
			return mkSlice(r, tZero, n, n)
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := from.Underlying().(*types.Slice); ok {
			q := in.sliceSeq(st, x)
			if !isByteT(s.Elem()) {
				return mkApp("fromrunes", to, q)
			}
			return q
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if k, ok := x.int64(); ok {
				return mkLit(string(rune(k)))
			}
			return mkApp("runestr", to, x)
		}
		return x
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.isInt() {
			return wrapConst(x, to)
		}
		fw, fu := widthOf(from)
		tw, tu := widthOf(to)
		if tw >= fw && fu == tu || (fu && !tu && tw > fw) {
			return x
		}
		ok := true
		if tu {
			ok = st.proves(mkLe(tZero, x))
		} else {
			ok = st.proves(mkLe(mkBig(minOf[tb.Kind()]), x))
		}
		if ok && (tw < fw || fu && !tu) {
			m := maxOf[tb.Kind()]
			ok = m == nil || st.proves(mkLe(x, mkBig(m)))
		}
		if ok {
			return x
		}
		return mkApp("conv:"+tb.Name(), to, x)
	}
	if fb != nil && tb != nil { // float involved
		if isFloat(from) && isFloat(to) {
			return x
		}
		if x.isInt() && isFloat(to) {
			return mkApp("float:"+x.n.String(), to)
		}
		return mkApp("conv:"+tb.Name(), to, x)
	}
	return retype(x, to)
}

// noteAccess records reads and writes of fields and globals for lock-set rules.
func (in *Interp) noteAccess(st *State, fr *frame, addr *T, write bool, pos token.Pos) {
	if !in.trackAccess {
		return
	}
	a := addr
	for a.op == "elem" {
		a = a.a[0]
		if a.isApp("rgn") && a.a[0].isApp("init") {
			a = a.a[0].a[0]
		}
	}
	acc := Access{addr: addr, write: write, fn: fr.fn, pos: pos, held: st.held, onces: st.onces, root: in.root, st: st}
	switch a.op {
	case "field":
		acc.field = a.v.(*types.Var)
		acc.base = a.a[0]
	case "global":
		acc.glob = a.v.(*ssa.Global)
	case "alloc":
		acc.base = a
	default:
		return
	}
	r := rootOf(a)
	acc.fresh = r.op == "alloc" && !st.escaped[r]
	in.access = append(in.access, acc)
}

func isPow2(n *big.Int) bool {
	return n.Sign() > 0 && new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0
}

// multipleOf: an expression equal to x on this path whose parts are all
// divisible by y (a loop invariant x = k*n, say).
func multipleOf(st *State, x, y *T) *T {
	for _, t := range st.facts.le {
		l := toLin(t)
		c := l.m[x]
		if c == nil || c.CmpAbs(big.NewInt(1)) != 0 || len(l.m) < 2 {
			continue
		}
		rest := l.clone()
		delete(rest.m, x)
		if c.Sign() > 0 { // x + rest <= 0
			rest = newLin().addMul(rest, big.NewInt(-1))
		}
		ok := new(big.Int).Rem(rest.k, y.n).Sign() == 0
		for _, k := range rest.m {
			ok = ok && new(big.Int).Rem(k, y.n).Sign() == 0
		}
		if e := rest.term(); ok && st.proves(mkIntEq(x, e)) {
			return e
		}
	}
	return nil
}
