package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is one call met on a path.
type callCtx struct {
	in          *Interp
	st          *State
	fr          *frame
	common      *ssa.CallCommon
	pos         token.Pos
	fnv         *T   // static, closure or dynamic callee value (nil for interface calls)
	recv        *T   // receiver of an interface call
	args        []*T // arguments (including the receiver for static method calls)
	isDefer     bool
	recoverUsed bool
}

func (in *Interp) callCtxOf(st *State, fr *frame, c *ssa.CallCommon, pos token.Pos) *callCtx {
	cc := &callCtx{in: in, st: st, fr: fr, common: c, pos: pos}
	if c.IsInvoke() {
		cc.recv = in.val(fr, c.Value)
	} else {
		cc.fnv = in.val(fr, c.Value)
	}
	for _, a := range c.Args {
		cc.args = append(cc.args, in.val(fr, a))
	}
	return cc
}

// callee is the name of the function or method called, as go/types prints it.
func (c *callCtx) callee() string {
	if c.common.IsInvoke() {
		return c.common.Method.FullName()
	}
	if c.fnv != nil && c.fnv.op == "fn" {
		return fnName(c.fnv.v.(*ssa.Function))
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

func (c *callCtx) resType() types.Type { return resultType(c.common.Signature()) }

func (c *callCtx) ret(v *T) []Outcome {
	if v == nil {
		v = tUnit
	}
	return []Outcome{{st: c.st, val: v, pos: c.pos}}
}

func (c *callCtx) fault() []Outcome {
	return []Outcome{{st: c.st, kind: outFault, pos: c.pos}}
}

func (c *callCtx) ev(kind, name string, args []*T, res *T) *Event {
	return c.in.event(c.st, kind, name, c.fr, c.pos, args, res)
}

// oblige records a precondition of a library call.
func (c *callCtx) oblige(kind string, cond *T) bool {
	return c.in.oblige(c.st, kind, c.fr.fn, c.pos, cond)
}

// fork returns one outcome per alternative; each fills its own state.
func (c *callCtx) fork(alts ...func(c *callCtx) []Outcome) []Outcome {
	var outs []Outcome
	for i, f := range alts {
		d := *c
		if i < len(alts)-1 {
			d.st = c.st.clone()
		}
		if d.st.facts.dead {
			continue
		}
		for _, o := range f(&d) {
			if !o.st.facts.dead {
				outs = append(outs, o)
			}
		}
	}
	return outs
}

// when is the alternative taken if cond holds.
func when(cond *T, f func(c *callCtx) []Outcome) func(c *callCtx) []Outcome {
	return func(c *callCtx) []Outcome {
		if !c.st.assume(cond, true) {
			return nil
		}
		return f(c)
	}
}

func (in *Interp) dispatch(c *callCtx) []Outcome {
	if c.fnv != nil {
		c.fnv = c.st.facts.rep(c.fnv)
	}
	if c.recv != nil {
		c.recv = c.st.facts.rep(c.recv)
	}
	if in.hook != nil {
		if outs := in.hook(c); outs != nil {
			return outs
		}
	}
	if c.common.IsInvoke() {
		return in.invoke(c)
	}
	if b, ok := c.common.Value.(*ssa.Builtin); ok {
		return in.builtin(c, b)
	}
	f := c.fnv
	if f == tNil {
		return c.fault()
	}
	if f.op == "fn" {
		return in.callFn(c, f.v.(*ssa.Function), f.a, c.args)
	}
	if f.op == "app" && strings.HasPrefix(f.s, "method:") { // a bound method of an unknown interface value
		c.ev("invoke", strings.TrimPrefix(f.s, "method:"), append([]*T{f.a[0]}, c.args...), nil)
		return in.unknownCall(c, c.args, c.resType())
	}
	e := c.ev("callback", "", append([]*T{f}, c.args...), nil)
	outs := in.unknownCall(c, c.args, c.resType())
	e.res = outs[0].val
	return outs
}

// unknownCall: code outside the analysed program runs. It may change anything
// shared that no held lock protects.
func (in *Interp) unknownCall(c *callCtx, args []*T, rt types.Type) []Outcome {
	for _, a := range args {
		in.escape(c.st, a)
	}
	if len(c.st.held) == 0 {
		in.havocShared(c.st)
	}
	var v *T = tUnit
	if rt != nil {
		if tt, ok := rt.(*types.Tuple); !ok || tt.Len() > 0 {
			v = in.fresh("res", rt)
		}
	}
	return c.ret(v)
}

func (in *Interp) callFn(c *callCtx, fn *ssa.Function, binds, args []*T) []Outcome {
	fn = originOf(fn)
	if len(fn.Blocks) == 0 || !inRepoOrSynthetic(fn) {
		return in.external(c, fn, args)
	}
	n := 0
	for _, f := range c.st.stack {
		if f == fn {
			n++
		}
	}
	if n >= 2 && len(args) > 0 && args[0].op == "fn" {
		n = 0 // a method of a function type, dispatching to different functions
	}
	if n >= 2 || c.st.depth >= in.maxDepth {
		c.ev("recursive", fnName(fn), args, nil)
		return in.unknownCall(c, args, c.resType())
	}
	outs := in.Call(c.st, fn, args, binds)
	if c.isDefer && callsRecover(fn) {
		c.recoverUsed = true
	}
	return outs
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(*ssa.Call); ok {
				if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func inRepoOrSynthetic(fn *ssa.Function) bool {
	return inRepo(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0
}

// methodOf finds the concrete method a known dynamic type dispatches to.
func (in *Interp) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := in.p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.p.SSA.MethodValue(sel)
}

func (in *Interp) invoke(c *callCtx) []Outcome {
	name := c.common.Method.FullName()
	r := c.recv
	if r == tNil || c.st.facts.decideEq(r, tNil) == yes {
		return c.fault()
	}
	if r.op == "iface" {
		fn := in.methodOf(r.typ, c.common.Method)
		if fn != nil {
			args := append([]*T{r.a[0]}, c.args...)
			if len(fn.Blocks) > 0 && inRepoOrSynthetic(fn) {
				return in.callFn(c, fn, nil, args)
			}
			return in.external(c, fn, args)
		}
	}
	if outs := in.invokeModel(c, name); outs != nil {
		return outs
	}
	e := c.ev("invoke", name, append([]*T{r}, c.args...), nil)
	outs := in.unknownCall(c, c.args, c.resType())
	e.res = outs[0].val
	return outs
}

// ---- builtins ----

func (in *Interp) builtin(c *callCtx, b *ssa.Builtin) []Outcome {
	st, a := c.st, c.args
	switch b.Name() {
	case "len":
		if a[0].op == "slice" {
			return c.ret(a[0].a[2])
		}
		switch u := c.common.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if a[0] == tNil {
				return c.ret(tZero)
			}
			return c.ret(mapLen(in.mapContent(st, a[0])))
		case *types.Chan:
			in.nfresh++
			n := mkApp("nat", types.Typ[types.Int], mkSym(fmt.Sprintf("chanlen#%d", in.nfresh), nil), a[0])
			return c.ret(n)
		case *types.Pointer:
			return c.ret(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Array:
			return c.ret(mkInt(u.Len()))
		}
		if a[0].op == "tuple" || a[0] == tNil {
			return c.ret(tZero)
		}
		return c.ret(seqLen(a[0]))
	case "cap":
		if a[0].op == "slice" {
			return c.ret(a[0].a[3])
		}
		if _, ok := c.common.Args[0].Type().Underlying().(*types.Chan); ok && a[0].op == "mkchan" {
			return c.ret(a[0].a[0])
		}
		return c.ret(mkApp("cap", types.Typ[types.Int], a[0]))
	case "append":
		return in.doAppend(c)
	case "copy":
		dst := a[0]
		var src *T
		if bt, ok := c.common.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			src = a[1]
		} else {
			src = in.sliceSeq(st, a[1])
		}
		n := seqLen(src)
		if dst.op != "slice" {
			return c.ret(in.fresh("copied", types.Typ[types.Int]))
		}
		do := func(c *callCtx, n *T) []Outcome {
			if n != tZero {
				in.writeSlice(c.st, c.fr, dst, tZero, subSeq(c.st.facts, src, tZero, n), c.pos)
			}
			return c.ret(n)
		}
		switch st.facts.decide(mkLe(n, dst.a[2])) {
		case yes:
			return do(c, n)
		case no:
			return do(c, dst.a[2])
		}
		return c.fork(
			when(mkLe(n, dst.a[2]), func(c *callCtx) []Outcome { return do(c, n) }),
			when(mkLt(dst.a[2], n), func(c *callCtx) []Outcome { return do(c, dst.a[2]) }))
	case "delete":
		m := a[0]
		c.ev("mapdelete", "", []*T{m, a[1]}, nil)
		if m != tNil {
			st.set(mkApp("mapc", nil, m), mkApp("mapdel", nil, in.mapContent(st, m), a[1]))
		}
		return c.ret(tUnit)
	case "clear":
		m := a[0]
		if _, ok := c.common.Args[0].Type().Underlying().(*types.Map); ok {
			c.ev("mapclear", "", []*T{m}, nil)
			st.set(mkApp("mapc", nil, m), mkSym("mapempty", nil))
		} else if m.op == "slice" {
			et := c.common.Args[0].Type().Underlying().(*types.Slice).Elem()
			in.writeSlice(st, c.fr, m, tZero, mkZero(m.a[2], in.zeroVal(et)), c.pos)
		}
		return c.ret(tUnit)
	case "close":
		if a[0] == tNil || st.facts.decideEq(a[0], tNil) == yes {
			return c.fault()
		}
		c.ev("close", "", []*T{a[0]}, nil)
		return c.ret(tUnit)
	case "panic":
		c.ev("panic", "", a, nil)
		return []Outcome{{st: st, kind: outPanic, pos: c.pos, pval: a[0]}}
	case "recover":
		c.recoverUsed = true
		return c.ret(in.fresh("recovered", c.resType()))
	case "print", "println":
		return c.ret(tUnit)
	case "min", "max":
		x, y := a[0], a[1]
		if len(a) != 2 || isFloat(c.common.Args[0].Type()) {
			return c.ret(in.fresh("minmax", c.resType()))
		}
		lo, hi := x, y
		if b.Name() == "max" {
			lo, hi = y, x
		}
		return c.fork(
			when(mkLe(x, y), func(c *callCtx) []Outcome { return c.ret(lo) }),
			when(mkLt(y, x), func(c *callCtx) []Outcome { return c.ret(hi) }))
	case "ssa:wrapnilchk":
		if a[0] == tNil {
			return c.fault()
		}
		return c.ret(a[0])
	}
	c.ev("call", "builtin."+b.Name(), a, nil)
	return c.ret(in.fresh("builtin", c.resType()))
}

func mapLen(c *T) *T {
	if c.op == "sym" && c.s == "mapempty" {
		return tZero
	}
	return mkApp("len", types.Typ[types.Int], c)
}

// writeSlice replaces s[off:off+len(src)] by src.
func (in *Interp) writeSlice(st *State, fr *frame, s, off, src *T, pos token.Pos) {
	if s.op != "slice" || s.a[0] == tNil {
		return
	}
	r := s.a[0]
	in.noteAccess(st, fr, mkElem(r, tAdd(s.a[1], off), nil), true, pos)
	if in.onStore != nil {
		in.onStore(st, mkElem(r, tAdd(s.a[1], off), nil), src, pos, fr.fn)
	}
	if root := rootOf(r); root.op != "alloc" || st.escaped[root] {
		in.escape(st, src)
	}
	in.setContent(st, r, writeRange(st.facts, in.content(st, r), tAdd(s.a[1], off), src))
}

// setContent replaces the whole content of a region.
func (in *Interp) setContent(st *State, r, c *T) {
	if r.op == "elem" || (r.op == "field" && throughElem(r)) {
		in.store(st, r, c, r.typ)
		return
	}
	st.set(r, c)
}

func (in *Interp) doAppend(c *callCtx) []Outcome {
	st, a := c.st, c.args
	s := a[0]
	var src *T
	if len(a) < 2 {
		return c.ret(s)
	}
	if bt, ok := c.common.Args[1].Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		src = a[1]
	} else if a[1] == tNil {
		return c.ret(s)
	} else {
		src = in.sliceSeq(st, a[1])
	}
	if s.op != "slice" {
		return c.ret(in.fresh("append", c.resType()))
	}
	n := seqLen(src)
	if n == tZero {
		return c.ret(s)
	}
	nl := tAdd(s.a[2], n)
	grow := func(c *callCtx) []Outcome {
		old := in.sliceSeq(c.st, s)
		r := in.freshAlloc("append", c.resType())
		cp := mkApp("capof", types.Typ[types.Int], r)
		c.st.assume(mkLe(nl, cp), true)
		in.nfresh++
		c.st.set(r, mkCat(old, src, mkSubRaw(mkSym(fmt.Sprintf("slack#%d", in.nfresh), c.resType()), tZero, tSub(cp, nl))))
		return c.ret(mkSlice(r, tZero, nl, cp))
	}
	inplace := func(c *callCtx) []Outcome {
		in.writeSlice(c.st, c.fr, s, s.a[2], src, c.pos)
		return c.ret(mkSlice(s.a[0], s.a[1], nl, s.a[3]))
	}
	if s.a[0] == tNil {
		return grow(c)
	}
	switch st.facts.decide(mkLe(nl, s.a[3])) {
	case yes:
		return inplace(c)
	case no:
		return grow(c)
	}
	// The growth of a private slice is not observable: one representation is
	// enough unless the backing store is shared.
	if r := rootOf(s.a[0]); r.op == "alloc" && !st.escaped[r] && strings.HasPrefix(r.s, "append") {
		return grow(c)
	}
	return c.fork(
		when(mkLt(s.a[3], nl), grow),
		when(mkLe(nl, s.a[3]), inplace))
}

func (in *Interp) varargs(st *State, s *T) ([]*T, bool) {
	if s == tNil || s.op == "slice" && s.a[2] == tZero {
		return nil, true
	}
	if s.op != "slice" {
		return nil, false
	}
	n, ok := s.a[2].int64()
	if !ok || n > 64 {
		return nil, false
	}
	q := in.sliceSeq(st, s)
	var out []*T
	for i := int64(0); i < n; i++ {
		out = append(out, atTyped(in, st, q, mkInt(i), emptyIface))
	}
	return out, true
}

var emptyIface = types.NewInterfaceType(nil, nil)
