package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["H01"] = ruleDecodeAtomic
	properties["H02"] = ruleTotal
}

// destination of a decoder: what it points at or the slice it fills.
type decoder struct {
	fn   *ssa.Function
	dest int   // parameter index
	in   []int // parameters it reads from
}

var decodeNames = map[string]bool{"UnmarshalText": true, "UnmarshalJSON": true, "UnmarshalGraphQL": true, "UnmarshalBinary": true, "UnmarshalYAML": true,
	"UnmarshalTOML": true, "GobDecode": true, "DecodeRLP": true, "Scan": true}

// decoders are the decoding methods of the module, and the functions they share
// that fill a slice.
func (c *Check) decoders() []decoder {
	var out []decoder
	for _, f := range c.p.Funcs {
		sig := f.Signature
		res := sig.Results()
		if f.Synthetic != "" || f.Parent() != nil || res.Len() == 0 || res.At(res.Len()-1).Type().String() != "error" || len(f.Blocks) == 0 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if sig.Recv() != nil {
			if _, ptr := sig.Recv().Type().(*types.Pointer); ptr && decodeNames[f.Name()] && len(f.Params) == 2 {
				out = append(out, decoder{f, 0, []int{1}})
			}
			continue
		}
		if n := len(f.Params); strings.HasPrefix(f.Name(), "Unmarshal") && n >= 2 && isByteSlice(f.Params[n-1].Type()) && isByteSlice(f.Params[n-2].Type()) {
			out = append(out, decoder{f, n - 1, []int{n - 2}})
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnLabel(out[i].fn) < fnLabel(out[j].fn) })
	return out
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

// ruleDecodeAtomic: H01. A decoder that fails leaves its destination alone; one
// that succeeds has set it and keeps nothing of its input's memory, which it
// never changes.
func ruleDecodeAtomic(c *Check) {
	ds := c.decoders()
	nerr, nok := 0, 0
	for _, d := range ds {
		r := c.analyse(d.fn, nil)
		label := fnLabel(d.fn)
		in := r.in
		dst := in.expand(r.param(d.dest), d.fn.Params[d.dest].Type())
		root := dst
		if dst.op == "slice" {
			root = dst.a[0]
		}
		base := newState()
		for _, o := range r.outs {
			if o.kind != outReturn {
				continue // H02
			}
			st := o.st
			err := o.val
			if err.op == "tuple" {
				err = err.a[len(err.a)-1]
			}
			for _, i := range d.in {
				c.ok("input", label, !writtenUnder(in, st, base, memOf(in.expand(r.param(i), d.fn.Params[i].Type()))), o.pos, "decoding changes the input")
			}
			switch st.facts.decideEq(err, tNil) {
			case yes:
				nok++
				for _, i := range d.in {
					c.ok("alias", label, !pointsInto(st, root, memOf(in.expand(r.param(i), d.fn.Params[i].Type()))), o.pos, "the decoded value keeps referring to the memory of the input")
				}
				c.ok("set", label, writtenUnder(in, st, base, root) || emptyDest(st, dst), o.pos, "decoding reports success without having set its destination")
			default:
				nerr++
				c.ok("atomic", label, !writtenUnder(in, st, base, root), o.pos, "decoding can fail after it has changed its destination")
			}
		}
	}
	c.count("decoders", len(ds))
	c.count("failing paths", nerr)
	c.count("successful paths", nok)
	c.floor("decoders", "decoders", len(ds), 25)
	c.floor("decoders", "failing and successful paths", min(nerr, nok), 50)
}

func emptyDest(st *State, dst *T) bool {
	return dst.op == "slice" && st.proves(mkLe(dst.a[2], tZero))
}

// memOf is the memory a parameter gives access to.
func memOf(p *T) *T {
	if p.op == "slice" {
		return p.a[0]
	}
	return p
}

// writtenUnder: a cell of an object holds something else than at the start.
func writtenUnder(in *Interp, st, base *State, root *T) bool {
	for a, v := range st.heap {
		r := rootOf(a)
		under := r == root || anyTerm(r, func(y *T) bool { return y == root }) && r.op == "app"
		if !under || a.isApp("ghost") {
			continue
		}
		if v != base.heap[a] && v != in.peek(base, a, v) {
			return true
		}
	}
	return false
}

// pointsInto: a slice or pointer kept under root refers to other memory.
func pointsInto(st *State, root, mem *T) bool {
	for a, v := range st.heap {
		r := rootOf(a)
		if r != root && !(r.op == "app" && anyTerm(r, func(y *T) bool { return y == root })) {
			continue
		}
		if refersTo(v, mem) {
			return true
		}
	}
	return false
}

func refersTo(v, mem *T) bool {
	switch v.op {
	case "slice":
		return v.a[0] == mem || v.a[0].op == "app" && strings.HasPrefix(v.a[0].s, "rgn") && anyTerm(v.a[0], func(y *T) bool { return y == mem })
	case "iface", "struct", "tuple":
		for _, x := range v.a {
			if refersTo(x, mem) {
				return true
			}
		}
	case "app":
		return v == mem && v.typ != nil && isPtrT(v.typ)
	case "sym":
		return v == mem
	}
	return false
}

func isPtrT(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// ruleTotal: H02. Decoders, encoders and byte helpers never panic.
func ruleTotal(c *Check) {
	total := 0
	for _, f := range c.p.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Blocks) == 0 || f.Pkg == nil {
			continue
		}
		switch strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/") {
		case "common", "common/hexutil", "common/math":
		default:
			continue
		}
		if rt := f.Signature.Recv(); rt != nil {
			if n, ok := deref(rt.Type()).(*types.Named); ok && !n.Obj().Exported() {
				continue
			}
		}
		total++
		c.totalFn(f)
	}
	c.count("entry points", total)
	c.floor("total", "entry points", total, 80)
}

func (c *Check) totalFn(f *ssa.Function) {
	label := fnLabel(f)
	must := strings.HasPrefix(f.Name(), "Must") && f.Signature.Recv() == nil
	st := newState()
	in0 := newInterp(c.p)
	args := make([]*T, len(f.Params))
	for i, p := range f.Params {
		args[i] = in0.expand(mkSym(p.Name(), p.Type()), p.Type())
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			st.assume(mkLe(tZero, args[i]), true) // sizes and positions
		}
	}
	r := c.analyseFrom(st, f, args, nil)
	npanic := 0
	for _, o := range r.outs {
		switch o.kind {
		case outPanic:
			npanic++
			c.ok("total", label, must, o.pos, "the function can panic")
		case outFault:
			c.fail("total", label, o.pos, "the function can fault (nil pointer or impossible conversion)")
		case outExit:
			c.fail("total", label, o.pos, "the function can end the process")
		default:
			c.ok("total", label, true, o.pos, "")
		}
	}
	for _, ob := range r.in.oblig {
		c.ok("bounds", label+" "+ob.kind, ob.proven, ob.pos, "not shown to stay in bounds: %s", ob.text)
	}
	if !must {
		return
	}
	// panics exactly when the function it wraps fails
	inner := c.p.Func(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/"), strings.TrimPrefix(f.Name(), "Must"))
	if !c.ok("must", label, inner != nil, f.Pos(), "there is no function this one wraps") {
		return
	}
	for _, o := range r.outs {
		st := o.st
		if o.kind == outPanic {
			c.ok("must", label, o.pval != nil && st.facts.decideEq(o.pval, tNil) == no, o.pos, "the function panics although decoding did not fail")
			c.ok("must", label, isErrorValue(o.pval), o.pos, "the function does not panic with the decoding error")
		}
	}
	w := c.analyse(inner, nil)
	nerr := 0
	for _, o := range w.outs {
		if o.kind == outReturn && o.val.op == "tuple" && o.st.facts.decideEq(o.val.a[len(o.val.a)-1], tNil) != yes {
			nerr++
		}
	}
	c.ok("must", label, nerr == npanic, f.Pos(), "the function does not panic in every case in which %s fails (%d of %d)", fnLabel(inner), npanic, nerr)
}
