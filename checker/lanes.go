package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	mathbits "math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A value numbering of straight-line word code. Every word is kept in algebraic
// normal form over GF(2): an exclusive-or of products of rotated inputs, each
// under a mask of bit positions. The form is canonical, so two words are the same
// function of the inputs exactly when their forms are the same. Control flow has to
// be settled by constants (a fixed number of rounds); a branch on an input stops
// the numbering.

type monomialW string // "3<5*7<0": inputs 3 and 7, rotated left by 5 and 0

type word struct {
	terms map[monomialW]uint64 // product -> the bits it contributes to; the empty product is a constant
}

func constWord(v uint64) *word {
	w := &word{map[monomialW]uint64{}}
	if v != 0 {
		w.terms[""] = v
	}
	return w
}

func inputWord(n int) *word {
	return &word{map[monomialW]uint64{monomialW(fmt.Sprintf("%d<0", n)): ^uint64(0)}}
}

func (w *word) constant() (uint64, bool) {
	if len(w.terms) == 0 {
		return 0, true
	}
	if v, ok := w.terms[""]; ok && len(w.terms) == 1 {
		return v, true
	}
	return 0, false
}

func (w *word) xor(o *word) *word {
	r := &word{make(map[monomialW]uint64, len(w.terms)+len(o.terms))}
	for k, v := range w.terms {
		r.terms[k] = v
	}
	for k, v := range o.terms {
		if n := r.terms[k] ^ v; n != 0 {
			r.terms[k] = n
		} else {
			delete(r.terms, k)
		}
	}
	return r
}

func mergeMonomials(a, b monomialW) monomialW {
	if a == "" || a == b {
		return b
	}
	if b == "" {
		return a
	}
	set := map[string]bool{}
	var all []string
	for _, p := range append(strings.Split(string(a), "*"), strings.Split(string(b), "*")...) {
		if !set[p] {
			set[p] = true
			all = append(all, p)
		}
	}
	sort.Strings(all)
	return monomialW(strings.Join(all, "*"))
}

// tooLong: the normal forms of the words of a round have some hundred terms; words that
// were not those of a round grow without end.
const tooLong = 100000

func (w *word) and(o *word) *word {
	if len(w.terms)*len(o.terms) > tooLong {
		panic(stopped{"a word is not one of a round of Keccak-f[1600], and what is made of it grows too long to be followed", token.NoPos})
	}
	r := &word{map[monomialW]uint64{}}
	for k, v := range w.terms {
		for k2, v2 := range o.terms {
			m := v & v2
			if m == 0 {
				continue
			}
			k3 := mergeMonomials(k, k2)
			if n := r.terms[k3] ^ m; n != 0 {
				r.terms[k3] = n
			} else {
				delete(r.terms, k3)
			}
		}
	}
	return r
}

func (w *word) rotl(n int) *word {
	r := &word{make(map[monomialW]uint64, len(w.terms))}
	for k, v := range w.terms {
		var parts []string
		if k != "" {
			for _, p := range strings.Split(string(k), "*") {
				var a, s int
				fmt.Sscanf(p, "%d<%d", &a, &s)
				parts = append(parts, fmt.Sprintf("%d<%d", a, (s+n+64)%64))
			}
		}
		sort.Strings(parts)
		r.terms[monomialW(strings.Join(parts, "*"))] = mathbits.RotateLeft64(v, n)
	}
	return r
}

func (w *word) mask(m uint64) *word { return w.and(constWord(m)) }
func (w *word) not() *word          { return w.xor(constWord(^uint64(0))) }
func (w *word) or(o *word) *word    { return w.xor(o).xor(w.and(o)) }
func (w *word) shl(n uint64) *word {
	if n >= 64 {
		return constWord(0)
	}
	return w.rotl(int(n)).mask(^uint64(0) << n)
}
func (w *word) shr(n uint64) *word {
	if n >= 64 {
		return constWord(0)
	}
	return w.rotl(64 - int(n)).mask(^uint64(0) >> n)
}

func (w *word) key() string {
	ks := make([]string, 0, len(w.terms))
	for k, v := range w.terms {
		ks = append(ks, fmt.Sprintf("%s:%x", k, v))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

// A numbered value is a word, a place (an offset into an object), a slice of an
// object, a whole object, or a tuple of values.
type nval struct {
	w        *word
	obj      *nobj
	off      int
	len, cap int // of a slice
	slice    bool
	parts    []*nval
}

type nobj struct{ cells []*word }

type numberer struct {
	p     *Program
	cut   map[string]*word // a form the rule gives a name of its own
	cuts  int
	made  map[string]bool
	steps int
	glob  map[*ssa.Global]*nobj
}

type stopped struct {
	why string
	pos token.Pos
}

func (n *numberer) stop(pos token.Pos, format string, args ...any) {
	panic(stopped{fmt.Sprintf(format, args...), pos})
}

// cells is the number of words a type takes.
func (n *numberer) cells(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return 1
	case *types.Array:
		return int(u.Len()) * n.cells(u.Elem())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			s += n.cells(u.Field(i).Type())
		}
		return s
	}
	n.stop(token.NoPos, "a value of type %s", t)
	return 0
}

func width(t types.Type) (uint, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false
	case types.Int8:
		return 8, true
	case types.Uint16:
		return 16, false
	case types.Int16:
		return 16, true
	case types.Uint32:
		return 32, false
	case types.Int32:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	}
	return 64, false
}

// narrow wraps a constant to a type's width (sign-extended into 64 bits).
func narrow(v uint64, t types.Type) uint64 {
	bitsN, signed := width(t)
	if bitsN == 64 {
		return v
	}
	v &= 1<<bitsN - 1
	if signed && v>>(bitsN-1) != 0 {
		v |= ^uint64(0) << bitsN
	}
	return v
}

// call numbers one call. The result is the list of results.
func (n *numberer) call(f *ssa.Function, args []*nval, depth int) []*nval {
	if depth > 20 || len(f.Blocks) == 0 {
		n.stop(f.Pos(), "a call of %s", f.Name())
	}
	env := map[ssa.Value]*nval{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	b, prev := f.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		var next *ssa.BasicBlock
		phis := map[ssa.Value]*nval{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == prev {
					phis[phi] = n.val(env, phi.Edges[i])
				}
			}
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, ins := range b.Instrs {
			n.steps++
			if n.steps > 400000 {
				n.stop(ins.Pos(), "more than %d steps", n.steps)
			}
			switch ins := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := n.val(env, ins.Cond).w.constant()
				if !ok {
					n.stop(ins.Cond.Pos(), "a branch that depends on the state")
				}
				next = b.Succs[1]
				if c != 0 {
					next = b.Succs[0]
				}
			case *ssa.Return:
				var out []*nval
				for _, r := range ins.Results {
					out = append(out, n.val(env, r))
				}
				return out
			case *ssa.Store:
				n.store(n.val(env, ins.Addr), n.val(env, ins.Val), ins.Pos())
			case ssa.Value:
				env[ins] = n.eval(env, ins, depth)
			default:
				n.stop(ins.Pos(), "%T", ins)
			}
		}
		if next == nil {
			n.stop(f.Pos(), "a block without an end")
		}
		b, prev = next, b
	}
}

func (n *numberer) store(a, v *nval, pos token.Pos) {
	if a.obj == nil {
		n.stop(pos, "a store through an unknown pointer")
	}
	if v.w != nil {
		a.obj.cells[a.off] = v.w
		return
	}
	if v.obj == nil || v.slice {
		n.stop(pos, "a store of something that is not made of words")
	}
	copy(a.obj.cells[a.off:], v.obj.cells)
}

func (n *numberer) val(env map[ssa.Value]*nval, v ssa.Value) *nval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return &nval{obj: &nobj{zeros(n.cells(v.Type()))}}
		}
		switch v.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(v.Value) {
				return &nval{w: constWord(1)}
			}
			return &nval{w: constWord(0)}
		case constant.Int:
			if u, ok := constant.Uint64Val(v.Value); ok {
				return &nval{w: constWord(u)}
			}
			i, _ := constant.Int64Val(v.Value)
			return &nval{w: constWord(uint64(i))}
		}
		n.stop(v.Pos(), "constant %s", v)
	case *ssa.Global:
		return &nval{obj: n.global(v)}
	}
	r := env[v]
	if r == nil {
		n.stop(v.Pos(), "%s", v)
	}
	return r
}

func zeros(n int) []*word {
	z := constWord(0)
	out := make([]*word, n)
	for i := range out {
		out[i] = z
	}
	return out
}

// global is the content of a package variable that nothing writes after its
// package was initialised.
func (n *numberer) global(g *ssa.Global) *nobj {
	if o := n.glob[g]; o != nil {
		return o
	}
	o := &nobj{zeros(n.cells(deref(g.Type())))}
	n.glob[g] = o
	for _, f := range n.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == ssa.Value(g) && !onlyRead(ins, g) {
						n.stop(ins.Pos(), "%s is written by %s, so it is no constant", g.Name(), fnLabel(f))
					}
				}
			}
		}
	}
	init := g.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			if off, ok := n.offsetIn(st.Addr, g); ok {
				if c, isC := st.Val.(*ssa.Const); isC {
					n.store(&nval{obj: o, off: off}, n.val(nil, c), st.Pos())
				} else if ld, isL := st.Val.(*ssa.UnOp); isL && ld.Op == token.MUL {
					// *tmp, a composite literal built in place
					tmp, isA := ld.X.(*ssa.Alloc)
					if !isA {
						n.stop(st.Pos(), "%s is not initialised by constants", g.Name())
					}
					for _, b2 := range init.Blocks {
						for _, i2 := range b2.Instrs {
							s2, ok := i2.(*ssa.Store)
							if !ok {
								continue
							}
							if off2, ok := n.offsetIn(s2.Addr, tmp); ok {
								c, isC := s2.Val.(*ssa.Const)
								if !isC {
									n.stop(s2.Pos(), "%s is not initialised by constants", g.Name())
								}
								n.store(&nval{obj: o, off: off + off2}, n.val(nil, c), s2.Pos())
							}
						}
					}
				} else {
					n.stop(st.Pos(), "%s is not initialised by constants", g.Name())
				}
			}
		}
	}
	return o
}

func (n *numberer) offsetIn(a ssa.Value, root ssa.Value) (int, bool) {
	switch a := a.(type) {
	case *ssa.IndexAddr:
		off, ok := n.offsetIn(a.X, root)
		c, isC := a.Index.(*ssa.Const)
		if !ok || !isC {
			return 0, false
		}
		arr, isArr := deref(a.X.Type()).Underlying().(*types.Array)
		if !isArr {
			return 0, false
		}
		return off + int(c.Int64())*n.cells(arr.Elem()), true
	}
	return 0, a == root
}

// onlyRead reports that an instruction outside init does nothing to g but read it.
func onlyRead(ins ssa.Instruction, g *ssa.Global) bool {
	if ins.Parent().Synthetic == "package initializer" {
		return true
	}
	if _, ok := ins.(*ssa.DebugRef); ok {
		return true
	}
	v, ok := ins.(ssa.Value)
	if !ok {
		return false
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.UnOp:
				if u.Op != token.MUL {
					return false
				}
			case *ssa.IndexAddr:
				for _, r2 := range *u.Referrers() {
					if l, ok := r2.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return false
					}
				}
			case *ssa.Call:
				if b, ok := u.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}

func (n *numberer) number(w *word) *word {
	if len(w.terms) < 2 {
		return w
	}
	if r := n.cut[w.key()]; r != nil {
		n.cuts++
		if n.made == nil {
			n.made = map[string]bool{}
		}
		n.made[r.key()] = true
		return r
	}
	return w
}

func (n *numberer) eval(env map[ssa.Value]*nval, ins ssa.Value, depth int) *nval {
	word1 := func(w *word) *nval { return &nval{w: n.number(w)} }
	konst := func(v ssa.Value) int64 {
		x := n.val(env, v)
		if x.w == nil {
			n.stop(ins.Pos(), "%s", v)
		}
		c, ok := x.w.constant()
		if !ok {
			n.stop(ins.Pos(), "an index that depends on the state")
		}
		return int64(c)
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		return &nval{obj: &nobj{zeros(n.cells(deref(x.Type())))}}
	case *ssa.IndexAddr:
		b, i := n.val(env, x.X), konst(x.Index)
		if b.slice {
			if i < 0 || i >= int64(b.len) {
				n.stop(x.Pos(), "an index out of range")
			}
			return &nval{obj: b.obj, off: b.off + int(i)*n.cells(deref(x.Type()))}
		}
		arr, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if !ok || i < 0 || i >= arr.Len() {
			n.stop(x.Pos(), "an index out of range")
		}
		return &nval{obj: b.obj, off: b.off + int(i)*n.cells(arr.Elem())}
	case *ssa.FieldAddr:
		b := n.val(env, x.X)
		st := deref(x.X.Type()).Underlying().(*types.Struct)
		off := b.off
		for i := 0; i < x.Field; i++ {
			off += n.cells(st.Field(i).Type())
		}
		return &nval{obj: b.obj, off: off}
	case *ssa.Index:
		b, i := n.val(env, x.X), konst(x.Index)
		sz := n.cells(x.Type())
		if b.obj == nil || i < 0 || int(i+1)*sz > len(b.obj.cells) {
			n.stop(x.Pos(), "an index out of range")
		}
		return n.load(b.obj, int(i)*sz, x.Type())
	case *ssa.Slice:
		b := n.val(env, x.X)
		ln, cp, off := b.len, b.cap, b.off
		elem := types.Type(nil)
		if !b.slice {
			arr := deref(x.X.Type()).Underlying().(*types.Array)
			ln, cp, elem = int(arr.Len()), int(arr.Len()), arr.Elem()
		} else {
			elem = x.X.Type().Underlying().(*types.Slice).Elem()
		}
		lo, hi := 0, ln
		if x.Low != nil {
			lo = int(konst(x.Low))
		}
		if x.High != nil {
			hi = int(konst(x.High))
		}
		if x.Max != nil || lo < 0 || hi < lo || hi > cp {
			n.stop(x.Pos(), "a slice expression")
		}
		return &nval{obj: b.obj, slice: true, off: off + lo*n.cells(elem), len: hi - lo, cap: cp - lo}
	case *ssa.Extract:
		return n.val(env, x.Tuple).parts[x.Index]
	case *ssa.ChangeType:
		return n.val(env, x.X)
	case *ssa.Convert:
		v := n.val(env, x.X)
		if v.w == nil {
			n.stop(x.Pos(), "%s", x)
		}
		if c, ok := v.w.constant(); ok {
			return &nval{w: constWord(narrow(c, x.Type()))}
		}
		if bitsN, _ := width(x.Type()); bitsN < 64 {
			return word1(v.w.mask(1<<bitsN - 1))
		}
		return v
	case *ssa.UnOp:
		v := n.val(env, x.X)
		switch x.Op {
		case token.MUL:
			if v.obj == nil {
				n.stop(x.Pos(), "a load through an unknown pointer")
			}
			return n.load(v.obj, v.off, x.Type())
		case token.XOR:
			bitsN, signed := width(x.Type())
			if bitsN < 64 && !signed {
				return word1(v.w.xor(constWord(1<<bitsN - 1)))
			}
			return word1(v.w.not())
		case token.NOT:
			return word1(v.w.xor(constWord(1)))
		case token.SUB:
			if c, ok := v.w.constant(); ok {
				return &nval{w: constWord(narrow(-c, x.Type()))}
			}
		}
		n.stop(x.Pos(), "%s of a word that depends on the state", x.Op)
	case *ssa.BinOp:
		a, b := n.val(env, x.X), n.val(env, x.Y)
		if a.w == nil || b.w == nil {
			n.stop(x.Pos(), "%s", x)
		}
		return word1(n.binop(x, a.w, b.w))
	case *ssa.Call:
		return n.invoke(env, x, depth)
	}
	n.stop(ins.Pos(), "%T", ins)
	return nil
}

func (n *numberer) load(o *nobj, off int, t types.Type) *nval {
	if _, ok := t.Underlying().(*types.Basic); ok {
		return &nval{w: o.cells[off]}
	}
	k := n.cells(t)
	return &nval{obj: &nobj{append([]*word{}, o.cells[off:off+k]...)}}
}

func (n *numberer) binop(x *ssa.BinOp, a, b *word) *word {
	ca, okA := a.constant()
	cb, okB := b.constant()
	bitsN, signed := width(x.X.Type())
	full := ^uint64(0)
	if bitsN < 64 {
		full = 1<<bitsN - 1
	}
	boolW := func(v bool) *word {
		if v {
			return constWord(1)
		}
		return constWord(0)
	}
	if okA && okB {
		cmp := 0
		if signed {
			if int64(ca) < int64(cb) {
				cmp = -1
			} else if int64(ca) > int64(cb) {
				cmp = 1
			}
		} else if ca < cb {
			cmp = -1
		} else if ca > cb {
			cmp = 1
		}
		switch x.Op {
		case token.ADD:
			return constWord(narrow(ca+cb, x.Type()))
		case token.SUB:
			return constWord(narrow(ca-cb, x.Type()))
		case token.MUL:
			return constWord(narrow(ca*cb, x.Type()))
		case token.QUO, token.REM:
			if cb == 0 {
				n.stop(x.Pos(), "division by zero")
			}
			q, r := ca/cb, ca%cb
			if signed {
				q, r = uint64(int64(ca)/int64(cb)), uint64(int64(ca)%int64(cb))
			}
			if x.Op == token.QUO {
				return constWord(narrow(q, x.Type()))
			}
			return constWord(narrow(r, x.Type()))
		case token.EQL:
			return boolW(cmp == 0)
		case token.NEQ:
			return boolW(cmp != 0)
		case token.LSS:
			return boolW(cmp < 0)
		case token.LEQ:
			return boolW(cmp <= 0)
		case token.GTR:
			return boolW(cmp > 0)
		case token.GEQ:
			return boolW(cmp >= 0)
		case token.SHR:
			if signed {
				if cb > 63 {
					cb = 63
				}
				return constWord(uint64(int64(ca) >> cb))
			}
		}
	}
	switch x.Op {
	case token.XOR:
		return a.xor(b)
	case token.AND:
		return a.and(b)
	case token.AND_NOT:
		return a.and(b.not())
	case token.OR:
		return a.or(b)
	case token.ADD:
		// no carry where no bit is set in both
		if len(a.and(b).terms) == 0 {
			return a.xor(b)
		}
	case token.SHL:
		if okB {
			return a.shl(cb).mask(full)
		}
	case token.SHR:
		if okB && !signed {
			return a.shr(cb)
		}
	}
	n.stop(x.Pos(), "%s of words that depend on the state", x.Op)
	return nil
}

func (n *numberer) invoke(env map[ssa.Value]*nval, x *ssa.Call, depth int) *nval {
	args := make([]*nval, len(x.Call.Args))
	for i, a := range x.Call.Args {
		args[i] = n.val(env, a)
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if args[0].slice {
				return &nval{w: constWord(uint64(args[0].len))}
			}
			if arr, ok := deref(x.Call.Args[0].Type()).Underlying().(*types.Array); ok {
				return &nval{w: constWord(uint64(arr.Len()))}
			}
		case "copy":
			if args[0].slice && args[1].slice {
				k := min(args[0].len, args[1].len)
				src := append([]*word{}, args[1].obj.cells[args[1].off:args[1].off+k]...)
				copy(args[0].obj.cells[args[0].off:], src)
				return &nval{w: constWord(uint64(k))}
			}
		}
		n.stop(x.Pos(), "%s", b.Name())
	}
	f := x.Call.StaticCallee()
	if f == nil {
		n.stop(x.Pos(), "a dynamic call")
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" && f.Name() == "RotateLeft64" {
		k, ok := args[1].w.constant()
		if !ok {
			n.stop(x.Pos(), "a rotation that depends on the state")
		}
		return &nval{w: n.number(args[0].w.rotl(int(((int64(k) % 64) + 64) % 64)))}
	}
	if f.Pkg == nil || n.p.SPkgs[f.Pkg.Pkg.Path()] == nil {
		n.stop(x.Pos(), "a call of %s", fnLabel(f))
	}
	out := n.call(f, args, depth+1)
	if len(out) == 1 {
		return out[0]
	}
	return &nval{parts: out}
}
