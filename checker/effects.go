package main

// Effect analysis on SSA: which memory handed to a function may be written by
// it, directly or through anything it calls inside the repository. Two kinds of
// memory are tracked: the digits of a big.Int ("number") and the elements of a
// slice ("slice"). The analysis is flow-sensitive as far as SSA is (every value
// has one definition), path-insensitive, interprocedural by summaries computed
// to a fixpoint, and never runs or unrolls anything.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// origin says where a reference comes from.
type origin struct {
	kind   byte // 'p' parameter, 'f' free variable, 'g' global, 'a' allocation of this function
	idx    int
	obj    ssa.Value // global or allocation
	inside bool      // reached through a pointer stored in it, not the thing itself
}

type origins map[origin]bool

func (o origins) add(p origins) bool {
	ch := false
	for k := range p {
		if !o[k] {
			o[k] = true
			ch = true
		}
	}
	return ch
}

// effect is one write to memory the function did not make itself. For "keep",
// o is what is remembered and dst the memory that goes on referring to it.
type effect struct {
	what string // "number", "replace", "slice", "table" or "keep"
	o    origin
	dst  origin
}

type witness struct {
	pos  token.Pos
	text string
}

type effSummary struct {
	writes  map[effect]witness
	results []origins
}

type effects struct {
	p     *Program
	sum   map[*ssa.Function]*effSummary
	fx    map[*ssa.Function]*fnEffects
	once  map[*ssa.Function]bool // runs only during set-up
	value map[*ssa.Function]bool // used as a value: whoever gets it can call it
	calls int
	sites int
}

type fnEffects struct {
	e       *effects
	fn      *ssa.Function
	stores  map[ssa.Value][]cellStore // allocation -> values stored into it
	memo    map[ssa.Value]origins
	busy    map[ssa.Value]bool
	inElems map[ssa.Value]bool
}

type cellStore struct {
	val   ssa.Value
	field *types.Var // the field stored to, nil for the whole thing or an element
	elems bool       // not val itself but the elements of the slice val
}

// fieldOf is the outermost field an address selects.
func fieldOf(addr ssa.Value) *types.Var {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			switch x.X.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
				addr = x.X
			default:
				return fieldVar(x)
			}
		case *ssa.IndexAddr:
			addr = x.X
		default:
			return nil
		}
	}
}

// reading methods of *big.Int: everything else writes its receiver
var bigReads = map[string]bool{"Append": true, "Bit": true, "BitLen": true, "Bits": true, "Bytes": true, "Cmp": true, "CmpAbs": true,
	"FillBytes": true, "Float64": true, "Format": true, "GobEncode": true, "Int64": true, "IsInt64": true, "IsUint64": true,
	"MarshalJSON": true, "MarshalText": true, "ProbablyPrime": true, "Sign": true, "String": true, "Text": true,
	"TrailingZeroBits": true, "Uint64": true}

// arguments, counted without the receiver, that a *big.Int method writes too
var bigAlso = map[string][]int{"DivMod": {2}, "QuoRem": {2}, "GCD": {0, 1}}

// arguments a library function writes: the elements of that slice
var libWrites = map[string][]int{
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0},
	"encoding/hex.Encode": {0}, "encoding/hex.Decode": {0}, "encoding/hex.AppendEncode": {0}, "encoding/hex.AppendDecode": {0},
	"strconv.AppendInt": {0}, "strconv.AppendUint": {0}, "strconv.AppendBool": {0}, "strconv.AppendFloat": {0},
	"strconv.AppendQuote": {0}, "strconv.AppendQuoteRune": {0}, "fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0},
	"(time.Time).AppendFormat": {1}, "(*math/big.Int).Append": {1}, "(*math/big.Int).FillBytes": {1},
	"unicode/utf8.EncodeRune": {0}, "unicode/utf8.AppendRune": {0},
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"(encoding/binary.littleEndian).AppendUint64": {1}, "(encoding/binary.bigEndian).AppendUint64": {1},
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Stable": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Delete": {0}, "slices.Insert": {0}, "slices.Compact": {0},
	"encoding/base64.(*Encoding).Encode": {1},
}

// interface methods that write the slice they are given
var ifaceWrites = map[string][]int{"Read": {0}, "Sum": {0}, "ReadAt": {0}, "AppendText": {0}, "AppendBinary": {0}}

// results of library functions that are the same memory as an argument
var libAlias = map[string][]int{
	"bytes.TrimSpace": {0}, "bytes.Trim": {0}, "bytes.TrimLeft": {0}, "bytes.TrimRight": {0}, "bytes.TrimPrefix": {0}, "bytes.TrimSuffix": {0},
	"bytes.Fields": {0}, "bytes.Split": {0},
}

func isBigLike(t types.Type) bool {
	if isBigInt(t) {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return false
	}
	f := st.Field(0)
	return f.Pkg() != nil && f.Pkg().Path() == "math/big" && f.Name() == "neg"
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigLike(p.Elem())
}

func (p *Program) effects() *effects {
	e := &effects{p: p, sum: map[*ssa.Function]*effSummary{}, fx: map[*ssa.Function]*fnEffects{}}
	for _, f := range p.Funcs {
		e.sum[f] = &effSummary{writes: map[effect]witness{}, results: make([]origins, f.Signature.Results().Len())}
		for i := range e.sum[f].results {
			e.sum[f].results[i] = origins{}
		}
	}
	e.setup()
	for changed, n := true, 0; changed; n++ {
		changed = false
		if n > 50 {
			panic("effect summaries do not reach a fixpoint")
		}
		e.calls, e.sites = 0, 0
		for _, f := range p.Funcs {
			x := &fnEffects{e: e, fn: f, stores: map[ssa.Value][]cellStore{}, memo: map[ssa.Value]origins{}, busy: map[ssa.Value]bool{}, inElems: map[ssa.Value]bool{}}
			e.fx[f] = x
			if x.run() {
				changed = true
			}
		}
	}
	return e
}

// setup finds the functions that only ever run as part of initialisation.
func (e *effects) setup() {
	e.once = map[*ssa.Function]bool{}
	e.value = map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	escapes := map[*ssa.Function]bool{}
	onceFn := e.p.onceFuncs()
	for _, f := range e.p.Funcs {
		if f.Signature.Recv() == nil && f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) || onceFn[f] {
			e.once[f] = true
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if k, ok := ins.(ssa.CallInstruction); ok {
					callee = k.Common().StaticCallee()
					if callee != nil {
						g := generic(callee)
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && g != callee {
						escapes[generic(g)] = true
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(g) {
							for _, r := range *mc.Referrers() {
								if k, ok := r.(ssa.CallInstruction); !ok || k.Common().Value != ssa.Value(mc) {
									e.value[generic(g)] = true
								}
							}
						} else {
							e.value[generic(g)] = true
						}
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range e.p.Funcs {
			if e.once[f] || escapes[f] && !onceFn[f] || token.IsExported(f.Name()) || len(callers[f]) == 0 && f.Parent() == nil {
				continue
			}
			all := true
			for g := range callers[f] {
				all = all && e.once[g]
			}
			if f.Parent() != nil {
				all = all && e.once[f.Parent()]
			}
			if all {
				e.once[f] = true
				changed = true
			}
		}
	}
}

// rootAlloc is the allocation an address lies in, if it is one of this function.
func addrRoots(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (x *fnEffects) collectStores() {
	for _, b := range x.fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				for o := range x.origins(i.Addr) {
					if o.kind == 'a' {
						x.stores[o.obj] = append(x.stores[o.obj], cellStore{val: i.Val, field: fieldOf(i.Addr)})
					}
				}
			case *ssa.Call:
				b, ok := i.Call.Value.(*ssa.Builtin)
				if !ok || len(i.Call.Args) < 2 {
					continue
				}
				if n := b.Name(); n == "append" {
					x.stores[i] = append(x.stores[i], cellStore{val: i.Call.Args[0], elems: true}, cellStore{val: i.Call.Args[1], elems: true})
				} else if n != "copy" {
					continue
				}
				for o := range x.origins(i.Call.Args[0]) {
					if o.kind == 'a' {
						x.stores[o.obj] = append(x.stores[o.obj], cellStore{val: i.Call.Args[1], elems: true})
					}
				}
			case *ssa.MapUpdate:
				for o := range x.origins(i.Map) {
					if o.kind == 'a' {
						x.stores[o.obj] = append(x.stores[o.obj], cellStore{val: i.Value})
					}
				}
			}
		}
	}
}

// origins: where the thing v refers to comes from.
func (x *fnEffects) origins(v ssa.Value) origins {
	if o, ok := x.memo[v]; ok {
		return o
	}
	if x.busy[v] {
		return origins{}
	}
	x.busy[v] = true
	o := x.compute(v)
	delete(x.busy, v)
	if len(x.busy) == 0 {
		x.memo[v] = o
	}
	return o
}

func one(o origin) origins { return origins{o: true} }

func (x *fnEffects) compute(v ssa.Value) origins {
	out := origins{}
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.fn.Params {
			if p == v {
				return one(origin{kind: 'p', idx: i})
			}
		}
	case *ssa.FreeVar:
		for i, p := range x.fn.FreeVars {
			if p == v {
				return one(origin{kind: 'f', idx: i})
			}
		}
	case *ssa.Global:
		return one(origin{kind: 'g', obj: v})
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		return one(origin{kind: 'a', obj: v})
	case *ssa.FieldAddr:
		return x.origins(v.X)
	case *ssa.IndexAddr:
		return x.origins(v.X)
	case *ssa.Slice:
		return x.origins(v.X)
	case *ssa.ChangeType:
		return x.origins(v.X)
	case *ssa.ChangeInterface:
		return x.origins(v.X)
	case *ssa.MakeInterface:
		return x.origins(v.X)
	case *ssa.SliceToArrayPointer:
		return x.origins(v.X)
	case *ssa.TypeAssert:
		return x.origins(v.X)
	case *ssa.Field:
		return x.origins(v.X)
	case *ssa.Index:
		return x.origins(v.X)
	case *ssa.Convert:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return x.origins(v.X)
		}
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return x.origins(v.X)
		}
		return one(origin{kind: 'a', obj: v}) // string <-> []byte copies
	case *ssa.Phi:
		for _, e := range v.Edges {
			out.add(x.origins(e))
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return x.result(t, v.Index)
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return x.origins(t.X)
			}
		case *ssa.Lookup:
			if v.Index == 0 {
				return x.content(x.origins(t.X), v.Type(), nil)
			}
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return x.content(x.origins(r.X), v.Type(), nil)
			}
		}
	case *ssa.Call:
		return x.result(v, 0)
	case *ssa.Lookup:
		return x.content(x.origins(v.X), v.Type(), nil)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return x.content(x.origins(v.X), v.Type(), fieldOf(v.X))
		}
	}
	return out
}

func (x *fnEffects) stored(s cellStore) origins {
	if !s.elems {
		return x.origins(s.val)
	}
	sl, ok := s.val.Type().Underlying().(*types.Slice)
	if !ok || x.inElems[s.val] {
		return nil
	}
	x.inElems[s.val] = true
	defer delete(x.inElems, s.val)
	return x.content(x.origins(s.val), sl.Elem(), nil)
}

// content: what a load of type t from memory with these origins refers to.
func (x *fnEffects) content(addr origins, t types.Type, fld *types.Var) origins {
	out := origins{}
	if !refersToMemory(t) {
		return out
	}
	byValue := false
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		byValue = true // the copy refers to the same memory the original does
	}
	for o := range addr {
		switch {
		case o.kind == 'a':
			if byValue {
				out[o] = true
			}
			for _, s := range x.stores[o.obj] {
				if fld == nil || s.field == nil || s.field == fld {
					out.add(x.stored(s))
				}
			}
		case byValue:
			out[o] = true
		default:
			o.inside = true
			out[o] = true
		}
	}
	return out
}

// refersToMemory: values of this type can lead to other memory.
func refersToMemory(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return refersToMemory(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersToMemory(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		return false
	}
	return true
}

func (x *fnEffects) result(k *ssa.Call, i int) origins {
	cc := k.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			out := one(origin{kind: 'a', obj: k})
			out.add(x.origins(cc.Args[0]))
			return out
		}
		return origins{}
	}
	callee := cc.StaticCallee()
	if callee == nil {
		return one(origin{kind: 'a', obj: k})
	}
	g := generic(callee)
	if s := x.e.sum[g]; s != nil {
		out := origins{}
		if i < len(s.results) {
			for o := range s.results[i] {
				out.add(x.mapped(k, o))
			}
		}
		return out
	}
	name := fnName(g)
	if m, ok := strings.CutPrefix(name, "(*math/big.Int)."); ok {
		switch {
		case i > 0 && (m == "SetString"):
			return origins{}
		case m == "Bits":
			return x.origins(cc.Args[0])
		case m == "SetBits":
			out := origins{}
			out.add(x.origins(cc.Args[0]))
			out.add(x.origins(cc.Args[1]))
			return out
		case i > 0 && len(bigAlso[m]) > 0:
			return x.origins(cc.Args[1+bigAlso[m][0]])
		case m == "Append" || m == "FillBytes":
			return x.origins(cc.Args[1])
		case !bigReads[m]:
			return x.origins(cc.Args[0])
		}
		return one(origin{kind: 'a', obj: k})
	}
	if args, ok := libAlias[name]; ok {
		out := origins{}
		for _, a := range args {
			out.add(x.origins(cc.Args[a]))
		}
		return out
	}
	return one(origin{kind: 'a', obj: k})
}

// mapped translates an origin of the callee into origins of the caller.
func (x *fnEffects) mapped(k ssa.CallInstruction, o origin) origins {
	cc := k.Common()
	switch o.kind {
	case 'g':
		return one(o)
	case 'p':
		if o.idx >= len(cc.Args) {
			return origins{}
		}
		return x.deep(x.origins(cc.Args[o.idx]), o.inside)
	case 'f':
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && o.idx < len(mc.Bindings) {
			return x.deep(x.origins(mc.Bindings[o.idx]), o.inside)
		}
	case 'a':
		if v, ok := k.(ssa.Value); ok {
			return one(origin{kind: 'a', obj: v})
		}
	}
	return origins{}
}

func (x *fnEffects) deep(os origins, inside bool) origins {
	if !inside {
		return os
	}
	out := origins{}
	for o := range os {
		if o.kind == 'a' {
			for _, s := range x.stores[o.obj] {
				out.add(x.stored(s))
			}
			continue
		}
		o.inside = true
		out[o] = true
	}
	return out
}

func (x *fnEffects) run() bool {
	changed := false
	// stores into allocations feed loads from them: two rounds settle chains of cells
	for i := 0; i < 3; i++ {
		x.stores = map[ssa.Value][]cellStore{}
		x.collectStores()
		x.memo = map[ssa.Value]origins{}
	}
	s := x.e.sum[x.fn]
	write := func(what string, os origins, pos token.Pos, format string, args ...any) {
		whole := strings.HasPrefix(format, "overwrites")
		x.e.sites++
		seen := map[ssa.Value]bool{}
		var rec func(os origins)
		rec = func(os origins) {
			for o := range os {
				if o.kind == 'a' {
					if what != "number" || whole || seen[o.obj] {
						continue
					}
					seen[o.obj] = true
					// a number copied as a struct shares its digits with the original
					for _, v := range x.stores[o.obj] {
						if !v.elems && isBigLike(v.val.Type()) {
							rec(x.origins(v.val))
						}
					}
					continue
				}
				ef := effect{what: what, o: o}
				if _, ok := s.writes[ef]; !ok {
					s.writes[ef] = witness{pos, fmt.Sprintf(format, args...)}
					changed = true
				}
			}
		}
		rec(os)
	}
	keep := func(val, dst origins, pos token.Pos, format string, args ...any) {
		for d := range dst {
			if d.kind == 'a' {
				continue
			}
			for o := range val {
				if o.kind == 'a' || o == d {
					continue
				}
				ef := effect{"keep", o, d}
				if _, ok := s.writes[ef]; !ok {
					s.writes[ef] = witness{pos, fmt.Sprintf(format, args...)}
					changed = true
				}
			}
		}
	}
	for _, b := range x.fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if refersToMemory(i.Val.Type()) {
					keep(x.origins(i.Val), x.origins(i.Addr), i.Pos(), "stores a reference to it")
				}
				if at, ok := i.Addr.Type().Underlying().(*types.Pointer); ok && isBigPtr(at.Elem()) {
					write("replace", x.origins(i.Addr), i.Pos(), "puts another number in its place")
				}
				if isBigLike(i.Val.Type()) {
					shared := origins{}
					for o := range x.origins(i.Val) {
						if o.kind != 'a' {
							shared[o] = true
						}
					}
					keep(shared, x.origins(i.Addr), i.Pos(), "shares its digits")
				}
				if isBigPtr(i.Addr.Type()) {
					write("number", x.origins(i.Addr), i.Pos(), "overwrites a number")
				} else if ia, ok := i.Addr.(*ssa.IndexAddr); ok {
					if sl, ok := ia.X.Type().Underlying().(*types.Slice); ok {
						what := "slice"
						if sl.Elem().String() == "math/big.Word" {
							what = "number"
						}
						write(what, x.origins(ia.X), i.Pos(), "stores an element")
					} else {
						write("table", x.origins(ia.X), i.Pos(), "stores an element")
					}
				}
				if _, ok := i.Addr.(*ssa.Global); ok {
					write("table", x.origins(i.Addr), i.Pos(), "replaces the value")
				}
			case *ssa.MapUpdate:
				if refersToMemory(i.Value.Type()) {
					keep(x.origins(i.Value), x.origins(i.Map), i.Pos(), "stores a reference to it")
				}
				write("table", x.origins(i.Map), i.Pos(), "stores an element")
			case *ssa.Return:
				for n, r := range i.Results {
					if n < len(s.results) && s.results[n].add(x.origins(r)) {
						changed = true
					}
				}
			case *ssa.MakeClosure:
				// a closure may run: what it writes through a captured variable counts here
				if cs := x.e.sum[generic(i.Fn.(*ssa.Function))]; cs != nil {
					for ef, w := range cs.writes {
						if ef.what == "keep" {
							at := func(o origin) origins {
								switch {
								case o.kind == 'g':
									return one(o)
								case o.kind == 'f' && o.idx < len(i.Bindings):
									return x.deep(x.origins(i.Bindings[o.idx]), o.inside)
								}
								return nil
							}
							keep(at(ef.o), at(ef.dst), w.pos, "%s", w.text)
						} else if ef.o.kind == 'f' && ef.o.idx < len(i.Bindings) {
							write(ef.what, x.deep(x.origins(i.Bindings[ef.o.idx]), ef.o.inside), w.pos, "%s", w.text)
						}
					}
				}
			}
			k, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			x.e.calls++
			cc := k.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if n := b.Name(); n == "copy" || n == "append" || n == "clear" {
					if n == "append" && fullSlice(cc.Args[0]) {
						continue
					}
					if len(cc.Args) > 1 && n == "append" && emptyConst(cc.Args[1]) {
						continue
					}
					what := "slice"
					if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
						if sl.Elem().String() == "math/big.Word" {
							what = "number"
						}
						write(what, x.origins(cc.Args[0]), k.Pos(), "%s writes elements", n)
					}
				}
				continue
			}
			if cc.IsInvoke() {
				for _, a := range ifaceWrites[cc.Method.Name()] {
					if a < len(cc.Args) {
						if sl, ok := cc.Args[a].Type().Underlying().(*types.Slice); ok && sl != nil {
							write("slice", x.origins(cc.Args[a]), k.Pos(), "%s writes elements", cc.Method.Name())
						}
					}
				}
				continue
			}
			callee := cc.StaticCallee()
			if callee == nil {
				continue
			}
			g := generic(callee)
			if cs := x.e.sum[g]; cs != nil {
				for ef, w := range cs.writes {
					if ef.what == "keep" {
						keep(x.mapped(k, ef.o), x.mapped(k, ef.dst), w.pos, "%s", w.text)
						continue
					}
					if ef.o.kind == 'g' {
						continue // reported where it happens
					}
					write(ef.what, x.mapped(k, ef.o), w.pos, "%s", w.text)
				}
				continue
			}
			name := fnName(g)
			if m, ok := strings.CutPrefix(name, "(*math/big.Int)."); ok && !bigReads[m] {
				write("number", x.origins(cc.Args[0]), k.Pos(), "%s writes its receiver", m)
				for _, a := range bigAlso[m] {
					write("number", x.origins(cc.Args[1+a]), k.Pos(), "%s writes its argument", m)
				}
			}
			for _, a := range libWrites[name] {
				if a < len(cc.Args) {
					write("slice", x.origins(cc.Args[a]), k.Pos(), "%s writes elements", name)
				}
			}
		}
	}
	return changed
}

// fullSlice: s[i:j:j] has no room left, so append has to copy.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && (s.Max == s.High || isLenOf(s.Max, s.X) && isLenOf(s.High, s.X))
}

func isLenOf(v, x ssa.Value) bool {
	k, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := k.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && k.Call.Args[0] == x
}

func emptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && (c.Value == nil || c.Value.ExactString() == `""`)
}

func (e *effects) sortedWrites(f *ssa.Function) []effect {
	var out []effect
	for ef := range e.sum[f].writes {
		out = append(out, ef)
	}
	sort.Slice(out, func(i, j int) bool {
		return fmt.Sprint(out[i].what, out[i].o.kind, out[i].o.idx, out[i].o.inside, out[i].dst.kind, out[i].dst.idx) < fmt.Sprint(out[j].what, out[j].o.kind, out[j].o.idx, out[j].o.inside, out[j].dst.kind, out[j].dst.idx)
	})
	return out
}
