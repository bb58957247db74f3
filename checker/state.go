package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Held struct {
	lock *T
	mode string // "w" or "r"
	pos  token.Pos
}

// Event is one effect on a path, newest first.
type Event struct {
	prev    *Event
	n       int
	kind    string // call, callback, invoke, go, send, recv, close, lock, unlock, store, loop, ...
	name    string
	fn      *ssa.Function
	pos     token.Pos
	args    []*T
	res     *T
	held    []Held
	onces   []*T
	heap    map[*T]*T
	epoch   int
	escaped map[*T]bool
	facts   *Facts // facts at that point (shared snapshot)
	loop    *LoopRec
	sel     *ssa.Select
	cases   []selCase // select: every case offered
	typ     types.Type
	stack   []*ssa.Function
}

type selCase struct {
	send bool
	ch   *T
	val  *T
}

type forall struct {
	seq    *T
	lo, hi *T
	class  *byteSet
	rune_  bool
}

type State struct {
	heap    map[*T]*T
	hshared bool
	facts   *Facts
	fshared bool
	ev      *Event
	held    []Held
	onces   []*T
	epoch   int
	escaped map[*T]bool
	eshared bool
	all     []forall
	depth   int
	stack   []*ssa.Function
}

func newState() *State {
	return &State{heap: map[*T]*T{}, facts: newFacts(), escaped: map[*T]bool{}}
}

func (s *State) clone() *State {
	c := *s
	s.hshared, s.fshared, s.eshared = true, true, true
	c.hshared, c.fshared, c.eshared = true, true, true
	c.held = s.held[:len(s.held):len(s.held)]
	c.all = s.all[:len(s.all):len(s.all)]
	c.stack = s.stack[:len(s.stack):len(s.stack)]
	return &c
}

func (s *State) set(addr, v *T) {
	if s.hshared {
		h := make(map[*T]*T, len(s.heap)+4)
		for k, x := range s.heap {
			h[k] = x
		}
		s.heap, s.hshared = h, false
	}
	s.heap[addr] = v
}

func (s *State) del(addr *T) {
	if _, ok := s.heap[addr]; !ok {
		return
	}
	s.set(addr, nil)
	delete(s.heap, addr)
}

func (s *State) F() *Facts { return s.facts }

// WF returns facts that may be written.
func (s *State) WF() *Facts {
	if s.fshared {
		s.facts, s.fshared = s.facts.clone(), false
	}
	return s.facts
}

func (s *State) assume(b *T, val bool) bool {
	switch s.facts.decide(b) {
	case yes:
		return val
	case no:
		return !val
	}
	return s.WF().assume(b, val)
}

func (s *State) proves(b *T) bool { return s.facts.decide(b) == yes }

func rootOf(a *T) *T {
	for a.op == "field" || a.op == "elem" || (a.op == "app" && (a.s == "bv" || a.s == "mapc" || a.s == "cell")) {
		a = a.a[0]
	}
	return a
}

// splittable: struct values are represented field by field.
func splittable(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				return nil
			}
		}
	}
	// a defined type over an opaque struct (type Big big.Int) is opaque too
	for i := 0; i < st.NumFields(); i++ {
		p := st.Field(i).Pkg()
		if p != nil && !strings.HasPrefix(p.Path(), modPath) && !st.Field(i).Exported() {
			return nil
		}
	}
	return st
}

func isBigInt(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	return ok && st.NumFields() == 2 && st.Field(0).Name() == "neg" && st.Field(1).Name() == "abs"
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// expand gives an unknown value t of type typ its shape.
func (in *Interp) expand(t *T, typ types.Type) *T {
	if st := splittable(typ); st != nil {
		if t.op == "struct" {
			return t
		}
		fs := make([]*T, st.NumFields())
		for i := range fs {
			ft := st.Field(i).Type()
			fs[i] = in.expand(mkApp("fld:"+st.Field(i).Name(), ft, t), ft)
		}
		return mkStruct(typ, fs)
	}
	if _, ok := typ.Underlying().(*types.Slice); ok {
		if t.op == "slice" {
			return t
		}
		return mkSlice(mkApp("rgn", typ, t), tZero, mkApp("len", types.Typ[types.Int], t), mkApp("cap", types.Typ[types.Int], t))
	}
	if tt, ok := typ.(*types.Tuple); ok {
		es := make([]*T, tt.Len())
		for i := range es {
			es[i] = in.expand(mkApp(fmt.Sprintf("#%d", i), tt.At(i).Type(), t), tt.At(i).Type())
		}
		return mkTuple(es...)
	}
	return t
}

func (in *Interp) fresh(name string, typ types.Type) *T {
	in.nfresh++
	return in.expand(mkSym(fmt.Sprintf("%s#%d", name, in.nfresh), typ), typ)
}

func (in *Interp) freshAlloc(label string, typ types.Type) *T {
	in.nfresh++
	return intern(&T{op: "alloc", s: fmt.Sprintf("%s#%d", label, in.nfresh), typ: typ})
}

// zeroVal is the zero value of a type.
func (in *Interp) zeroVal(typ types.Type) *T {
	if isBigInt(typ) {
		return tZero
	}
	if st := splittable(typ); st != nil {
		fs := make([]*T, st.NumFields())
		for i := range fs {
			fs[i] = in.zeroVal(st.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Info()&types.IsString != 0:
			return tEmpty
		case u.Info()&types.IsFloat != 0:
			return mkApp("float:0", typ)
		}
		return tNil
	case *types.Slice:
		return tNilSlice
	case *types.Array:
		return mkZero(mkInt(u.Len()), in.zeroVal(u.Elem()))
	case *types.Tuple:
		es := make([]*T, u.Len())
		for i := range es {
			es[i] = in.zeroVal(u.At(i).Type())
		}
		return mkTuple(es...)
	case *types.Struct:
		return mkApp("zero:"+typeKey(typ), typ)
	}
	if _, ok := typ.(*types.TypeParam); ok {
		return mkApp("zero:"+typeKey(typ), typ)
	}
	return tNil
}

func (in *Interp) immutableAddr(st *State, a *T) bool {
	switch a.op {
	case "field":
		if v, ok := a.v.(*types.Var); ok && in.p.immutable[v] {
			return true
		}
	case "global":
		if g, ok := a.v.(*ssa.Global); ok {
			return !in.p.mutGlobal[g]
		}
	case "alloc":
		return in.p.onceCell[a.s[:strings.LastIndex(a.s, "#")]]
	}
	return false
}

func (in *Interp) initial(st *State, addr *T, typ types.Type) *T {
	root := rootOf(addr)
	shared := true
	if in.initAlloc(root) {
		if in.immutableAddr(st, addr) {
			if v, ok := in.p.initHeap[addr]; ok {
				return v
			}
			return in.zeroVal(typ)
		}
	} else if root.op == "alloc" && !st.escaped[root] {
		shared = false
	}
	if root.op == "alloc" && !in.initAlloc(root) && (!shared || st.epoch == 0 || in.immutableAddr(st, addr)) {
		return in.zeroVal(typ)
	}
	if root.op == "global" {
		if g, ok := root.v.(*ssa.Global); ok && !in.p.mutGlobal[g] && in.p.initHeap != nil {
			if v, ok := in.p.initHeap[addr]; ok {
				return v
			}
			if in.p.initDone[g.Pkg] && in.p.initHeap[root] == nil {
				return in.zeroVal(typ)
			}
		}
	}
	if st.epoch > 0 && !in.immutableAddr(st, addr) {
		return in.expand(mkApp("init", typ, addr, mkInt(int64(st.epoch))), typ)
	}
	return in.expand(mkApp("init", typ, addr), typ)
}

// loadCell reads a leaf cell.
func (in *Interp) loadCell(st *State, addr *T, typ types.Type) *T {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	return in.initial(st, addr, typ)
}

func throughElem(addr *T) bool {
	for addr.op == "field" {
		addr = addr.a[0]
	}
	return addr.op == "elem"
}

func fieldIndex(st *types.Struct, v *types.Var) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Origin() == v {
			return i
		}
	}
	for i := 0; i < st.NumFields(); i++ { // converted struct types share names
		if st.Field(i).Name() == v.Name() {
			return i
		}
	}
	return -1
}

func (in *Interp) load(st *State, addr *T, typ types.Type) *T {
	if isBigInt(typ) {
		return in.bigVal(st, addr)
	}
	if addr.op == "elem" {
		return in.expand(atTyped(in, st, in.content(st, addr.a[0]), addr.a[1], typ), typ)
	}
	if addr.op == "field" && throughElem(addr) {
		base := in.load(st, addr.a[0], addr.a[0].typ)
		if base.op == "struct" {
			if i := fieldIndex(base.typ.Underlying().(*types.Struct), addr.v.(*types.Var)); i >= 0 {
				return base.a[i]
			}
		}
		return in.expand(mkApp("fld:"+addr.s, typ, base), typ)
	}
	if s := splittable(typ); s != nil {
		if v, ok := st.heap[addr]; ok && v.op != "struct" {
			return in.expand(v, typ)
		}
		fs := make([]*T, s.NumFields())
		for i := range fs {
			fs[i] = in.load(st, mkField(addr, s.Field(i).Origin(), s.Field(i).Type()), s.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	return in.loadCell(st, addr, typ)
}

func (in *Interp) store(st *State, addr, val *T, typ types.Type) {
	if isBigInt(typ) {
		st.set(mkApp("bv", nil, addr), val)
		return
	}
	if r := rootOf(addr); r.op != "alloc" || st.escaped[r] {
		in.escape(st, val)
	}
	if addr.op == "elem" {
		c := in.content(st, addr.a[0])
		st.set(addr.a[0], mkUpd(st, c, addr.a[1], val))
		return
	}
	if addr.op == "field" && throughElem(addr) {
		base := in.load(st, addr.a[0], addr.a[0].typ)
		if base.op == "struct" {
			if i := fieldIndex(base.typ.Underlying().(*types.Struct), addr.v.(*types.Var)); i >= 0 {
				fs := append([]*T{}, base.a...)
				fs[i] = val
				in.store(st, addr.a[0], mkStruct(base.typ, fs), addr.a[0].typ)
				return
			}
		}
		in.store(st, addr.a[0], mkApp("setfld:"+addr.s, addr.a[0].typ, base, val), addr.a[0].typ)
		return
	}
	if s := splittable(typ); s != nil {
		if val.op == "struct" {
			st.del(addr)
			for i := 0; i < s.NumFields(); i++ {
				in.store(st, mkField(addr, s.Field(i).Origin(), s.Field(i).Type()), val.a[i], s.Field(i).Type())
			}
			return
		}
	}
	st.set(addr, val)
}

// content is the element sequence of a region (an array cell or a slice's backing store).
func (in *Interp) content(st *State, region *T) *T {
	if v, ok := st.heap[region]; ok {
		return v
	}
	if region == tNil {
		return tEmpty
	}
	if region.op == "elem" || (region.op == "field" && throughElem(region)) {
		return in.load(st, region, region.typ)
	}
	typ := region.typ
	if region.op == "global" {
		typ = region.v.(*ssa.Global).Type().(*types.Pointer).Elem()
	}
	if typ == nil {
		typ = types.NewSlice(types.Typ[types.Uint8])
	}
	root := rootOf(region)
	if v, ok := in.p.initHeap[region]; ok && (root.op == "global" || root.op == "alloc") && !in.mutRegion(root) {
		return v
	}
	if _, isArr := typ.Underlying().(*types.Array); isArr {
		return in.initial(st, region, typ)
	}
	if pt, isP := typ.Underlying().(*types.Pointer); isP {
		if _, isArr := pt.Elem().Underlying().(*types.Array); isArr {
			return in.initial(st, region, pt.Elem())
		}
	}
	if st.epoch > 0 {
		return mkApp("init", typ, region, mkInt(int64(st.epoch)))
	}
	return mkApp("init", typ, region)
}

func (in *Interp) mutRegion(root *T) bool {
	if root.op == "global" {
		return in.p.mutGlobal[root.v.(*ssa.Global)]
	}
	return false
}

func mkUpd(st *State, s, i, v *T) *T {
	if atTerm(st.facts, s, i) == v {
		return s
	}
	if k, ok := i.int64(); ok && k >= 0 {
		n, ok2 := seqLen(s).int64()
		if ok2 && n <= 4096 && k < n && (s.op == "lit" || s.op == "seq" || s.op == "zero") {
			var es []*T
			switch s.op {
			case "zero":
				es = make([]*T, n)
				for j := range es {
					es[j] = s.a[1]
				}
			default:
				es = append([]*T{}, seqElems(s)...)
			}
			es[k] = v
			return mkSeq(es)
		}
	}
	if s.op == "cat" {
		off := tZero
		for j, p := range s.a {
			n, okn := seqLen(p).int64()
			k, okk := st.facts.normInt(tSub(i, off)).int64()
			if okn && okk && k >= 0 && k < n {
				parts := append([]*T{}, s.a...)
				parts[j] = mkUpd(st, p, mkInt(k), v)
				return mkCat(parts...)
			}
			off = tAdd(off, seqLen(p))
		}
	}
	if s.op == "upd" {
		if s.a[1] == i {
			return mkUpd(st, s.a[0], i, v)
		}
		// keep updates at provably different constant positions sorted
		a, ok1 := s.a[1].int64()
		b, ok2 := i.int64()
		if ok1 && ok2 && b < a {
			return intern(&T{op: "upd", a: []*T{mkUpd(st, s.a[0], i, v), s.a[1], s.a[2]}})
		}
	}
	return intern(&T{op: "upd", a: []*T{s, i, v}})
}

// atTerm is element i of sequence s.
func atTerm(f *Facts, s, i *T) *T {
	for {
		switch s.op {
		case "lit":
			if k, ok := f.normInt(i).int64(); ok && k >= 0 && k < int64(len(s.s)) {
				return mkInt(int64(s.s[k]))
			}
		case "seq":
			if k, ok := f.normInt(i).int64(); ok && k >= 0 && k < int64(len(s.a)) {
				return s.a[k]
			}
		case "zero":
			return s.a[1]
		case "sub":
			i = tAdd(s.a[1], i)
			s = s.a[0]
			continue
		case "upd":
			switch f.decide(mkIntEq(i, s.a[1])) {
			case yes:
				return s.a[2]
			case no:
				s = s.a[0]
				continue
			}
		case "cat":
			off := tZero
			for _, p := range s.a {
				end := tAdd(off, seqLen(p))
				if f.decide(mkLt(i, end)) == yes {
					if f.decide(mkLe(off, i)) == yes {
						return atTerm(f, p, tSub(i, off))
					}
					break
				}
				if f.decide(mkLe(end, i)) != yes {
					break
				}
				off = end
			}
		}
		break
	}
	var et types.Type = types.Typ[types.Uint8]
	if b := seqBaseType(s); b != nil {
		et = b
	}
	return mkApp("at", et, s, i)
}

func atTyped(in *Interp, st *State, s, i *T, typ types.Type) *T {
	r := atTerm(st.facts, s, i)
	if r.isApp("at") && (r.typ == nil || !types.Identical(r.typ, typ)) {
		return intern(&T{op: "app", s: "at", a: r.a, typ: typ})
	}
	return r
}

func seqBaseType(s *T) types.Type {
	for s != nil {
		switch s.op {
		case "upd", "sub":
			s = s.a[0]
		case "cat":
			s = s.a[len(s.a)-1]
		default:
			if s.typ != nil {
				return elemType(s.typ)
			}
			return nil
		}
	}
	return nil
}

// subSeq is s[lo:hi] simplified under the facts.
func subSeq(f *Facts, s, lo, hi *T) *T {
	lo, hi = f.normInt(lo), f.normInt(hi)
	if f.decide(mkIntEq(lo, hi)) == yes {
		return tEmpty
	}
	if lo == tZero && f.decide(mkIntEq(hi, seqLen(s))) == yes {
		return s
	}
	switch s.op {
	case "cat":
		off := tZero
		var out []*T
		started := false
		for i, p := range s.a {
			end := tAdd(off, seqLen(p))
			if i == len(s.a)-1 {
				end = seqLen(s)
			}
			if !started {
				if f.decide(mkLe(end, lo)) == yes {
					off = end
					continue
				}
				if f.decide(mkLe(off, lo)) != yes || f.decide(mkLe(lo, end)) != yes {
					return mkSubRaw(s, lo, hi)
				}
				started = true
				if f.decide(mkLe(hi, end)) == yes {
					return subSeq(f, p, tSub(lo, off), tSub(hi, off))
				}
				out = append(out, subSeq(f, p, tSub(lo, off), seqLen(p)))
			} else {
				if f.decide(mkLe(hi, end)) == yes {
					out = append(out, subSeq(f, p, tZero, tSub(hi, off)))
					return mkCat(out...)
				}
				if f.decide(mkLe(end, hi)) != yes {
					return mkSubRaw(s, lo, hi)
				}
				out = append(out, p)
			}
			off = end
		}
		if started && f.decide(mkIntEq(hi, off)) == yes {
			return mkCat(out...)
		}
	case "upd":
		if f.decide(mkLt(s.a[1], lo)) == yes || f.decide(mkLe(hi, s.a[1])) == yes {
			return subSeq(f, s.a[0], lo, hi)
		}
	}
	return mkSubRaw(s, lo, hi)
}

// writeRange is s with s[lo:lo+len(src)] replaced by src.
func writeRange(f *Facts, s, lo, src *T) *T {
	n := seqLen(src)
	hi := tAdd(lo, n)
	total := seqLen(s)
	return mkCat(subSeq(f, s, tZero, lo), src, subSeq(f, s, hi, total))
}

// slice content helpers
func (in *Interp) sliceSeq(st *State, s *T) *T {
	if s == tNil {
		return tEmpty
	}
	if s.op != "slice" {
		return mkApp("seqof", s.typ, s)
	}
	return subSeq(st.facts, in.content(st, s.a[0]), s.a[1], tAdd(s.a[1], s.a[2]))
}

func (in *Interp) bigVal(st *State, addr *T) *T {
	k := mkApp("bv", nil, addr)
	if v, ok := st.heap[k]; ok {
		return v
	}
	root := rootOf(addr)
	if root.op == "alloc" && !st.escaped[root] {
		if v, ok := in.p.initHeap[k]; ok {
			return v
		}
		return tZero
	}
	if v, ok := in.p.initHeap[k]; ok {
		return v
	}
	return mkApp("bigof", nil, addr)
}

// escape marks every fresh object reachable from v as visible to others.
func (in *Interp) escape(st *State, v *T) {
	if !v.ref {
		return
	}
	var work []*T
	seen := map[*T]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if !t.ref || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "alloc" && !st.escaped[t] {
			work = append(work, t)
		}
		for _, x := range t.a {
			visit(x)
		}
	}
	visit(v)
	if len(work) == 0 {
		return
	}
	if st.eshared {
		m := make(map[*T]bool, len(st.escaped)+2)
		for k := range st.escaped {
			m[k] = true
		}
		st.escaped, st.eshared = m, false
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		if st.escaped[t] {
			continue
		}
		st.escaped[t] = true
		for a, x := range st.heap {
			if rootOf(a) == t {
				visit(x)
			}
		}
	}
}

// havocShared forgets every mutable cell other goroutines or callbacks can write.
func (in *Interp) havocShared(st *State) {
	if in.noHavoc {
		return
	}
	in.nepoch++
	st.epoch = in.nepoch
	var dead []*T
	for a := range st.heap {
		r := rootOf(a)
		if r.op == "alloc" && !st.escaped[r] {
			continue
		}
		if in.immutableAddr(st, a) || in.confined(a) {
			continue
		}
		dead = append(dead, a)
	}
	for _, a := range dead {
		st.del(a)
	}
}

// confined: cells that are not shared state (map contents of private objects,
// ghost cells, big integer values).
func (in *Interp) confined(a *T) bool {
	if a.op == "app" && (a.s == "bv" || a.s == "ghost" || a.s == "ghostc") {
		return true
	}
	return in.confine != nil && in.confine(a)
}

type byteSet [4]uint64

func (b *byteSet) add(lo, hi int) {
	for i := lo; i <= hi && i < 256; i++ {
		if i >= 0 {
			b[i/64] |= 1 << uint(i%64)
		}
	}
}
func (b *byteSet) has(i int) bool { return b[i/64]&(1<<uint(i%64)) != 0 }
func (b *byteSet) subset(o *byteSet) bool {
	for i := range b {
		if b[i]&^o[i] != 0 {
			return false
		}
	}
	return true
}
func (b *byteSet) String() string {
	var sb strings.Builder
	for i := 0; i < 256; {
		if !b.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && b.has(j+1) {
			j++
		}
		if sb.Len() > 0 {
			sb.WriteByte(' ')
		}
		if i == j {
			fmt.Fprintf(&sb, "%q", rune(i))
		} else {
			fmt.Fprintf(&sb, "%q-%q", rune(i), rune(j))
		}
		i = j + 1
	}
	return sb.String()
}

// initAlloc: an object made by package initialisation, seen afterwards.
func (in *Interp) initAlloc(root *T) bool {
	return root.op == "alloc" && !in.inInit && freshNum(root.s) <= in.p.freshBase
}
