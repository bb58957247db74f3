package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type outKind int

const (
	outReturn outKind = iota
	outPanic          // explicit panic reached the caller
	outFault          // a run-time panic that is certain (index out of range, nil map write)
	outExit           // the process ends or the path never continues
)

func (k outKind) String() string { return [...]string{"return", "panic", "fault", "exit"}[k] }

type Outcome struct {
	st   *State
	kind outKind
	val  *T // result (tuple for several)
	pos  token.Pos
	pval *T
}

// Obligation is a run-time check (index, slice, conversion) met on a path.
type Obligation struct {
	kind   string
	fn     *ssa.Function
	pos    token.Pos
	text   string
	proven bool
}

// Access is one read or write of a struct field or global of the repository.
type Access struct {
	base   *T
	addr   *T
	field  *types.Var
	glob   *ssa.Global
	write  bool
	fn     *ssa.Function
	pos    token.Pos
	held   []Held
	onces  []*T
	fresh  bool
	atomic bool
	root   *ssa.Function
	st     *State
}

type LoopRec struct {
	fn       *ssa.Function
	header   *ssa.BasicBlock
	entry    *State // state at entry
	ePhis    map[*ssa.Phi]*T
	assumed  *State // state at the header (widened)
	phis     map[*ssa.Phi]*T
	backs    []*backEdge
	unrolled bool
	stack    []*ssa.Function
}

type backEdge struct {
	st   *State
	phis map[*ssa.Phi]*T
}

type frame struct {
	fn        *ssa.Function
	env       []*T
	info      *fnInfo
	binds     []*T
	ctx       *loopCtx
	defers    []deferred
	out       *[]Outcome
	panicking bool
	pval      *T
	recovered bool
	rets      *T
	retPos    token.Pos
	fault     bool
}

type deferred struct {
	call *ssa.Defer
	fn   *T
	args []*T
	recv *T
}

type loopCtx struct {
	header          *ssa.BasicBlock
	body            map[*ssa.BasicBlock]bool
	backs           *[]loopEdge
	exits           *[]loopEdge
	parent          *loopCtx
	undecidedHeader *bool
}

type loopEdge struct {
	st       *State
	fr       *frame
	from, to *ssa.BasicBlock
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

type Interp struct {
	p           *Program
	nfresh      int
	nepoch      int
	infos       map[*ssa.Function]*fnInfo
	oblig       []Obligation
	access      []Access
	loops       []*LoopRec
	spawns      []*Event
	steps       int
	paths       int
	limit       int
	overrun     string
	root        *ssa.Function
	noHavoc     bool
	maxDepth    int
	trackAccess bool
	confine     func(*T) bool
	hook        func(c *callCtx) []Outcome // non-nil result overrides the built-in treatment of a call
	onStore     func(st *State, addr, val *T, pos token.Pos, fn *ssa.Function)
	analysed    map[*ssa.Function]bool
	bigRing     bool
	inInit      bool
	cmpAtoms    *[]*T
	widenN      map[string]*T
	noUnroll    map[*ssa.BasicBlock]bool
	isToken     func(*T) bool
}

func newInterp(p *Program) *Interp {
	return &Interp{p: p, nfresh: p.freshBase, infos: map[*ssa.Function]*fnInfo{}, limit: 400000, maxDepth: 24, analysed: map[*ssa.Function]bool{}, noUnroll: map[*ssa.BasicBlock]bool{}}
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if i := in.infos[fn]; i != nil {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) { i.num[v] = i.n; i.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := i.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					i.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	in.infos[fn] = i
	return i
}

func (fr *frame) clone() *frame {
	c := *fr
	c.env = append([]*T{}, fr.env...)
	c.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return &c
}

func (in *Interp) tooMuch(what string) bool {
	in.steps++
	if in.steps > in.limit {
		if in.overrun == "" {
			in.overrun = what
		}
		return true
	}
	return false
}

// val evaluates an SSA operand.
func (in *Interp) val(fr *frame, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		if t := constTerm(v); t != nil {
			return t
		}
		return in.zeroVal(v.Type())
	case *ssa.Global:
		return mkGlobal(v)
	case *ssa.Function:
		return mkFn(originOf(v), nil)
	case *ssa.Builtin:
		return mkSym("builtin:"+v.Name(), nil)
	}
	i, ok := fr.info.num[v]
	if !ok || fr.env[i] == nil {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}

func originOf(f *ssa.Function) *ssa.Function {
	if len(f.Blocks) == 0 && f.Origin() != nil {
		return f.Origin()
	}
	return f
}

func (fr *frame) set(v ssa.Value, t *T) { fr.env[fr.info.num[v]] = t }

// Call analyses fn with the given arguments from st and returns its outcomes.
func (in *Interp) Call(st *State, fn *ssa.Function, args, binds []*T) []Outcome {
	fn = originOf(fn)
	if len(fn.Blocks) == 0 {
		return []Outcome{{st: st, val: in.fresh("res:"+fn.Name(), resultType(fn.Signature))}}
	}
	in.analysed[fn] = true
	var out []Outcome
	fr := &frame{fn: fn, info: in.info(fn), binds: binds, out: &out}
	fr.env = make([]*T, fr.info.n)
	for i, p := range fn.Params {
		if i < len(args) {
			fr.set(p, args[i])
		} else {
			fr.set(p, in.expand(mkSym(p.Name(), p.Type()), p.Type()))
		}
	}
	for i, p := range fn.FreeVars {
		fr.set(p, binds[i])
	}
	st.depth++
	st.stack = append(st.stack[:len(st.stack):len(st.stack)], fn)
	in.block(st, fr, fn.Blocks[0], nil)
	for i := range out {
		out[i].st.depth--
		out[i].st.stack = out[i].st.stack[:len(out[i].st.stack)-1]
	}
	return out
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// jump moves control from one block to another, handling loops.
func (in *Interp) jump(st *State, fr *frame, from, to *ssa.BasicBlock) {
	if c := fr.ctx; c != nil {
		if to == c.header {
			*c.backs = append(*c.backs, loopEdge{st, fr, from, to})
			return
		}
		if !c.body[to] {
			*c.exits = append(*c.exits, loopEdge{st, fr, from, to})
			return
		}
	}
	if body, ok := fr.info.loops[to]; ok {
		in.loop(st, fr, from, to, body)
		return
	}
	in.block(st, fr, to, from)
}

func phiIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (in *Interp) evalPhis(fr *frame, b, from *ssa.BasicBlock) map[*ssa.Phi]*T {
	m := map[*ssa.Phi]*T{}
	i := phiIndex(b, from)
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		m[p] = in.val(fr, p.Edges[i])
	}
	return m
}

func setPhis(fr *frame, m map[*ssa.Phi]*T) {
	for p, v := range m {
		fr.set(p, v)
	}
}

// block runs a block from its beginning (phis taken from pred).
func (in *Interp) block(st *State, fr *frame, b, pred *ssa.BasicBlock) {
	if pred != nil {
		setPhis(fr, in.evalPhis(fr, b, pred))
	}
	in.instrs(st, fr, b, 0)
}

// ---- loops ----

type mark struct{ o, a, l, s int }

func (in *Interp) mark() mark {
	return mark{len(in.oblig), len(in.access), len(in.loops), len(in.spawns)}
}
func (in *Interp) rollback(m mark) {
	in.oblig, in.access, in.loops, in.spawns = in.oblig[:m.o], in.access[:m.a], in.loops[:m.l], in.spawns[:m.s]
}

func (in *Interp) loop(st *State, fr *frame, from, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	entryPhis := in.evalPhis(fr, header, from)
	if !in.noUnroll[header] {
		m := in.mark()
		if in.unroll(st, fr, header, body, entryPhis) {
			return
		}
		in.rollback(m)
	}
	in.widenLoop(st, fr, header, body, entryPhis)
}

// unroll follows a loop whose exit test is decided by constants on every
// iteration (a loop over a table or a fixed number of rounds).
func (in *Interp) unroll(st *State, fr *frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entryPhis map[*ssa.Phi]*T) bool {
	last := header.Instrs[len(header.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok || (body[header.Succs[0]] && body[header.Succs[1]]) {
		return false
	}
	_ = iff
	type item struct {
		st   *State
		fr   *frame
		phis map[*ssa.Phi]*T
	}
	cur := []item{{st.clone(), fr.clone(), entryPhis}}
	var outs []Outcome
	var exits []loopEdge
	undecided := false
	for iter := 0; len(cur) > 0; iter++ {
		if iter > 2000 || len(cur) > 64 || len(exits) > 200 {
			return false
		}
		var next []item
		for _, it := range cur {
			var backs, ex []loopEdge
			f := it.fr
			f.ctx = &loopCtx{header: header, body: body, backs: &backs, exits: &ex, parent: fr.ctx, undecidedHeader: &undecided}
			f.out = &outs
			setPhis(f, it.phis)
			in.instrs(it.st, f, header, 0)
			if undecided || in.overrun != "" {
				return false
			}
			exits = append(exits, ex...)
			for _, b := range backs {
				next = append(next, item{b.st, b.fr, in.evalPhis(b.fr, header, b.from)})
			}
		}
		cur = dedupe(next, func(i item) (*State, map[*ssa.Phi]*T) { return i.st, i.phis })
		if len(cur) > 1 && iter > 40 {
			return false
		}
	}
	*fr.out = append(*fr.out, outs...)
	in.continueExits(fr, exits)
	return true
}

func dedupe[X any](xs []X, f func(X) (*State, map[*ssa.Phi]*T)) []X { return xs }

func (in *Interp) continueExits(fr *frame, exits []loopEdge) {
	for _, e := range exits {
		e.fr.ctx = fr.ctx
		e.fr.out = fr.out
		in.jump(e.st, e.fr, e.from, e.to)
	}
}

// widen generalises `old` so that it also covers `v`.
func (in *Interp) widen(old, v *T, st0, st *State, name string, typ types.Type) *T {
	if old == v {
		return old
	}
	if old.op == "sym" && strings.HasPrefix(old.s, "hav~") && strings.HasPrefix(old.s, "hav~"+name) {
		return old
	}
	if old.op == "app" && strings.HasPrefix(old.s, "hav:"+name) {
		return old
	}
	if old.op == "slice" && v.op == "slice" {
		n := make([]*T, 4)
		for i, c := range []string{"rgn", "lo", "len", "cap"} {
			var ct types.Type = types.Typ[types.Int]
			if i == 0 {
				ct = typ
				if a, b := old.a[0], v.a[0]; a != b {
					n[0] = mkApp("rgn", typ, mkSym("hav~"+name+"."+c, typ))
					if old.a[0].isApp("rgn") && old.a[0].a[0].op == "sym" && strings.HasPrefix(old.a[0].a[0].s, "hav~") {
						n[0] = old.a[0]
					}
					continue
				}
			}
			if i >= 2 && old.a[1] != v.a[1] && old.a[0] == v.a[0] {
				// cutting elements off the front keeps the end where it was
				if end := tAdd(old.a[1], old.a[i]); end == tAdd(v.a[1], v.a[i]) {
					n[i] = tSub(end, n[1])
					continue
				}
			}
			n[i] = in.widen(old.a[i], v.a[i], st0, st, name+"."+c, ct)
		}
		return mkSlice(n[0], n[1], n[2], n[3])
	}
	if old.op == "struct" && v.op == "struct" && types.Identical(old.typ, v.typ) {
		fs := make([]*T, len(old.a))
		s := old.typ.Underlying().(*types.Struct)
		for i := range fs {
			fs[i] = in.widen(old.a[i], v.a[i], st0, st, name+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return mkStruct(old.typ, fs)
	}
	if old.op == "iface" && v.op == "iface" && types.Identical(old.typ, v.typ) {
		return mkIface(old.typ, in.widen(old.a[0], v.a[0], st0, st, name+".val", old.typ))
	}
	if isSeq(old) || isSeq(v) || (typ != nil && isSeqType(typ)) {
		if st.proves(mkIntEq(seqLen(old), seqLen(v))) {
			var bt types.Type
			if b := seqBaseType(old); b != nil {
				bt = types.NewSlice(b)
			}
			return mkApp("hav:"+name, bt, seqLen(old))
		}
		if typ == nil || !isSeqType(typ) {
			if b := seqBaseType(old); b != nil {
				typ = types.NewSlice(b)
			}
		}
		return mkSym("hav~"+name, typ)
	}
	if typ == nil {
		typ = guessType(old, v)
	}
	if typ == nil {
		return mkSym("hav~"+name, nil)
	}
	return in.expand(mkSym("hav~"+name, typ), typ)
}

func isSeqType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func guessType(ts ...*T) types.Type {
	for _, t := range ts {
		if t.typ != nil && t.op != "struct" && t.op != "iface" && t.op != "slice" && t.op != "alloc" {
			return t.typ
		}
	}
	return nil
}

func phiName(p *ssa.Phi) string {
	return p.Comment + "." + p.Name()
}

func intSyms(t *T, seen map[*T]bool) {
	if (t.op == "sym" && strings.HasPrefix(t.s, "hav~") && intType(t) != nil) ||
		(t.isApp("len") && strings.Contains(t.a[0].s, "hav~")) {
		seen[t] = true
		return
	}
	for _, x := range t.a {
		intSyms(x, seen)
	}
}

// lookup key of a term with the current heap, for comparing states
func (in *Interp) cellAt(st *State, a *T, like *T) *T {
	if v, ok := st.heap[a]; ok {
		return v
	}
	return nil
}

// cellType finds the type stored at a cell.
func cellType(a *T) types.Type {
	switch a.op {
	case "field", "elem":
		return a.typ
	case "alloc":
		return a.typ
	case "global":
		return a.v.(*ssa.Global).Type().(*types.Pointer).Elem()
	}
	if a.typ != nil { // the target of a pointer held in a variable
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

func (in *Interp) widenLoop(st *State, fr *frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entryPhis map[*ssa.Phi]*T) {
	entryN := in.nfresh
	in.nfresh++
	uid := fmt.Sprintf("%s.%d@%d:", fr.fn.Name(), header.Index, in.nfresh)
	phis := map[*ssa.Phi]*T{}
	var order []*ssa.Phi
	for p, v := range entryPhis {
		phis[p] = v
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Name() < order[j].Name() })
	cells := map[*T]*T{} // widened heap cells
	dropped := map[string]bool{}
	var strides map[*T]*big.Int
	var cmps []*T
	entry := st.clone()
	entryVal := map[*T]*T{} // widened int symbol -> entry value
	epochMoved := false
	var extraAll []forall
	for round := 0; ; round++ {
		if round > 40 {
			if in.overrun == "" {
				in.overrun = "loop widening did not stabilise in " + fr.fn.String()
			}
			return
		}
		m := in.mark()
		s0 := st.clone()
		if epochMoved {
			in.havocShared(s0)
		}
		for a, v := range cells {
			s0.set(a, v)
		}
		f0 := fr.clone()
		setPhis(f0, phis)
		// candidate bounds of widened integers
		type candidate struct {
			key string
			t   *T // t <= 0
		}
		var cands []candidate
		addCand := func(t *T) {
			if t.isInt() {
				return
			}
			k := toLin(t).key()
			if dropped[k] {
				return
			}
			cands = append(cands, candidate{k, t})
		}
		// evaluate a header term in the entry state by substituting entry values
		subst := func(t *T) *T {
			l := toLin(t)
			r := newLin()
			r.k.Set(l.k)
			for x, c := range l.m {
				e := x
				if v, ok := entryVal[x]; ok {
					e = v
				}
				r.addMul(toLin(e), c)
			}
			return r.term()
		}
		var syms []*T
		for x := range entryVal {
			syms = append(syms, x)
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i].id < syms[j].id })
		for _, w := range syms {
			e := entryVal[w]
			addCand(tSub(e, w))
			addCand(tSub(w, e))
			addCand(tNeg(w))
			addCand(tSub(mkInt(-1), w))
			for _, w2 := range syms {
				if w2 != w && tSub(e, entryVal[w2]).isInt() {
					addCand(tSub(tSub(w, w2), tSub(e, entryVal[w2])))
					addCand(tSub(w, w2))
				}
			}
		}
		for _, g := range syms { // ghost counters: what they count may be tracked by another variable
			if !strings.Contains(g.s, "ghostc(") {
				continue
			}
			for _, w := range syms {
				if w == g {
					continue
				}
				e, eg := entryVal[w], entryVal[g]
				up := tSub(tAdd(w, g), tAdd(e, eg))
				eq := tSub(tSub(w, g), tSub(e, eg))
				for _, x := range []*T{up, tNeg(up), eq, tNeg(eq)} {
					addCand(x)
				}
			}
		}
		for _, w := range syms { // variables that advance in step: at different strides
			for _, w2 := range syms {
				k, k2 := strides[w], strides[w2]
				if w.id >= w2.id || k == nil || k2 == nil || !inStep(w, w2, k, k2, entryVal) {
					continue
				}
				d := tSub(tMul(mkBig(k2), tSub(w, entryVal[w])), tMul(mkBig(k), tSub(w2, entryVal[w2])))
				addCand(d)
				addCand(tNeg(d))
			}
		}
		for _, c := range cmps { // c is an integer term compared with 0 in the body
			addCand(c)
			addCand(tNeg(c))
			addCand(tAddI(c, -1))
			addCand(tAddI(tNeg(c), -1))
		}
		// the candidates must hold at entry
		kept := cands[:0]
		seenC := map[string]bool{}
		for _, c := range cands {
			if seenC[c.key] {
				continue
			}
			seenC[c.key] = true
			if !entry.facts.prove(subst(c.t)) {
				dropped[c.key] = true
				continue
			}
			kept = append(kept, c)
		}
		cands = kept
		for _, c := range cands {
			f := s0.WF()
			if !f.prove(c.t) {
				f.le = append(f.le, c.t)
			}
		}
		for _, p := range order { // no slice starts before its array or has a negative length
			if v := phis[p]; v != entryPhis[p] && v.op == "slice" {
				for _, x := range v.a[1:3] {
					if d := tNeg(x); !d.isInt() && !s0.facts.prove(d) {
						f := s0.WF()
						f.le = append(f.le, d)
					}
				}
			}
		}
		s0.all = append(s0.all, extraAll...)
		rec := &LoopRec{fn: fr.fn, header: header, entry: entry, ePhis: entryPhis, phis: map[*ssa.Phi]*T{}, stack: st.stack}
		for p, v := range phis {
			rec.phis[p] = v
		}
		s0.ev = &Event{prev: s0.ev, n: evN(s0.ev) + 1, kind: "loop", fn: fr.fn, pos: header.Instrs[0].Pos(), loop: rec, held: s0.held}
		rec.assumed = s0.clone()
		var outs []Outcome
		var backs, exits []loopEdge
		f0.ctx = &loopCtx{header: header, body: body, backs: &backs, exits: &exits, parent: fr.ctx}
		f0.out = &outs
		var atoms []*T
		saved := in.cmpAtoms
		in.cmpAtoms = &atoms
		in.instrs(s0.clone(), f0, header, 0)
		in.cmpAtoms = saved
		if saved != nil {
			*saved = append(*saved, atoms...)
		}
		if in.overrun != "" {
			return
		}
		changed := false
		// new comparison atoms over widened symbols
		if len(entryVal) > 0 {
			have := map[*T]bool{}
			for _, c := range cmps {
				have[c] = true
			}
			n := 0
			for _, a := range atoms {
				ss := map[*T]bool{}
				intSyms(a, ss)
				ok := false
				l := toLin(a)
				for x := range ss {
					if entryVal[x] != nil && l.m[x] != nil {
						ok = true
					}
				}
				if !ok {
					continue
				}
				for x := range l.m { // every atom must be meaningful at the header
					if !in.definedAt(x, entryN, entryVal) {
						ok = false
					}
				}
				if ok && !have[a] && len(cmps) < 24 {
					have[a] = true
					cmps = append(cmps, a)
					n++
				}
			}
			if n > 0 {
				dbg("round %d %d new comparisons", round, n)
				changed = true
			}
		}
		for _, b := range backs {
			bp := in.evalPhis(b.fr, header, b.from)
			rec.backs = append(rec.backs, &backEdge{b.st, bp})
			note := func(old, nw, ent *T) { // remember the entry values of new symbols
				in.pairSyms(nw, ent, entryVal)
			}
			for _, p := range order {
				w := in.widen(phis[p], bp[p], s0, b.st, uid+phiName(p), p.Type())
				if w != phis[p] {
					dbg("round %d phi %s: %v -> %v (back %v)", round, p.Name(), phis[p], w, bp[p])
					phis[p] = w
					note(phis[p], w, entryPhis[p])
					changed = true
				}
			}
			if b.st.epoch != s0.epoch && !epochMoved {
				epochMoved, changed = true, true
			}
			for a, v := range b.st.heap {
				var old *T
				if o, ok := s0.heap[a]; ok {
					old = o
				} else {
					old = in.peek(s0, a, v)
				}
				if old == nil {
					dbg("loop cell not carried: %v := %v", a, v)
				}
				if old == v || old == nil {
					continue
				}
				if r := rootOf(a); r.op == "alloc" && freshNum(r.s) > entryN {
					continue // allocated inside the loop body
				}
				if cells[a] == nil && perIteration(a, entryN, entry.epoch, uid) {
					continue // an object named by a value of this iteration only
				}
				w := in.widen(old, v, s0, b.st, uid+cellName(a), cellValType(a, old))
				if w != old || cells[a] == nil {
					if cells[a] != w {
						dbg("round %d cell %v: %v -> %v (back %v)", round, a, old, w, v)
						cells[a] = w
						ev := entry.heap[a]
						if ev == nil {
							ev = in.peek(entry, a, v)
						}
						if ev != nil {
							in.pairSyms(w, ev, entryVal)
						}
						changed = true
					}
				}
			}
			for a, old := range s0.heap { // cells forgotten on the back edge
				if _, ok := b.st.heap[a]; !ok && cells[a] != nil && epochMoved {
					_ = old
				}
			}
			// lock state must agree
			if !sameHeld(b.st.held, s0.held) {
				in.oblig = append(in.oblig, Obligation{kind: "lockloop", fn: fr.fn, pos: header.Instrs[0].Pos(), text: "locks held differ between loop iterations"})
			}
			for _, c := range cands {
				if dropped[c.key] {
					continue
				}
				// candidate with phi/cell symbols replaced by the back edge values
				if !b.st.facts.prove(in.substBack(c.t, phis, bp, rec, cells, b.st, s0)) {
					dbg("round %d drop %v", round, c.t)
					dropped[c.key] = true
					changed = true
				}
			}
		}
		if !changed && strides == nil {
			strides = in.strides(rec, entryVal)
			changed = len(strides) > 0
		}
		if changed {
			in.rollback(m)
			continue
		}
		// element classes established for every iteration
		nall := in.inferForall(rec, backs, s0, header)
		in.loops = append(in.loops, rec)
		*fr.out = append(*fr.out, outs...)
		for i := range exits {
			exits[i].st.all = append(exits[i].st.all[:len(exits[i].st.all):len(exits[i].st.all)], nall...)
		}
		in.continueExits(fr, exits)
		return
	}
}

func evN(e *Event) int {
	if e == nil {
		return 0
	}
	return e.n
}

func cellName(a *T) string { return a.String() }

func cellValType(a, old *T) types.Type {
	if a.isApp("ghostc") || a.isApp("cell") && old.isInt() {
		return types.Typ[types.Int]
	}
	if a.isApp("ghost") && (a.a[1].s == "buf" || a.a[1].s == "hashed") {
		return byteSlice
	}
	if old.isApp("bigof") || (a.op == "app" && a.s == "bv") {
		return nil
	}
	if a.op == "field" || a.op == "alloc" || a.op == "elem" {
		t := a.typ
		if t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok && old.op != "slice" {
				return t // a region: sequence content
			}
			return t
		}
	}
	if a.op == "global" {
		return cellType(a)
	}
	return guessType(old)
}

// freshNum is the creation number of a symbol or allocation (0: always there).
func freshNum(s string) int {
	for _, sep := range []byte{'#', '@'} {
		if i := strings.LastIndexByte(s, sep); i >= 0 {
			if strings.HasPrefix(s, "hav~") || strings.HasPrefix(s, "hav:") {
				if j := strings.IndexByte(s, '@'); j >= 0 {
					i = j
				}
			}
			n := 0
			for j := i + 1; j < len(s) && s[j] >= '0' && s[j] <= '9'; j++ {
				n = n*10 + int(s[j]-'0')
			}
			return n
		}
	}
	return 0
}

// peek reads what a cell holds when it is absent from the heap map.
func (in *Interp) peek(st *State, a, like *T) *T {
	if a.op == "app" {
		switch a.s {
		case "bv":
			return in.bigVal(st, a.a[0])
		case "mapc":
			return in.mapContent(st, a.a[0])
		}
		if a.s == "rgn" {
			return in.content(st, a)
		}
		if a.s == "ghost" {
			switch a.a[1].s {
			case "buf":
				return in.bufContent(st, a.a[0])
			case "hashed":
				if v := in.ghostGet(st, a.a[0], "hashed"); v != nil {
					return v
				}
				return tEmpty
			}
			return nil
		}
		if a.s == "ghostc" || a.s == "cell" {
			return nil
		}
	}
	t := cellType(a)
	if t == nil {
		return nil
	}
	if isSeq(like) || like.op == "app" && strings.HasPrefix(like.s, "hav:") {
		return in.content(st, a)
	}
	return in.initial(st, a, t)
}

func (in *Interp) pairSyms(w, e *T, out map[*T]*T) {
	if w == e {
		return
	}
	if w.op == "sym" && strings.HasPrefix(w.s, "hav~") {
		if intType(w) != nil {
			out[w] = e
		}
		if isSeqOrStr(w) {
			out[mkApp("len", types.Typ[types.Int], w)] = seqLen(e)
		}
		return
	}
	if w.op == e.op && len(w.a) == len(e.a) && (w.op == "slice" || w.op == "struct" || w.op == "iface") {
		for i := range w.a {
			in.pairSyms(w.a[i], e.a[i], out)
		}
	}
}

func isSeqOrStr(t *T) bool {
	if t.typ == nil {
		return false
	}
	return isSeqType(t.typ)
}

// definedAt: the atom only depends on values available at the loop header.
func (in *Interp) definedAt(x *T, entryN int, entryVal map[*T]*T) bool {
	if _, ok := entryVal[x]; ok {
		return true
	}
	bad := anyTerm(x, func(t *T) bool {
		if t.op == "sym" || t.op == "alloc" || (t.op == "app" && strings.HasPrefix(t.s, "hav:")) {
			return entryVal[t] == nil && freshNum(t.s) > entryN
		}
		return false
	})
	return !bad
}

func (in *Interp) substBack(t *T, phis, bp map[*ssa.Phi]*T, rec *LoopRec, cells map[*T]*T, st, s0 *State) *T {
	sub := map[*T]*T{}
	for p, v := range rec.phis {
		in.pairSyms(v, bp[p], sub)
	}
	for a, v := range s0.heap {
		if nv, ok := st.heap[a]; ok && cells[a] != nil {
			in.pairSyms(v, nv, sub)
		}
	}
	l := toLin(t)
	r := newLin()
	r.k.Set(l.k)
	for x, c := range l.m {
		e := x
		if v, ok := sub[x]; ok {
			e = v
		}
		r.addMul(toLin(e), c)
	}
	return r.term()
}

func sameHeld(a, b []Held) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].lock != b[i].lock || a[i].mode != b[i].mode {
			return false
		}
	}
	return true
}

// inferForall finds sequences whose elements at the loop index lie in a class
// on every continuing iteration.
func (in *Interp) inferForall(rec *LoopRec, backs []loopEdge, s0 *State, header *ssa.BasicBlock) []forall {
	if len(rec.backs) == 0 {
		return nil
	}
	var out []forall
	type counter struct {
		head, entry *T
		backs       []*T
	}
	var cs []counter
	for p, w := range rec.phis {
		c := counter{w, rec.ePhis[p], nil}
		part := func(t *T) *T { return t }
		if w.op == "slice" { // where the slice starts
			part = func(t *T) *T {
				if t == nil || t.op != "slice" {
					return nil
				}
				return t.a[1]
			}
		} else if intType(w) == nil {
			continue
		}
		c.head, c.entry = part(w), part(c.entry)
		for _, b := range rec.backs {
			c.backs = append(c.backs, part(b.phis[p]))
		}
		if c.head != nil && c.head.op == "sym" && c.entry != nil {
			cs = append(cs, c)
		}
	}
	for _, cn := range cs {
		w := cn.head
		up, down := true, true
		for _, b := range cn.backs {
			up = up && b == tAddI(w, 1)
			down = down && b == tAddI(w, -1)
		}
		if !up && !down {
			continue
		}
		// candidate element terms at(S, w+c), with S and c the same in every round
		tag := w.s
		if i := strings.Index(tag, ":"); i > 0 && strings.HasPrefix(tag, "hav~") {
			tag = tag[len("hav~") : i+1]
		}
		changing := func(t *T) bool {
			return anyTerm(t, func(x *T) bool {
				return (x.op == "sym" || x.op == "app") && strings.HasPrefix(x.s, "hav") && strings.Contains(x.s, tag)
			})
		}
		cand := map[*T]bool{}
		for x := range elemTerms(rec.backs[0].st.facts) {
			if d := tSub(x.a[1], w); !changing(d) && !changing(x.a[0]) {
				cand[x] = true
			}
		}
		for x := range cand {
			cls := &byteSet{}
			ok := true
			for _, b := range rec.backs {
				c := b.st.facts.classOf(x)
				if c == nil {
					ok = false
					break
				}
				for i := range cls {
					cls[i] |= c[i]
				}
			}
			if !ok {
				continue
			}
			c := tSub(x.a[1], w)
			if down {
				out = append(out, forall{seq: x.a[0], lo: tAddI(tAdd(w, c), 1), hi: tAddI(tAdd(cn.entry, c), 1), class: cls})
				continue
			}
			out = append(out, forall{seq: x.a[0], lo: tAdd(cn.entry, c), hi: tAdd(w, c), class: cls})
		}
	}
	return out
}

// elemTerms lists the byte-sized element terms mentioned by facts.
func elemTerms(f *Facts) map[*T]bool {
	m := map[*T]bool{}
	for _, set := range [][]*T{f.le, f.ne} {
		for _, t := range set {
			for x := range toLin(t).m {
				if x.isApp("at") && isByteT(x.typ) {
					m[x] = true
				}
			}
		}
	}
	for x := range f.eqt {
		if x.isApp("at") && isByteT(x.typ) {
			m[x] = true
		}
	}
	return m
}

func isByteT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// classOf gives the set of byte values the facts allow for x.
func (f *Facts) classOf(x *T) *byteSet {
	lo, hi := f.bounds(x)
	l, h := int64(0), int64(255)
	if lo != nil && lo.Cmp(big.NewInt(l)) > 0 {
		l = lo.Int64()
	}
	if hi != nil && hi.Cmp(big.NewInt(h)) < 0 {
		h = hi.Int64()
	}
	c := &byteSet{}
	c.add(int(l), int(h))
	for _, n := range f.ne {
		ln := toLin(n)
		if len(ln.m) == 1 && ln.m[x] != nil && ln.m[x].CmpAbs(bigOne) == 0 {
			v := new(big.Int).Neg(ln.k)
			v.Mul(v, ln.m[x])
			if v.IsInt64() && v.Int64() >= 0 && v.Int64() < 256 {
				i := v.Int64()
				c[i/64] &^= 1 << uint(i%64)
			}
		}
	}
	return c
}

// allIn reports whether every element of seq lies in class.
func (st *State) allIn(seq *T, class *byteSet) bool {
	if seq == tEmpty {
		return true
	}
	switch seq.op {
	case "lit":
		for i := range seq.s {
			if !class.has(int(seq.s[i])) {
				return false
			}
		}
		return true
	case "cat":
		for _, p := range seq.a {
			if !st.allIn(p, class) {
				return false
			}
		}
		return true
	}
	base, lo, hi := seq, tZero, seqLen(seq)
	if seq.op == "sub" {
		base, lo, hi = seq.a[0], seq.a[1], seq.a[2]
	}
	for _, fa := range st.all {
		if fa.rune_ || !fa.class.subset(class) {
			continue
		}
		fb, flo, fhi := fa.seq, fa.lo, fa.hi
		if fb.op == "sub" {
			flo, fhi, fb = tAdd(fb.a[1], flo), tAdd(fb.a[1], fhi), fb.a[0]
		}
		if fb == base && st.proves(mkLe(flo, lo)) && st.proves(mkLe(hi, fhi)) {
			return true
		}
	}
	return st.proves(mkIntEq(lo, hi))
}

var debugLoops = os.Getenv("CHK_DEBUG") != ""

func dbg(format string, args ...any) {
	if debugLoops {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

// perIteration: the address is built from a value created during this
// iteration (and not by this loop's own generalisation).
func perIteration(a *T, entryN, entryEpoch int, uid string) bool {
	return anyTerm(a, func(t *T) bool {
		switch {
		case t.op == "sym" || t.op == "alloc" || (t.op == "app" && strings.HasPrefix(t.s, "hav:")):
			return freshNum(t.s) > entryN && !strings.Contains(t.s, uid)
		case t.isApp("init") && len(t.a) == 2:
			k, ok := t.a[1].int64()
			return ok && int(k) > entryEpoch
		}
		return false
	})
}

// strides: the loop variables that change by a constant in every iteration,
// when not all of them change alike.
func (in *Interp) strides(rec *LoopRec, entryVal map[*T]*T) map[*T]*big.Int {
	out := map[*T]*big.Int{}
	bad := map[*T]bool{}
	step := func(w, back *T) {
		w0, back0 := w, back
		if w != nil && w.op == "slice" && back != nil && back.op == "slice" {
			w, back = w.a[2], back.a[2]
			if entryVal[w] == nil { // the length follows from the offset
				w, back = w0.a[1], back0.a[1]
			}
		}
		if w == nil || entryVal[w] == nil {
			return
		}
		if back == nil || back.op == "slice" {
			bad[w] = true
			return
		}
		d := tSub(back, w)
		if !d.isInt() || d.n.Sign() == 0 || out[w] != nil && out[w].Cmp(d.n) != 0 {
			bad[w] = true
			return
		}
		out[w] = d.n
	}
	for _, b := range rec.backs {
		for p, h := range rec.phis {
			step(h, b.phis[p])
		}
		for a, h := range rec.assumed.heap {
			if v := b.st.heap[a]; v != nil && entryVal[h] != nil {
				step(h, v)
			}
		}
	}
	for w := range bad {
		delete(out, w)
	}
	for w, a := range out {
		for w2, b := range out {
			if inStep(w, w2, a, b, entryVal) {
				return out
			}
		}
	}
	return map[*T]*big.Int{}
}

// inStep: a relation between the two variables that the bounds on their
// difference do not give already.
func inStep(w, w2 *T, k, k2 *big.Int, entryVal map[*T]*T) bool {
	return k.CmpAbs(k2) != 0 || !tSub(entryVal[w], entryVal[w2]).isInt() && k.Cmp(k2) == 0
}
