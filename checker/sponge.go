package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The sponge around the permutation: how Write feeds bytes into the lanes, how Sum
// closes and reads them. The lanes are seen as a string of bytes, least significant
// byte of lane 0 first. A write to a lane that only adds (by exclusive or) bytes of
// the input is an absorbing step at a position of that string; every step has to
// continue where the one before stopped, in the input and in the block, and a full
// block has to be permuted exactly once before anything else happens.

type sponge struct {
	c       *Check
	in      *Interp
	st0     *State
	perms   map[*ssa.Function]bool
	lanes   *types.Var
	done    *types.Var // bytes absorbed
	fields  []*types.Var
	recv    *T
	rate    int64
	size    int64
	cap     int64
	before  *T // bytes absorbed before the call
	fill    *T // of them, in the current block
	label   string
	laneTyp types.Type
}

func keccakHook(perms map[*ssa.Function]bool) runOpt {
	return withHook(func(cc *callCtx) []Outcome {
		if g := cc.common.StaticCallee(); g != nil && perms[g] {
			typ := deref(g.Params[0].Type())
			old := cc.in.load(cc.st, cc.args[0], typ)
			cc.ev("permute", "", []*T{cc.args[0], old}, nil)
			cc.st.set(cc.args[0], mkApp("keccakf", typ, old))
			return cc.ret(tUnit)
		}
		return nil
	})
}

// step of absorbing, as found in the content of the lanes.
type laneOp struct {
	permute bool
	lane    *T
	val     *T // what is added to the lane
	ok      bool
}

// chain takes the content of the lanes apart: the content it started from, and the
// steps since, oldest first.
func laneChain(st *State, t *T) (root *T, ops []laneOp) {
	for {
		switch {
		case t.isApp("keccakf"):
			ops = append(ops, laneOp{permute: true, ok: true})
			t = t.a[0]
		case t.op == "upd":
			old, i, v := t.a[0], t.a[1], t.a[2]
			op := laneOp{lane: i}
			var rest []*T
			n := 0
			for _, x := range flattenOp(v, "xor") {
				if x.isApp("at") && x.a[0] == old && x.a[1] == i {
					n++
					continue
				}
				rest = append(rest, x)
			}
			// the lane as it is may have been resolved to what an earlier step left there
			if n == 0 {
				if a := atTerm(st.facts, old, i); a != nil {
					want := flattenOp(a, "xor")
					all := flattenOp(v, "xor")
					if r, ok := without(all, want); ok {
						rest, n = r, 1
					}
				}
			}
			op.ok = n == 1 && len(rest) > 0
			if op.ok {
				op.val = rest[0]
				for _, x := range rest[1:] {
					op.val = mkApp("xor", x.typ, op.val, x)
				}
			}
			ops = append(ops, op)
			t = old
		default:
			for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
				ops[i], ops[j] = ops[j], ops[i]
			}
			return t, ops
		}
	}
}

func without(all, take []*T) ([]*T, bool) {
	rest := append([]*T{}, all...)
	for _, w := range take {
		found := false
		for i, x := range rest {
			if x == w {
				rest = append(rest[:i], rest[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return rest, true
}

func flattenOp(t *T, ops ...string) []*T {
	for _, op := range ops {
		if t.isApp(op) {
			var out []*T
			for _, x := range t.a {
				out = append(out, flattenOp(x, ops...)...)
			}
			return out
		}
	}
	return []*T{t}
}

// piece: bytes lo..lo+n of the input, from bit `bit` of the word on.
type piece struct {
	lo, n, bit *T
}

func (s *sponge) pieceOf(st *State, input, v *T) *piece {
	in := s.in
	conv := func(t *T) *T {
		for strings.HasPrefix(t.s, "conv:") && t.op == "app" && len(t.a) == 1 {
			t = t.a[0]
		}
		return t
	}
	bit := tZero
	v = conv(v)
	for v.isApp("shl") {
		bit = tAdd(bit, conv(v.a[1]))
		v = conv(v.a[0])
	}
	byteOf := func(t *T) *T { // the position of a byte of the input
		t = conv(t)
		if !t.isApp("at") {
			return nil
		}
		root, off := subRoot(t.a[0])
		if root != input {
			return nil
		}
		return tAdd(off, t.a[1])
	}
	if v.isApp("unle64") {
		root, off := subRoot(in.settle(st, v.a[0]))
		if root != input {
			return nil
		}
		return &piece{off, mkInt(8), bit}
	}
	if p := byteOf(v); p != nil {
		return &piece{p, tOne, bit}
	}
	// a word put together from bytes
	if parts := flattenOp(v, "or", "xor"); len(parts) > 1 {
		var ps []*piece
		for _, x := range parts {
			p := s.pieceOf(st, input, x)
			if p == nil {
				return nil
			}
			ps = append(ps, p)
		}
		sort.SliceStable(ps, func(i, j int) bool {
			d := tSub(ps[i].bit, ps[j].bit)
			return d.isInt() && d.n.Sign() < 0
		})
		r := *ps[0]
		for _, p := range ps[1:] {
			if p.lo != tAdd(r.lo, r.n) || p.bit != tAdd(r.bit, tMul(mkInt(8), r.n)) {
				return nil
			}
			r.n = tAdd(r.n, p.n)
		}
		r.bit = tAdd(r.bit, bit)
		return &r
	}
	// a word a loop puts together
	for _, l := range in.loops {
		if l.unrolled || !onPath(st, l) {
			continue
		}
		for p, h := range l.phis {
			if h != v || len(l.backs) != 1 || l.ePhis[p] != tZero {
				continue
			}
			b := l.backs[0]
			parts := flattenOp(b.phis[p], "or", "xor")
			if len(parts) != 2 {
				return nil
			}
			for i := range parts {
				old, add := conv(parts[i]), conv(parts[1-i])
				if old.isApp("shl") && old.a[0] == h && conv(old.a[1]) == mkInt(8) { // from the last byte to the first
					x := byteOf(add)
					if x == nil {
						continue
					}
					first, next := s.atEntry(l, x), s.atBack(l, b, x)
					if tSub(x, next) != tOne {
						continue
					}
					x = pinned(st, x)
					return &piece{tAddI(x, 1), tSub(first, x), bit}
				}
				if old == h { // from the first byte to the last
					by := tZero
					for add.isApp("shl") {
						by = tAdd(by, conv(add.a[1]))
						add = conv(add.a[0])
					}
					x := byteOf(add)
					if x == nil {
						continue
					}
					first, next := s.atEntry(l, x), s.atBack(l, b, x)
					if tSub(next, x) != tOne || tSub(s.atBack(l, b, by), by) != mkInt(8) {
						continue
					}
					return &piece{first, pinned(st, tSub(x, first)), tAdd(bit, s.atEntry(l, by))}
				}
			}
		}
	}
	return nil
}

// headSubst: what a loop's variables at its head are at its entry, or when an iteration ends.
func (s *sponge) headSubst(l *LoopRec, st *State, phis map[*ssa.Phi]*T) map[*T]*T {
	m := map[*T]*T{}
	for p, h := range l.phis {
		v := phis[p]
		if v == nil || h == nil {
			continue
		}
		if h.op == "slice" && v.op == "slice" {
			for i := 1; i < len(h.a); i++ {
				if !isIntTerm(h.a[i]) {
					m[h.a[i]] = v.a[i]
				}
			}
			continue
		}
		m[h] = v
	}
	for a, h := range l.assumed.heap {
		if v := st.heap[a]; v != nil && l.entry.heap[a] != h {
			m[h] = v
		}
	}
	return m
}

// pinned: t with the variables that can only be one number replaced by it.
func pinned(st *State, t *T) *T {
	m := map[*T]*T{}
	for x := range toLin(t).m {
		if lo, hi := st.facts.bounds(x); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			m[x] = mkBig(lo)
		}
	}
	if len(m) == 0 {
		return t
	}
	return substLin(t, m)
}

func (s *sponge) atEntry(l *LoopRec, t *T) *T {
	return substLin(t, s.headSubst(l, l.entry, l.ePhis))
}
func (s *sponge) atBack(l *LoopRec, b *backEdge, t *T) *T {
	return substLin(t, s.headSubst(l, b.st, b.phis))
}

// spongeHead is the head of a loop that absorbs: how much of the input is used up
// there, and how full the block is.
type spongeHead struct {
	rec  *LoopRec
	used *T
	fill *T
	at   []*T // where the bytes added next go, as the lanes are indexed
	rels []*fillRel

	foreign bool // used is in terms of another loop's variables
}

// fillRel is a relation that may hold at a loop head, whenever at least `rest`
// bytes of the input are left.
type fillRel struct {
	kind string // "clean": the block is not full; "aligned": it ends at a lane; "is": k*x is the fill; "count": the bytes absorbed are what they should be
	k    int64
	x    *T
	rest int64
	l    *T
}

// noteUsed: an expression that tells how much is used up, best in the loop's own variables.
func (a *absorbRule) noteUsed(h *spongeHead, x *T) {
	foreign := a.foreign(h, x)
	if h.used == nil || h.foreign && !foreign {
		h.used, h.foreign = x, foreign
	}
}

// foreign: an expression is in terms of the variables of another loop, not around this one.
func (a *absorbRule) foreign(h *spongeHead, x *T) bool {
	own := map[*T]bool{}
	for _, l := range a.in.loops {
		if l != h.rec && !onPath(h.rec.assumed, l) {
			for _, v := range l.phis {
				own[v] = true
			}
		}
	}
	for y := range toLin(x).m {
		if own[y] {
			return true
		}
	}
	return false
}

func (h *spongeHead) noteAt(x *T) {
	for _, y := range h.at {
		if x == y {
			return
		}
	}
	if len(h.at) < 4 {
		h.at = append(h.at, x)
	}
}

// inBytes: a number of bits as a number of bytes.
func inBytes(t *T) *T {
	l := toLin(t)
	r := newLin()
	eight := big.NewInt(8)
	div := func(c *big.Int) *big.Int {
		q, m := new(big.Int).QuoRem(c, eight, new(big.Int))
		if m.Sign() != 0 {
			return nil
		}
		return q
	}
	for x, c := range l.m {
		q := div(c)
		if q == nil {
			return nil
		}
		r.m[x] = q
	}
	q := div(l.k)
	if q == nil {
		return nil
	}
	r.k = q
	return r.term()
}

type segEnd struct {
	st   *State
	to   *spongeHead // nil: the call ends
	phis map[*ssa.Phi]*T
	out  *Outcome
	pos  token.Pos
}

type absorbRule struct {
	*sponge
	input, plen *T
	addr, cnt   *T
	heads       []*spongeHead
	ends        []*segEnd
	n           int
}

func (s *sponge) state(c *Check, f *ssa.Function, full bool) *State {
	probe := &Run{c: c, in: newInterp(c.p), fn: f}
	st := newState()
	intT := types.Typ[types.Int]
	q, l, k := mkSym("blocks", intT), mkSym("lane", intT), mkSym("byte", intT)
	for _, x := range []*T{q, l, k} {
		st.assume(mkLe(tZero, x), true)
	}
	last := mkInt(s.rate/8 - 1)
	if full {
		l = last
	} else {
		st.assume(mkLe(tAddI(l, 1), last), true)
	}
	st.assume(mkLe(k, mkInt(7)), true)
	s.recv = probe.param(0)
	s.fill = tAdd(tMul(mkInt(8), l), k)
	s.before = tAdd(tMul(mkInt(s.rate), q), s.fill)
	probe.in.storeField(st, s.recv, s.fields[0], mkInt(s.cap))
	probe.in.storeField(st, s.recv, s.fields[1], mkInt(s.size))
	probe.in.storeField(st, s.recv, s.done, s.before)
	return st
}

// absorbs: one call of Write.
func (s *sponge) absorbs(f *ssa.Function, full bool) {
	c := s.c
	st := s.state(c, f, full)
	r := c.analyseFrom(st, f, nil, nil, keccakHook(s.perms))
	s.in = r.in
	a := &absorbRule{sponge: s}
	a.addr = mkField(s.recv, s.lanes, s.lanes.Type())
	a.cnt = mkField(s.recv, s.done, s.done.Type())
	seq := r.in.sliceSeq(newState(), r.in.expand(r.param(1), f.Params[1].Type()))
	a.input, _ = subRoot(seq)
	a.plen = seqLen(seq)
	// the heads
	for _, l := range r.in.loops {
		h := l.assumed.heap[a.addr]
		if l.unrolled || h == nil || h == l.entry.heap[a.addr] {
			continue
		}
		a.heads = append(a.heads, &spongeHead{rec: l})
	}
	for _, h := range a.heads {
		a.ends = append(a.ends, &segEnd{st: h.rec.entry, to: h, phis: h.rec.ePhis, pos: loopPos(h.rec)})
		for _, b := range h.rec.backs {
			a.ends = append(a.ends, &segEnd{st: b.st, to: h, phis: b.phis, pos: loopPos(h.rec)})
		}
	}
	for i := range r.outs {
		o := &r.outs[i]
		a.n++
		if !c.ok("write", s.label+" returns", o.kind == outReturn, o.pos, "a write does not return") {
			continue
		}
		a.ends = append(a.ends, &segEnd{st: o.st, out: o, pos: o.pos})
	}
	c.count("absorbing segments", len(a.ends))
	// how much of the input is used up at a head, and how full the block is: where
	// the next step takes its bytes from, and where it puts them
	for i := 0; i <= len(a.heads); i++ {
		for _, e := range a.ends {
			from, ops := a.start(e)
			if from == nil {
				continue
			}
			if noWrites(ops) {
				if e.to == nil || e.to == from {
					continue
				}
				m := a.headSubst(e.to.rec, e.st, e.phis)
				if e.to.used != nil {
					a.noteUsed(from, substLin(e.to.used, m))
				}
				continue
			}
			for _, op := range ops {
				if op.permute {
					continue
				}
				if p := a.pieceOf(e.st, a.input, op.val); op.ok && p != nil {
					a.noteUsed(from, p.lo)
					if op.lane == ops[0].lane {
						if x := inBytes(tAdd(tMul(mkInt(64), op.lane), p.bit)); x != nil && e.to == from && !a.foreign(from, x) {
							from.noteAt(x)
						}
					}
				}
				break
			}
		}
	}
	for _, h := range a.heads {
		if !c.ok("write", s.label+" order", h.used != nil, loopPos(h.rec), "a loop of Write changes the lanes, but which bytes of the input it adds cannot be told") {
			return
		}
		h.fill = mkSym("fill:"+h.rec.assumed.heap[a.addr].String(), types.Typ[types.Int])
		h.rels = a.candidates(h)
	}
	// keep the relations every arrival establishes
	for changed := true; changed; {
		changed = false
		for _, e := range a.ends {
			if e.to == nil {
				continue
			}
			fs, live := a.known(e)
			if !live {
				continue
			}
			used, fill, why := a.follow(fs, e)
			if why != "" {
				continue
			}
			kept := e.to.rels[:0]
			for _, rel := range e.to.rels {
				if a.arrives(fs, e, rel, used, fill) {
					kept = append(kept, rel)
				} else {
					changed = true
				}
			}
			e.to.rels = kept
		}
	}
	for _, e := range a.ends {
		fs, live := a.known(e)
		if !live {
			continue
		}
		used, fill, why := a.follow(fs, e)
		if why == dead {
			continue
		}
		if !c.ok("write", s.label+" steps", why == "", e.pos, "%s", why) {
			continue
		}
		if e.to != nil {
			want := substLin(e.to.used, a.headSubst(e.to.rec, e.st, e.phis))
			c.ok("write", s.label+" order", provesEq(fs, used, want), e.pos, "an iteration does not go on with the byte after the last one absorbed: %v of the input is absorbed, it goes on at %v", used, want)
			continue
		}
		c.ok("write", s.label+" all", provesEq(fs, used, a.plen), e.pos, "Write returns when %v bytes of %v are absorbed", used, a.plen)
		c.ok("write", s.label+" full", a.clean(fs, used, fill), e.pos, "Write can return with a full block that was not permuted")
		c.ok("write", s.label+" count", provesEq(fs, e.st.heap[a.cnt], tAdd(s.before, a.plen)), e.pos, "the number of bytes absorbed is not advanced by the length of the input: %v", e.st.heap[a.cnt])
		v := e.out.val
		ok := v.op == "tuple" && len(v.a) == 2 && provesEq(fs, v.a[0], a.plen) && isNil(e.st, v.a[1])
		c.ok("write", s.label+" result", ok, e.pos, "Write does not report that it took all of the input: %v", v)
		for i, x := range s.fields {
			want := []int64{s.cap, s.size}[i]
			got := r.in.loadField(e.st, s.recv, x)
			c.ok("write", s.label+" parameters", got == mkInt(want), e.pos, "Write changes %s", x.Name())
		}
		c.ok("write", s.label+" input", untouched(r.in, e.st, st, r.param(1)), e.pos, "Write changes the bytes it is given")
	}
}

func noWrites(ops []laneOp) bool {
	for _, op := range ops {
		if !op.permute {
			return false
		}
	}
	return true
}

func provesEq(st *State, a, b *T) bool {
	if spanned(st, tSub(a, b)) {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return a == b || st.proves(mkLe(a, b)) && st.proves(mkLe(b, a))
}

// start: the head (nil: the call) the lanes at the end of a segment go back to.
// spanned: t is zero by the equations known alone.
func spanned(st *State, t *T) bool {
	have := map[*T]bool{}
	for _, d := range st.facts.le {
		have[d] = true
	}
	type row struct {
		lead *T
		l    *lin
	}
	var rows []row
	reduce := func(l *lin) *lin {
		for _, r := range rows {
			c := l.m[r.lead]
			if c == nil || c.Sign() == 0 {
				continue
			}
			l = newLin().addMul(l, r.l.m[r.lead]).addMul(r.l, new(big.Int).Neg(c))
		}
		return l
	}
	seen := map[*T]bool{}
	for _, d := range st.facts.le {
		m := tNeg(d)
		if !have[m] || seen[d] {
			continue
		}
		seen[d], seen[m] = true, true
		l := reduce(toLin(d))
		var lead *T
		for x := range l.m {
			if lead == nil || x.id < lead.id {
				lead = x
			}
		}
		if lead != nil {
			rows = append(rows, row{lead, l})
		}
	}
	l := reduce(toLin(t))
	return len(l.m) == 0 && l.k.Sign() == 0
}

func (a *absorbRule) start(e *segEnd) (*spongeHead, []laneOp) {
	t := e.st.heap[a.addr]
	if t == nil {
		return nil, nil
	}
	root, ops := laneChain(e.st, t)
	for _, h := range a.heads {
		if h.rec.assumed.heap[a.addr] == root {
			return h, ops
		}
	}
	return nil, ops
}

// candidates: relations between the variables of a loop and the fill of the block.
func (a *absorbRule) candidates(h *spongeHead) []*fillRel {
	l := mkSym("lanes:"+h.fill.s, types.Typ[types.Int])
	out := []*fillRel{{kind: "clean"}}
	if h.rec.assumed.heap[a.cnt] != h.rec.entry.heap[a.cnt] {
		out = append(out, &fillRel{kind: "count"})
	}
	is := a.filled(h)
	for _, rest := range []int64{0, 8} {
		out = append(out, &fillRel{kind: "aligned", rest: rest, l: l})
		for _, r := range is {
			out = append(out, &fillRel{kind: "is", k: r.k, x: r.x, rest: rest})
		}
		for _, x := range h.at {
			out = append(out, &fillRel{kind: "is", k: 1, x: x, rest: rest})
		}
	}
	return out
}

// filled: the loop variable that tells how full the block is, in bytes or in lanes,
// judged by how it enters the loop and how an iteration changes it.
func (a *absorbRule) filled(h *spongeHead) []*fillRel {
	var xs []*T
	for p, v := range h.rec.phis {
		if isIntT(p.Type()) {
			xs = append(xs, v)
		}
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	var best []*fillRel
	least := 0
	for _, x := range xs {
		for _, k := range []int64{8, 1} {
			good, bad := 0, 0
			for _, e := range a.ends {
				from, ops := a.start(e)
				if e.to != h || from != nil && from != h {
					continue
				}
				d := tMul(mkInt(k), substLin(x, a.headSubst(h.rec, e.st, e.phis)))
				want := a.fill
				if from == h {
					want = tMul(mkInt(k), x)
				}
				for _, op := range ops {
					if op.permute {
						want = tZero
					} else if p := a.pieceOf(e.st, a.input, op.val); op.ok && p != nil {
						want = tAdd(want, p.n)
					}
				}
				if provesEq(e.st, d, want) {
					good++
				} else {
					bad++
				}
			}
			if good == 0 || len(best) > 0 && bad > least {
				continue
			}
			if bad < least {
				best = nil
			}
			best, least = append(best, &fillRel{kind: "is", k: k, x: x}), bad
		}
	}
	return best
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// holds: the relation of a head holds in this state.
func (a *absorbRule) holds(st *State, h *spongeHead, r *fillRel) bool {
	return r.rest == 0 || st.proves(mkLe(tAddI(h.used, r.rest), a.plen))
}

// fillAt: how full the block is at a head, in terms of the loop's variables where they tell.
func (a *absorbRule) fillAt(st *State, h *spongeHead) *T {
	for _, r := range h.rels {
		if r.kind == "is" && a.holds(st, h, r) {
			return tMul(mkInt(r.k), r.x)
		}
	}
	return h.fill
}

// known: what is known at the end of a segment, with what holds at the heads of the
// loops around it and before it. Not live: the segment cannot be taken.
func (a *absorbRule) known(e *segEnd) (*State, bool) {
	st := e.st.clone()
	rate := mkInt(a.rate)
	le := func(x, y *T) { st.facts.add(mkLe(x, y)) }
	eq := func(x, y *T) { le(x, y); le(y, x) }
	for _, h := range a.heads {
		if !onPath(e.st, h.rec) {
			continue
		}
		fill := a.fillAt(e.st, h)
		m := mkSym("filled:"+h.fill.s, types.Typ[types.Int])
		le(tZero, fill)
		le(fill, rate)
		le(tZero, m)
		total := tAdd(a.before, h.used)
		eq(total, tAdd(tMul(rate, m), fill))
		le(h.used, a.plen)
		for _, r := range h.rels {
			if !a.holds(e.st, h, r) {
				continue
			}
			switch r.kind {
			case "clean":
				le(tAddI(fill, 1), rate)
			case "aligned":
				eq(fill, tMul(mkInt(8), r.l))
			case "is":
				eq(fill, tMul(mkInt(r.k), r.x))
			case "count":
				eq(h.rec.assumed.heap[a.cnt], total)
			}
		}
	}
	// quotients of what is known not to be negative now, and at least the divisor
	seen := map[*T]bool{}
	var quotients func(t *T)
	quotients = func(t *T) {
		for q := range toLin(t).m {
			if seen[q] {
				continue
			}
			seen[q] = true
			if y := unconv(q); y != q && isIntTerm(y) {
				quotients(y)
			}
			if q.op == "app" && q.s != "div" {
				for _, x := range q.a {
					if isIntTerm(x) || x.op == "app" {
						quotients(x)
					}
				}
			}
			if !q.isApp("div") || !q.a[1].isInt() || q.a[1].n.Sign() <= 0 {
				continue
			}
			y, k := q.a[0], q.a[1]
			quotients(y)
			if st.proves(mkLe(k, y)) {
				le(tOne, q)
			}
			if !naturalLin(y) && st.proves(mkLe(tZero, y)) {
				le(tMul(k, q), y)
				le(tAdd(y, tOne), tAdd(tMul(k, q), k))
			}
		}
	}
	for _, d := range append([]*T{}, st.facts.le...) {
		quotients(d)
	}
	if _, ops := a.start(e); ops != nil {
		for _, op := range ops {
			if op.ok && op.lane != nil {
				quotients(op.lane)
				quotients(op.val)
			}
		}
	}
	// what differs from a bound is on one side of it
	for _, d := range append([]*T{}, st.facts.ne...) {
		if st.proves(mkLe(d, tZero)) {
			le(tAddI(d, 1), tZero)
		} else if st.proves(mkLe(tZero, d)) {
			le(tOne, d)
		}
	}
	return st, !st.facts.dead && !st.proves(mkLe(tOne, tZero))
}

// follow goes through the steps of a segment: the bytes used and the fill of the block at its end.
func (a *absorbRule) follow(st *State, e *segEnd) (used, fill *T, why string) {
	from, ops := a.start(e)
	used, fill = tZero, a.fill
	if from != nil {
		used, fill = from.used, a.fillAt(e.st, from)
	} else if t := e.st.heap[a.addr]; t != nil {
		if root, _ := laneChain(e.st, t); !root.isApp("init") {
			return used, fill, "the lanes are replaced by something else: " + root.String()
		}
	}
	rate := mkInt(a.rate)
	for _, op := range ops {
		if op.permute {
			whole := a.whole(st, used)
			if whole == yes && st.proves(mkLe(tOne, fill)) && st.proves(mkLe(tAddI(fill, 1), rate)) {
				return used, fill, dead
			}
			if !(whole == yes && st.proves(mkLe(tOne, fill)) && st.proves(mkLe(fill, rate))) && !provesEq(st, fill, rate) {
				return used, fill, "the state can be permuted before the block is full"
			}
			fill = tZero
			continue
		}
		if !op.ok {
			return used, fill, "a lane is not changed by adding bytes to it with exclusive or"
		}
		p := a.pieceOf(e.st, a.input, op.val)
		if p == nil {
			return used, fill, "what is added to a lane is not a run of bytes of the input, the first one lowest: " + op.val.String()
		}
		if !provesEq(st, p.lo, used) {
			return used, fill, "the bytes added to a lane are not the next ones of the input"
		}
		p.bit = plain(st, p.bit)
		if !provesEq(st, tAdd(tMul(mkInt(64), op.lane), p.bit), tMul(mkInt(8), fill)) {
			return used, fill, "the bytes of the input are added at another position than the one after the last byte absorbed"
		}
		if !st.proves(mkLe(tAdd(fill, p.n), rate)) {
			return used, fill, "bytes can be added to a block that is full"
		}
		if !(p.n == mkInt(8) && p.bit == tZero) && !st.proves(mkLe(tAdd(p.bit, tMul(mkInt(8), p.n)), mkInt(64))) {
			return used, fill, "bytes that do not fit in the lane are lost"
		}
		if !st.proves(mkLe(tZero, p.n)) {
			return used, fill, "the number of bytes added is not known"
		}
		used, fill = tAdd(used, p.n), tAdd(fill, p.n)
	}
	switch a.whole(st, used) {
	case yes:
		if st.proves(mkLe(tOne, fill)) && st.proves(mkLe(tAddI(fill, 1), rate)) {
			return used, fill, dead
		}
	case impossible:
		return used, fill, dead
	case no:
		if provesEq(st, fill, rate) || provesEq(st, fill, tZero) {
			return used, fill, dead
		}
	}
	return used, fill, ""
}

// impossible: the tests on the path contradict each other.
const impossible truth = 99

// plain: a sum without the conversions of numbers that are not negative.
func plain(st *State, t *T) *T {
	m := map[*T]*T{}
	for x := range toLin(t).m {
		if y := unconv(x); y != x && isIntTerm(y) && st.proves(mkLe(tZero, y)) {
			m[x] = y
		}
	}
	if len(m) == 0 {
		return t
	}
	return substLin(t, m)
}

// dead: the segment cannot be taken.
const dead = "-"

// whole: the bytes absorbed are a whole number of blocks, as far as a test on the
// path tells.
func (a *absorbRule) whole(st *State, used *T) truth {
	rate := mkInt(a.rate)
	total := tAdd(a.before, used)
	seen := map[*T]bool{}
	for _, d := range append(append([]*T{}, st.facts.le...), st.facts.ne...) {
		for q := range toLin(d).m {
			if !q.isApp("div") || q.a[1] != rate || seen[q] {
				continue
			}
			seen[q] = true
			if !provesEq(st, q.a[0], total) {
				continue
			}
			rest := tSub(q.a[0], tMul(rate, q))
			un := st.facts.decideEq(q.a[0], tMul(rate, q)) == no
			for _, x := range st.facts.ne {
				un = un || x == rest || x == tNeg(rest)
			}
			if provesEq(st, q.a[0], tMul(rate, q)) {
				if un {
					return impossible
				}
				return yes
			}
			if un {
				return no
			}
		}
	}
	return unknown
}

// clean: the block is not full.
func (a *absorbRule) clean(st *State, used, fill *T) bool {
	return st.proves(mkLe(tAddI(fill, 1), mkInt(a.rate))) || st.proves(mkLe(fill, mkInt(a.rate))) && a.whole(st, used) == no
}

// arrives: the relation holds where the segment reaches the head.
func (a *absorbRule) arrives(st *State, e *segEnd, r *fillRel, used, fill *T) bool {
	st = st.clone()
	if r.rest > 0 && (!st.assume(mkLe(tAddI(used, r.rest), a.plen), true) || st.proves(mkLe(tOne, tZero))) {
		return true
	}
	switch r.kind {
	case "clean":
		return a.clean(st, used, fill)
	case "aligned":
		return a.multipleOf8(st, fill)
	case "is":
		x := substLin(r.x, a.headSubst(e.to.rec, e.st, e.phis))
		return provesEq(st, tMul(mkInt(r.k), x), fill)
	case "count":
		return provesEq(st, e.st.heap[a.cnt], tAdd(a.before, used))
	}
	return false
}

func (a *absorbRule) multipleOf8(st *State, t *T) bool {
	for _, h := range a.heads {
		for _, r := range h.rels {
			if r.kind != "aligned" || !onPath(st, h.rec) || !a.holds(st, h, r) {
				continue
			}
			// the fill at the head, or the variable that tells it
			if f := a.fillAt(st, h); f == h.fill {
				t = substLin(t, map[*T]*T{h.fill: tMul(mkInt(8), r.l)})
			} else if l := toLin(f); len(l.m) == 1 {
				for x, k := range l.m {
					if k.Cmp(big.NewInt(1)) == 0 && l.k.Sign() == 0 {
						t = substLin(t, map[*T]*T{x: tMul(mkInt(8), r.l)})
					}
				}
			}
		}
	}
	// what is left without the multiples of 8
	rest := newLin()
	rest.k.Rem(toLin(t).k, big.NewInt(8))
	for x, c := range toLin(t).m {
		if new(big.Int).Rem(c, big.NewInt(8)).Sign() != 0 {
			rest.m[x] = c
		}
	}
	r := rest.term()
	for _, k := range []int64{0, 8, -8} {
		if provesEq(st, r, mkInt(k)) {
			return true
		}
	}
	return false
}
