package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { properties["C04"] = ruleKeccak }

func ruleKeccak(c *Check) {
	perms := permutations(c)
	c.rulePermutation(perms)
	fs := c.fields("crypto/sha3", "digest.capacity", "digest.outputSize", "digest.a", "digest.absorbed")
	write := c.fn("crypto/sha3", "digest.Write")
	if fs == nil || write == nil {
		return
	}
	sum := c.fn("crypto/sha3", "digest.Sum")
	for _, n := range []int64{224, 256, 384, 512} {
		s := &sponge{c: c, perms: perms, lanes: fs[2], done: fs[3], fields: fs[:2], rate: 200 - 2*n/8, size: n / 8, cap: 2 * n / 8}
		s.label = fmt.Sprintf("Keccak-%d", n)
		s.starts(c.fn("crypto/sha3", "New"+strings.ReplaceAll(s.label, "-", "")))
		s.resets()
		s.sums(sum, false)
		s.sums(sum, true)
		s.absorbs(write, false)
		s.absorbs(write, true)
	}
}

// isLanes: the state of the permutation, 25 words of 64 bits.
func isLanes(t types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 25 {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint64
}

// permutations are the functions that take the address of the lanes and that a
// method of the digest, or a function working on a digest, calls.
func permutations(c *Check) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	digest := c.p.TypeOf("crypto/sha3", "digest")
	for _, f := range c.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/crypto/sha3" {
			continue
		}
		onDigest := false
		for _, p := range f.Params {
			if types.Identical(deref(p.Type()), digest) {
				onDigest = true
			}
		}
		if !onDigest {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || len(g.Params) != 1 || g.Signature.Results().Len() != 0 || g.Pkg != f.Pkg {
					continue
				}
				if isPtrT(g.Params[0].Type()) && isLanes(deref(g.Params[0].Type())) {
					out[g] = true
				}
			}
		}
	}
	return out
}

var keccakRC = [24]uint64{
	0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000,
	0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
	0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
	0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
	0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
	0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
}

// keccakRound is one round of Keccak-f[1600] on 25 words (lane x+5y at index x+5y),
// from the definition: theta, rho, pi, chi, iota.
func keccakRound(a [25]*word, rc uint64) (e [25]*word) {
	var c [5]*word
	for x := range c {
		c[x] = a[x].xor(a[x+5]).xor(a[x+10]).xor(a[x+15]).xor(a[x+20])
	}
	var t [25]*word
	for x := 0; x < 5; x++ {
		d := c[(x+4)%5].xor(c[(x+1)%5].rotl(1))
		for y := 0; y < 5; y++ {
			t[x+5*y] = a[x+5*y].xor(d)
		}
	}
	// rho: the offset of the lane reached after t steps of (x,y) -> (y, 2x+3y) is (t+1)(t+2)/2
	var rot [25]int
	for i, x, y := 0, 1, 0; i < 24; i++ {
		rot[x+5*y] = (i + 1) * (i + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	var b [25]*word
	for x := 0; x < 5; x++ {
		for y := 0; y < 5; y++ {
			b[y+5*((2*x+3*y)%5)] = t[x+5*y].rotl(rot[x+5*y])
		}
	}
	for y := 0; y < 5; y++ {
		for x := 0; x < 5; x++ {
			e[x+5*y] = b[x+5*y].xor(b[(x+1)%5+5*y].not().and(b[(x+2)%5+5*y]))
		}
	}
	e[0] = e[0].xor(constWord(rc))
	return e
}

// rulePermutation: what the permutation leaves in each lane is the lane of the 24
// rounds of Keccak-f[1600]. The words of the code are numbered round by round: a
// word whose normal form is that of a lane after round r becomes the input
// "lane i of round r+1", so every round is compared on its own.
func (c *Check) rulePermutation(perms map[*ssa.Function]bool) {
	c.floor("C04.permutation", "permutation functions", len(perms), 1)
	for f := range perms {
		n := &numberer{p: c.p, cut: map[string]*word{}, glob: map[*ssa.Global]*nobj{}}
		for r := 0; r < 24; r++ {
			var a [25]*word
			for i := range a {
				a[i] = inputWord(25*r + i)
			}
			for i, w := range keccakRound(a, keccakRC[r]) {
				n.cut[w.key()] = inputWord(25*(r+1) + i)
			}
		}
		state := &nobj{make([]*word, 25)}
		for i := range state.cells {
			state.cells[i] = inputWord(i)
		}
		var st *stopped
		func() {
			defer func() {
				if e := recover(); e != nil {
					s, ok := e.(stopped)
					if !ok {
						panic(e)
					}
					st = &s
				}
			}()
			n.call(f, []*nval{{obj: state}}, 0)
		}()
		if st != nil {
			pos := st.pos
			if !pos.IsValid() {
				pos = f.Pos()
			}
			c.ok("permutation", fnLabel(f), false, pos, "the numbering of %s stops: %s", fnLabel(f), st.why)
			continue
		}
		c.count("words numbered in the permutation", n.steps)
		bad := ""
		for i, w := range state.cells {
			if w.key() != inputWord(25*24+i).key() {
				bad += fmt.Sprintf(" %d", i)
			}
		}
		first := ""
		if bad != "" {
			// the first round with a lane the code never computes
			seen := n.made
			for r := 1; r <= 24 && first == ""; r++ {
				miss := ""
				for i := 0; i < 25; i++ {
					if !seen[inputWord(25*r+i).key()] {
						miss += fmt.Sprintf(" %d", i)
					}
				}
				if miss != "" {
					first = fmt.Sprintf("; after round %d the lanes%s are never computed", r, miss)
				}
			}
		}
		c.ok("permutation", fnLabel(f), bad == "", f.Pos(), "the lanes%s %s leaves are not those of 24 rounds of Keccak-f[1600]%s", bad, fnLabel(f), first)
	}
}

// bytes: the terms whose exclusive or makes up what was added to each lane.
func addends(st *State, ops []laneOp) (lanes []*T, parts [][]*T, ok bool) {
	for _, op := range ops {
		if op.permute || !op.ok {
			return nil, nil, false
		}
		at := -1
		for i, l := range lanes {
			if provesEq(st, l, op.lane) {
				at = i
			}
		}
		if at < 0 {
			at = len(lanes)
			lanes, parts = append(lanes, op.lane), append(parts, nil)
		}
		parts[at] = append(parts[at], flattenOp(op.val, "xor")...)
	}
	return lanes, parts, true
}

// closes: the steps add the two bits of the padding, the first one after the last
// byte absorbed, and nothing else.
func (s *sponge) closes(st *State, ops []laneOp) bool {
	lanes, parts, ok := addends(st, ops)
	if !ok {
		return false
	}
	last := mkInt(s.rate/8 - 1)
	top := new(big.Int).Lsh(bigOne, 63)
	open, end := 0, 0
	for i, l := range lanes {
		for _, x := range parts[i] {
			if x.isInt() && x.n.Cmp(top) == 0 && provesEq(st, l, last) {
				end++
				continue
			}
			bit := tZero
			for x = unconv(x); x.isApp("shl"); x = unconv(x.a[0]) {
				bit = tAdd(bit, unconv(x.a[1]))
			}
			if x.isInt() && x.n.Sign() > 0 {
				k := x.n.BitLen() - 1
				if new(big.Int).Lsh(bigOne, uint(k)).Cmp(x.n) == 0 && provesEq(st, tAddI(tAdd(bit, tMul(mkInt(64), l)), int64(k)), tMul(mkInt(8), s.fill)) {
					open++
					continue
				}
			}
			return false
		}
	}
	return open == 1 && end == 1
}

func unconv(t *T) *T {
	for t.op == "app" && strings.HasPrefix(t.s, "conv:") && len(t.a) == 1 {
		t = t.a[0]
	}
	return t
}

// laneByte: the byte of a lane a term is.
func laneByte(st *State, t *T, lanes *T) (int64, bool) {
	t = unconv(t)
	shift := int64(0)
	if t.isApp("at") {
		if j, ok := st.facts.normInt(t.a[1]).int64(); ok && t.a[0].isApp("hav:le64") {
			shift, t = 8*j, unconv(t.a[0].a[1])
		}
	} else if t.isApp("shr") {
		if j, ok := unconv(t.a[1]).int64(); ok && j%8 == 0 {
			shift, t = j, unconv(t.a[0])
		}
	}
	if t.isApp("at") && t.a[0] == lanes {
		if i, ok := st.facts.normInt(t.a[1]).int64(); ok {
			return 8*i + shift/8, true
		}
	}
	return 0, false
}

// sums: what Sum returns is what it was given and the hash of what was absorbed,
// and the digest can go on absorbing where it was.
func (s *sponge) sums(f *ssa.Function, full bool) {
	c := s.c
	st := s.state(c, f, full)
	r := c.analyseFrom(st, f, nil, nil, keccakHook(s.perms))
	s.in = r.in
	in0 := r.in.sliceSeq(newState(), r.in.expand(r.param(1), f.Params[1].Type()))
	n := seqLen(in0)
	addr := mkField(s.recv, s.lanes, s.lanes.Type())
	for i := range r.outs {
		o := &r.outs[i]
		if !c.ok("sum", s.label+" returns", o.kind == outReturn, o.pos, "Sum does not return") {
			continue
		}
		q := r.in.settle(o.st, r.in.sliceSeq(o.st, o.val))
		if !c.ok("sum", s.label+" length", provesEq(o.st, seqLen(q), tAddI(n, s.size)), o.pos, "Sum does not append %d bytes", s.size) {
			continue
		}
		c.ok("sum", s.label+" prefix", seqEq(o.st.facts, subSeq(o.st.facts, q, tZero, n), in0), o.pos, "what Sum returns does not begin with what it was given: %v", q)
		// the lanes the bytes come from
		var lanes *T
		for j := int64(0); j < s.size; j++ {
			x := unconv(atTerm(o.st.facts, q, tAddI(n, j)))
			eachSub(x, func(t *T) {
				if lanes == nil && t.isApp("keccakf") {
					lanes = t
				}
			})
			k := int64(-1)
			if lanes != nil {
				k, _ = laneByte(o.st, x, lanes)
			}
			if !c.ok("sum", s.label+" bytes", lanes != nil && k == j, o.pos, "byte %d of the hash is not byte %d of the permuted state: %v", j, j, x) {
				break
			}
		}
		if lanes != nil {
			root, ops := laneChain(o.st, lanes.a[0])
			c.ok("sum", s.label+" padding", root.isApp("init") && s.closes(o.st, ops), o.pos, "Sum does not close the state of the digest with a one bit after the last byte absorbed and a one bit at the end of the block, and permute it once: %v", lanes.a[0])
		}
		now := o.st.heap[addr]
		c.ok("sum", s.label+" state", now == nil || now.isApp("init"), o.pos, "Sum changes the state of the digest: %v", now)
		s.same(o, st, r)
	}
	c.count("ways a hash is summed", len(r.outs))
	for _, b := range r.in.oblig {
		c.ok("sum", s.label+" bounds", b.proven, b.pos, "Sum can fail: %s", b.text)
	}
}

func (s *sponge) same(o *Outcome, st *State, r *Run) {
	for _, x := range append(append([]*types.Var{}, s.fields...), s.done) {
		s.c.ok("sum", s.label+" fields", r.in.loadField(o.st, s.recv, x) == r.in.loadField(st, s.recv, x), o.pos, "Sum changes %s", x.Name())
	}
}

func eachSub(t *T, f func(*T)) {
	f(t)
	for _, x := range t.a {
		eachSub(x, f)
	}
}

// resets: Reset leaves nothing absorbed; Size and BlockSize tell the parameters.
func (s *sponge) resets() {
	c := s.c
	for _, name := range []string{"Reset", "Size", "BlockSize"} {
		f := c.fn("crypto/sha3", "digest."+name)
		if f == nil {
			continue
		}
		st := s.state(c, f, false)
		r := c.analyseFrom(st, f, nil, nil, keccakHook(s.perms))
		for i := range r.outs {
			o := &r.outs[i]
			if !c.ok("reset", s.label+" returns", o.kind == outReturn, o.pos, "%s does not return", name) {
				continue
			}
			if name != "Reset" {
				want := s.size
				if name == "BlockSize" {
					want = s.rate
				}
				c.ok("reset", s.label+" "+name, o.val == mkInt(want), o.pos, "%s is %v, not %d", name, o.val, want)
				continue
			}
			c.ok("reset", s.label+" count", r.in.loadField(o.st, s.recv, s.done) == tZero, o.pos, "Reset leaves something absorbed")
			for _, x := range s.fields {
				c.ok("reset", s.label+" parameters", r.in.loadField(o.st, s.recv, x) == r.in.loadField(st, s.recv, x), o.pos, "Reset changes %s", x.Name())
			}
			a := r.in.loadField(o.st, s.recv, s.lanes)
			for k := int64(0); k < 25; k++ {
				x := atTerm(o.st.facts, a, mkInt(k))
				if !c.ok("reset", s.label+" lanes", x == tZero, o.pos, "Reset does not clear lane %d: %v", k, x) {
					break
				}
			}
		}
	}
}

// starts: the constructor makes a digest of its own with nothing absorbed.
func (s *sponge) starts(f *ssa.Function) {
	c := s.c
	r := c.analyse(f, nil)
	for i := range r.outs {
		o := &r.outs[i]
		if !c.ok("new", s.label+" returns", o.kind == outReturn && o.val.op == "iface", o.pos, "%s does not return a digest", fnLabel(f)) {
			continue
		}
		d := o.val.a[0]
		c.ok("new", s.label+" own", d.op == "alloc", o.pos, "%s returns a digest that is not new: %v", fnLabel(f), d)
		want := []int64{s.cap, s.size, 0}
		for k, x := range append(append([]*types.Var{}, s.fields...), s.done) {
			v := r.in.loadField(o.st, d, x)
			c.ok("new", s.label+" parameters", v == mkInt(want[k]), o.pos, "%s of a new digest is %v, not %d", x.Name(), v, want[k])
		}
		a := r.in.loadField(o.st, d, s.lanes)
		for k := int64(0); k < 25; k++ {
			c.ok("new", s.label+" lanes", atTerm(o.st.facts, a, mkInt(k)) == tZero, o.pos, "lane %d of a new digest is not zero", k)
		}
	}
}
