package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// slot is a number a loop carries along: in a pointer variable or in the
// object a fixed pointer leads to.
type slot struct {
	head, entry *T
	back        []*T // per back edge
}

func (in *Interp) bigSlots(l *LoopRec) []*slot {
	var out []*slot
	for p, h := range l.phis {
		pt, ok := p.Type().(*types.Pointer)
		if !ok || !isBigInt(pt.Elem()) {
			continue
		}
		s := &slot{head: in.bigVal(l.assumed, h), entry: in.bigVal(l.entry, l.ePhis[p])}
		for _, b := range l.backs {
			s.back = append(s.back, in.bigVal(b.st, b.phis[p]))
		}
		out = append(out, s)
	}
	for a, h := range l.assumed.heap {
		if !a.isApp("bv") || l.entry.heap[a] == h {
			continue
		}
		s := &slot{head: h, entry: in.bigVal(l.entry, a.a[0])}
		for _, b := range l.backs {
			s.back = append(s.back, in.bigVal(b.st, a.a[0]))
		}
		out = append(out, s)
	}
	return out
}

func isOp(t *T, comp string) bool {
	return (t.isApp("jd") || t.isApp("ja")) && t.a[0].s == comp
}

// accumulator: the three slots of a loop holding the running multiple.
func (in *Interp) accumulator(l *LoopRec) []*slot {
	acc := make([]*slot, 3)
	for _, s := range in.bigSlots(l) {
		for _, b := range s.back {
			for i, c := range []string{"x", "y", "z"} {
				if isOp(b, c) && (acc[i] == nil || acc[i] == s) {
					acc[i] = s
				}
			}
		}
	}
	if acc[0] == nil || acc[1] == nil || acc[2] == nil {
		return nil
	}
	return acc
}

// scalarMult: the bits of the scalar are taken from the most significant one
// on; every step doubles and adds the point where the bit is set.
func (k *curveRule) scalarMult() {
	c := k.c
	f := c.fn("crypto", "BitCurve.ScalarMult")
	if f == nil {
		return
	}
	label := fnLabel(f)
	r := c.analyse(f, nil, withHook(k.hook))
	in := r.in
	var all []*stepLoop
	for _, l := range in.loops {
		if a := in.accumulator(l); a != nil {
			all = append(all, &stepLoop{LoopRec: l, acc: a, head: []*T{a[0].head, a[1].head, a[2].head}, entry: []*T{a[0].entry, a[1].entry, a[2].entry}})
		}
	}
	if !c.ok("steps", label, len(all) > 0, f.Pos(), "no loop that doubles and adds can be found") {
		return
	}
	// the loop over the bytes, when there is one
	var outer *LoopRec
	var oacc []*slot
	for _, l := range in.loops {
		if found := in.outerAcc(l, all); found != nil && outer == nil {
			outer, oacc = l, found
		}
	}
	c.ok("steps", label, len(all) == 1 || outer != nil, f.Pos(), "more than one loop doubles and adds")
	var flag, oflag *ssa.Phi
	var consulted bool
	var bs *bits
	var fin []*T
	for _, inner := range all {
		pos := loopPos(inner.LoopRec)
		bx, by := in.bigVal(newState(), r.param(1)), in.bigVal(newState(), r.param(2))
		isBase := func(x, y, z *T) bool { return x == bx && y == by && z == tOne }
		head, entry := inner.head, inner.entry
		doubledHead := func(t []*T) bool {
			ops := jacobianOf(t)
			return len(ops) == 3 && t[0].isApp("jd") && ops[0] == head[0] && ops[1] == head[1] && ops[2] == head[2]
		}
		addedHead := func(t []*T) bool {
			ops := jacobianOf(t)
			if len(ops) != 6 {
				return false
			}
			return isBase(ops[0], ops[1], ops[2]) && doubledHead(ops[3:]) || isBase(ops[3], ops[4], ops[5]) && doubledHead(ops[:3])
		}
		flag, consulted = startedFlag(inner.LoopRec)
		fin = head
		if outer != nil {
			c.ok("steps", label, entry[0] == oacc[0].head && entry[1] == oacc[1].head && entry[2] == oacc[2].head, pos, "the running multiple is not carried from byte to byte")
			entry = []*T{oacc[0].entry, oacc[1].entry, oacc[2].entry}
			fin = []*T{oacc[0].head, oacc[1].head, oacc[2].head}
			if flag != nil {
				for p, h := range outer.phis {
					if isBoolT(p.Type()) && (inner.ePhis[flag] == h || oflag == nil && inner.LoopRec.entry.facts.decide(h) != unknown && inner.LoopRec.entry.facts.decide(h) == inner.LoopRec.entry.facts.decide(inner.ePhis[flag])) {
						oflag = p
					}
				}
				ok := oflag != nil && outer.ePhis[oflag] == tFalse
				for _, b := range outer.backs {
					if oflag != nil && onPath(b.st, inner.LoopRec) {
						ok = ok && b.phis[oflag] == inner.phis[flag]
					}
				}
				c.ok("first", label, ok, pos, "whether a bit was seen is not carried from byte to byte, starting with no")
			}
		} else if flag != nil {
			c.ok("first", label, inner.ePhis[flag] == tFalse, pos, "a bit counts as seen before the first one")
		}
		if consulted {
			c.ok("start", label, isBase(entry[0], entry[1], entry[2]), pos, "the running multiple does not start as the point given: %v", entry)
		} else {
			c.ok("start", label, entry[2] == tZero, pos, "the running multiple does not start at infinity: %v", entry)
		}
		bs = newBits(c, r, inner.LoopRec, outer, input(r, 3))
		bs.oflag = oflag
		for i, b := range inner.backs {
			next := []*T{inner.acc[0].back[i], inner.acc[1].back[i], inner.acc[2].back[i]}
			bit := bs.bit(b)
			if !c.ok("bits", label, bit != unknown, pos, "a step does not depend on one bit of the scalar") {
				continue
			}
			seen := yes
			if consulted {
				seen = b.st.facts.decide(inner.phis[flag])
			}
			same := next[0] == head[0] && next[1] == head[1] && next[2] == head[2] || isBase(next[0], next[1], next[2])
			ok := false
			switch {
			case seen == yes && bit == yes:
				ok = addedHead(next)
			case seen == yes:
				ok = doubledHead(next)
			case seen == no:
				ok = same
			}
			c.ok("steps", label, ok, pos, "a step with the bit %v (a bit seen before: %v) turns the running multiple into %v", bit == yes, seen == yes, next[0])
			if flag != nil {
				want := tTrue
				if !consulted && bit == no {
					want = inner.phis[flag]
				} else if seen == no && bit == no {
					want = tFalse
				}
				got := b.phis[flag]
				c.ok("first", label, got == want || b.st.facts.decide(got) == b.st.facts.decide(want) && b.st.facts.decide(got) != unknown, pos, "after a step, whether a bit was seen is %v", got)
			}
			bs.step(label, b)
		}
		bs.ends(label, r, all)
	}
	n := 0
	for _, o := range r.outs {
		if o.kind == outFault {
			continue
		}
		k.n++
		if !c.ok("returns", label, o.kind == outReturn && o.val.op == "tuple", o.pos, "does not return") {
			continue
		}
		x, y := o.val.a[0], o.val.a[1]
		fl, fp := flag, all[0].LoopRec
		if outer != nil {
			fl, fp = oflag, outer
		}
		if flag != nil && fl == nil {
			continue
		}
		if x == tNil || y == tNil {
			none := fl != nil && o.st.facts.decide(fp.phis[fl]) == no || fl == nil && o.st.proves(mkIntEq(fin[2], tZero))
			c.ok("result", label, x == tNil && y == tNil && none, o.pos, "no point is returned although a bit of the scalar may be set")
			continue
		}
		n++
		vx, vy := in.bigVal(o.st, x), in.bigVal(o.st, y)
		ok := vx.isApp("aff") && vy.isApp("aff") && vx.a[0].s == "x" && vy.a[0].s == "y"
		if ok {
			for i := range fin {
				ok = ok && vx.a[1+i] == fin[i] && vy.a[1+i] == fin[i]
			}
			ok = ok && (!consulted || o.st.facts.decide(fp.phis[fl]) == yes)
		}
		c.ok("result", label, ok, o.pos, "the result is not the running multiple after the last bit: %v", vx)
	}
	c.ok("result", label, n > 0, f.Pos(), "never returns a point")
}

// stepLoop is a loop that doubles and adds, once for every context it is met in.
type stepLoop struct {
	*LoopRec
	acc         []*slot
	head, entry []*T
}

// outerAcc: the slots in which a loop carries the running multiple from one
// of the inner loops to the next.
func (in *Interp) outerAcc(l *LoopRec, all []*stepLoop) []*slot {
	ss := in.bigSlots(l)
	var found []*slot
	for i := 0; i < 3; i++ {
		for _, s := range ss {
			if len(found) != i {
				break
			}
			n := 0
			for _, x := range all {
				if x.LoopRec == l {
					return nil
				}
				if x.entry[i] == s.head {
					n++
				}
			}
			ok := n > 0
			for k, b := range s.back {
				through := false
				for _, x := range all {
					if onPath(l.backs[k].st, x.LoopRec) {
						through = true
						ok = ok && b == x.head[i]
					}
				}
				ok = ok && (through || b == s.head)
			}
			if ok {
				found = append(found, s)
			}
		}
	}
	if len(found) != 3 {
		return nil
	}
	return found
}

// startedFlag: the boolean a loop carries, and whether its steps look at it.
func startedFlag(l *LoopRec) (flag *ssa.Phi, consulted bool) {
	for p, h := range l.phis {
		if !isBoolT(p.Type()) {
			continue
		}
		for _, b := range l.backs {
			if b.st.facts.decide(h) != unknown {
				return p, true
			}
			if b.phis[p] != h {
				flag = p
			}
		}
	}
	return flag, false
}

// bits: which bit of a byte string each iteration looks at.
type bits struct {
	c            *Check
	in           *Interp
	inner, outer *LoopRec
	seq          *T
	pos          *T // position of the bit at the loop head, counted from the most significant
	shifted      *ssa.Phi
	mask         *ssa.Phi
	oflag        *ssa.Phi // of the outer loop: whether a bit was seen
}

func newBits(c *Check, r *Run, inner, outer *LoopRec, seq *T) *bits {
	return &bits{c: c, in: r.in, inner: inner, outer: outer, seq: seq}
}

// byteAt: t is an element of the string; its index.
func (b *bits) byteAt(t *T) *T {
	if !t.isApp("at") {
		return nil
	}
	root, off := subRoot(b.seq)
	r, o := subRoot(t.a[0])
	if r != root {
		return nil
	}
	return tSub(tAdd(t.a[1], o), off)
}

// bit: what a back edge knows about the bit it looked at; notes where that bit is.
func (b *bits) bit(e *backEdge) truth {
	f := e.st.facts
	res := unknown
	for _, t := range append(f.le[:len(f.le):len(f.le)], f.ne...) {
		for _, a := range toLin(t).terms() {
			if res != unknown {
				break
			}
			val, at := b.test(f, a)
			if val == unknown || at == nil {
				continue
			}
			if b.pos == nil {
				b.pos = at
			}
			if b.pos == at {
				res = val
			}
		}
	}
	return res
}

func (l *lin) terms() []*T {
	var ts []*T
	for a := range l.m {
		ts = append(ts, a)
	}
	return ts
}

// test: the term is one bit of the string, and the facts say which.
func (b *bits) test(f *Facts, t *T) (truth, *T) {
	var m, w *T
	switch {
	case t.isApp("and") && t.a[0].isInt():
		m, w = t.a[0], t.a[1]
	case t.isApp("and") && t.a[1].isInt():
		m, w = t.a[1], t.a[0]
	case t.isApp("and"):
		for i := range t.a {
			if s := t.a[1-i]; s.isApp("shr") && s.a[0] == mkInt(128) {
				return b.shiftedMask(f, t, s.a[1], t.a[i])
			}
		}
		for p, h := range b.inner.phis {
			if h == t.a[0] {
				return b.movingMask(f, t, p, t.a[1])
			}
			if h == t.a[1] {
				return b.movingMask(f, t, p, t.a[0])
			}
		}
		return unknown, nil
	case t.isApp("div") && t.a[1].isInt() && t.a[1].n.Cmp(big.NewInt(2)) == 0: // odd or even
		m, w = tOne, t.a[0]
		t = tSub(w, tMul(mkInt(2), t))
	default: // the byte itself, against its top bit
		top := mkInt(128)
		if intType(t) == nil || f.decide(mkLe(top, t)) == unknown {
			return unknown, nil
		}
		val := f.decide(mkLe(top, t))
		for p, h := range b.inner.phis {
			if h == t {
				if i := b.byteAt(b.inner.ePhis[p]); i != nil {
					b.shifted = p
					if cnt := b.counter(); cnt != nil {
						return val, tAdd(tMul(mkInt(8), i), cnt)
					}
				}
			}
		}
		return unknown, nil
	}
	val := unknown
	if f.decide(mkIntEq(t, m)) == yes || f.decide(mkLe(tOne, t)) == yes {
		val = yes
	} else if f.decide(mkIntEq(t, tZero)) == yes || f.decide(mkIntEq(t, m)) == no || f.decide(mkLt(t, m)) == yes {
		val = no
	}
	if val == unknown || m.n.Sign() <= 0 {
		return unknown, nil
	}
	bit := int64(m.n.BitLen() - 1)
	if new(big.Int).Lsh(big.NewInt(1), uint(bit)).Cmp(m.n) != 0 || bit > 7 {
		return unknown, nil
	}
	for p, h := range b.inner.phis { // a byte shifted left in every step
		if h == w && bit == 7 {
			if i := b.byteAt(b.inner.ePhis[p]); i != nil {
				b.shifted = p
				if cnt := b.counter(); cnt != nil {
					return val, tAdd(tMul(mkInt(8), i), cnt)
				}
			}
		}
	}
	sh := tZero
	if w.isApp("shr") {
		w, sh = w.a[0], w.a[1]
	} else if w.isApp("div") && w.a[1].isInt() {
		return unknown, nil
	}
	if i := b.byteAt(w); i != nil {
		return val, tAdd(tMul(mkInt(8), i), tSub(mkInt(7-bit), sh))
	}
	return unknown, nil
}

// movingMask: the byte is fixed and the mask moves right.
func (b *bits) movingMask(f *Facts, t *T, p *ssa.Phi, w *T) (truth, *T) {
	val := unknown
	if f.decide(mkLe(tOne, t)) == yes || f.decide(mkIntEq(t, b.inner.phis[p])) == yes {
		val = yes
	} else if f.decide(mkIntEq(t, tZero)) == yes || f.decide(mkIntEq(t, b.inner.phis[p])) == no {
		val = no
	}
	i := b.byteAt(w)
	if val == unknown || i == nil || b.inner.ePhis[p] != mkInt(128) {
		return unknown, nil
	}
	b.mask = p
	if cnt := b.counter(); cnt != nil {
		return val, tAdd(tMul(mkInt(8), i), cnt)
	}
	return val, tMul(mkInt(8), i)
}

// shiftedMask: the top bit is shifted to the one that is looked at.
func (b *bits) shiftedMask(f *Facts, t, by, w *T) (truth, *T) {
	i := b.byteAt(w)
	if i == nil || f.decide(mkIntEq(t, tZero)) == unknown {
		return unknown, nil
	}
	val := yes
	if f.decide(mkIntEq(t, tZero)) == yes {
		val = no
	}
	return val, tAdd(tMul(mkInt(8), i), by)
}

// skips: a byte is passed over that is zero, before any bit was seen.
func (b *bits) skips(e *backEdge, oflag *ssa.Phi, start *T) bool {
	if oflag == nil || e.phis[oflag] != b.outer.phis[oflag] && e.st.facts.decide(e.phis[oflag]) != no || e.st.facts.decide(b.outer.phis[oflag]) != no {
		return false
	}
	for _, d := range e.st.facts.le {
		for _, a := range toLin(d).terms() {
			if i := b.byteAt(a); i != nil && tMul(mkInt(8), i) == start && e.st.proves(mkIntEq(a, tZero)) {
				return true
			}
		}
	}
	return false
}

// counter: an inner variable that starts at zero and grows by one.
func (b *bits) counter() *T {
	for p, h := range b.inner.phis {
		if b.inner.ePhis[p] != tZero || intType(h) == nil {
			continue
		}
		ok := true
		for _, e := range b.inner.backs {
			ok = ok && e.phis[p] == tAddI(h, 1)
		}
		if ok {
			return h
		}
	}
	return nil
}

// step: the next iteration looks at the next bit.
func (b *bits) step(label string, e *backEdge) {
	c, pos := b.c, loopPos(b.inner)
	if b.shifted != nil {
		nx, h := e.phis[b.shifted], b.inner.phis[b.shifted]
		ok := (nx.isApp("shl") || nx.isApp("shl8")) && nx.a[0] == h && nx.a[1] == tOne || nx == tMul(mkInt(2), h) || nx.isApp("wadd") && nx.a[0] == h && nx.a[1] == h
		c.ok("bits", label, ok, pos, "the byte is not shifted by one bit: %v", nx)
	}
	if b.mask != nil {
		nx, h := e.phis[b.mask], b.inner.phis[b.mask]
		ok := nx.isApp("shr") && nx.a[0] == h && nx.a[1] == tOne || nx.isApp("div") && nx.a[0] == h && nx.a[1] == mkInt(2)
		c.ok("bits", label, ok, pos, "the mask is not shifted by one bit: %v", nx)
		return
	}
	if b.pos == nil {
		return
	}
	sub := map[*T]*T{}
	for p, h := range b.inner.phis {
		if e.phis[p] != nil {
			sub[h] = e.phis[p]
		}
	}
	nx := substLin(b.pos, sub)
	c.ok("bits", label, nx == tAddI(b.pos, 1), pos, "a step does not go on to the next bit: from %v to %v", b.pos, nx)
}

// substLin replaces variables in a linear term.
func substLin(t *T, sub map[*T]*T) *T {
	out := tZero
	l := toLin(t)
	for a, n := range l.m {
		v := a
		if sub[a] != nil {
			v = sub[a]
		}
		out = tAdd(out, tMul(mkBig(n), v))
	}
	return tAdd(out, mkBig(l.k))
}

// ends: all bits are looked at, from the first to the last.
func (b *bits) ends(label string, r *Run, all []*stepLoop) {
	c, pos := b.c, loopPos(b.inner)
	if !c.ok("bits", label, b.pos != nil, pos, "which bits of the scalar are looked at cannot be told") {
		return
	}
	n := tMul(mkInt(8), seqLen(b.seq))
	at := func(l *LoopRec, t *T) *T { // value on entry of the loop
		sub := map[*T]*T{}
		for p, h := range l.phis {
			sub[h] = l.ePhis[p]
		}
		return substLin(t, sub)
	}
	start := at(b.inner, b.pos)
	if b.outer == nil {
		c.ok("bits", label, b.inner.entry.proves(mkIntEq(start, tZero)), pos, "the first bit looked at is %v, not the most significant", start)
		for _, o := range r.outs {
			if o.kind == outReturn && onPath(o.st, b.inner) {
				c.ok("bits", label, o.st.proves(mkIntEq(b.pos, n)), pos, "not all bits are looked at")
			}
		}
		return
	}
	first := at(b.outer, start)
	c.ok("bits", label, b.outer.entry.proves(mkIntEq(first, tZero)), pos, "the first bit looked at is %v, not the most significant", first)
	for _, e := range b.outer.backs {
		last := b.pos
		if !onPath(e.st, b.inner) {
			other := false
			for _, l := range all {
				other = other || onPath(e.st, l.LoopRec)
			}
			if other {
				continue
			}
			c.ok("bits", label, b.skips(e, b.oflag, start), pos, "a byte is passed over that may have a bit set, or that matters after the first bit")
			last = tAddI(start, 8)
		}
		if b.mask != nil && b.counter() == nil && onPath(e.st, b.inner) {
			m := b.inner.phis[b.mask]
			c.ok("bits", label, e.st.proves(mkIntEq(m, tZero)), pos, "a byte is left before its last bit")
			last = tAddI(b.pos, 8)
		}
		sub := map[*T]*T{}
		for p, h := range b.outer.phis {
			sub[h] = e.phis[p]
		}
		c.ok("bits", label, e.st.proves(mkIntEq(last, substLin(start, sub))), pos, "the next byte does not go on where the one before ended")
	}
	for _, o := range r.outs {
		if o.kind == outReturn && onPath(o.st, b.outer) {
			c.ok("bits", label, o.st.proves(mkIntEq(start, n)), pos, "not all bytes are looked at")
		}
	}
}
