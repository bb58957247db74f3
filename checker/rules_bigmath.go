package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// B03: the helpers for big integers compute what they are for. Results without loops
// are terms, compared with the specified ones; the loops over the words or bits of a
// number are compared, step by step, with the step of the scheme they carry out.

func init() { properties["B03"] = checkBigMath }

type bigRule struct{ c *Check }

var two255, two256 = new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(big.NewInt(1), 256)

func checkBigMath(c *Check) {
	k := &bigRule{c}
	for _, x := range []struct {
		name string
		f    func(f *ssa.Function)
	}{
		{"BigMax", func(f *ssa.Function) { k.pick(f, 1) }},
		{"BigMin", func(f *ssa.Function) { k.pick(f, -1) }},
		{"BigPow", k.pow}, {"FirstBitSet", k.firstBit}, {"ReadBits", k.readBits}, {"PaddedBigBytes", k.paddedBytes},
		{"Byte", k.byteAt}, {"U256", k.u256}, {"U256Bytes", k.u256Bytes}, {"S256", k.s256}, {"Exp", k.exp},
	} {
		if f := c.fn("common/math", x.name); f != nil {
			x.f(f)
		}
	}
}

// returns are the ends of f on which it returns; others must not be reached.
func (k *bigRule) returns(rule string, r *Run, f *ssa.Function, body func(o *Outcome)) {
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		if o.kind == outReturn {
			n++
			body(o)
		}
	}
	k.c.floor(rule, "returns of "+fnLabel(f), n, 1)
}

// knowPowers: the powers of two the package names, as numbers.
func knowPowers(st *State) {
	for _, e := range []int64{8, 63, 64, 255, 256} {
		st.assume(mkIntEq(powerTerm(e), mkBig(new(big.Int).Lsh(bigOne, uint(e)))), true)
	}
}

func powerTerm(e int64) *T { return mkApp("bexp", nil, mkInt(2), mkInt(e), tZero) }

// plainPowers: t with those powers replaced by the numbers.
func plainPowers(t *T) *T {
	m := map[*T]*T{}
	for _, e := range []int64{8, 63, 64, 255, 256} {
		for _, x := range powerTerms(t, e) {
			m[x] = mkBig(new(big.Int).Lsh(bigOne, uint(e)))
		}
	}
	if len(m) == 0 {
		return t
	}
	return substLin(t, m)
}

func powerTerms(t *T, e int64) (out []*T) {
	anyTerm(t, func(x *T) bool {
		if x.isApp("bexp") && x.a[0] == mkInt(2) && x.a[1] == mkInt(e) {
			out = append(out, x)
		}
		return false
	})
	return out
}

// reduced: t is m modulo 2^256.
func reduced(t *T) (m *T, ok bool) {
	if len(t.a) != 2 {
		return nil, false
	}
	switch {
	case t.isApp("band"):
		for i := range t.a {
			if plainPowers(t.a[i]) == mkBig(new(big.Int).Sub(two256, bigOne)) {
				return t.a[1-i], true
			}
		}
	case t.isApp("bmod"):
		if plainPowers(t.a[1]) == mkBig(two256) {
			return t.a[0], true
		}
	}
	return nil, false
}

func orReduced(t *T) *T {
	if m, ok := reduced(t); ok {
		return m
	}
	return t
}

func (k *bigRule) arg(r *Run, i int) *T { return r.in.bigVal(newState(), r.param(i)) }

func (k *bigRule) pick(f *ssa.Function, sign int64) {
	c := k.c
	r := c.analyse(f, nil)
	x, y := k.arg(r, 0), k.arg(r, 1)
	k.returns("pick", r, f, func(o *Outcome) {
		v := r.in.bigVal(o.st, o.val)
		ok := o.val == r.param(0) || o.val == r.param(1) || v == x || v == y
		for _, z := range []*T{x, y} {
			if sign > 0 {
				ok = ok && o.st.proves(mkLe(z, v))
			} else {
				ok = ok && o.st.proves(mkLe(v, z))
			}
		}
		c.ok("pick", fnLabel(f), ok, o.pos, "%s returns %v, which need not be the right one of both", fnLabel(f), v)
	})
}

func (k *bigRule) pow(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	a, b := r.param(0), r.param(1)
	want := mkApp("bexp", nil, a, b, tZero)
	k.returns("power", r, f, func(o *Outcome) {
		v := r.in.bigVal(o.st, o.val)
		ok := v == want || v.isApp("bexp") && unconv(v.a[0]) == a && unconv(v.a[1]) == b && v.a[2] == tZero ||
			o.st.proves(mkLe(b, tZero)) && v == tOne
		for _, l := range r.in.loops {
			if ok || l.unrolled || !onPath(o.st, l) {
				continue
			}
			ok = k.repeated(r, l, o, v, func(h *T) *T { return tMul(h, a) }, b)
		}
		c.ok("power", fnLabel(f), ok, o.pos, "%s returns %v, want its first argument to the power of the second", fnLabel(f), v)
	})
}

// repeated: v is what a cell holds after n times step, starting from 1.
func (k *bigRule) repeated(r *Run, l *LoopRec, o *Outcome, v *T, step func(h *T) *T, n *T) bool {
	for a, h := range l.assumed.heap {
		if h != v || l.entry.heap[a] != tOne && !(a.isApp("bv") && r.in.bigVal(l.entry, a.a[0]) == tOne) {
			continue
		}
		good := len(l.backs) > 0
		for _, b := range l.backs {
			good = good && b.st.heap[a] == step(h)
		}
		for p, i := range l.phis {
			if isIntT(p.Type()) && stepsBy(l, i, 1) && o.st.proves(mkLe(n, i)) {
				for _, b := range l.backs {
					if !b.st.proves(mkLt(i, n)) {
						return false
					}
				}
				return good
			}
		}
	}
	return false
}

func (k *bigRule) firstBit(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x := k.arg(r, 0)
	bitVal := func(st *State, i *T, v int64) bool {
		ok := false
		for _, d := range append(append([]*T{}, st.facts.le...), st.facts.ne...) {
			for t := range toLin(d).m {
				if t.isApp("bigbit") && t.a[0] == x && st.facts.decide(mkIntEq(t.a[1], i)) == yes {
					s := st.clone()
					s.assume(mkLe(tZero, t), true)
					s.assume(mkLe(t, tOne), true)
					ok = ok || s.facts.decide(mkIntEq(t, mkInt(v))) == yes
				}
			}
		}
		return ok
	}
	n := mkApp("bitlen", nil, x)
	k.returns("first bit", r, f, func(o *Outcome) {
		v := unconv(o.val)
		if v.isApp("bigtz") && v.a[0] == x {
			return
		}
		ok := false
		for _, l := range r.in.loops {
			if l.unrolled || !onPath(o.st, l) {
				continue
			}
			for p, i := range l.phis {
				if !isIntT(p.Type()) {
					continue
				}
				for _, at := range []*T{i, tAddI(i, 1)} {
					if !counts(l, at) {
						continue
					}
					all := true
					for _, b := range l.backs {
						all = all && bitVal(b.st, at, 0)
					}
					end := false
					for t := range lenTerms(o.st, "bitlen", x) {
						end = end || provesEq(o.st, v, t) && o.st.proves(mkLe(t, at))
					}
					ok = ok || all && (provesEq(o.st, v, at) && bitVal(o.st, at, 1) || end)
				}
			}
		}
		if o.st.facts.decide(mkIntEq(x, tZero)) == yes || o.st.proves(mkLe(n, tZero)) {
			ok = ok || provesEq(o.st, v, tZero)
		}
		c.ok("first bit", fnLabel(f), ok, o.pos, "%s returns %v: not the first bit found to be set with all lower ones looked at, nor the bit length with all bits looked at", fnLabel(f), v)
	})
}

// lenTerms: the terms of a name over x that the facts of a state speak of.
func lenTerms(st *State, name string, x *T) map[*T]bool {
	out := map[*T]bool{}
	for _, d := range append(append([]*T{}, st.facts.le...), st.facts.ne...) {
		anyTerm(d, func(t *T) bool {
			if t.isApp(name) && t.a[0] == x {
				out[t] = true
			}
			return false
		})
	}
	return out
}

// wordByte: t is byte m of the magnitude of x.
func wordByte(st *State, t, x *T) (m *T, ok bool) {
	if t.isApp("at") && t.a[0].isApp("hav:bigbytes") && t.a[0].a[1] == x {
		return tSub(tSub(t.a[0].a[0], tOne), t.a[1]), true
	}
	if t.isApp("conv:byte") || t.isApp("conv:uint8") {
		t = t.a[0]
	}
	shift := tZero
	if t.isApp("and") && len(t.a) == 2 && (t.a[0] == mkInt(255) || t.a[1] == mkInt(255)) {
		t = t.a[1]
		if t == mkInt(255) {
			t = t.a[0]
		}
	}
	if t.isApp("shr") {
		t, shift = t.a[0], t.a[1]
		if n, ok := int64(0), false; shift.isApp("shl") {
			if n, ok = shift.a[1].int64(); ok && n < 8 {
				shift = tMul(mkInt(1<<n), shift.a[0])
			}
		}
	}
	if !t.isApp("at") || !anyTerm(t.a[0], func(w *T) bool { return w.isApp("bigwords") && w.a[0] == x }) {
		return nil, false
	}
	s := withQuotients(st, shift, t.a[1])
	if !s.proves(mkLe(tZero, shift)) || !s.proves(mkLt(shift, mkInt(64))) {
		return nil, false
	}
	// 8*m = 64*word + shift
	bits := tAdd(tMul(mkInt(64), t.a[1]), shift)
	l := toLin(bits)
	out := newLin()
	for a, n := range l.m {
		if new(big.Int).Rem(n, big.NewInt(8)).Sign() != 0 {
			return nil, false
		}
		out.m[a] = new(big.Int).Quo(n, big.NewInt(8))
	}
	if new(big.Int).Rem(l.k, big.NewInt(8)).Sign() != 0 {
		return nil, false
	}
	out.k.Quo(l.k, big.NewInt(8))
	return out.term(), true
}

// beyond: byte m of x is zero because x has fewer.
func beyond(st *State, x, m *T) bool {
	ts := []*T{m}
	for _, d := range st.facts.le {
		ts = append(ts, d)
	}
	s := withQuotients(st, ts...)
	for _, d := range st.facts.le {
		for t := range toLin(d).m {
			if t.isApp("bitlen") && t.a[0] == x && s.proves(mkLe(t, tMul(mkInt(8), m))) {
				return true
			}
			if t.isApp("len") && t.a[0].isApp("bigwords") && t.a[0].a[0] == x && s.proves(mkLe(tMul(mkInt(8), t), m)) {
				return true
			}
		}
	}
	return s.facts.decide(mkIntEq(x, tZero)) == yes
}

func (k *bigRule) byteAt(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x, pad, n := k.arg(r, 0), r.param(1), r.param(2)
	m := tSub(tSub(pad, n), tOne)
	k.returns("byte", r, f, func(o *Outcome) {
		if !o.st.assume(mkLe(tZero, n), true) || o.st.facts.dead {
			return
		}
		ok := false
		if o.val == tZero {
			ok = o.st.proves(mkLe(pad, n)) || o.st.proves(mkLe(tZero, m)) && beyond(o.st, x, m)
		} else if o.st.proves(mkLt(n, pad)) {
			got, is := wordByte(o.st, o.val, x)
			ok = is && provesEq(withQuotients(o.st, got, m), got, m)
		}
		c.ok("byte", fnLabel(f), ok, o.pos, "%s returns %v, want byte padlength-1-n of the number counted from the least significant, and zero from padlength on", fnLabel(f), o.val)
	})
	k.inside("byte", r)
}

func (k *bigRule) inside(rule string, r *Run) {
	for _, b := range r.in.oblig {
		k.c.ok(rule, fnLabel(b.fn)+" "+b.kind, b.proven, b.pos, "%s can fail: %s", b.kind, b.text)
	}
}

func (k *bigRule) u256(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x := k.arg(r, 0)
	k.returns("wrap", r, f, func(o *Outcome) {
		v := r.in.bigVal(o.st, o.val)
		m, ok := reduced(v)
		in := v == x && o.st.proves(mkLe(tZero, x)) && o.st.proves(mkLt(x, mkBig(two256)))
		c.ok("wrap", fnLabel(f), ok && m == x || in, o.pos, "%s returns %v, want the argument modulo 2^256", fnLabel(f), v)
	})
}

func (k *bigRule) s256(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x := k.arg(r, 0)
	k.returns("sign", r, f, func(o *Outcome) {
		knowPowers(o.st)
		o.st.assume(mkLe(tZero, x), true)
		o.st.assume(mkLt(x, mkBig(two256)), true)
		if n := bitlenOf(x); o.st.proves(mkLe(mkInt(256), n)) {
			o.st.assume(mkLe(mkBig(two255), x), true)
		} else if o.st.proves(mkLe(n, mkInt(255))) {
			o.st.assume(mkLt(x, mkBig(two255)), true)
		}
		cases(o.st, []*T{mkLt(x, mkBig(two255))}, func(st *State, v []bool) {
			want := x
			if !v[0] {
				want = tSub(x, mkBig(two256))
			}
			got := r.in.bigVal(st, o.val)
			c.ok("sign", fnLabel(f), provesEq(st, plainPowers(got), want), o.pos, "%s returns %v for a number %s 2^255, want %v", fnLabel(f), got, map[bool]string{true: "below", false: "from"}[v[0]], want)
		})
	})
}

func bitlenOf(x *T) *T { return mkApp("bitlen", types.Typ[types.Int], x) }

// words is the check of a loop that writes the bytes of a number from the end of a
// buffer: the head of the loop has written the 8*i bytes of i words, or the buffer is full.
func (k *bigRule) words(rule string, r *Run, f *ssa.Function, l *LoopRec, o *Outcome, x, region, off, size *T) bool {
	c := k.c
	label := fnLabel(f)
	var left, at *T // the bytes of the buffer not written yet, the word next
	for p, h := range l.phis {
		if !isIntT(p.Type()) {
			continue
		}
		if counts(l, h) || counts(l, tAddI(h, 1)) {
			continue
		}
		if provesEq(l.entry, l.ePhis[p], size) {
			left = h
		}
	}
	for p, h := range l.phis {
		if !isIntT(p.Type()) || h == left {
			continue
		}
		for _, y := range []*T{h, tAddI(h, 1)} {
			if counts(l, y) {
				at = y
			}
		}
	}
	if left == nil || at == nil {
		return false
	}
	head := l.assumed.heap[region]
	// segment: what is written from the head on, n bytes
	segment := func(st *State, n int64) *State {
		s := st.clone()
		if n > 0 { // the buffer was not full: the relation of the head
			s.assume(mkIntEq(left, tSub(size, tMul(mkInt(8), at))), true)
		}
		cell := st.heap[region]
		writes := map[int64]bool{}
		for cell != nil && cell != head && cell.op == "upd" {
			d, isD := st.facts.normInt(tSub(tAdd(off, left), cell.a[1])).int64()
			m, isB := wordByte(s, cell.a[2], x)
			c.ok(rule, label+" byte", isD && isB && d >= 1 && d <= n && provesEq(s, m, tAddI(tMul(mkInt(8), at), d-1)), loopPos(l), "%s puts %v at %v: not the next byte of the number, right to left", label, cell.a[2], cell.a[1])
			writes[d] = true
			cell = cell.a[0]
		}
		c.ok(rule, label+" bytes", (cell == head || cell == nil && n == 0) && int64(len(writes)) == n, loopPos(l), "a word of %s writes %d bytes and counts %d", label, len(writes), n)
		return s
	}
	for _, b := range l.backs {
		var back *T
		for p, h := range l.phis {
			if h == left {
				back = b.phis[p]
			}
		}
		n, isNum := b.st.facts.normInt(tSub(left, back)).int64()
		if !c.ok(rule, label+" step", isNum && n >= 0 && n <= 8, loopPos(l), "a word of %s writes %v bytes", label, tSub(left, back)) {
			continue
		}
		s := segment(b.st, n)
		c.ok(rule, label+" step", n == 8 || s.proves(mkLe(back, tZero)), loopPos(l), "%s goes on to the next word after %d bytes of a word with room left", label, n)
	}
	if n := updates(o.st.heap[region]); n > 0 { // left inside a word
		s := segment(o.st, n)
		c.ok(rule, label+" all", s.proves(mkLe(left, mkInt(n))), o.pos, "%s ends before all words are written or the buffer is full", label)
		return true
	}
	full := o.st.proves(mkLe(left, tZero))
	for _, d := range o.st.facts.le {
		for t := range toLin(d).m {
			if t.isApp("len") && t.a[0].isApp("bigwords") && t.a[0].a[0] == x {
				full = full || o.st.proves(mkLe(t, at))
			}
		}
	}
	c.ok(rule, label+" all", full, o.pos, "%s ends before all words are written or the buffer is full", label)
	return true
}

func updates(t *T) (n int64) {
	for t != nil && t.op == "upd" {
		n++
		t = t.a[0]
	}
	return n
}

func updRoot(t *T) *T {
	for t != nil && t.op == "upd" {
		t = t.a[0]
	}
	return t
}

// single is the same for a loop that writes one byte a time.
func (k *bigRule) single(rule string, r *Run, f *ssa.Function, l *LoopRec, o *Outcome, x, region, off, size *T) bool {
	c := k.c
	label := fnLabel(f)
	at := counter(l)
	head := l.assumed.heap[region]
	if at == nil || head == nil {
		return false
	}
	up := false
	for _, b := range l.backs {
		cell := b.st.heap[region]
		if cell == nil || cell.op != "upd" || cell.a[0] != head {
			return false
		}
		m := tSub(tSub(tAdd(off, size), tOne), cell.a[1])
		got, is := wordByte(b.st, cell.a[2], x)
		s := withQuotients(b.st, got, m)
		up = b.st.facts.decide(mkIntEq(m, at)) == yes
		if !up && b.st.facts.decide(mkIntEq(tSub(cell.a[1], off), at)) != yes {
			return false
		}
		ok := is && provesEq(s, got, m) || cell.a[2] == tZero && beyond(b.st, x, m)
		c.ok(rule, label+" byte", ok, loopPos(l), "%s puts %v at %v: not that byte of the number", label, cell.a[2], cell.a[1])
	}
	full := o.st.proves(mkLe(size, at)) || up && beyond(o.st, x, at)
	c.ok(rule, label+" all", full && o.st.heap[region] == head, o.pos, "%s ends before all bytes are written or the buffer is full", label)
	return true
}

// counter: the number of iterations of a loop done at its head.
func counter(l *LoopRec) *T {
	for p, h := range l.phis {
		if !isIntT(p.Type()) {
			continue
		}
		for _, t := range []*T{tSub(h, l.ePhis[p]), tSub(l.ePhis[p], h)} {
			if counts(l, t) {
				return t
			}
		}
	}
	return nil
}

// numberAt: at the end o the buffer of n bytes at region holds the magnitude of x,
// the bytes it does not need as they were (zero for a new one).
func (k *bigRule) numberAt(rule string, r *Run, f *ssa.Function, o *Outcome, x *T, buf *T) bool {
	region, off, n := buf.a[0], buf.a[1], buf.a[2]
	for _, l := range r.in.loops {
		if onPath(o.st, l) && !l.unrolled && l.assumed.heap[region] != nil && l.assumed.heap[region] == updRoot(o.st.heap[region]) {
			return k.words(rule, r, f, l, o, x, region, off, n) || k.single(rule, r, f, l, o, x, region, off, n)
		}
	}
	got := r.in.sliceSeq(o.st, buf)
	if got == nil {
		return false
	}
	if got.isApp("hav:bigfill") && got.a[1] == x {
		return true
	}
	if got.op == "zero" && beyond(o.st, x, tZero) {
		return true
	}
	if got.op == "seq" { // written one by one
		es := seqElems(got)
		for i, e := range es {
			m := mkInt(int64(len(es) - 1 - i))
			b, is := wordByte(o.st, e, x)
			if !(is && provesEq(o.st, b, m) || e == tZero && beyond(o.st, x, m)) {
				return false
			}
		}
		return true
	}
	var bytes *T
	anyTerm(got, func(t *T) bool {
		if t.isApp("hav:bigbytes") && t.a[1] == x {
			bytes = t
		}
		return false
	})
	return bytes != nil && padded(withQuotients(o.st, bytes.a[0]), got, bytes, n, true)
}

func (k *bigRule) readBits(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x := k.arg(r, 0)
	buf := r.in.expand(r.param(1), f.Params[1].Type())
	k.returns("digits", r, f, func(o *Outcome) {
		if buf.op != "slice" {
			return
		}
		ok := k.numberAt("digits", r, f, o, x, buf) || o.st.proves(mkLe(buf.a[2], tZero)) || o.st.facts.decide(mkIntEq(x, tZero)) == yes
		c.ok("digits", fnLabel(f), ok, o.pos, "what %s leaves in the buffer is %v", fnLabel(f), r.in.sliceSeq(o.st, buf))
	})
	k.inside("digits", r)
}

// paddedTo: v holds exactly the bytes of x, with zeroes in front up to n.
func (k *bigRule) paddedTo(rule string, r *Run, f *ssa.Function, o *Outcome, x, n, v *T) {
	c := k.c
	label := fnLabel(f)
	if !c.ok(rule, label, v.op == "slice", o.pos, "%s returns %v", label, v) {
		return
	}
	s := withQuotients(o.st, v.a[2], n)
	for t := range lenTerms(o.st, "bitlen", x) {
		s = withQuotients(s, mkDiv(s, t, mkInt(8)), mkDiv(s, tAddI(t, 7), mkInt(8)))
	}
	got := r.in.sliceSeq(o.st, v)
	if got.isApp("hav:bigbytes") && got.a[1] == x {
		c.ok(rule, label+" length", s.proves(mkLe(n, got.a[0])), o.pos, "%s returns only the %v bytes the number needs, where more are asked for", label, got.a[0])
		return
	}
	c.ok(rule, label+" length", provesEq(s, v.a[2], n), o.pos, "%s returns %v bytes, want %v", label, v.a[2], n)
	fits := s.proves(mkLe(bitlenOf(x), tMul(mkInt(8), n)))
	for t := range lenTerms(o.st, "bitlen", x) {
		fits = fits || s.proves(mkLe(t, tMul(mkInt(8), n)))
	}
	c.ok(rule, label+" length", fits, o.pos, "%s can return %v bytes for a number that needs more", label, v.a[2])
	region := v.a[0]
	for _, l := range r.in.loops {
		if onPath(o.st, l) && l.assumed.heap[region] != nil && l.assumed.heap[region] == updRoot(o.st.heap[region]) {
			first := r.in.content(l.entry, region)
			c.ok(rule, label+" zero", first != nil && first.op == "zero" && first.a[1] == tZero, loopPos(l), "the buffer %s fills is %v at first, not zero", label, first)
		}
	}
	c.ok(rule, label, k.numberAt(rule, r, f, o, x, v), o.pos, "%s returns %v, not the bytes of the number padded with zeroes in front", label, got)
}

func (k *bigRule) paddedBytes(f *ssa.Function) {
	r := k.c.analyse(f, nil)
	x := k.arg(r, 0)
	k.returns("padded", r, f, func(o *Outcome) {
		if !o.st.assume(mkLe(tZero, r.param(1)), true) {
			return
		}
		k.paddedTo("padded", r, f, o, x, r.param(1), o.val)
	})
	k.inside("padded", r)
}

func (k *bigRule) u256Bytes(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	x := k.arg(r, 0)
	k.returns("wrap", r, f, func(o *Outcome) {
		var v *T
		for t := range bandTerms(o, r) {
			if m, ok := reduced(t); ok && m == x {
				v = t
			}
		}
		if !c.ok("wrap", fnLabel(f), v != nil, o.pos, "%s does not return the argument modulo 2^256: %v", fnLabel(f), r.in.sliceSeq(o.st, o.val)) {
			return
		}
		o.st.assume(mkLe(bitlenOf(v), mkInt(256)), true)
		if o.st.facts.dead {
			return
		}
		k.paddedTo("wrap", r, f, o, v, mkInt(32), o.val)
	})
}

// bandTerms: the masked numbers an end knows of.
func bandTerms(o *Outcome, r *Run) map[*T]bool {
	out := map[*T]bool{}
	see := func(t *T) bool {
		if t.isApp("band") || t.isApp("bmod") {
			out[t] = true
		}
		return false
	}
	for a, v := range o.st.heap {
		anyTerm(v, see)
		anyTerm(a, see)
	}
	for _, d := range o.st.facts.le {
		anyTerm(d, see)
	}
	return out
}

// exp: square and multiply, from the lowest bit of the exponent.
func (k *bigRule) exp(f *ssa.Function) {
	c := k.c
	label := fnLabel(f)
	r := c.analyse(f, nil)
	base, e := k.arg(r, 0), k.arg(r, 1)
	k.returns("exp", r, f, func(o *Outcome) {
		v := r.in.bigVal(o.st, o.val)
		whole := func(t *T) bool { return t == e || t.isApp("abs") && t.a[0] == e }
		if v.isApp("bexp") && v.a[0] == base && whole(v.a[1]) && plainPowers(v.a[2]) == mkBig(two256) {
			return
		}
		if m, ok := reduced(v); ok && m.isApp("bexp") && m.a[0] == base && whole(m.a[1]) && m.a[2] == tZero {
			return
		}
		if v == tOne && o.st.facts.decide(mkIntEq(e, tZero)) == yes {
			return
		}
		cell := mkApp("bv", nil, o.val)
		var outer *LoopRec
		for _, l := range r.in.loops {
			if onPath(o.st, l) && !l.unrolled && l.assumed.heap[cell] == v && v != l.entry.heap[cell] {
				outer = l
			}
		}
		if !c.ok("exp", label, outer != nil, o.pos, "%s returns %v", label, v) {
			return
		}
		step := outer
		for _, l := range r.in.loops {
			if l == outer || l.unrolled {
				continue
			}
			for _, b := range outer.backs {
				if onPath(b.st, l) && b.st.heap[cell] == l.assumed.heap[cell] && b.st.heap[cell] != v {
					step = l
				}
			}
		}
		k.expLoop(r, f, o, outer, step, cell, base, e)
	})
}

func (k *bigRule) expLoop(r *Run, f *ssa.Function, o *Outcome, outer, step *LoopRec, cell, base, e *T) {
	c := k.c
	label := fnLabel(f)
	rh := step.assumed.heap[cell]
	pos := loopPos(step)
	// the running square
	var sq, sh *T
	for a, h := range step.assumed.heap {
		all := a.isApp("bv") && a != cell && len(step.backs) > 0
		for _, b := range step.backs {
			all = all && b.st.heap[a] != nil && orReduced(b.st.heap[a]) == tMul(h, h)
		}
		if all {
			sq, sh = a, h
		}
	}
	if !c.ok("exp", label+" square", sq != nil, pos, "no number is squared in every step of %s", label) {
		return
	}
	start := func(l *LoopRec, cell *T) *T {
		if v := l.entry.heap[cell]; v != nil {
			return v
		}
		return r.in.bigVal(l.entry, cell.a[0])
	}
	c.ok("exp", label+" starts", start(outer, cell) == tOne && orReduced(start(outer, sq)) == base, loopPos(outer), "%s starts from %v with the power %v, want 1 and the base", label, start(outer, cell), start(outer, sq))
	// which bit a step looks at
	var at *T   // counts the steps
	var bit *T  // the bit, as a term at the head
	var word *T // what it is taken from
	for _, b := range step.backs {
		for _, d := range append(append([]*T{}, b.st.facts.le...), b.st.facts.ne...) {
			for t := range toLin(d).m {
				if t.isApp("bigbit") && t.a[0] == e && refersToHead(step, t) {
					bit = t
				}
				if t.isApp("and") && (t.a[0] == tOne || t.a[1] == tOne) && refersToHead(step, t) {
					bit = t
					word = t.a[0]
					if word == tOne {
						word = t.a[1]
					}
				}
			}
		}
	}
	for p, h := range step.phis { // taken as a remainder
		half := mkDiv(step.assumed, h, mkInt(2))
		for _, b := range step.backs {
			for _, d := range append(append([]*T{}, b.st.facts.le...), b.st.facts.ne...) {
				if bit == nil && isIntT(p.Type()) && toLin(d).m[half] != nil && toLin(d).m[h] != nil {
					bit, word = tSub(h, tMul(mkInt(2), half)), h
				}
			}
		}
	}
	if !c.ok("exp", label+" bit", bit != nil, pos, "%s does not decide by a bit of the exponent", label) {
		return
	}
	at = counter(step)
	if !c.ok("exp", label+" bit", at != nil, pos, "the steps of %s are not counted", label) {
		return
	}
	inWord := func(w *T) *T { // the number of the word of the exponent
		if w != nil && w.isApp("at") && anyTerm(w.a[0], func(t *T) bool { return t.isApp("bigwords") && t.a[0] == e }) {
			return w.a[1]
		}
		return nil
	}
	var last func(st *State, i *T) bool // all bits are done at the count i
	switch {
	case bit.isApp("bigbit"):
		last = func(st *State, i *T) bool {
			for t := range lenTerms(st, "bitlen", e) {
				if st.proves(mkLe(t, i)) {
					return true
				}
			}
			return false
		}
		c.ok("exp", label+" bit", bit.a[1] == at && step == outer, pos, "step i of %s looks at bit %v", label, bit.a[1])
	default:
		var w *T
		if word.isApp("shr") {
			w = inWord(word.a[0])
			c.ok("exp", label+" bit", w != nil && unconv(word.a[1]) == at, pos, "step i of %s looks at %v", label, bit)
		} else {
			for p, h := range step.phis {
				if h != word {
					continue
				}
				w = inWord(step.ePhis[p])
				for _, b := range step.backs {
					c.ok("exp", label+" bit", b.phis[p] == mkApp("shr", h.typ, h, tOne) || isHalf(b.phis[p], h), pos, "the next bit %s looks at is that of %v", label, b.phis[p])
				}
			}
		}
		if !c.ok("exp", label+" words", w != nil && step != outer && counts(outer, w), pos, "%s does not go over the words of the exponent: %v", label, bit) {
			return
		}
		last = func(st *State, i *T) bool { return st.proves(mkLe(mkInt(64), i)) }
		for _, b := range outer.backs {
			c.ok("exp", label+" words", onPath(b.st, step) && last(b.st, at), loopPos(outer), "%s can leave bits of a word out", label)
			c.ok("exp", label+" words", b.st.heap[cell] == rh && b.st.heap[sq] == sh, loopPos(outer), "%s changes the numbers between words", label)
		}
		c.ok("exp", label+" words", step.entry.heap[cell] == outer.assumed.heap[cell] && step.entry.heap[sq] == outer.assumed.heap[sq], pos, "%s changes the numbers between words", label)
		done := false
		for t := range lenWords(o.st, e) {
			done = done || o.st.proves(mkLe(t, w))
		}
		c.ok("exp", label+" words", done, o.pos, "%s can end before the last word of the exponent", label)
	}
	if step == outer {
		c.ok("exp", label+" bits", last(o.st, at), o.pos, "%s can end before the last bit of the exponent", label)
	}
	n := 0
	for _, b := range step.backs {
		s := b.st.clone()
		s.assume(mkLe(tZero, bit), true)
		s.assume(mkLe(bit, tOne), true)
		v := b.st.heap[cell]
		switch {
		case s.facts.decide(mkIntEq(bit, tOne)) == yes:
			n++
			c.ok("exp", label+" multiply", orReduced(v) == tMul(rh, sh) && v != tMul(rh, sh), pos, "for a bit that is set %s makes %v of the result, want the product with the power, modulo 2^256", label, v)
		case s.facts.decide(mkIntEq(bit, tZero)) == yes:
			n++
			c.ok("exp", label+" keep", v == rh || orReduced(v) == rh, pos, "for a bit that is not set %s makes %v of the result", label, v)
		default:
			c.ok("exp", label+" bit", false, pos, "%s does the same whether the bit is set or not", label)
		}
	}
	c.floor("exp", "paths of a step of "+label, n, 2)
}

func lenWords(st *State, e *T) map[*T]bool {
	out := map[*T]bool{}
	for _, d := range st.facts.le {
		for t := range toLin(d).m {
			if t.isApp("len") && t.a[0].isApp("bigwords") && t.a[0].a[0] == e {
				out[t] = true
			}
		}
	}
	return out
}

func isHalf(v, h *T) bool {
	return v != nil && (v.isApp("shr") && v.a[0] == h && v.a[1] == tOne || v.isApp("div") && v.a[0] == h && v.a[1] == mkInt(2))
}

func refersToHead(l *LoopRec, t *T) bool {
	for _, h := range l.phis {
		if anyTerm(t, func(x *T) bool { return x == h }) {
			return true
		}
	}
	return false
}
