package main

import (
	"fmt"
	"go/token"
	"go/types"
	"hash/fnv"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C06: MnemonicEncode writes every group of 8 hexadecimal digits as three words of the
// list, MnemonicDecode reads three words back as the same 8 digits. What an iteration
// of either loop appends is a term over the group (the words) at its head; it must be
// the number the scheme gives.

func init() { properties["C06"] = checkMnemonic }

// The English list of the scheme: 1626 words, pinned by number and digest.
const (
	mnemWords  = 1626
	mnemDigest = "c1c50526a0570139"
)

type mnemRule struct {
	c     *Check
	words *T // the list
	n     *T
}

func checkMnemonic(c *Check) {
	k := &mnemRule{c: c, n: mkInt(mnemWords)}
	enc, dec := c.fn("crypto", "MnemonicEncode"), c.fn("crypto", "MnemonicDecode")
	if enc == nil || dec == nil || !k.list() {
		return
	}
	k.encode(enc)
	k.decode(dec)
}

// list: the words are distinct, and as many as the scheme needs for 32 bits.
func (k *mnemRule) list() bool {
	c := k.c
	g := c.p.globalVal("crypto", "MnemonicWords")
	if !c.ok("words", "crypto.MnemonicWords", g != nil, token.NoPos, "the word list has no value known at compile time") {
		return false
	}
	in := newInterp(c.p)
	s := in.sliceSeq(newState(), g)
	var es []*T
	if s != nil && (s.op == "seq" || s.op == "lit") {
		es = seqElems(s)
	}
	h := fnv.New64a()
	seen := map[string]bool{}
	for _, e := range es {
		if e.op != "lit" || e.s == "" || seen[e.s] {
			c.ok("words", "crypto.MnemonicWords", false, token.NoPos, "the word list has %v twice, or it is empty or not constant", e)
			return false
		}
		seen[e.s] = true
		h.Write([]byte(e.s + "\n"))
	}
	k.words = s
	d := fmt.Sprintf("%016x", h.Sum64())
	return c.ok("words", "crypto.MnemonicWords", len(es) == mnemWords && d == mnemDigest, token.NoPos,
		"the word list has %d distinct words, digest %s: want the %d words of the scheme in their order, digest %s", len(es), d, mnemWords, mnemDigest)
}

// mainLoop: the only loop whose variables the returned value depends on and that is
// not inside another function's search.
func (k *mnemRule) mainLoop(r *Run) (*LoopRec, *T) {
	for _, l := range r.in.loops {
		for i := range r.outs {
			o := &r.outs[i]
			if o.kind != outReturn || !onPath(o.st, l) || l.unrolled {
				continue
			}
			for _, h := range l.phis {
				if o.val == h || k.sameOut(r.in, o.st, o.val, h) {
					return l, h
				}
			}
			for a, h := range l.assumed.heap {
				if l.entry.heap[a] != h && (o.val == h || k.sameOut(r.in, o.st, o.val, h)) {
					return l, h
				}
			}
		}
	}
	return nil, nil
}

func (k *mnemRule) seq(in *Interp, st *State, v *T) *T {
	if v != nil && v.op == "slice" {
		return in.sliceSeq(st, v)
	}
	return v
}

func (k *mnemRule) sameOut(in *Interp, st *State, a, b *T) bool {
	x, y := k.seq(in, st, a), k.seq(in, st, b)
	return x != nil && y != nil && (x == y || seqEq(st.facts, x, y))
}

// walked: the loop goes over what is given in groups of size, from the start, and s at
// pos is inside the group of the iteration. The offset in the group is returned.
func (k *mnemRule) walked(r *Run, l *LoopRec, st *State, given, root, pos *T, size int64) (*T, bool) {
	f := st.facts
	for p, h := range l.phis {
		if isIntT(p.Type()) && root == given {
			d := f.normInt(tSub(pos, h))
			if _, ok := d.int64(); ok && stepsBy(l, h, size) {
				return d, true
			}
		}
		hs := h
		if h.op == "slice" {
			hs = r.in.sliceSeq(l.assumed, h)
		}
		hr, ho := subRoot(hs)
		if _, isInt := p.Type().Underlying().(interface{ Info() int }); isInt || hr != root {
			continue
		}
		es := l.ePhis[p]
		if es != nil && es.op == "slice" {
			es = r.in.sliceSeq(l.entry, es)
		}
		if es == nil || !seqEq(l.entry.facts, es, given) {
			continue
		}
		good := len(l.backs) > 0
		for _, b := range l.backs {
			bs := b.phis[p]
			if bs != nil && bs.op == "slice" {
				bs = r.in.sliceSeq(b.st, bs)
			}
			good = good && bs != nil && seqEq(b.st.facts, bs, subSeq(b.st.facts, hs, mkInt(size), seqLen(hs)))
		}
		if good {
			return f.normInt(tSub(pos, ho)), true
		}
	}
	return nil, false
}

// stepsBy: h goes through 0, size, 2*size, ...
func stepsBy(l *LoopRec, h *T, size int64) bool {
	if e := l.entry.facts; e.decide(mkIntEq(substLin(h, loopSubst(l, l.entry, l.ePhis)), tZero)) != yes {
		return false
	}
	for _, b := range l.backs {
		if b.st.facts.decide(mkIntEq(substLin(h, loopSubst(l, b.st, b.phis)), tAddI(h, size))) != yes {
			return false
		}
	}
	return len(l.backs) > 0
}

// exits: where the loop is left, less than a whole group is left of what is given.
func (k *mnemRule) exits(r *Run, l *LoopRec, out, given *T, size int64, label string) {
	c := k.c
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		if o.kind != outReturn {
			continue
		}
		if !onPath(o.st, l) {
			// nothing to do: fewer than a group, and nothing returned
			s := k.seq(r.in, o.st, o.val)
			c.ok("whole", label, s != nil && o.st.proves(mkLt(seqLen(given), mkInt(size))) && o.st.proves(mkIntEq(seqLen(s), tZero)), o.pos,
				"%s returns %s without going over the whole groups of its argument", label, (o.val))
			continue
		}
		n++
		done := false
		for p, h := range l.phis {
			if isIntT(p.Type()) && stepsBy(l, h, size) {
				done = done || o.st.proves(mkLt(seqLen(given), tAddI(h, size)))
			}
			hs := h
			if h.op == "slice" {
				hs = r.in.sliceSeq(l.assumed, h)
			}
			if !isIntT(p.Type()) && !isBoolT(p.Type()) && hs != nil {
				if _, ok := k.walked(r, l, o.st, given, first(subRoot(hs)), second(subRoot(hs)), size); ok {
					done = done || o.st.proves(mkLt(seqLen(hs), mkInt(size)))
				}
			}
		}
		c.ok("whole", label, done && k.sameOut(r.in, o.st, o.val, out), o.pos, "%s can return before all whole groups of its argument have been turned over, or returns something else than what they gave", label)
	}
	c.floor("whole", label+" returns", n, 1)
}

func first(a, _ *T) *T  { return a }
func second(_, b *T) *T { return b }

// appended: what an iteration adds to out.
func (k *mnemRule) appended(r *Run, l *LoopRec, b *backEdge, out *T) *T {
	var next *T
	for p, h := range l.phis {
		if h == out {
			next = k.seq(r.in, b.st, b.phis[p])
		}
	}
	for a, h := range l.assumed.heap {
		if h == out && next == nil {
			next = b.st.heap[a]
		}
	}
	prev := k.seq(r.in, l.assumed, out)
	if next == nil || prev == nil {
		return nil
	}
	f := b.st.facts
	if ps := catParts(next); len(ps) > 1 && seqEq(f, ps[0], prev) {
		return mkCat(ps[1:]...)
	}
	n := seqLen(prev)
	if !seqEq(f, subSeq(f, next, tZero, n), prev) {
		return nil
	}
	return subSeq(f, next, n, seqLen(next))
}

func (k *mnemRule) startOf(l *LoopRec, out *T) *T {
	for p, h := range l.phis {
		if h == out {
			return l.ePhis[p]
		}
	}
	for a, h := range l.assumed.heap {
		if h == out {
			cell := a
			if a.isApp("ghost") {
				cell = a.a[0]
			}
			if v := l.entry.heap[a]; v != nil || rootOf(cell).op != "alloc" {
				return v
			}
			return tEmpty
		}
	}
	return nil
}

func (k *mnemRule) startsEmpty(r *Run, l *LoopRec, out *T) bool {
	s := k.seq(r.in, l.entry, k.startOf(l, out))
	return s != nil && l.entry.proves(mkIntEq(seqLen(s), tZero))
}

// wordAt: t is the word of the list at some place.
func (k *mnemRule) wordAt(st *State, t *T) *T {
	if t == nil {
		return nil
	}
	if t.isApp("at") && t.a[0] == k.words {
		return t.a[1]
	}
	if t.op == "lit" {
		for i, w := range seqElems(k.words) {
			if w == t {
				return mkInt(int64(i))
			}
		}
	}
	return nil
}

func (k *mnemRule) encode(f *ssa.Function) {
	c := k.c
	label := fnLabel(f)
	r := c.analyse(f, nil)
	l, out := k.mainLoop(r)
	if !c.ok("encode", label+" loops", l != nil, f.Pos(), "%s: the loop that collects the words is not found", label) {
		return
	}
	c.ok("encode", label+" starts", k.startsEmpty(r, l, out), loopPos(l), "%s does not start from an empty list of words: %v from %v", label, out, k.startOf(l, out))
	k.exits(r, l, out, r.param(0), 8, label)
	paths := 0
	for _, b := range l.backs {
		st := b.st
		var p, group, bits *T
		var ev *Event
		for e := st.ev; e != nil && !(e.kind == "loop" && e.loop == l); e = e.prev {
			if e.kind == "parsenum" && len(e.args) > 1 {
				ev, group, p = e, e.args[0], e.res
				bits = e.args[len(e.args)-1]
			}
		}
		pos := loopPos(l)
		if !c.ok("encode", label+" reads", ev != nil, pos, "an iteration of %s reads no number", label) {
			continue
		}
		root, off := subRoot(group)
		at, ok := k.walked(r, l, st, r.param(0), root, off, 8)
		c.ok("encode", label+" reads", ok && at == tZero && st.facts.decide(mkIntEq(seqLen(group), mkInt(8))) == yes && ev.args[1] == mkInt(16), ev.pos,
			"an iteration of %s reads %s, not the next 8 digits in base 16", label, (group))
		if p == nil || st.facts.decide(mkApp("isnum", types.Typ[types.Bool], group)) == no {
			continue // not a number
		}
		words := k.appended(r, l, b, out)
		var es []*T
		if words != nil && (words.op == "seq" || words.op == "lit") {
			es = seqElems(words)
		}
		clamped := mkApp("clamped", types.Typ[types.Int], group)
		if anyTerm(words, func(x *T) bool { return x == clamped }) {
			n, _ := bits.int64()
			c.ok("encode", label+" reads", n == 0 || n > 32 || n == 32 && ev.name == "ParseUint", ev.pos, "%s reads the 32 bits of a group as a number of %d bits with a sign", label, n)
			continue
		}
		s := st.clone()
		s.assume(mkLe(tZero, p), true)
		s.assume(mkLe(p, mkBig(new(big.Int).SetUint64(1<<32-1))), true)
		if s.facts.dead {
			continue
		}
		paths++
		if !c.ok("encode", label+" words", len(es) == 3, pos, "an iteration of %s adds %s, not three words", label, (words)) {
			continue
		}
		div := func(x *T) *T { return mkDiv(s, x, k.n) }
		mod := func(x *T) *T { return tSub(x, tMul(k.n, div(x))) }
		var w [3]*T
		for i, e := range es {
			w[i] = k.wordAt(s, e)
			c.ok("encode", label+" words", w[i] != nil, pos, "word %d an iteration of %s adds is %s, not one of the list", i+1, label, (e))
		}
		q1 := div(p)
		w1 := mod(p)
		w2 := mod(tAdd(q1, w1))
		same := func(got *T, wants ...*T) bool {
			if got == nil {
				return false
			}
			for _, want := range wants {
				if provesEq(withQuotients(s, append([]*T{got}, wants...)...), got, want) {
					return true
				}
			}
			return false
		}
		c.ok("encode", label+" word 1", same(w[0], w1), pos, "the first word %s gives for the number x is number %s, want x mod %d", label, (w[0]), mnemWords)
		c.ok("encode", label+" word 2", same(w[1], w2), pos, "the second word %s gives for the number x is number %s, want (x/n + w1) mod n", label, (w[1]))
		c.ok("encode", label+" word 3", same(w[2], mod(tAdd(div(q1), w2)), mod(tAdd(mkDiv(s, p, tMul(k.n, k.n)), w2))), pos, "the third word %s gives for the number x is number %s, want (x/n/n + w2) mod n", label, (w[2]))
	}
	c.floor("encode", "paths of an iteration of "+label, paths, 1)
}

// found: the place in the list the search ended at for a word.
func (k *mnemRule) found(r *Run, st *State, word *T) *T {
	for x, y := range st.facts.eqt {
		for _, p := range [][2]*T{{x, y}, {y, x}} {
			if p[0].isApp("at") && p[0].a[0] == k.words && st.facts.rep(p[1]) == st.facts.rep(word) {
				return p[0].a[1]
			}
		}
	}
	return nil
}

// missing: the whole list was searched for a word, and it is not there.
func (k *mnemRule) missing(r *Run, st *State, word *T) bool {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "missing" && e.args[0] == k.words && st.facts.rep(e.args[1]) == st.facts.rep(word) {
			return true
		}
	}
	for _, l := range r.in.loops {
		if !onPath(st, l) || len(l.backs) == 0 {
			continue
		}
		for p, h := range l.phis {
			if !isIntT(p.Type()) {
				continue
			}
			for _, at := range []*T{h, tAddI(h, 1)} {
				all := counts(l, at) && st.proves(mkLe(k.n, at))
				for _, b := range l.backs {
					all = all && b.st.facts.decideEq(mkApp("at", word.typ, k.words, at), word) == no
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func (k *mnemRule) decode(f *ssa.Function) {
	c := k.c
	label := fnLabel(f)
	r := c.analyse(f, nil)
	l, out := k.mainLoop(r)
	if !c.ok("decode", label+" loops", l != nil, f.Pos(), "%s: the loop that collects the digits is not found", label) {
		return
	}
	c.ok("decode", label+" starts", k.startsEmpty(r, l, out), loopPos(l), "%s does not start from an empty text: %v from %v", label, out, k.startOf(l, out))
	given := r.in.sliceSeq(l.assumed, r.in.expand(r.param(0), f.Params[0].Type()))
	k.exits(r, l, out, given, 3, label)
	pos := loopPos(l)
	n := 0
	for _, b := range l.backs {
		base := k.group(r, l, b.st, given)
		if !c.ok("decode", label+" reads", base != nil, pos, "an iteration of %s does not read the next three words", label) {
			continue
		}
		var w [3]*T
		skip := false
		for j := range w {
			word := base(int64(j))
			w[j] = k.found(r, b.st, word)
			if w[j] == nil {
				skip = true
				if !k.missing(r, b.st, word) {
					c.ok("decode", label+" looks up", false, pos, "an iteration of %s goes on without having found word %d in the list, or searched all of the list", label, j+1)
				}
			}
		}
		if skip {
			continue
		}
		s := b.st.clone()
		for _, x := range w {
			s.assume(mkLe(tZero, x), true)
			s.assume(mkLt(x, k.n), true)
		}
		n++
		text := k.appended(r, l, b, out)
		if !c.ok("decode", label+" digits", text != nil && text.isApp("fmtv:%08x"), pos, "an iteration of %s adds %s, not 8 digits", label, (text)) {
			continue
		}
		d1, d2 := tSub(w[1], w[0]), tSub(w[2], w[1])
		cases(s, []*T{mkLe(tZero, d1), mkLe(tZero, d2)}, func(st *State, v []bool) {
			y, z := d1, d2
			if !v[0] {
				y = tAdd(y, k.n)
			}
			if !v[1] {
				z = tAdd(z, k.n)
			}
			got := quotientsKnown(st, unconv(text.a[0]))
			if st.facts.dead {
				return
			}
			want := tAdd(w[0], tAdd(tMul(k.n, y), tMul(tMul(k.n, k.n), z)))
			// what was decided on the path about a quotient known now may rule it out
			if contradicts(st) {
				return
			}
			c.ok("decode", label+" number", provesEq(st, got, want), pos, "for words w1, w2, w3 of the list %s gives the number %s, want w1 + n*((w2-w1) mod n) + n*n*((w3-w2) mod n)", label, (got))
		})
	}
	c.floor("decode", "paths of an iteration of "+label, n, 1)
}

// contradicts: with the quotients known, the facts of the path do not hold together.
func contradicts(st *State) bool {
	s := st.clone()
	for _, d := range st.facts.le {
		if e := quotientsKnown(st, d); e != d {
			if !s.assume(mkLe(e, tZero), true) {
				return true
			}
		}
	}
	return s.facts.dead
}

// quotientsKnown: t with every quotient that can be one number only replaced by it.
func quotientsKnown(st *State, t *T) *T {
	for range 6 {
		m := map[*T]*T{}
		anyTerm(t, func(x *T) bool {
			if !x.isApp("div") || !x.a[1].isInt() || x.a[1].n.Sign() <= 0 || m[x] != nil {
				return false
			}
			if anyTerm(x.a[0], func(y *T) bool { return y.isApp("div") }) {
				return false // the inner one first
			}
			k := x.a[1]
			for q := int64(-3); q <= 3; q++ {
				lo, hi := tMul(k, mkInt(q)), tSub(tMul(k, mkInt(q+1)), tOne)
				if q < 0 {
					lo, hi = tAdd(tMul(k, mkInt(q-1)), tOne), tMul(k, mkInt(q))
				} else if q == 0 {
					lo = tAdd(tNeg(k), tOne)
				}
				if st.proves(mkLe(lo, x.a[0])) && st.proves(mkLe(x.a[0], hi)) {
					m[x] = mkInt(q)
					return false
				}
			}
			return false
		})
		if len(m) == 0 {
			return t
		}
		t = substQuotients(st, t, m)
	}
	return t
}

func substQuotients(st *State, t *T, m map[*T]*T) *T {
	out := newLin()
	l := toLin(t)
	out.k.Set(l.k)
	for a, n := range l.m {
		v := a
		if m[a] != nil {
			v = m[a]
		} else if a.isApp("div") {
			v = mkDiv(st, substQuotients(st, a.a[0], m), a.a[1])
		}
		out.addMul(toLin(v), n)
	}
	return out.term()
}

// group: the three words of an iteration.
func (k *mnemRule) group(r *Run, l *LoopRec, st *State, given *T) func(j int64) *T {
	f := st.facts
	for p, h := range l.phis {
		if isIntT(p.Type()) && stepsBy(l, h, 3) {
			return func(j int64) *T { return atTerm(f, given, tAddI(h, j)) }
		}
		if h.op == "slice" {
			hs := r.in.sliceSeq(l.assumed, h)
			root, off := subRoot(hs)
			if at, ok := k.walked(r, l, st, given, root, off, 3); ok && at == tZero {
				return func(j int64) *T { return atTerm(f, hs, mkInt(j)) }
			}
		}
	}
	return nil
}
