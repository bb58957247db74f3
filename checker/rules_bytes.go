package main

import "go/types"

func init() { properties["B02"] = ruleByteLayout }

// B02: conversions between byte strings, numbers and fixed-size values keep
// the value at the right-hand end: cropped from the left, padded with zeroes.
type byteRule struct {
	c *Check
	n int
}

func ruleByteLayout(c *Check) {
	b := &byteRule{c: c}
	for _, t := range []struct {
		typ string
		n   int64
	}{{"Hash", 32}, {"Address", 20}} {
		n := mkInt(t.n)
		b.result("common", "BytesTo"+t.typ, func(r *Run, o Outcome, got *T) bool { return cropped(o.st, got, input(r, 0), n) })
		b.result("common", "BigTo"+t.typ, func(r *Run, o Outcome, got *T) bool { return b.croppedNumber(r, o, got, n) })
		b.result("common", "HexTo"+t.typ, func(r *Run, o Outcome, got *T) bool { return b.fromText(r, o, got, n, true) })
		b.result("common", t.typ+".Big", func(r *Run, o Outcome, got *T) bool {
			return o.st.proves(mkIntEq(r.in.bigVal(o.st, got), mkApp("nat", types.Typ[types.Int], mkLit("bytes"), input(r, 0)))) || bytesNumber(r.in.bigVal(o.st, got), input(r, 0))
		})
		b.result("common", t.typ+".Bytes", func(r *Run, o Outcome, got *T) bool { return seqEq(o.st.facts, got, input(r, 0)) })
		b.value(t.typ)
		b.setBytes(t.typ, n)
		b.scan(t.typ, n)
	}
	b.result("common", "Address.Hash", func(r *Run, o Outcome, got *T) bool {
		return seqEq(o.st.facts, got, mkCat(mkZero(mkInt(12), tZero), input(r, 0)))
	})
	b.result("common", "LeftPadBytes", func(r *Run, o Outcome, got *T) bool { return padded(o.st, got, input(r, 0), r.param(1), true) })
	b.result("common", "RightPadBytes", func(r *Run, o Outcome, got *T) bool { return padded(o.st, got, input(r, 0), r.param(1), false) })
	b.result("common", "CopyBytes", func(r *Run, o Outcome, got *T) bool {
		in := r.in.expand(r.param(0), r.fn.Params[0].Type())
		if o.st.facts.decideEq(in, r.in.zeroVal(r.fn.Params[0].Type())) == yes {
			return o.val == r.in.zeroVal(r.fn.Params[0].Type()) || o.val == tNil
		}
		return seqEq(o.st.facts, got, input(r, 0)) && o.val.op == "slice" && o.val.a[0] != tNil
	})
	b.trim("TrimLeftZeroes", true)
	b.trim("TrimRightZeroes", false)
	b.result("common", "FromHex", func(r *Run, o Outcome, got *T) bool { return b.fromText(r, o, got, nil, true) })
	b.result("common", "Hex2Bytes", func(r *Run, o Outcome, got *T) bool { return b.fromText(r, o, got, nil, false) })
	b.result("common", "Hex2BytesFixed", func(r *Run, o Outcome, got *T) bool { return b.fromText(r, o, got, r.param(1), false) })
	c.count("paths", b.n)
	c.floor("layout", "paths", b.n, 80)
}

// result judges what every path of a function returns.
func (b *byteRule) result(pkg, name string, good func(r *Run, o Outcome, got *T) bool) {
	c := b.c
	fn := c.fn(pkg, name)
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	for _, o := range r.outs {
		if o.kind == outFault {
			continue // H02, or a precondition
		}
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		b.n++
		got := o.val
		if isByteSlice(fn.Signature.Results().At(0).Type()) {
			got = r.in.sliceSeq(o.st, r.in.expand(got, fn.Signature.Results().At(0).Type()))
		}
		got = r.in.settle(o.st, got)
		c.ok("layout", label, good(r, o, got), o.pos, "on a path of %s the result is not shown to be the required bytes: %v", label, got)
	}
}

// cropped: got is the n last bytes of src, or src behind zeroes.
func cropped(st *State, got, src, n *T) bool {
	st = withQuotients(st, got, src)
	f := st.facts
	l := seqLen(src)
	if st.proves(mkLe(n, l)) && seqEq(f, got, subSeq(f, src, tSub(l, n), l)) {
		return true
	}
	if st.proves(mkLe(l, n)) && seqEq(f, got, mkCat(mkZero(f.normInt(tSub(n, l)), tZero), src)) {
		return true
	}
	if st.facts.decide(mkLe(n, l)) == unknown {
		a, b := st.clone(), st.clone()
		ok := true
		if a.assume(mkLe(n, l), true) {
			ok = cropped(a, got, src, n)
		}
		if ok && b.assume(mkLe(n, l), false) {
			ok = cropped(b, got, src, n)
		}
		return ok
	}
	return false
}

// withQuotients states what the quotients named in the terms are.
func withQuotients(st *State, ts ...*T) *State {
	out := st
	seen := map[*T]bool{}
	known := map[*T]bool{}
	for _, d := range st.facts.le {
		known[d] = true
	}
	add := func(b *T) { // also where it follows from what a quotient is: that is found from the quotient only
		if b.op != "le0" || known[b.a[0]] {
			return
		}
		known[b.a[0]] = true
		if out == st {
			out = st.clone()
		}
		out.facts.add(b)
	}
	for _, t := range ts {
		if seen[t] {
			continue
		}
		anyTerm(t, func(d *T) bool {
			if !seen[d] && d.isApp("div") && d.a[1].isInt() && d.a[1].n.Sign() > 0 && st.proves(mkLe(tZero, d.a[0])) {
				k := d.a[1]
				add(mkLe(tMul(k, d), d.a[0]))
				add(mkLe(d.a[0], tAdd(tMul(k, d), tSub(k, tOne))))
			}
			seen[d] = true
			return false
		})
	}
	return out
}

func padded(st *State, got, src, n *T, left bool) bool {
	f := st.facts
	l := seqLen(src)
	if st.proves(mkLe(n, l)) && seqEq(f, got, src) {
		return true
	}
	if !st.proves(mkLe(l, n)) {
		return false
	}
	zero := mkZero(f.normInt(tSub(n, l)), tZero)
	if left {
		return seqEq(f, got, mkCat(zero, src))
	}
	return seqEq(f, got, mkCat(src, zero))
}

func bytesNumber(v, q *T) bool {
	return v.isApp("nat") && v.a[0].op == "lit" && v.a[0].s == "bytes" && v.a[1] == q
}

// croppedNumber: the big-endian digits of the number, right aligned.
func (b *byteRule) croppedNumber(r *Run, o Outcome, got, n *T) bool {
	v := r.in.bigVal(o.st, r.param(0))
	var src *T
	for a, c := range o.st.heap {
		_ = a
		anyTerm(c, func(x *T) bool {
			if x.op == "app" && len(x.s) > 12 && x.s[:12] == "hav:bigbytes" || x.isApp("hav:bigbytes") {
				if x.a[1] == v {
					src = x
				}
			}
			return false
		})
	}
	return src != nil && cropped(o.st, got, src, n)
}

// fromText: the bytes the hexadecimal digits of the text denote; a text that is
// not hexadecimal is not judged.
func (b *byteRule) fromText(r *Run, o Outcome, got, n *T, prefixed bool) bool {
	st := o.st
	s := r.param(0)
	tv := textView{s, tZero, seqLen(s)}
	if prefixed {
		switch tv.prefix(st) {
		case yes:
			tv = tv.drop(2)
		case unknown:
			return false
		}
	}
	digits := subSeq(st.facts, tv.seq, tv.off, tAdd(tv.off, tv.n))
	var src *T
	judged := true
	for _, e := range events(st) {
		if e.kind != "hexdecode" {
			continue
		}
		q := e.args[1]
		whole := seqEq(st.facts, q, digits)
		if prefixed && !whole {
			whole = seqEq(st.facts, q, mkCat(mkLit("0"), digits)) && st.facts.decide(even(tv.n)) == no
		}
		if !whole {
			return false
		}
		if prefixed && st.facts.decide(even(seqLen(q))) != yes {
			return false
		}
		root, off := subRoot(q)
		if (textView{root, off, seqLen(q)}).allHex(st, tZero) {
			src = q
		} else {
			judged = false
		}
	}
	if !judged {
		return true
	}
	if src == nil {
		return false
	}
	var dec *T
	find := func(t *T) {
		anyTerm(t, func(x *T) bool {
			if x.isApp("hav:hexdec") && x.a[1] == src {
				dec = x
			}
			return false
		})
	}
	find(got)
	for _, c := range st.heap {
		find(c)
	}
	if dec != nil && st.proves(mkLe(seqLen(dec), tZero)) {
		dec = tEmpty
	}
	if dec == nil {
		if !st.proves(mkLe(seqLen(src), tOne)) {
			return false
		}
		dec = tEmpty
	}
	if n == nil {
		return seqEq(st.facts, got, dec)
	}
	return cropped(st, got, dec, n)
}

func (b *byteRule) setBytes(typ string, n *T) {
	c := b.c
	fn := c.fn("common", typ+".SetBytes")
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	h := r.param(0)
	elem := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	old := r.in.load(newState(), h, elem)
	src := input(r, 1)
	for _, o := range r.outs {
		if o.kind == outFault {
			continue
		}
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		b.n++
		got := r.in.settle(o.st, r.in.load(o.st, h, elem))
		f := o.st.facts
		l := seqLen(src)
		ok := o.st.proves(mkLe(n, l)) && seqEq(f, got, subSeq(f, src, tSub(l, n), l)) ||
			o.st.proves(mkLe(l, n)) && seqEq(f, got, mkCat(subSeq(f, old, tZero, tSub(n, l)), src))
		c.ok("layout", label, ok, o.pos, "on a path of %s the value becomes %v", label, got)
	}
}

// scan: exactly a byte slice of the right length is taken over, anything else
// is an error.
func (b *byteRule) scan(typ string, n *T) {
	c := b.c
	fn := c.fn("common", typ+".Scan")
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	h, src := r.param(0), r.param(1)
	elem := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	bytesT := types.NewSlice(types.Universe.Lookup("byte").Type())
	val := mkApp("val:"+typeKey(bytesT), bytesT, src)
	taken := 0
	for _, o := range r.outs {
		if o.kind == outFault && o.st.facts.decideEq(h, tNil) != no {
			continue
		}
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		b.n++
		is := o.st.facts.decide(mkTypeIs(src, bytesT))
		q := r.in.sliceSeq(o.st, r.in.expand(val, bytesT))
		right := o.st.facts.decide(mkIntEq(seqLen(q), n))
		if o.val == tNil {
			taken++
			got := r.in.settle(o.st, r.in.load(o.st, h, elem))
			c.ok("layout", label, is == yes && right == yes && seqEq(o.st.facts, got, q), o.pos, "a value is accepted without being shown to be %v bytes, or is stored as %v", n, got)
		} else {
			c.ok("refuses", label, o.st.facts.decideEq(o.val, tNil) == no && (is == no || is == yes && right == no), o.pos, "a byte slice of the right length may be refused")
		}
	}
	c.ok("layout", label+" accepts", taken > 0, fn.Pos(), "no path accepts a value")
}

func (b *byteRule) value(typ string) {
	c := b.c
	fn := c.fn("common", typ+".Value")
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	for _, o := range r.outs {
		b.n++
		ok := o.kind == outReturn && o.val.a[1] == tNil && o.val.a[0].op == "iface" && isByteSlice(o.val.a[0].typ)
		c.ok("layout", label, ok && seqEq(o.st.facts, r.in.settle(o.st, r.in.sliceSeq(o.st, o.val.a[0].a[0])), input(r, 0)), o.pos, "the database value is not the value's bytes")
	}
}

// trim: what is dropped is all zero, and the first byte kept is not.
func (b *byteRule) trim(name string, left bool) {
	c := b.c
	fn := c.fn("common", name)
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	src := input(r, 0)
	zeroes := &byteSet{}
	zeroes.add(0, 0)
	for _, o := range r.outs {
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		b.n++
		f := o.st.facts
		got := r.in.sliceSeq(o.st, r.in.expand(o.val, fn.Signature.Results().At(0).Type()))
		root, off := subRoot(got)
		sroot, soff := subRoot(src)
		end := tAdd(off, seqLen(got))
		send := tAdd(soff, seqLen(src))
		lo, hi, edge := soff, off, off
		fixed := o.st.proves(mkIntEq(end, send))
		if !left {
			lo, hi, edge = end, send, tAddI(end, -1)
			fixed = o.st.proves(mkIntEq(off, soff))
		}
		if seqLen(got) == tZero && got == tEmpty {
			root, lo, hi, fixed = sroot, soff, send, true
		}
		if !c.ok("layout", label, root == sroot && fixed, o.pos, "the result is not the input without its zeroes at one end: %v", got) {
			continue
		}
		c.ok("zeroes", label, o.st.proves(mkLe(hi, lo)) || covered(o.st, root, lo, hi, zeroes), o.pos, "bytes %v to %v are dropped without being shown to be zero", lo, hi)
		c.ok("nonzero", label, o.st.proves(mkLe(seqLen(got), tZero)) || f.decide(mkIntEq(atTerm(f, root, edge), tZero)) == no, o.pos, "the byte kept at the end may be zero")
	}
}

// covered: every element of root from lo to hi is known to be in the class.
func covered(st *State, root, lo, hi *T, class *byteSet) bool {
	for k := 0; k < 12; k++ {
		if st.proves(mkLe(hi, lo)) {
			return true
		}
		next := (*T)(nil)
		for _, fa := range st.all {
			if fa.rune_ || !fa.class.subset(class) || next != nil {
				continue
			}
			r, off := subRoot(fa.seq)
			if r == root && st.proves(mkLe(tAdd(off, fa.lo), lo)) && st.proves(mkLt(lo, tAdd(off, fa.hi))) {
				next = tAdd(off, fa.hi)
			}
		}
		if next == nil {
			if !st.proves(mkLt(lo, hi)) {
				// nothing, or more than the facts cover: one of the ranges has to reach from lo anyway
				for _, fa := range st.all {
					r, off := subRoot(fa.seq)
					if !fa.rune_ && fa.class.subset(class) && r == root && st.proves(mkLe(tAdd(off, fa.lo), lo)) && st.proves(mkLe(hi, tAdd(off, fa.hi))) {
						return true
					}
				}
			}
			c := st.facts.classOf(atTerm(st.facts, root, lo))
			if c == nil || !c.subset(class) {
				return false
			}
			next = tAddI(lo, 1)
		}
		lo = next
	}
	return false
}
