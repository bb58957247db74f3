package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["C03"] = ruleKeys
	properties["C05"] = rulePointFormat
}

// onCurveOf analyses a method of a curve of at least nine bits.
func (k *keyRule) onCurveOf(f *ssa.Function, opts ...runOpt) *Run {
	return k.c.analyseFrom(k.start(f), f, nil, nil, opts...)
}

func (k *keyRule) start(f *ssa.Function) *State {
	probe := &Run{c: k.c, in: newInterp(k.c.p), fn: f}
	st := newState()
	bits := probe.in.loadField(st, probe.param(0), k.bitSize)
	st.assume(mkLe(mkInt(9), bits), true)
	return st
}

// keyRule: C03 and C05.
type keyRule struct {
	c       *Check
	bitSize *types.Var
	n       int
}

func newKeyRule(c *Check) *keyRule {
	f := c.fields("crypto", "BitCurve.BitSize")
	if f == nil {
		return nil
	}
	return &keyRule{c: c, bitSize: f[0]}
}

// byteLen: the bytes a coordinate or a private key takes.
func (k *keyRule) byteLen(r *Run, o Outcome) *T {
	return mkDiv(o.st, tAddI(r.in.loadField(o.st, r.param(0), k.bitSize), 7), mkInt(8))
}

// C03: a key pair is drawn from the source given, completely, and belongs together.
func ruleKeys(c *Check) {
	k := newKeyRule(c)
	if k == nil {
		return
	}
	k.generate()
	k.entropy()
	c.count("paths", k.n)
	c.floor("keys", "paths", k.n, 4)
}

func (k *keyRule) generate() {
	c := k.c
	f, base, mult := c.fn("crypto", "BitCurve.GenerateKey"), c.fn("crypto", "BitCurve.ScalarBaseMult"), c.fn("crypto", "BitCurve.ScalarMult")
	if f == nil || base == nil || mult == nil {
		return
	}
	label := fnLabel(f)
	// what was multiplied, per result
	type product struct{ seq, x, y *T }
	var products []product
	gx := c.fields("crypto", "BitCurve.Gx", "BitCurve.Gy")
	if gx == nil {
		return
	}
	r := k.onCurveOf(f, withHook(func(cc *callCtx) []Outcome {
		callee := cc.common.StaticCallee()
		var arg *T
		switch {
		case callee == nil:
			return nil
		case callee == base:
			arg = cc.args[1]
		case callee == mult:
			g := func(i int) *T { return cc.in.bigVal(cc.st, cc.in.loadField(cc.st, cc.args[0], gx[i])) }
			if cc.in.bigVal(cc.st, cc.args[1]) != g(0) || cc.in.bigVal(cc.st, cc.args[2]) != g(1) {
				return nil
			}
			arg = cc.args[3]
		default:
			return nil
		}
		seq := cc.in.sliceSeq(cc.st, arg)
		rt := callee.Signature.Results().At(0).Type()
		return cc.fork(func(cc *callCtx) []Outcome {
			x := cc.in.freshAlloc("keyx", rt.(*types.Pointer).Elem())
			y := cc.in.freshAlloc("keyy", rt.(*types.Pointer).Elem())
			products = append(products, product{seq, x, y})
			return cc.ret(mkTuple(x, y))
		}, func(cc *callCtx) []Outcome { return cc.ret(mkTuple(tNil, tNil)) })
	}))
	good := 0
	for _, o := range r.outs {
		if o.kind == outFault {
			continue // a source that is nil, or parameters of a curve of less than nine bits
		}
		if !c.ok("returns", label, o.kind == outReturn && o.val.op == "tuple" && len(o.val.a) == 4, o.pos, "does not return") {
			continue
		}
		k.n++
		d := draw{st: o.st, priv: o.val.a[0], x: o.val.a[1], y: o.val.a[2]}
		err := o.val.a[3]
		if o.st.facts.decideEq(err, tNil) != yes {
			last := lastRead(o.st, nil)
			c.ok("error", label, last != nil && err == last.args[2] && isNil(o.st, d.x) && (isNil(o.st, d.y) || inLoops(r.in, d.x)), o.pos, "an error is returned together with a point, or it is not the error of the source")
			continue
		}
		for _, d := range r.in.draws(o.st, d) {
			good++
			seq := r.in.settle(d.st, r.in.sliceSeq(d.st, r.in.expand(d.priv, f.Signature.Results().At(0).Type())))
			var p *product
			for i := range products {
				if products[i].x == d.x && products[i].y == d.y {
					p = &products[i]
				}
			}
			c.ok("pair", label, p != nil && seqEq(d.st.facts, r.in.settle(d.st, p.seq), seq), o.pos, "the public key returned is not the base point times the private key returned: %v", d.x)
			n := k.byteLen(r, Outcome{st: d.st})
			c.ok("length", label, d.st.proves(mkIntEq(seqLen(seq), n)), o.pos, "the private key does not have the length the curve asks for: %v", seqLen(seq))
			src := readFrom(seq)
			ok := src != nil && src.a[1] == r.param(1) && d.st.proves(mkIntEq(src.a[0], n))
			if !c.ok("entropy", label, ok, o.pos, "not every byte of the private key was read from the source given: %v", seq) {
				continue
			}
			c.ok("entropy", label, k.keeps(r, d.st, seq, src), o.pos, "bits read from the source do not reach the private key, beyond those above the curve's size: %v", seq)
		}
	}
	c.ok("returns", label, good > 0, f.Pos(), "never returns a key")
	k.bounds(r, label)
}

func isNil(st *State, t *T) bool { return t == tNil || st.facts.decideEq(t, tNil) == yes }

func lastRead(st *State, since *Event) *Event {
	for e := st.ev; e != since; e = e.prev {
		if e.kind == "readfull" {
			return e
		}
	}
	return nil
}

// draw is a key pair, and the state it is known in.
type draw struct {
	st         *State
	priv, x, y *T
}

func inLoops(in *Interp, t *T) bool {
	for _, l := range in.loops {
		for _, h := range l.phis {
			if h == t {
				return true
			}
		}
	}
	return false
}

// draws: where a pair comes from that a loop leaves behind: the rounds that can
// have been the last one.
func (in *Interp) draws(st *State, d draw) []draw {
	for _, l := range in.loops {
		if !onPath(st, l) {
			continue
		}
		for px, h := range l.phis {
			if h != d.x || !isPtrT(px.Type()) {
				continue
			}
			var out []draw
			pick := func(st *State, phis map[*ssa.Phi]*T, t *T) *T {
				for p, h := range l.phis {
					if h == t {
						return phis[p]
					}
				}
				return t
			}
			changed := in.sliceSeq(st, d.priv) != in.sliceSeq(l.assumed, d.priv)
			if st.facts.decideEq(d.x, tNil) != no || changed {
				return []draw{d}
			}
			if !isNil(l.entry, pick(l.entry, l.ePhis, d.x)) {
				out = append(out, draw{l.entry, pick(l.entry, l.ePhis, d.priv), pick(l.entry, l.ePhis, d.x), pick(l.entry, l.ePhis, d.y)})
			}
			for _, b := range l.backs {
				if x := pick(b.st, b.phis, d.x); !isNil(b.st, x) {
					out = append(out, in.draws(b.st, draw{b.st, pick(b.st, b.phis, d.priv), x, pick(b.st, b.phis, d.y)})...)
				}
			}
			return out
		}
	}
	return []draw{d}
}

// readFrom: the bytes of one complete read behind a byte string.
func readFrom(seq *T) *T {
	var src *T
	n := 0
	anyTerm(seq, func(x *T) bool {
		if x.op == "app" && strings.HasPrefix(x.s, "hav:read#") && x != src {
			src = x
			n++
		}
		return false
	})
	if n != 1 {
		return nil
	}
	return src
}

// keeps: every byte is the one read at its place, changed in a way that can be
// undone; only the first one loses bits, those beyond the curve's size.
func (k *keyRule) keeps(r *Run, st *State, seq, src *T) bool {
	for i := int64(0); i < 2; i++ { // the places that are named; the rest is the read itself
		t := atTerm(st.facts, seq, mkInt(i))
		want := atTerm(st.facts, src, mkInt(i))
		for t != want {
			switch {
			case t.isApp("xor") && t.a[0].isInt():
				t = t.a[1]
			case t.isApp("xor") && t.a[1].isInt():
				t = t.a[0]
			case t.isApp("and") && i == 0 && k.topMask(r, st, t.a[0]):
				t = t.a[1]
			case t.isApp("and") && i == 0 && k.topMask(r, st, t.a[1]):
				t = t.a[0]
			default:
				return false
			}
		}
	}
	rest := seq
	for rest.op == "upd" && (rest.a[1] == tZero || rest.a[1] == tOne) {
		rest = rest.a[0]
	}
	if rest == src {
		return true
	}
	tail := subSeq(st.facts, seq, mkInt(2), seqLen(seq))
	return seqEq(st.facts, tail, subSeq(st.facts, src, mkInt(2), seqLen(src)))
}

// topMask: an element of the table whose entry r keeps the r lowest bits (and
// entry 0 all eight), chosen by the curve's size; or that number computed.
func (k *keyRule) topMask(r *Run, st *State, t *T) bool {
	bits := r.in.loadField(st, r.param(0), k.bitSize)
	rest := tSub(bits, tMul(mkInt(8), mkDiv(st, bits, mkInt(8))))
	if t.isInt() {
		return t.n.Cmp(big.NewInt(255)) == 0 && st.proves(mkIntEq(rest, tZero))
	}
	if !t.isApp("at") {
		return false
	}
	table := seqElems(t.a[0])
	if len(table) != 8 || !st.proves(mkIntEq(t.a[1], rest)) {
		return false
	}
	for i, e := range table {
		want := int64(1)<<i - 1
		if i == 0 {
			want = 255
		}
		if e != mkInt(want) {
			return false
		}
	}
	return true
}

// entropy: random bytes come from the operating system, all of them, or the program stops.
func (k *keyRule) entropy() {
	c := k.c
	f := c.fn("crypto/randentropy", "GetEntropyCSPRNG")
	if f == nil {
		return
	}
	sys := func(t *T) bool { return strings.Contains(t.String(), "crypto/rand.Reader") }
	label := fnLabel(f)
	r := c.analyse(f, nil)
	n := 0
	for _, o := range r.outs {
		switch o.kind {
		case outReturn:
			k.n++
			n++
			seq := r.in.settle(o.st, r.in.sliceSeq(o.st, r.in.expand(o.val, f.Signature.Results().At(0).Type())))
			ok := seq.op == "app" && strings.HasPrefix(seq.s, "hav:read#") && sys(seq.a[1]) && o.st.proves(mkIntEq(seqLen(seq), r.param(0)))
			c.ok("system", label, ok, o.pos, "the bytes returned are not all of a complete read of crypto/rand: %v", seq)
		case outPanic:
			bad := false
			for _, e := range events(o.st) {
				bad = bad || e.kind == "readfull"
			}
			c.ok("system", label, bad, o.pos, "panics without the source having failed")
		}
	}
	c.ok("system", label, n > 0, f.Pos(), "never returns")
	k.reader(sys)
}

// reader: what the package offers as a source of random bytes.
func (k *keyRule) reader(sys func(*T) bool) {
	c := k.c
	v := c.p.globalVal("crypto/randentropy", "Reader")
	var read *ssa.Function
	if v != nil && v.op == "iface" {
		read = c.p.methodNamed(v.typ, "Read")
	}
	if !c.ok("anchor", "crypto/randentropy.Reader", v != nil && (read != nil || sys(v)), 0, "the reader is %v", v) || read == nil {
		return
	}
	label := fnLabel(read)
	r := c.analyse(read, nil)
	n := 0
	for _, o := range r.outs {
		if o.kind != outReturn {
			continue
		}
		k.n++
		buf := r.in.expand(r.param(1), read.Params[1].Type())
		seq := r.in.settle(o.st, r.in.sliceSeq(o.st, buf))
		if !c.ok("reader", label, o.val.op == "tuple" && len(o.val.a) == 2, o.pos, "does not return") {
			continue
		}
		if o.st.facts.decideEq(o.val.a[1], tNil) != yes {
			continue
		}
		n++
		ok := seq.op == "app" && strings.HasPrefix(seq.s, "hav:read#") && sys(seq.a[1]) && o.st.proves(mkIntEq(seqLen(seq), buf.a[2]))
		c.ok("reader", label, ok, o.pos, "the buffer is not filled by a complete read of crypto/rand: %v", seq)
		c.ok("reader", label, o.st.proves(mkIntEq(o.val.a[0], buf.a[2])), o.pos, "the number of bytes returned is %v", o.val.a[0])
	}
	c.ok("reader", label, n > 0, read.Pos(), "never succeeds")
}

// C05: the uncompressed form of a point, and back.
func rulePointFormat(c *Check) {
	k := newKeyRule(c)
	if k == nil {
		return
	}
	k.marshal()
	k.unmarshal()
	c.count("paths", k.n)
	c.floor("format", "paths", k.n, 4)
}

// digits: the ways a number is laid out in n bytes, most significant first.
func (k *keyRule) digits(o Outcome, x, n *T) []*T {
	l := k.numLen(o.st, x)
	raw := mkApp("hav:bigbytes", byteSlice, l, x)
	return []*T{
		mkCat(mkZero(o.st.facts.normInt(tSub(n, l)), tZero), raw),
		mkApp("hav:bigfill", byteSlice, n, x),
	}
}

// numLen: the bytes a number has.
func (k *keyRule) numLen(st *State, x *T) *T {
	return mkDiv(st, tAddI(mkApp("bitlen", types.Typ[types.Int], x), 7), mkInt(8))
}

func (k *keyRule) marshal() {
	c := k.c
	f := c.fn("crypto", "BitCurve.Marshal")
	if f == nil {
		return
	}
	label := fnLabel(f)
	// coordinates fit the curve
	st0 := k.start(f)
	probe := &Run{c: c, in: newInterp(c.p), fn: f}
	n0 := k.byteLen(probe, Outcome{st: st0})
	for i := 1; i < 3; i++ {
		st0.assume(mkLe(k.numLen(st0, probe.in.bigVal(st0, probe.param(i))), n0), true)
	}
	r := c.analyseFrom(st0, f, nil, nil)
	for _, o := range r.outs {
		if o.kind == outFault && (isNil(o.st, r.param(1)) || isNil(o.st, r.param(2))) {
			continue
		}
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		k.n++
		n := k.byteLen(r, o)
		got := r.in.settle(o.st, r.in.sliceSeq(o.st, r.in.expand(o.val, f.Signature.Results().At(0).Type())))
		st := withQuotients(o.st, got, n)
		ok := false
		for _, x := range k.digits(o, r.in.bigVal(o.st, r.param(1)), n) {
			for _, y := range k.digits(o, r.in.bigVal(o.st, r.param(2)), n) {
				ok = ok || seqEq(st.facts, got, mkCat(mkSeq([]*T{mkInt(4)}), x, y)) || seqEq(st.facts, got, mkCat(mkLit("\x04"), x, y))
			}
		}
		c.ok("marshal", label, ok, o.pos, "the result is not 4 and both coordinates at full length: %v", got)
	}
	k.bounds(r, label)
}

// bounds: no index or slice of the function is out of range.
func (k *keyRule) bounds(r *Run, label string) {
	for _, ob := range r.in.oblig {
		k.c.ok("bounds", label+" "+ob.kind, ob.proven, ob.pos, "not shown to stay in bounds: %s", ob.text)
	}
}

func (k *keyRule) unmarshal() {
	c := k.c
	f := c.fn("crypto", "BitCurve.Unmarshal")
	if f == nil {
		return
	}
	label := fnLabel(f)
	r := k.onCurveOf(f)
	good := 0
	for _, o := range r.outs {
		if !c.ok("returns", label, o.kind == outReturn && o.val.op == "tuple" && len(o.val.a) == 2, o.pos, "does not return, whatever the input") {
			continue
		}
		k.n++
		x, y := o.val.a[0], o.val.a[1]
		n := k.byteLen(r, o)
		in := input(r, 1)
		eighth := mkDiv(o.st, r.in.loadField(o.st, r.param(0), k.bitSize), mkInt(8))
		st := withQuotients(o.st, n, eighth)
		for _, alt := range []*T{eighth, tAddI(eighth, 1)} { // the same length in other words
			if st.proves(mkIntEq(n, alt)) {
				n = alt
			}
		}
		full := tAddI(tMul(mkInt(2), n), 1)
		right := st.proves(mkIntEq(seqLen(in), full)) && st.facts.decide(mkIntEq(atTerm(st.facts, in, tZero), mkInt(4))) == yes
		wrong := st.facts.decide(mkIntEq(seqLen(in), full)) == no || st.facts.decide(mkIntEq(atTerm(st.facts, in, tZero), mkInt(4))) == no
		if x == tNil || y == tNil {
			c.ok("unmarshal", label, x == tNil && y == tNil && wrong, o.pos, "refuses an encoding of the right length that begins with 4")
			continue
		}
		good++
		c.ok("unmarshal", label, right, o.pos, "accepts something that is not 4 followed by two coordinates")
		isNum := func(p, from, to *T) bool {
			v := r.in.bigVal(o.st, p)
			return v.isApp("nat") && v.a[0].op == "lit" && v.a[0].s == "bytes" && seqEq(st.facts, v.a[1], subSeq(st.facts, in, from, to))
		}
		c.ok("unmarshal", label, isNum(x, tOne, tAddI(n, 1)) && isNum(y, tAddI(n, 1), seqLen(in)), o.pos, "the coordinates are not the first and the second half: %v, %v", r.in.bigVal(o.st, x), r.in.bigVal(o.st, y))
	}
	k.bounds(r, label)
	c.ok("unmarshal", label, good > 0, f.Pos(), "never accepts anything")
}
