package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["H04"] = ruleHexEncode
	properties["H05"] = ruleChecksum
}

type encRule struct {
	c *Check
	n int
}

type encSpec struct {
	pkg, name string
	kind      string // hex, bare, uint, bighex, bigdec, ends
	nilText   string // what a nil receiver gives
}

var encSpecs = []encSpec{
	{"common/hexutil", "Encode", "hex", ""},
	{"common/hexutil", "Bytes.MarshalText", "hex", ""},
	{"common/hexutil", "Bytes.String", "hex", ""},
	{"common/hexutil", "EncodeUint64", "uint", ""},
	{"common/hexutil", "Uint64.MarshalText", "uint", ""},
	{"common/hexutil", "Uint64.String", "uint", ""},
	{"common/hexutil", "Uint.MarshalText", "uint", ""},
	{"common/hexutil", "Uint.String", "uint", ""},
	{"common/hexutil", "EncodeBig", "bighex", ""},
	{"common/hexutil", "Big.MarshalText", "bighex", ""},
	{"common/hexutil", "Big.String", "bighex", ""},
	{"common/math", "HexOrDecimal256.MarshalText", "bighex", "0x0"},
	{"common/math", "Decimal256.MarshalText", "bigdec", "0"},
	{"common/math", "Decimal256.String", "bigdec", "0"},
	{"common", "Hash.Hex", "hex", ""},
	{"common", "Hash.String", "hex", ""},
	{"common", "Hash.MarshalText", "hex", ""},
	{"common", "Hash.TerminalString", "ends", ""},
	{"common", "Address.MarshalText", "hex", ""},
	{"common", "UnprefixedHash.MarshalText", "bare", ""},
	{"common", "UnprefixedAddress.MarshalText", "bare", ""},
	{"common", "Bytes2Hex", "bare", ""},
}

// ruleHexEncode: H04. Every encoder writes the canonical text of its value.
func ruleHexEncode(c *Check) {
	e := &encRule{c: c}
	for _, s := range encSpecs {
		if fn := c.fn(s.pkg, s.name); fn != nil {
			e.judge(s, fn)
		}
	}
	e.formats("Hash", "hash", false)
	e.formats("Address", "address", false)
	e.mixedJSON()
	for _, g := range [][3]string{{"common/hexutil", "Bytes", "Bytes"}, {"common/hexutil", "Big", "BigInt"}, {"common/hexutil", "Uint64", "Long"}, {"common", "Hash", "Bytes32"}, {"common", "Address", "Address"}} {
		e.graphQL(g[0], g[1], g[2])
	}
	c.count("paths", e.n)
	c.floor("encode", "paths", e.n, 45)
}

// input is what an encoder is given: a sequence of bytes or a number.
func input(r *Run, i int) *T {
	p := r.param(i)
	typ := r.fn.Params[i].Type()
	st := newState()
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		if isBigInt(pt.Elem()) {
			return r.in.bigVal(st, p)
		}
		return r.in.load(st, p, pt.Elem())
	}
	if isByteSlice(typ) {
		return r.in.sliceSeq(st, r.in.expand(p, typ))
	}
	return p
}

// output is the text an outcome returns, and its error.
func output(r *Run, o Outcome) (text, err *T) {
	v, err := o.val, tNil
	if r.fn.Signature.Results().Len() == 2 {
		v, err = o.val.a[0], o.val.a[1]
	}
	if isByteSlice(r.fn.Signature.Results().At(0).Type()) {
		v = r.in.sliceSeq(o.st, v)
	}
	return v, err
}

func (e *encRule) judge(s encSpec, fn *ssa.Function) {
	c := e.c
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	in := input(r, 0)
	for _, o := range r.outs {
		if o.kind == outFault && s.nilText == "" {
			continue // H02, or a nil pointer
		}
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "the encoder does not return") {
			continue
		}
		e.n++
		q, err := output(r, o)
		c.ok("error", label, err == tNil, o.pos, "encoding fails with an error")
		if _, ptr := fn.Params[0].Type().Underlying().(*types.Pointer); ptr && s.nilText != "" && o.st.facts.decideEq(r.param(0), tNil) == yes {
			c.ok("nil", label, isText(q, s.nilText), o.pos, "a nil number is written as %v", q)
			continue
		}
		c.ok("text", label, e.is(r.in, o.st, s.kind, q, in, r.param(0)), o.pos, "the text is not shown to be the value's: %v", q)
	}
}

func (e *encRule) is(in *Interp, st *State, kind string, q, x, p *T) bool {
	q = plainText(q)
	switch kind {
	case "hex":
		rest, ok := afterLit(q, "0x")
		return ok && isHexOf(st, rest, x)
	case "bare":
		return isHexOf(st, q, x)
	case "uint":
		rest, ok := afterLit(q, "0x")
		return ok && rest.isApp("itoa") && rest.a[1] == mkInt(16) && st.proves(mkIntEq(rest.a[0], x))
	case "ends":
		ps := catParts(q)
		n := seqLen(x)
		return len(ps) == 3 && isText(ps[1], "..") &&
			isHexOf(st, ps[0], subSeq(st.facts, x, tZero, mkInt(3))) && isHexOf(st, ps[2], subSeq(st.facts, x, tAddI(n, -3), n))
	case "bighex":
		if q.isApp("fmtv:%#x") && (q.a[0] == p || strings.HasSuffix(typeOfArg(q), "*math/big.Int") && st.proves(mkIntEq(in.bigVal(st, q.a[0]), x))) {
			return true
		}
		if st.proves(mkLe(x, mkInt(-1))) {
			rest, ok := afterLit(q, "-0x")
			return ok && isMagnitude(st, rest, x, 16)
		}
		if !st.proves(mkLe(tZero, x)) {
			return false
		}
		rest, ok := afterLit(q, "0x")
		return ok && (isBigText(st, rest, x, 16) || isText(rest, "0") && st.proves(mkLe(x, tZero)))
	case "bigdec":
		return (q.isApp("fmtv:%#d") || q.isApp("fmtv:%d") || q.isApp("fmtv:%v") || q.isApp("fmtv:%s")) && q.a[0] == p || isBigText(st, q, x, 10) ||
			isText(q, "0") && st.proves(mkIntEq(x, tZero))
	}
	return false
}

// plainText: the text of values printed with a verb whose meaning is known.
func plainText(q *T) *T {
	var out []*T
	for _, p := range catParts(q) {
		for _, v := range []string{"%x", "%#x"} {
			if !p.isApp("fmtv:" + v) {
				continue
			}
			x, t := p.a[0], typeOfArg(p)
			pre := ""
			if v == "%#x" {
				pre = "0x"
			}
			switch {
			case unsignedName[t[strings.LastIndex(t, ".")+1:]]:
				out = append(out, mkLit(pre))
				p = mkApp("itoa", types.Typ[types.String], x, mkInt(16))
			case strings.HasSuffix(t, "common.Hash") || strings.HasSuffix(t, "common.Address"):
				out = append(out, mkLit(pre))
				p = hexOf(x)
			}
			break
		}
		out = append(out, p)
	}
	return mkCat(out...)
}

// typeOfArg: the name of the type of a formatted value.
func typeOfArg(p *T) string {
	if len(p.a) > 1 && p.a[1].op == "sym" {
		return strings.TrimPrefix(p.a[1].s, "type:")
	}
	return ""
}

var unsignedName = map[string]bool{"uint": true, "uint8": true, "byte": true, "uint16": true, "uint32": true, "uint64": true, "Uint": true, "Uint64": true}

func hexOf(x *T) *T { return mkApp("hexenc", types.Typ[types.String], x) }

func isHexOf(st *State, q, x *T) bool {
	if q.isApp("hexenc") {
		return seqEq(st.facts, q.a[len(q.a)-1], x)
	}
	return q == tEmpty && st.proves(mkLe(seqLen(x), tZero))
}

func isBigText(st *State, q, x *T, base int64) bool {
	if !q.isApp("bigtext") || q.a[1] != mkInt(base) {
		return false
	}
	v := q.a[0]
	if v.isApp("abs") {
		v = v.a[0]
		if st.proves(mkLe(v, tZero)) {
			v = tNeg(v)
		} else if !st.proves(mkLe(tZero, v)) {
			return false
		}
	}
	return st.proves(mkIntEq(v, x))
}

// isMagnitude: q is the text of a negative number without its sign.
func isMagnitude(st *State, q, x *T, base int64) bool {
	if isBigText(st, q, tNeg(x), base) {
		return true
	}
	if root, off := subRoot(q); isBigText(st, root, x, base) {
		return st.proves(mkIntEq(off, tOne)) && st.proves(mkIntEq(tAdd(off, seqLen(q)), seqLen(root)))
	}
	return false
}

// afterLit: the rest of a text that starts with a literal.
func afterLit(q *T, lit string) (*T, bool) {
	ps := catParts(q)
	if len(ps) == 0 || ps[0].op != "lit" || !strings.HasPrefix(ps[0].s, lit) {
		return nil, false
	}
	rest := append([]*T{mkLit(ps[0].s[len(lit):])}, ps[1:]...)
	return mkCat(rest...), true
}

// written is what a path wrote to a fmt.State, in order.
func written(in *Interp, st *State, to *T) (*T, bool) {
	q := tEmpty
	for _, e := range events(st) {
		switch {
		case e.kind == "invoke" && strings.HasSuffix(e.name, "(fmt.State).Write") && e.args[0] == to:
			q = mkCat(q, in.sliceSeq(stAt(e), e.args[1]))
		case e.kind == "write:fmt" || e.kind == "write":
			if len(e.args) < 2 || e.args[0] != to {
				return nil, false
			}
			q = mkCat(q, e.args[1])
		}
	}
	return q, true
}

// formats: each formatting verb writes its form of the value.
func (e *encRule) formats(typ, word string, sums bool) {
	c := e.c
	fn := c.fn("common", typ+".Format")
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	x, verb, to := input(r, 0), r.param(2), r.param(1)
	seen := map[rune]bool{}
	for _, o := range r.outs {
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "formatting does not return") {
			continue
		}
		e.n++
		st := o.st
		q, ok := written(r.in, st, to)
		if !c.ok("written", label, ok, o.pos, "what is written goes elsewhere") {
			continue
		}
		q = plainText(q)
		v := rune(0)
		for _, k := range "vsqxXd" {
			switch oneOf(st, verb, int64(k)) {
			case yes:
				v = k
			case unknown:
				if v == 0 {
					v = -k
				}
			}
		}
		sharp := mkApp("inv:(fmt.State).Flag", types.Typ[types.Bool], to, mkInt('#'))
		hash := st.facts.decide(sharp)
		for q, t := range st.facts.atoms {
			if q.isApp("inv:(fmt.State).Flag") && q.a[0] == to && q.a[1] == mkInt('#') {
				hash = truthOf(t)
			}
		}
		good := false
		switch v {
		case 'v', 's', 'q':
			seen[v] = true
			if sums != (typ == "Address") {
				continue
			}
			if v == 'q' {
				in, ok := afterLit(q, `"`)
				ps := catParts(q)
				if ok && len(ps) > 0 && strings.HasSuffix(ps[len(ps)-1].s, `"`) && ps[len(ps)-1].op == "lit" {
					ps = catParts(in)
					l := ps[len(ps)-1].s
					q = mkCat(append(append([]*T{}, ps[:len(ps)-1]...), mkLit(l[:len(l)-1]))...)
					good = true
				}
				if !good {
					break
				}
			}
			if sums {
				good = e.checksummed(r.in, st, q, x) == ""
			} else {
				rest, ok := afterLit(q, "0x")
				good = ok && isHexOf(st, rest, x)
			}
		case 'x', 'X':
			seen[v] = true
			if v == 'X' {
				q = lowered(q)
			}
			if q == nil || hash == unknown {
				break
			}
			if hash == yes {
				rest, ok := afterLit(q, "0x")
				good = ok && isHexOf(st, rest, x)
			} else {
				good = isHexOf(st, q, x)
			}
		case 'd':
			seen[v] = true
			if a := typeOfArg(q); q.isApp("fmtv:%v") || q.isApp("fmtv:%d") {
				good = strings.HasPrefix(a, "[") && q.a[0] == x
			}
		case 0:
			seen[0] = true
			ps := catParts(q)
			good = len(ps) == 5 && isText(ps[0], "%!") && (ps[1].isApp("fmtv:%c") || ps[1].isApp("runestr")) && ps[1].a[0] == verb &&
				isText(ps[2], "("+word+"=") && isHexOf(st, ps[3], x) && isText(ps[4], ")")
		}
		if sums && v != 'v' && v != 's' && v != 'q' {
			continue
		}
		name := "other verbs"
		if v != 0 {
			name = "%" + string(v)
		}
		c.ok("verb", label+" "+name, good, o.pos, "the verb writes something else: %v", q)
	}
	for _, k := range "vsqxXd\x00" {
		c.ok("verbs", label, seen[k], fn.Pos(), "a formatting verb has no path of its own")
	}
}

// lowered: the text before it was put in upper case.
func lowered(q *T) *T {
	if q.isApp("upper") {
		return q.a[len(q.a)-1]
	}
	ps := catParts(q)
	if len(ps) == 2 && ps[0].op == "lit" && ps[1].isApp("upper") {
		return mkCat(mkLit(strings.ToLower(ps[0].s)), ps[1].a[len(ps[1].a)-1])
	}
	if root, off := subRoot(q); root != q && root.isApp("upper") {
		inner := root.a[len(root.a)-1]
		return subSeq(newState().facts, inner, off, tAdd(off, seqLen(q)))
	}
	return nil
}

// mixedJSON: the original text is written with exactly one prefix.
func (e *encRule) mixedJSON() {
	c := e.c
	fn := c.fn("common", "MixedcaseAddress.MarshalJSON")
	fs := c.fields("common", "MixedcaseAddress.original")
	if fn == nil || fs == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	orig := r.in.loadField(newState(), r.param(0), fs[0])
	for _, o := range r.outs {
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "encoding does not return") {
			continue
		}
		q, err := output(r, o)
		if strings.HasPrefix(err.s, "jsonerr") {
			continue
		}
		e.n++
		if !c.ok("error", label, err == tNil, o.pos, "encoding fails") {
			continue
		}
		tv := textView{orig, tZero, seqLen(orig)}
		good := false
		if q.isApp("jsonenc") && q.a[0].op == "iface" && isStringT(q.a[0].typ) {
			rest, ok := afterLit(q.a[0].a[0], "0x")
			switch tv.prefix(o.st) {
			case yes:
				lo, hi, part := tv.part(o.st, rest)
				good = ok && part && o.st.proves(mkIntEq(lo, mkInt(2))) && o.st.proves(mkIntEq(hi, tv.n))
				if ok && rest == tEmpty {
					good = o.st.proves(mkIntEq(tv.n, mkInt(2)))
				}
			case no:
				good = ok && (seqEq(o.st.facts, rest, orig))
			default: // whole: the text is the original with its prefix in lower case
				good = false
			}
		}
		c.ok("text", label, good, o.pos, "the JSON text is not the original with one prefix: %v", q)
	}
}

func (e *encRule) graphQL(pkg, typ, want string) {
	c := e.c
	fn := c.fn(pkg, typ+".ImplementsGraphQLType")
	if fn == nil {
		return
	}
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	is := simplEq(r.param(1), mkLit(want))
	for _, o := range r.outs {
		if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		e.n++
		for _, b := range []bool{true, false} {
			f := o.st.facts.clone()
			if !f.assume(is, b) {
				continue
			}
			c.ok("graphql", label, f.decide(o.val) == truthOf(b), o.pos, "the type does not stand for %s alone", want)
		}
	}
}

// ruleChecksum: H05. Addresses are shown with the capitals EIP-55 asks for.
func ruleChecksum(c *Check) {
	e := &encRule{c: c}
	for _, n := range []string{"Address.Hex", "Address.String"} {
		fn := c.fn("common", n)
		if fn == nil {
			continue
		}
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			e.n++
			if c.ok("returns", fnLabel(fn), o.kind == outReturn, o.pos, "does not return") {
				why := e.checksummed(r.in, o.st, o.val, input(r, 0))
				c.ok("checksum", fnLabel(fn), why == "", o.pos, "the text is not shown to be the address with its checksum: %s", why)
			}
		}
	}
	e.formats("Address", "address", true)
	fs := c.fields("common", "MixedcaseAddress.addr", "MixedcaseAddress.original")
	if fs == nil {
		return
	}
	if fn := c.fn("common", "NewMixedcaseAddress"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			e.n++
			if c.ok("returns", fnLabel(fn), o.kind == outReturn && o.val.op == "struct", o.pos, "does not return") {
				ok := o.val.a[0] == r.param(0)
				why := "another address is kept"
				if ok {
					why = e.checksummed(r.in, o.st, o.val.a[1], r.param(0))
				}
				c.ok("checksum", fnLabel(fn), why == "", o.pos, "the original is not shown to be the address with its checksum: %s", why)
			}
		}
	}
	for _, n := range []string{"Original", "Address"} {
		if fn := c.fn("common", "MixedcaseAddress."+n); fn != nil {
			r := c.analyse(fn, nil)
			f := fs[0]
			if n == "Original" {
				f = fs[1]
			}
			for _, o := range r.outs {
				e.n++
				c.ok("kept", fnLabel(fn), o.kind == outReturn && o.val == r.in.loadField(newState(), r.param(0), f), o.pos, "what is returned is not what was kept")
			}
		}
	}
	for _, n := range []string{"ValidChecksum", "String"} {
		fn := c.fn("common", "MixedcaseAddress."+n)
		if fn == nil {
			continue
		}
		r := c.analyse(fn, nil)
		addr := r.in.loadField(newState(), r.param(0), fs[0])
		orig := r.in.loadField(newState(), r.param(0), fs[1])
		for _, o := range r.outs {
			e.n++
			if !c.ok("returns", fnLabel(fn), o.kind == outReturn, o.pos, "does not return") {
				continue
			}
			// the comparison of the original with the checksummed text
			var is *T
			why := "the original is compared with nothing"
			look := func(q *T) {
				if q.op == "eq" && is == nil && (q.a[0] == orig || q.a[1] == orig) {
					x := q.a[0]
					if x == orig {
						x = q.a[1]
					}
					if why = e.checksummed(r.in, o.st, x, addr); why == "" {
						is = q
					}
				}
			}
			for q := range o.st.facts.atoms {
				look(q)
			}
			anyTerm(o.val, func(x *T) bool { look(x); return false })
			if !c.ok("compared", fnLabel(fn), is != nil, o.pos, "the checksum is not judged by comparing the original with the address's text: %s", why) {
				continue
			}
			for _, b := range []bool{true, false} {
				f := o.st.facts.clone()
				if !f.assume(is, b) {
					continue
				}
				if n == "ValidChecksum" {
					c.ok("valid", fnLabel(fn), f.decide(o.val) == truthOf(b), o.pos, "the verdict is not whether the original is the address's text")
					continue
				}
				end := " [chksum ok]"
				if !b {
					end = " [chksum INVALID]"
				}
				ps := catParts(o.val)
				c.ok("said", fnLabel(fn), len(ps) == 2 && ps[0] == orig && isText(ps[1], end), o.pos, "what is said of the checksum is not the verdict: %v", o.val)
			}
		}
	}
	c.count("paths", e.n)
	c.floor("checksum", "paths", e.n, 10)
}

// checksummed: q is "0x" and the address's digits, capitals where the
// hash's digit is above seven. It says why not.
func (e *encRule) checksummed(in *Interp, st *State, q, addr *T) string {
	plain := mkCat(mkLit("0x"), hexOf(addr))
	for i := len(in.loops) - 1; i >= 0; i-- {
		rec := in.loops[i]
		if rec.unrolled || len(rec.backs) == 0 || !onPath(st, rec) {
			continue
		}
		for _, cv := range in.carried(rec, true) {
			if cv.head != q {
				continue
			}
			if cv.entry == nil || !seqEq(rec.entry.facts, cv.entry, plain) {
				return "the letters are not those of the address to start with"
			}
			why := "no counter tells the position"
			for _, iv := range in.loopVars(rec) {
				if iv.entry == nil {
					continue
				}
				for _, m := range []int64{1, 2} {
					if w := e.capitals(rec, st, cv, iv, m, addr); w == "" {
						return ""
					} else if w != "-" {
						why = w
					}
				}
			}
			return why
		}
	}
	return "it is not built letter by letter"
}

// capitals: with the position of a round at m*iv + c, every round deals with
// the letters from there to the next round's position.
func (e *encRule) capitals(rec *LoopRec, st *State, cv, iv *loopVar, m int64, addr *T) string {
	step := int64(0)
	for j := range rec.backs {
		if iv.backs[j] == nil {
			return "-"
		}
		d, ok := tSub(iv.backs[j], iv.head).int64()
		if !ok || d <= 0 || step != 0 && d != step {
			return "-"
		}
		step = d
	}
	c := tSub(mkInt(2), tMul(mkInt(m), iv.entry))
	at := func(x *T) *T { return tAdd(tMul(mkInt(m), x), c) }
	if !st.proves(mkIntEq(at(iv.head), mkInt(42))) {
		return "-"
	}
	if step*m > 2 {
		return "-"
	}
	hash := mkApp("keccak256", types.NewArray(types.Typ[types.Uint8], 32), hexOf(addr))
	for j, b := range rec.backs {
		start := at(iv.head)
		// nothing outside the round's letters is written
		for u := cv.backs[j]; u != cv.head; u = u.a[0] {
			if u.op != "upd" {
				return "a round changes more than its letters"
			}
			if !b.st.proves(mkLe(start, u.a[1])) || !b.st.proves(mkLt(u.a[1], tAddI(start, step*m))) {
				return "a round changes a letter that is not its own"
			}
		}
		for k := int64(0); k < step*m; k++ {
			p := tAddI(start, k)
			for _, odd := range []bool{false, true} {
				for _, letter := range []bool{false, true} {
					for _, high := range []bool{false, true} {
						t := newState()
						t.facts = b.st.facts.clone()
						d := tAddI(p, -2)
						half := mkDiv(t, d, mkInt(2))
						if !t.assume(mkIntEq(tSub(d, tMul(mkInt(2), half)), mkInt(b2i(odd))), true) {
							continue
						}
						old := atTerm(t.facts, cv.head, p)
						lo, hi := int64('0'), int64('9')
						if letter {
							lo, hi = 'a', 'f'
						}
						if !t.assume(mkLe(mkInt(lo), old), true) || !t.assume(mkLe(old, mkInt(hi)), true) {
							continue
						}
						hb := atTerm(t.facts, hash, half)
						nib := mkDiv(t, hb, mkInt(16))
						if odd {
							nib = tSub(hb, tMul(mkInt(16), nib))
						}
						if high && !t.assume(mkLe(mkInt(8), nib), true) || !high && !t.assume(mkLe(nib, mkInt(7)), true) {
							continue
						}
						want := old
						if letter && high {
							want = tAddI(old, -32)
						}
						got := atTerm(t.facts, cv.backs[j], p)
						if !t.proves(mkIntEq(got, want)) {
							if t.proves(mkLe(tOne, tZero)) {
								continue
							}
							dbg("capital: p=%v odd=%v letter=%v high=%v nib=%v got=%v want=%v", p, odd, letter, high, nib, got, want)
							return "a letter's case is not the one its digit of the hash asks for"
						}
					}
				}
			}
		}
	}
	return ""
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func isText(q *T, s string) bool {
	if s == "" {
		return q == tEmpty || q == mkLit("")
	}
	return q.op == "lit" && q.s == s
}
