package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { properties["H03"] = ruleHexDecode }

// textView is a text a decoder reads: n bytes of seq from position off.
type textView struct{ seq, off, n *T }

func (v textView) at(st *State, i *T) *T { return atTerm(st.facts, v.seq, tAdd(v.off, i)) }

func (v textView) drop(k int64) textView { return textView{v.seq, tAddI(v.off, k), tAddI(v.n, -k)} }

func oneOf(st *State, x *T, cs ...int64) truth {
	r := no
	for _, c := range cs {
		switch st.facts.decide(mkIntEq(x, mkInt(c))) {
		case yes:
			return yes
		case unknown:
			r = unknown
		}
	}
	return r
}

func inRange(st *State, x *T, lo, hi int64) bool {
	return st.proves(mkLe(mkInt(lo), x)) && st.proves(mkLe(x, mkInt(hi)))
}

// prefix: the text starts with 0x or 0X.
func (v textView) prefix(st *State) truth {
	if st.proves(mkLe(v.n, tOne)) {
		return no
	}
	a := oneOf(st, v.at(st, tZero), '0')
	b := oneOf(st, v.at(st, tOne), 'x', 'X')
	switch {
	case a == no || b == no:
		return no
	case a == yes && b == yes && st.proves(mkLe(mkInt(2), v.n)):
		return yes
	}
	not := map[string]bool{} // compared as a whole
	for q, t := range st.facts.atoms {
		if q.op == "eq" && !t {
			x, y := q.a[0], q.a[1]
			if x.op == "lit" {
				x, y = y, x
			}
			if lo, hi, ok := v.part(st, x); ok && y.op == "lit" && lo == tZero && st.proves(mkIntEq(hi, mkInt(2))) {
				not[y.s] = true
			}
		}
	}
	if not["0x"] && not["0X"] {
		return no
	}
	return unknown
}

// part: q is a part of the text, from lo to hi.
func (v textView) part(st *State, q *T) (lo, hi *T, ok bool) {
	r, off := subRoot(q)
	if r != v.seq && !seqEq(st.facts, r, v.seq) {
		return nil, nil, false
	}
	lo = tSub(off, v.off)
	return lo, tAdd(lo, seqLen(q)), true
}

// allHex: all characters from position a on are hexadecimal digits.
func (v textView) allHex(st *State, a *T) bool {
	cur := a
	used := map[int]bool{}
	for k := 0; k < 24; k++ {
		if st.proves(mkLe(v.n, cur)) {
			return true
		}
		next := (*T)(nil)
		for i, fa := range st.all {
			if next != nil || used[i] || !fa.class.subset(hexDigits) {
				continue
			}
			lo, _, ok := v.part(st, fa.seq)
			if !ok || !st.proves(mkLe(tAdd(lo, fa.lo), cur)) {
				continue
			}
			if hi := tAdd(lo, fa.hi); st.proves(mkLe(cur, hi)) {
				next, used[i] = hi, true
			}
		}
		for q := range st.facts.atoms {
			if next == nil && (q.isApp("ishex") || q.isApp("isnum")) && st.facts.atoms[q] {
				if lo, hi, ok := v.part(st, q.a[0]); ok && st.proves(mkLe(lo, cur)) && st.proves(mkLe(v.n, hi)) {
					next = hi
				}
			}
		}
		if next == nil {
			x := v.at(st, cur)
			if !inRange(st, x, '0', '9') && !inRange(st, x, 'a', 'f') && !inRange(st, x, 'A', 'F') {
				return false
			}
			next = tAddI(cur, 1)
		}
		cur = next
	}
	return false
}

// badDigit: some character from position a on is not a hexadecimal digit.
func (v textView) badDigit(st *State, a *T) bool {
	found := false
	for q, t := range st.facts.atoms {
		if (q.isApp("ishex") || q.isApp("isnum")) && !t {
			lo, hi, ok := v.part(st, q.a[0])
			if ok && st.proves(mkLe(a, lo)) && st.proves(mkLe(hi, v.n)) && st.proves(mkLt(lo, hi)) {
				return true
			}
		}
	}
	st.facts.eachTerm(func(t *T) {
		if found || !t.isApp("at") {
			return
		}
		lo, _, ok := v.part(st, t.a[0])
		if !ok {
			return
		}
		i := tAdd(lo, t.a[1])
		if !st.proves(mkLe(a, i)) || !st.proves(mkLt(i, v.n)) {
			return
		}
		found = st.proves(mkLe(t, mkInt('0'-1))) || inRange(st, t, '9'+1, 'A'-1) || inRange(st, t, 'F'+1, 'a'-1) || st.proves(mkLe(mkInt('f'+1), t))
	})
	return found
}

// foldOf: v is the number whose hexadecimal digits are the characters lo to hi
// of the text.
func (h *hexRule) foldOf(in *Interp, st *State, tv textView, v *T, depth int) (lo, hi *T, ok bool) {
	if v == tZero {
		return tZero, tZero, true
	}
	if v.isApp("nat") && v.a[0].op == "lit" && v.a[0].s == "parse16" {
		return tv.part(st, v.a[1])
	}
	if v.isApp("parseint") && v.a[0] == mkInt(16) {
		return tv.part(st, v.a[1])
	}
	if depth > 24 {
		return nil, nil, false
	}
	v = unshift(st, v)
	for _, l := range []*lin{toLin(st.facts.normInt(v)), toLin(v)} { // a sum of digits
		for x, k := range l.m {
			if !x.isApp("at") || !k.IsInt64() || k.Int64() != 1 {
				continue
			}
			base, _, ok := tv.part(st, x.a[0])
			if !ok {
				continue
			}
			off, ok := digitOffset(st, x)
			if !ok {
				continue
			}
			rest, ok := divideLin(tSub(v, tAddI(x, -off)), 16)
			if !ok {
				continue
			}
			p := tAdd(base, x.a[1])
			if rest == tZero {
				return p, tAddI(p, 1), true
			}
			lo, hi, ok := h.foldOf(in, st, tv, rest, depth+1)
			if !ok || !st.proves(mkIntEq(hi, p)) {
				continue
			}
			return lo, tAddI(p, 1), true
		}
	}
	for i := len(in.loops) - 1; i >= 0; i-- {
		rec := in.loops[i]
		if rec.unrolled || len(rec.backs) == 0 || !onPath(st, rec) {
			continue
		}
		for _, c := range in.carried(rec, true) {
			head, at := c.head, func(x *T) *T { return x }
			if v.isApp("at") && v.a[0] == c.head {
				k := v.a[1]
				head, at = v, func(x *T) *T {
					if x == nil {
						return nil
					}
					return atTerm(rec.entry.facts, x, k)
				}
			} else if v != c.head {
				continue
			}
			if c.entry == nil {
				return nil, nil, false
			}
			same := true
			for _, b := range c.backs {
				if at(b) != head {
					same = false
				}
			}
			if same {
				return h.foldOf(in, st, tv, at(c.entry), depth+1)
			}
			if a, z, ok := h.foldOf(in, st, tv, at(c.entry), depth+1); !ok || a != z {
				return nil, nil, false
			}
			for j, b := range c.backs {
				bst := rec.backs[j].st
				l, ok := digitOf(bst, tv, tSub(unshift(bst, at(b)), tMul(mkInt(16), head)))
				if !ok {
					return nil, nil, false
				}
				// the position is that of a counter which advances by one
				found := false
				for _, iv := range in.loopVars(rec) {
					d := tSub(l, iv.head)
					if iv.entry == nil || iv.backs[j] == nil || hasSym(d, func(s string) bool { return strings.HasPrefix(s, "hav~") && termMentions(iv.head, s) }) {
						continue
					}
					if iv.backs[j] != tAddI(iv.head, 1) {
						continue
					}
					a, z := tAdd(d, iv.entry), tAdd(d, iv.head)
					if lo != nil && (lo != a || hi != z) {
						return nil, nil, false
					}
					lo, hi, found = a, z, true
					break
				}
				if !found {
					return nil, nil, false
				}
			}
			return lo, hi, lo != nil
		}
	}
	return nil, nil, false
}

// unshift: a sum for a value put together with shifts.
func unshift(st *State, v *T) *T {
	switch {
	case v.isApp("shl"):
		if k, ok := v.a[1].int64(); ok && k > 0 && k < 64 {
			return tMul(unshift(st, v.a[0]), mkBig(new(big.Int).Lsh(bigOne, uint(k))))
		}
	case v.isApp("or") && len(v.a) == 2:
		for i := 0; i < 2; i++ {
			x, d := v.a[i], v.a[1-i]
			if !x.isApp("shl") {
				continue
			}
			if k, ok := x.a[1].int64(); ok && k < 62 && inRange(st, d, 0, 1<<uint(k)-1) {
				return tAdd(unshift(st, x), unshift(st, d))
			}
		}
	case v.op == "sum":
		l := toLin(v)
		r := mkBig(l.k)
		for x, k := range l.m {
			if x.op != "sum" {
				x = unshift(st, x)
			}
			r = tAdd(r, tMul(mkBig(k), x))
		}
		return r
	}
	return v
}

func onPath(st *State, rec *LoopRec) bool {
	for e := st.ev; e != nil; e = e.prev {
		if e.kind == "loop" && e.loop == rec {
			return true
		}
	}
	return false
}

// digitOf: d is the value of the hexadecimal digit at a position of the text.
func digitOf(st *State, tv textView, d *T) (pos *T, ok bool) {
	l := toLin(st.facts.normInt(d))
	for x := range l.m {
		if !x.isApp("at") {
			continue
		}
		base, _, ok := tv.part(st, x.a[0])
		if !ok {
			continue
		}
		if k, ok := digitOffset(st, x); ok && st.proves(mkIntEq(d, tAddI(x, -k))) {
			return tAdd(base, x.a[1]), true
		}
	}
	return nil, false
}

// digitOffset: what to subtract from a hexadecimal digit to get its value.
func digitOffset(st *State, x *T) (int64, bool) {
	for _, r := range [][3]int64{{'0', '9', '0'}, {'a', 'f', 'a' - 10}, {'A', 'F', 'A' - 10}} {
		if inRange(st, x, r[0], r[1]) {
			return r[2], true
		}
	}
	return 0, false
}

func divideLin(t *T, n int64) (*T, bool) {
	l := toLin(t)
	d := big.NewInt(n)
	r := newLin()
	var m big.Int
	for x, k := range l.m {
		q := new(big.Int)
		if q.QuoRem(k, d, &m); m.Sign() != 0 {
			return nil, false
		}
		r.m[x] = q
	}
	if r.k.QuoRem(l.k, d, &m); m.Sign() != 0 {
		return nil, false
	}
	return r.term(), true
}

// numberIs: v is the number the text's digits from position 2 on denote.
func (h *hexRule) numberIs(in *Interp, st *State, tv textView, v *T) bool {
	eq := func(a, b *T) bool { return st.proves(mkIntEq(a, b)) }
	if v.isApp("nat") && v.a[0].op == "lit" && v.a[0].s == "words" {
		w := v.a[1]
		n, ok := st.facts.normInt(seqLen(w)).int64()
		if !ok {
			for k := int64(0); k <= 8; k++ {
				if eq(seqLen(w), mkInt(k)) {
					n, ok = k, true
				}
			}
			if !ok {
				return false
			}
		}
		end := tv.n
		for k := int64(0); k < n; k++ {
			lo, hi, ok := h.foldOf(in, st, tv, atTerm(st.facts, w, mkInt(k)), 0)
			dbg("word %d/%d of %v: %v %v %v end %v", k, n, w, lo, hi, ok, end)
			if !ok {
				return false
			}
			if eq(lo, hi) { // an unused word
				if !eq(end, mkInt(2)) {
					return false
				}
				continue
			}
			if !eq(hi, end) || !st.proves(mkLe(tSub(hi, lo), mkInt(16))) || !st.proves(mkLe(mkInt(2), lo)) {
				return false
			}
			if !eq(lo, mkInt(2)) && !eq(tSub(hi, lo), mkInt(16)) {
				return false
			}
			end = lo
		}
		return eq(end, mkInt(2))
	}
	lo, hi, ok := h.foldOf(in, st, tv, v, 0)
	return ok && eq(lo, mkInt(2)) && eq(hi, tv.n)
}

type hexRule struct {
	c        *Check
	errs     map[*T]string // error value -> name
	msgs     map[string]string
	nok, nko int
}

type hexSpec struct {
	pkg, name string
	form      string // string, text, json, any (an interface holding a string)
	kind      string // number, bytes, fixed, loose (fixed, the prefix is optional)
	src       int
	empty     bool // an empty text is allowed
	max       int64
	rangeErr  string
}

var hexSpecs = []hexSpec{
	{"common/hexutil", "Decode", "string", "bytes", 0, false, 0, ""},
	{"common/hexutil", "MustDecode", "string", "bytes", 0, false, 0, ""},
	{"common/hexutil", "DecodeUint64", "string", "number", 0, false, 16, "ErrUint64Range"},
	{"common/hexutil", "MustDecodeUint64", "string", "number", 0, false, 16, "ErrUint64Range"},
	{"common/hexutil", "DecodeBig", "string", "number", 0, false, 64, "ErrBig256Range"},
	{"common/hexutil", "MustDecodeBig", "string", "number", 0, false, 64, "ErrBig256Range"},
	{"common/hexutil", "Bytes.UnmarshalText", "text", "bytes", 1, true, 0, ""},
	{"common/hexutil", "Bytes.UnmarshalJSON", "json", "bytes", 1, true, 0, ""},
	{"common/hexutil", "Bytes.UnmarshalGraphQL", "any", "bytes", 1, false, 0, ""},
	{"common/hexutil", "Big.UnmarshalText", "text", "number", 1, true, 64, "ErrBig256Range"},
	{"common/hexutil", "Big.UnmarshalJSON", "json", "number", 1, true, 64, "ErrBig256Range"},
	{"common/hexutil", "Big.UnmarshalGraphQL", "any", "number", 1, true, 64, "ErrBig256Range"},
	{"common/hexutil", "Uint64.UnmarshalText", "text", "number", 1, true, 16, "ErrUint64Range"},
	{"common/hexutil", "Uint64.UnmarshalJSON", "json", "number", 1, true, 16, "ErrUint64Range"},
	{"common/hexutil", "Uint64.UnmarshalGraphQL", "any", "number", 1, true, 16, "ErrUint64Range"},
	{"common/hexutil", "Uint.UnmarshalText", "text", "number", 1, true, 16, "ErrUintRange"},
	{"common/hexutil", "Uint.UnmarshalJSON", "json", "number", 1, true, 16, "ErrUintRange"},
	{"common/hexutil", "UnmarshalFixedText", "text", "fixed", 1, true, 0, ""},
	{"common/hexutil", "UnmarshalFixedJSON", "json", "fixed", 1, true, 0, ""},
	{"common/hexutil", "UnmarshalFixedUnprefixedText", "text", "loose", 1, true, 0, ""},
	{"common", "Hash.UnmarshalText", "text", "fixed", 1, true, 0, ""},
	{"common", "Hash.UnmarshalJSON", "json", "fixed", 1, true, 0, ""},
	{"common", "Hash.UnmarshalGraphQL", "any", "fixed", 1, true, 0, ""},
	{"common", "Address.UnmarshalText", "text", "fixed", 1, true, 0, ""},
	{"common", "Address.UnmarshalJSON", "json", "fixed", 1, true, 0, ""},
	{"common", "Address.UnmarshalGraphQL", "any", "fixed", 1, true, 0, ""},
	{"common", "UnprefixedHash.UnmarshalText", "text", "loose", 1, true, 0, ""},
	{"common", "UnprefixedAddress.UnmarshalText", "text", "loose", 1, true, 0, ""},
	{"common", "MixedcaseAddress.UnmarshalJSON", "json", "fixed", 1, true, 0, ""},
	{"common", "ParseHexOrString", "string", "bytes", 0, false, 0, ""},
}

// ruleHexDecode: H03. Hexadecimal text is accepted exactly in its canonical
// form and decoded to what it denotes; an error names a defect the text has.
func ruleHexDecode(c *Check) {
	h := &hexRule{c: c, errs: map[*T]string{}, msgs: map[string]string{}}
	in0 := newInterp(c.p)
	fs := c.fields("common/hexutil", "decError.msg")
	if fs == nil {
		return
	}
	errText := fs[0]
	for _, n := range []string{"ErrEmptyString", "ErrSyntax", "ErrMissingPrefix", "ErrOddLength", "ErrEmptyNumber", "ErrLeadingZero", "ErrUint64Range", "ErrUintRange", "ErrBig256Range"} {
		v := c.p.globalVal("common/hexutil", n)
		if v != nil && v.op == "iface" {
			v = v.a[0]
		}
		if !c.ok("errors", n, v != nil && v != tNil && h.errs[v] == "", token.NoPos, "the error is not defined, or is another one's value") {
			continue
		}
		h.errs[v] = n
		st := newState()
		msg := in0.load(st, mkField(v, errText, types.Typ[types.String]), types.Typ[types.String])
		if msg.op != "lit" || n == "ErrUintRange" { // 64 bits on most targets: ErrUint64Range's text
			continue
		}
		if c.ok("errors", n+" text", msg.s != "" && h.msgs[msg.s] == "", token.NoPos, "the error has no text of its own") {
			h.msgs[msg.s] = n
		}
	}
	for _, s := range hexSpecs {
		fn := c.fn(s.pkg, s.name)
		if fn == nil {
			continue
		}
		h.judge(s, fn)
	}
	h.parse256()
	h.isAddress()
	c.count("successful paths", h.nok)
	c.count("failing paths", h.nko)
	c.floor("hex", "successful paths", h.nok, 60)
	c.floor("hex", "failing paths", h.nko, 150)
}

func (h *hexRule) judge(s hexSpec, fn *ssa.Function) {
	c := h.c
	label := fnLabel(fn)
	r := c.analyse(fn, nil)
	in := r.in
	src := in.expand(r.param(s.src), fn.Params[s.src].Type())
	for _, o := range r.outs {
		if o.kind != outReturn {
			continue // H02
		}
		st := o.st
		err := tNil
		val := o.val
		if n := fn.Signature.Results().Len(); n > 0 && fn.Signature.Results().At(n-1).Type().String() == "error" {
			if n > 1 {
				val, err = o.val.a[0], o.val.a[n-1]
			} else {
				err = o.val
			}
		}
		failed := st.facts.decideEq(err, tNil) != yes
		if failed {
			h.nko++
		} else {
			h.nok++
		}
		tv := textView{off: tZero}
		switch s.form {
		case "string":
			tv.seq, tv.n = src, seqLen(src)
		case "text", "json":
			tv.seq, tv.n = mkApp("init", src.typ, src.a[0]), src.a[2]
			tv.seq = in.content(newState(), src.a[0])
		case "any":
			if st.facts.decide(mkTypeIs(src, types.Typ[types.String])) != yes {
				if t := types.Typ[types.Int32]; st.facts.decide(mkTypeIs(src, t)) == yes && !failed {
					h.smallInt(s, r, o, fn, label, mkApp("val:"+typeKey(t), t, src))
					continue
				}
				c.ok("type", label, failed, o.pos, "a value that is neither a string nor a number is accepted")
				continue
			}
			q := mkApp("val:string", types.Typ[types.String], src)
			tv.seq, tv.n = q, seqLen(q)
		}
		name := h.errName(in, st, err)
		if s.form == "json" {
			quoted := st.proves(mkLe(mkInt(2), tv.n)) && oneOf(st, tv.at(st, tZero), '"') == yes && oneOf(st, tv.at(st, tAddI(tv.n, -1)), '"') == yes
			if !quoted {
				bad := st.proves(mkLe(tv.n, tOne)) || oneOf(st, tv.at(st, tZero), '"') == no || oneOf(st, tv.at(st, tAddI(tv.n, -1)), '"') == no
				c.ok("json", label, failed && bad && name == "json:non-string", o.pos, "an input that is not a JSON string is accepted, or refused for another reason (%s)", name)
				continue
			}
			if failed && !strings.HasPrefix(name, "json:") {
				dbg("json error %v", err)
			}
			c.ok("json", label, !failed || strings.HasPrefix(name, "json:") && name != "json:non-string" || s.kind == "fixed" && name == "", o.pos, "an error in a JSON string is not reported as a JSON type error (%s)", name)
			name = strings.TrimPrefix(name, "json:")
			tv = textView{tv.seq, tOne, tAddI(tv.n, -2)}
		}
		if s.name == "ParseHexOrString" {
			if tv.prefix(st) == no && !st.proves(mkLe(tv.n, tZero)) {
				_, q := in.sliceParts(st, val)
				c.ok("raw", label, !failed && q != nil && seqEq(st.facts, q, src), o.pos, "a text without prefix is not taken as it is")
				continue
			}
		}
		if failed {
			h.refused(s, st, tv, name, r, label, o.pos)
			continue
		}
		h.accepted(s, r, o, tv, val, fn, label)
	}
}

// errName is which of the package's errors a value is.
func (h *hexRule) errName(in *Interp, st *State, err *T) string {
	if err.op == "iface" && h.errs[err.a[0]] != "" {
		return h.errs[err.a[0]]
	}
	if err.op == "iface" && strings.HasSuffix(typeKey(err.typ), "json.UnmarshalTypeError") {
		t := deref(err.typ).Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if f := t.Field(i); f.Name() == "Value" {
				v := in.loadField(st, err.a[0], f)
				if v.op == "lit" && h.msgs[v.s] != "" {
					return "json:" + h.msgs[v.s]
				}
				if v.op == "lit" {
					return "json:" + v.s
				}
			}
		}
		return "json:?"
	}
	return ""
}

// refused: the text has the defect the error names.
func (h *hexRule) refused(s hexSpec, st *State, tv textView, name string, r *Run, label string, pos token.Pos) {
	c := h.c
	digits := tv
	pre := tv.prefix(st)
	has := pre == yes
	switch {
	case has:
		digits = tv.drop(2)
	case s.kind == "loose" && pre == no:
		has = true
	}
	empty := st.proves(mkLe(tv.n, tZero))
	two := mkInt(2)
	ok := false
	switch name {
	case "ErrEmptyString":
		ok = empty && !s.empty
	case "ErrMissingPrefix":
		ok = pre == no && st.proves(mkLe(tOne, tv.n)) && s.kind != "loose"
	case "ErrEmptyNumber":
		ok = has && s.kind == "number" && st.proves(mkIntEq(tv.n, two))
	case "ErrLeadingZero":
		ok = has && s.kind == "number" && st.proves(mkLe(mkInt(4), tv.n)) && oneOf(st, tv.at(st, two), '0') == yes
	case "ErrSyntax":
		ok = has && digits.badDigit(st, tZero)
	case "ErrOddLength":
		ok = has && s.kind != "number" && st.facts.decide(even(digits.n)) == no
	case "ErrUint64Range", "ErrUintRange", "ErrBig256Range":
		if name == "ErrUint64Range" && s.rangeErr == "ErrUintRange" && s.form == "json" {
			name = s.rangeErr // same text
		}
		ok = name == s.rangeErr && has && (st.proves(mkLe(mkInt(s.max+1), digits.n)) || h.tooLarge(st, digits, s.max))
	default:
		if s.kind == "fixed" || s.kind == "loose" {
			n := h.destLen(r, s)
			ok = n != nil && (empty && st.proves(mkLe(tOne, n)) || has && wrongLen(st, digits.n, n))
		}
	}
	if name == "" {
		name = "an error of another kind"
	}
	c.ok("refused", label+" "+name, ok, pos, "a text is refused with %s although it does not have that defect", name)
}

// wrongLen: n digits are not two for each of m bytes.
func wrongLen(st *State, n, m *T) bool {
	d := mkDiv(st, n, mkInt(2))
	return st.facts.decide(mkIntEq(n, tMul(mkInt(2), m))) == no || st.facts.decide(mkIntEq(d, m)) == no
}

func (h *hexRule) tooLarge(st *State, digits textView, max int64) bool {
	lim := new(big.Int).Lsh(bigOne, uint(4*max))
	found := false
	st.facts.eachTerm(func(t *T) {
		if t.isApp("nat") && t.a[0].op == "lit" && t.a[0].s == "parse16" && st.proves(mkLe(mkBig(lim), t)) {
			if lo, hi, ok := digits.part(st, t.a[1]); ok && lo == tZero && st.proves(mkIntEq(hi, digits.n)) {
				found = true
			}
		}
	})
	return found
}

// destLen is the number of bytes of a fixed size destination.
func (h *hexRule) destLen(r *Run, s hexSpec) *T {
	fn := r.fn
	if fn.Signature.Recv() == nil {
		p := fn.Params[len(fn.Params)-1]
		return r.in.expand(mkSym(p.Name(), p.Type()), p.Type()).a[2]
	}
	t := deref(fn.Params[0].Type()).Underlying()
	if st, ok := t.(*types.Struct); ok {
		t = st.Field(0).Type().Underlying()
	}
	if a, ok := t.(*types.Array); ok {
		return mkInt(a.Len())
	}
	return nil
}

// accepted: the text is canonical and the destination holds what it denotes.
func (h *hexRule) accepted(s hexSpec, r *Run, o Outcome, tv textView, val *T, fn *ssa.Function, label string) {
	c, in, st := h.c, r.in, o.st
	two := mkInt(2)
	var q *T // the bytes decoded
	if s.kind == "number" {
		v := val
		switch {
		case fn.Signature.Recv() != nil:
			v = in.load(st, r.param(0), deref(fn.Params[0].Type()))
		case isPtrT(fn.Signature.Results().At(0).Type()):
			v = in.bigVal(st, val)
		}
		if st.proves(mkLe(tv.n, tZero)) {
			ok := v == tZero || v.isApp("nat") && v.a[1].op == "zero"
			c.ok("empty", label, s.empty && ok, o.pos, "an empty text is accepted where it may not be, or not as zero (%v)", v)
			return
		}
		c.ok("prefix", label, tv.prefix(st) == yes, o.pos, "a number without 0x prefix is accepted")
		c.ok("digits", label, st.proves(mkLe(mkInt(3), tv.n)), o.pos, "a number without digits is accepted")
		c.ok("zeros", label, st.proves(mkLe(tv.n, mkInt(3))) || oneOf(st, tv.at(st, two), '0') == no, o.pos, "a number with leading zeros is accepted")
		c.ok("hex", label, tv.allHex(st, two), o.pos, "a character that is not a hexadecimal digit is accepted")
		fits := st.proves(mkLe(tAddI(tv.n, -2), mkInt(s.max))) || v.isApp("nat") && st.proves(mkLe(v, mkBig(new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(4*s.max)), bigOne))))
		c.ok("range", label, fits, o.pos, "a number that does not fit is accepted")
		c.ok("value", label, h.numberIs(in, st, tv, v), o.pos, "the value is not shown to be the one the digits denote: %v", v)
		return
	}
	var n *T
	switch {
	case s.kind == "bytes":
		if fn.Signature.Recv() != nil {
			val = in.load(st, r.param(0), deref(fn.Params[0].Type()))
		}
		if val.op != "slice" {
			c.fail("value", label, o.pos, "the result is not followed: %v", val)
			return
		}
		_, q = in.sliceParts(st, val)
		n = val.a[2]
	case fn.Signature.Recv() == nil:
		n = h.destLen(r, s)
		dst := in.expand(r.param(len(fn.Params)-1), fn.Params[len(fn.Params)-1].Type())
		_, q = in.sliceParts(st, dst)
	default:
		n = h.destLen(r, s)
		dst := r.param(0)
		if sf, ok := deref(fn.Params[0].Type()).Underlying().(*types.Struct); ok {
			dst = mkField(dst, sf.Field(0), sf.Field(0).Type())
		}
		q = in.content(st, dst)
	}
	digits := tv
	switch {
	case st.proves(mkLe(tv.n, tZero)):
		c.ok("empty", label, s.empty && st.proves(mkLe(n, tZero)), o.pos, "an empty text is accepted where it may not be")
		return
	case tv.prefix(st) == yes:
		digits = tv.drop(2)
	case s.kind == "loose" && tv.prefix(st) == no:
	default:
		c.fail("prefix", label, o.pos, "a text without 0x prefix is accepted")
		return
	}
	c.ok("even", label, st.proves(mkIntEq(digits.n, tMul(two, n))), o.pos, "the text does not have two digits for each byte")
	c.ok("hex", label, digits.allHex(st, tZero), o.pos, "a character that is not a hexadecimal digit is accepted")
	c.ok("value", label, h.bytesAre(st, digits, q, n), o.pos, "the bytes are not shown to be the ones the digits denote: %v", q)
}

// bytesAre: the first n elements of q are the bytes the digits denote.
func (h *hexRule) bytesAre(st *State, digits textView, q, n *T) bool {
	if st.proves(mkLe(n, tZero)) {
		return true
	}
	if q == nil {
		return false
	}
	if !st.proves(mkIntEq(seqLen(q), n)) {
		q = subSeq(st.facts, q, tZero, n)
	}
	if q.isApp("hav:hexdec") {
		lo, hi, ok := digits.part(st, q.a[1])
		return ok && st.proves(mkIntEq(lo, tZero)) && st.proves(mkIntEq(hi, digits.n))
	}
	return false
}

// smallInt: a 32 bit number is taken as it is.
func (h *hexRule) smallInt(s hexSpec, r *Run, o Outcome, fn *ssa.Function, label string, x *T) {
	c, in, st := h.c, r.in, o.st
	v := in.load(st, r.param(0), deref(fn.Params[0].Type()))
	ok := s.kind == "number" && (v == x || st.proves(mkIntEq(v, x)) || v.op == "app" && strings.HasPrefix(v.s, "conv:") && v.a[0] == x)
	c.ok("int", label, ok, o.pos, "a number is not taken as it is: %v", v)
}

// parse256: ParseBig256 and the types built on it.
func (h *hexRule) parse256() {
	c := h.c
	for _, name := range []string{"ParseBig256", "HexOrDecimal256.UnmarshalText", "Decimal256.UnmarshalText"} {
		fn := c.fn("common/math", name)
		if fn == nil {
			continue
		}
		label := fnLabel(fn)
		r := c.analyse(fn, nil)
		in := r.in
		for _, o := range r.outs {
			if o.kind != outReturn {
				continue
			}
			st := o.st
			var tv textView
			var v *T
			failed := false
			if fn.Signature.Recv() == nil {
				p := r.param(0)
				tv = textView{p, tZero, seqLen(p)}
				switch st.facts.decide(o.val.a[1]) {
				case yes:
					v = in.bigVal(st, o.val.a[0])
					c.ok("nil", label, st.facts.decideEq(o.val.a[0], tNil) == no, o.pos, "success without a number")
				case no:
					failed = true
				default:
					c.fail("answer", label, o.pos, "the answer is not followed")
					continue
				}
			} else {
				p := in.expand(r.param(1), fn.Params[1].Type())
				tv = textView{in.content(newState(), p.a[0]), tZero, p.a[2]}
				failed = st.facts.decideEq(o.val, tNil) != yes
				v = in.load(st, r.param(0), deref(fn.Params[0].Type()))
			}
			digits, base := tv, int64(10)
			switch tv.prefix(st) {
			case yes:
				digits, base = tv.drop(2), 16
			case unknown:
				c.fail("base", label, o.pos, "the base is chosen without looking for the prefix")
				continue
			}
			empty := st.proves(mkLe(tv.n, tZero))
			whole := func(q *T) bool {
				lo, hi, ok := digits.part(st, q)
				return ok && st.proves(mkIntEq(lo, tZero)) && st.proves(mkIntEq(hi, digits.n))
			}
			if failed {
				h.nko++
				bad := false
				for q, t := range st.facts.atoms {
					if q.isApp("isbignum") && !t && q.a[0] == mkInt(base) && whole(q.a[1]) {
						bad = true
					}
				}
				st.facts.eachTerm(func(t *T) {
					if t.isApp("bitlen") && t.a[0].isApp("parseint") && t.a[0].a[0] == mkInt(base) && whole(t.a[0].a[1]) && st.proves(mkLe(mkInt(257), t)) {
						bad = true
					}
				})
				c.ok("refused", label, bad && !empty, o.pos, "a text that denotes a number of at most 256 bits is refused")
				continue
			}
			h.nok++
			if empty {
				c.ok("empty", label, v == tZero, o.pos, "an empty text is not taken as zero")
				continue
			}
			ok := v != nil && v.isApp("parseint") && v.a[0] == mkInt(base) && whole(v.a[1])
			c.ok("value", label, ok, o.pos, "the value is not the one the text denotes in base %d: %v", base, v)
			if ok {
				valid := st.facts.decide(mkApp("isbignum", types.Typ[types.Bool], v.a[0], v.a[1])) == yes
				c.ok("valid", label, valid, o.pos, "a text that is not a number is accepted")
				c.ok("range", label, st.proves(mkLe(mkApp("bitlen", types.Typ[types.Int], v), mkInt(256))), o.pos, "a number of more than 256 bits is accepted")
			}
		}
	}
}

// isAddress: IsHexAddress, and the constructor that relies on it.
func (h *hexRule) isAddress() {
	c := h.c
	for _, name := range []string{"IsHexAddress", "NewMixedcaseAddressFromString"} {
		fn := c.fn("common", name)
		if fn == nil {
			continue
		}
		label := fnLabel(fn)
		r := c.analyse(fn, nil)
		in := r.in
		p := r.param(0)
		for _, o := range r.outs {
			if o.kind != outReturn {
				continue
			}
			st := o.st
			tv := textView{p, tZero, seqLen(p)}
			good := false
			if name == "IsHexAddress" {
				d := st.facts.decide(o.val)
				if !c.ok("answer", label, d != unknown, o.pos, "the answer is not followed: %v", o.val) {
					continue
				}
				good = d == yes
			} else {
				good = st.facts.decideEq(o.val.a[1], tNil) == yes
			}
			digits := tv
			pre := tv.prefix(st)
			if pre == yes {
				digits = tv.drop(2)
			}
			// 40 characters cannot be both with and without prefix
			want := mkInt(40)
			if good {
				h.nok++
				c.ok("prefix", label, pre != unknown, o.pos, "accepted without looking for the prefix")
				c.ok("length", label, st.proves(mkIntEq(digits.n, want)), o.pos, "a text of another length than 40 digits is accepted as an address")
				c.ok("hex", label, digits.allHex(st, tZero), o.pos, "a character that is not a hexadecimal digit is accepted in an address")
			} else {
				h.nko++
				c.ok("refused", label, pre != unknown && (st.facts.decide(mkIntEq(digits.n, want)) == no || digits.badDigit(st, tZero)), o.pos, "a valid address is refused")
				continue
			}
			if name != "IsHexAddress" {
				t := deref(fn.Signature.Results().At(0).Type()).Underlying().(*types.Struct)
				q := in.content(st, mkField(o.val.a[0], t.Field(0), t.Field(0).Type()))
				c.ok("value", label, h.bytesAre(st, digits, q, mkInt(20)), o.pos, "the address is not the one the digits denote: %v", q)
				orig := in.loadField(st, o.val.a[0], t.Field(1))
				c.ok("original", label, orig == p, o.pos, "the original text is not kept")
			}
		}
	}
}
