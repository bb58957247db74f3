package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is a hash-consed value of the abstract domain: two values that are equal as
// pointers denote the same run-time value on a path.
type T struct {
	id   int
	op   string
	a    []*T
	s    string
	n    *big.Int   // "int": the value; "sum": the constant part
	c    []*big.Int // "sum": coefficients of a
	typ  types.Type // dynamic or element type where it matters
	v    any        // *ssa.Function, *ssa.Global, *types.Var
	key  string
	name string
	ref  bool // an allocation occurs in it
}

var (
	internTab = map[string]*T{}
	typeKeys  = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

func intern(t *T) *T {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	b.WriteByte('|')
	if t.op == "iface" || t.op == "struct" || t.op == "slice" || t.op == "sym" || t.op == "alloc" {
		b.WriteString(typeKey(t.typ))
	}
	if t.v != nil {
		fmt.Fprintf(&b, "|%p", t.v)
	}
	for i, x := range t.a {
		if t.c != nil {
			fmt.Fprintf(&b, ",%s*", t.c[i])
		}
		fmt.Fprintf(&b, ",%d", x.id)
	}
	k := b.String()
	if o := internTab[k]; o != nil {
		return o
	}
	t.key = k
	t.ref = t.op == "alloc"
	for _, x := range t.a {
		if x.ref {
			t.ref = true
			break
		}
	}
	t.id = len(internTab) + 1
	internTab[k] = t
	return t
}

var (
	tTrue  = intern(&T{op: "bool", s: "true"})
	tFalse = intern(&T{op: "bool", s: "false"})
	tNil   = intern(&T{op: "nil"})
	tUnit  = intern(&T{op: "unit"})
	tEmpty = intern(&T{op: "lit", s: ""})
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

func mkInt(i int64) *T    { return mkBig(big.NewInt(i)) }
func mkBig(n *big.Int) *T { return intern(&T{op: "int", n: n}) }
func mkLit(s string) *T   { return intern(&T{op: "lit", s: s}) }
func mkBool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}
func mkSym(name string, typ types.Type) *T { return intern(&T{op: "sym", s: name, typ: typ}) }
func mkApp(f string, typ types.Type, args ...*T) *T {
	return intern(&T{op: "app", s: f, a: args, typ: typ})
}
func mkTuple(a ...*T) *T { return intern(&T{op: "tuple", a: a}) }
func mkStruct(typ types.Type, fields []*T) *T {
	return intern(&T{op: "struct", typ: typ, a: fields})
}
func mkIface(typ types.Type, v *T) *T { return intern(&T{op: "iface", typ: typ, a: []*T{v}}) }
func mkFn(f *ssa.Function, binds []*T) *T {
	return intern(&T{op: "fn", v: f, a: binds, s: f.Name()})
}
func mkField(base *T, f *types.Var, typ types.Type) *T {
	return intern(&T{op: "field", v: f, s: f.Name(), a: []*T{base}, typ: typ})
}
func mkElem(region, idx *T, typ types.Type) *T {
	t := intern(&T{op: "elem", a: []*T{region, idx}, typ: typ})
	if t.typ == nil {
		t.typ = typ
	}
	return t
}
func mkGlobal(g *ssa.Global) *T { return intern(&T{op: "global", v: g, s: g.String()}) }
func mkSlice(region, lo, ln, cp *T) *T {
	return intern(&T{op: "slice", a: []*T{region, lo, ln, cp}})
}

var tNilSlice = mkSlice(tNil, tZero, tZero, tZero)

func (t *T) isInt() bool  { return t.op == "int" }
func (t *T) isBool() bool { return t.op == "bool" }
func (t *T) int64() (int64, bool) {
	if t.op == "int" && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}
func (t *T) isApp(f string) bool { return t.op == "app" && t.s == f }

// ---- linear sums (and polynomials: an atom may be a product) ----

type lin struct {
	k *big.Int
	m map[*T]*big.Int
}

func newLin() *lin { return &lin{k: new(big.Int), m: map[*T]*big.Int{}} }

func toLin(t *T) *lin {
	l := newLin()
	switch t.op {
	case "int":
		l.k.Set(t.n)
	case "sum":
		l.k.Set(t.n)
		for i, x := range t.a {
			l.m[x] = new(big.Int).Set(t.c[i])
		}
	default:
		l.m[t] = big.NewInt(1)
	}
	return l
}

func (l *lin) clone() *lin {
	r := newLin()
	r.k.Set(l.k)
	for x, c := range l.m {
		r.m[x] = new(big.Int).Set(c)
	}
	return r
}

func (l *lin) addMul(o *lin, f *big.Int) *lin {
	l.k.Add(l.k, new(big.Int).Mul(o.k, f))
	for x, c := range o.m {
		d := l.m[x]
		if d == nil {
			d = new(big.Int)
			l.m[x] = d
		}
		d.Add(d, new(big.Int).Mul(c, f))
		if d.Sign() == 0 {
			delete(l.m, x)
		}
	}
	return l
}

func (l *lin) atoms() []*T {
	as := make([]*T, 0, len(l.m))
	for x := range l.m {
		as = append(as, x)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

func (l *lin) term() *T {
	if len(l.m) == 0 {
		return mkBig(l.k)
	}
	as := l.atoms()
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].Cmp(big.NewInt(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, x := range as {
		cs[i] = l.m[x]
	}
	return intern(&T{op: "sum", n: l.k, a: as, c: cs})
}

func (l *lin) key() string {
	var b strings.Builder
	b.WriteString(l.k.String())
	for _, x := range l.atoms() {
		b.WriteByte(',')
		if c := l.m[x]; c.IsInt64() {
			b.WriteString(strconv.FormatInt(c.Int64(), 36))
		} else {
			b.WriteString(c.Text(36))
		}
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(x.id))
	}
	return b.String()
}

var bigOne = big.NewInt(1)
var bigMinusOne = big.NewInt(-1)

func tAdd(a, b *T) *T {
	if a == tZero {
		return b
	}
	if b == tZero {
		return a
	}
	return toLin(a).addMul(toLin(b), bigOne).term()
}
func tSub(a, b *T) *T {
	if b == tZero {
		return a
	}
	if a == b {
		return tZero
	}
	return toLin(a).addMul(toLin(b), bigMinusOne).term()
}
func tNeg(a *T) *T           { return tSub(tZero, a) }
func tAddI(a *T, i int64) *T { return tAdd(a, mkInt(i)) }

// tMul multiplies as polynomials.
func tMul(a, b *T) *T {
	la, lb := toLin(a), toLin(b)
	r := newLin()
	type mono struct {
		fs []*T
		c  *big.Int
	}
	monos := func(l *lin) []mono {
		var ms []mono
		if l.k.Sign() != 0 {
			ms = append(ms, mono{nil, l.k})
		}
		for _, x := range l.atoms() {
			if x.isApp("mul") {
				ms = append(ms, mono{x.a, l.m[x]})
			} else {
				ms = append(ms, mono{[]*T{x}, l.m[x]})
			}
		}
		return ms
	}
	for _, x := range monos(la) {
		for _, y := range monos(lb) {
			c := new(big.Int).Mul(x.c, y.c)
			fs := append(append([]*T{}, x.fs...), y.fs...)
			one := newLin()
			switch len(fs) {
			case 0:
				one.k.SetInt64(1)
			case 1:
				one.m[fs[0]] = big.NewInt(1)
			default:
				sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
				one.m[mkApp("mul", nil, fs...)] = big.NewInt(1)
			}
			r.addMul(one, c)
		}
	}
	return r.term()
}

// ---- booleans ----

// mkLe is a <= b.
func mkLe(a, b *T) *T {
	d := tSub(a, b)
	if d.isInt() {
		return mkBool(d.n.Sign() <= 0)
	}
	return intern(&T{op: "le0", a: []*T{d}})
}
func mkLt(a, b *T) *T { return mkLe(tAddI(a, 1), b) }

func mkEq0(d *T) *T {
	if d.isInt() {
		return mkBool(d.n.Sign() == 0)
	}
	if d.op == "sum" && d.c[0].Sign() < 0 {
		d = tNeg(d)
	}
	return intern(&T{op: "eq0", a: []*T{d}})
}
func mkIntEq(a, b *T) *T { return mkEq0(tSub(a, b)) }

func mkNot(b *T) *T {
	switch b.op {
	case "bool":
		return mkBool(b == tFalse)
	case "not":
		return b.a[0]
	case "le0":
		return mkLe(tOne, b.a[0])
	}
	return intern(&T{op: "not", a: []*T{b}})
}

// ---- sequences (strings and slice contents) ----

func isSeq(t *T) bool {
	switch t.op {
	case "lit", "cat", "sub", "upd", "zero", "seq":
		return true
	}
	return false
}

func mkZero(n *T, elem *T) *T {
	if n == tZero {
		return tEmpty
	}
	return intern(&T{op: "zero", a: []*T{n, elem}})
}

// mkSeq is a sequence of explicit elements.
func mkSeq(es []*T) *T {
	if len(es) == 0 {
		return tEmpty
	}
	bs := make([]byte, len(es))
	for i, e := range es {
		v, ok := e.int64()
		if !ok || v < 0 || v > 255 {
			return intern(&T{op: "seq", a: es})
		}
		bs[i] = byte(v)
	}
	return mkLit(string(bs))
}

func seqLen(t *T) *T {
	switch t.op {
	case "lit":
		return mkInt(int64(len(t.s)))
	case "seq":
		return mkInt(int64(len(t.a)))
	case "zero":
		return t.a[0]
	case "cat":
		r := tZero
		for _, x := range t.a {
			r = tAdd(r, seqLen(x))
		}
		return r
	case "sub":
		return tSub(t.a[2], t.a[1])
	case "upd":
		return seqLen(t.a[0])
	}
	if t.op == "app" {
		if strings.HasPrefix(t.s, "hav:") {
			return t.a[0]
		}
		if t.s == "init" && t.a[0].isApp("rgn") {
			return mkApp("cap", types.Typ[types.Int], t.a[0].a[0])
		}
		if t.s == "hexenc" {
			return tMul(mkInt(2), seqLen(t.a[0]))
		}
		if t.s == "arr" { // array value of known length
			return t.a[0]
		}
		if t.s == "upper" || t.s == "lower" {
			return seqLen(t.a[0])
		}
	}
	if t.typ != nil {
		if at, ok := t.typ.Underlying().(*types.Array); ok {
			return mkInt(at.Len())
		}
	}
	return mkApp("len", types.Typ[types.Int], t)
}

func mkCat(parts ...*T) *T {
	var fl []*T
	var add func(p *T)
	add = func(p *T) {
		if p == tEmpty {
			return
		}
		if p.op == "cat" {
			for _, q := range p.a {
				add(q)
			}
			return
		}
		if p.op == "sub" && p.a[1] == p.a[2] {
			return
		}
		if len(fl) > 0 {
			l := fl[len(fl)-1]
			switch {
			case l.op == "lit" && p.op == "lit":
				fl[len(fl)-1] = mkLit(l.s + p.s)
				return
			case (l.op == "seq" || l.op == "lit") && (p.op == "seq" || p.op == "lit"):
				fl[len(fl)-1] = mkSeq(append(append([]*T{}, seqElems(l)...), seqElems(p)...))
				return
			case l.op == "zero" && p.op == "zero" && l.a[1] == p.a[1]:
				fl[len(fl)-1] = mkZero(tAdd(l.a[0], p.a[0]), l.a[1])
				return
			case l.op == "sub" && p.op == "sub" && l.a[0] == p.a[0] && l.a[2] == p.a[1]:
				fl = fl[:len(fl)-1]
				add(mkSubRaw(l.a[0], l.a[1], p.a[2]))
				return
			}
		}
		fl = append(fl, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(fl) {
	case 0:
		return tEmpty
	case 1:
		return fl[0]
	}
	return intern(&T{op: "cat", a: fl})
}

func seqElems(t *T) []*T {
	if t.op == "seq" {
		return t.a
	}
	es := make([]*T, len(t.s))
	for i := range es {
		es[i] = mkInt(int64(t.s[i]))
	}
	return es
}

func mkSubRaw(s, lo, hi *T) *T {
	if lo == hi {
		return tEmpty
	}
	if lo == tZero && hi == seqLen(s) {
		return s
	}
	if s.op == "sub" {
		return mkSubRaw(s.a[0], tAdd(s.a[1], lo), tAdd(s.a[1], hi))
	}
	l, ok1 := lo.int64()
	h, ok2 := hi.int64()
	if ok1 && ok2 && l >= 0 && l <= h {
		if s.op == "lit" && h <= int64(len(s.s)) {
			return mkLit(s.s[l:h])
		}
		if s.op == "seq" && h <= int64(len(s.a)) {
			return mkSeq(s.a[l:h])
		}
	}
	if s.op == "zero" {
		return mkZero(tSub(hi, lo), s.a[1])
	}
	return intern(&T{op: "sub", a: []*T{s, lo, hi}})
}

// ---- printing ----

func (t *T) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.name != "" {
		return t.name
	}
	t.name = t.str(0)
	return t.name
}

func (t *T) str(d int) string {
	if d > 14 {
		return "…"
	}
	args := func(ts []*T) string {
		var ss []string
		for _, x := range ts {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.op {
	case "int":
		return t.n.String()
	case "lit":
		return fmt.Sprintf("%q", t.s)
	case "bool", "nil", "sym":
		if t.op == "nil" {
			return "nil"
		}
		return t.s
	case "sum":
		var ss []string
		for i, x := range t.a {
			if t.c[i].Cmp(bigOne) == 0 {
				ss = append(ss, x.str(d+1))
			} else {
				ss = append(ss, t.c[i].String()+"*"+x.str(d+1))
			}
		}
		if t.n.Sign() != 0 {
			ss = append(ss, t.n.String())
		}
		return "(" + strings.Join(ss, " + ") + ")"
	case "app":
		return t.s + "(" + args(t.a) + ")"
	case "field":
		return t.a[0].str(d+1) + "." + t.s
	case "elem":
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + "]"
	case "global":
		return t.s
	case "le0":
		return "(" + t.a[0].str(d+1) + " <= 0)"
	case "eq0":
		return "(" + t.a[0].str(d+1) + " == 0)"
	case "iface":
		return "iface[" + types.TypeString(t.typ, shortQ) + "](" + args(t.a) + ")"
	case "alloc":
		return "&" + t.s
	case "sub":
		return t.a[0].str(d+1) + "[" + t.a[1].str(d+1) + ":" + t.a[2].str(d+1) + "]"
	}
	return t.op + ":" + t.s + "(" + args(t.a) + ")"
}

func shortQ(p *types.Package) string { return p.Name() }

// occurs reports whether x occurs in t.
func occurs(t, x *T) bool {
	if t == x {
		return true
	}
	for _, y := range t.a {
		if occurs(y, x) {
			return true
		}
	}
	return false
}

func anyTerm(t *T, f func(*T) bool) bool {
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, y := range t.a {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func constTerm(c *ssa.Const) *T {
	if c.Value == nil {
		return nil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return mkApp("float:"+c.Value.ExactString(), c.Type())
		}
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return mkBig(n)
	default:
		return mkApp("float:"+c.Value.ExactString(), c.Type())
	}
}
