package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["C01"] = ruleCurveConstants
	properties["C02"] = ruleGroupLaw
}

// SEC 2 version 1.0 (secp160k1, secp224k1) and 2.0 (secp192k1, secp256k1).
var secCurves = []struct {
	getter          string
	p, n, b, gx, gy string
	bits            int64
}{
	{"S160", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFAC73", "0100000000000000000001B8FA16DFAB9ACA16B6B3", "7", "3B4C382CE37AA192A4019E763036F4F5DD4D7EBB", "938CF935318FDCED6BC28286531733C3F03C4FEE", 160},
	{"S192", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFEE37", "FFFFFFFFFFFFFFFFFFFFFFFE26F2FC170F69466A74DEFD8D", "3", "DB4FF10EC057E9AE26B07D0280B7F4341DA5D1B1EAE06C7D", "9B2F2F6D9C5628A7844163D015BE86344082AA88D95E2F9D", 192},
	{"S224", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFE56D", "010000000000000000000000000001DCE8D2EC6184CAF0A971769FB1F7", "5", "A1455B334DF099DF30FC28A169A467E9E47075A90F7E650EB6B7A45C", "7E089FED7FBA344282CAFBD6F7E319F7C0B0BD59E2CA4BDB556D61A5", 224},
	{"S256", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", "7", "79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", "483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 256},
}

func hexBig(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

// C01: whichever getter is called first, and however often, each returns its
// own curve with the standard's parameters.
func ruleCurveConstants(c *Check) {
	fields := c.fields("crypto", "BitCurve.P", "BitCurve.N", "BitCurve.B", "BitCurve.Gx", "BitCurve.Gy", "BitCurve.BitSize")
	if fields == nil {
		return
	}
	fns := map[string]*ssa.Function{}
	for _, k := range secCurves {
		if fns[k.getter] = c.fn("crypto", k.getter); fns[k.getter] == nil {
			return
		}
	}
	n := 0
	for _, first := range secCurves {
		r := c.analyse(fns[first.getter], nil)
		starts := 0
		for _, o := range r.outs {
			label := fnLabel(fns[first.getter])
			if !c.ok("returns", label, o.kind == outReturn, o.pos, "does not return") {
				continue
			}
			if rootOf(o.val).op != "alloc" {
				continue // not the call that initialises: decided below from the state the first call leaves
			}
			if !firstEver(o) {
				continue
			}
			starts++
			for _, k := range secCurves {
				val, st := o.val, o.st
				if k.getter != first.getter {
					var again []Outcome
					for _, o2 := range r.call(o.st.clone(), fns[k.getter], nil, nil) {
						if firstEver(o2) {
							again = append(again, o2)
						}
					}
					if !c.ok("shared", fnLabel(fns[k.getter])+" after "+first.getter, len(again) == 1 && again[0].kind == outReturn, o.pos, "after a first call of %s, %s does not simply return its curve", first.getter, k.getter) {
						continue
					}
					val, st = again[0].val, again[0].st
				} else {
					for _, o2 := range r.call(o.st.clone(), fns[k.getter], nil, nil) {
						c.ok("same", label, o2.kind == outReturn && o2.val == val, o2.pos, "a second call returns another curve")
					}
				}
				n++
				curveIs(c, r.in, st, val, fields, k.getter, first.getter, o.pos)
			}
		}
		c.ok("initialises", fnLabel(fns[first.getter]), starts >= 1, fns[first.getter].Pos(), "no path on which the first call sets the curves up")
	}
	curveParams(c, fields)
	c.count("curves", n)
	c.floor("constants", "curves", n, 16)
}

// curveParams: the parameters are handed out under the names they have.
func curveParams(c *Check, fields []*types.Var) {
	f := c.fn("crypto", "BitCurve.Params")
	if f == nil {
		return
	}
	r := c.analyse(f, nil)
	for _, o := range r.outs {
		if o.kind == outFault {
			continue
		}
		if !c.ok("params", fnLabel(f), o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		for _, x := range fields {
			got := r.in.loadField(o.st, o.val, resultField(f, x.Name()))
			want := r.in.loadField(o.st, r.param(0), x)
			same := got != nil && (got == want || isPtrT(x.Type()) && r.in.bigVal(o.st, got) == r.in.bigVal(o.st, want))
			c.ok("params", fnLabel(f)+"."+x.Name(), same, o.pos, "Params().%s is not the curve's %s: %v", x.Name(), x.Name(), got)
		}
	}
}

// resultField: a field of the struct the first result points to.
func resultField(f *ssa.Function, name string) *types.Var {
	st, _ := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// firstEver: nothing was initialised before the path began.
func firstEver(o Outcome) bool {
	first := map[*T]bool{}
	for _, e := range events(o.st) {
		if e.kind != "once" {
			continue
		}
		if e.name == "done" && !first[e.args[0]] {
			return false
		}
		first[e.args[0]] = true
	}
	return true
}

func curveIs(c *Check, in *Interp, st *State, val *T, fields []*types.Var, name, first string, pos token.Pos) {
	for _, k := range secCurves {
		if k.getter != name {
			continue
		}
		want := []*big.Int{hexBig(k.p), hexBig(k.n), hexBig(k.b), hexBig(k.gx), hexBig(k.gy)}
		for i, w := range want {
			var got *T
			if p := in.loadField(st, val, fields[i]); p != nil {
				got = in.bigVal(st, p)
			}
			c.ok("constants", name+"."+fields[i].Name(), got != nil && got.isInt() && got.n.Cmp(w) == 0, pos, "after a first call of %s, %s().%s is %v, the standard has %v", first, name, fields[i].Name(), got, w)
		}
		got := in.loadField(st, val, fields[5])
		c.ok("constants", name+".BitSize", got == mkInt(k.bits), pos, "%s().BitSize is %v, the standard has %d", name, got, k.bits)
	}
}

// C02: the arithmetic on points is the group law.
type curveRule struct {
	c                   *Check
	field               []*types.Var // P, B, Gx, Gy
	double, add, affine *ssa.Function
	n                   int
}

func ruleGroupLaw(c *Check) {
	k := &curveRule{c: c, field: c.fields("crypto", "BitCurve.P", "BitCurve.B", "BitCurve.Gx", "BitCurve.Gy")}
	if k.field == nil {
		return
	}
	// the operations on Jacobian coordinates, known by their shape
	for _, f := range c.p.Funcs {
		if f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "crypto" || f.Synthetic != "" {
			continue
		}
		if pt, ok := f.Signature.Recv().Type().(*types.Pointer); !ok || types.TypeString(pt.Elem(), func(*types.Package) string { return "" }) != "BitCurve" {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		if !allBig(ps) || !allBig(rs) || token.IsExported(f.Name()) {
			continue
		}
		switch {
		case ps.Len() == 3 && rs.Len() == 3:
			k.double = f
		case ps.Len() == 6 && rs.Len() == 3:
			k.add = f
		case ps.Len() == 3 && rs.Len() == 2:
			k.affine = f
		}
	}
	if !c.ok("anchor", "crypto.BitCurve", k.double != nil && k.add != nil && k.affine != nil, 0, "doubling, addition and conversion in Jacobian coordinates cannot be found") {
		return
	}
	k.doubling()
	k.addition()
	k.conversion()
	k.public("Double", 1)
	k.public("Add", 2)
	k.onCurve()
	k.scalarMult()
	k.baseMult()
	c.count("paths", k.n)
	c.floor("law", "paths", k.n, 100)
}

func allBig(t *types.Tuple) bool {
	for i := 0; i < t.Len(); i++ {
		if pt, ok := t.At(i).Type().(*types.Pointer); !ok || !isBigInt(pt.Elem()) {
			return false
		}
	}
	return t.Len() > 0
}

// point is a path's view of a root: parameters and results as values.
type pathView struct {
	k     *curveRule
	r     *Run
	o     Outcome
	g     *ring
	in    []poly
	out   []*T
	facts *Facts
	zero  []poly
	non   []poly
}

func (k *curveRule) view(r *Run, o Outcome) *pathView {
	prime := r.in.bigVal(o.st, r.in.loadField(o.st, r.param(0), k.field[0]))
	v := &pathView{k: k, r: r, o: o, g: newRing(prime), facts: o.st.facts}
	init := newState()
	for i := 1; i < len(r.fn.Params); i++ {
		if pt, ok := r.fn.Params[i].Type().(*types.Pointer); ok && isBigInt(pt.Elem()) {
			v.in = append(v.in, v.g.of(r.in.bigVal(init, r.param(i))))
		}
	}
	res := []*T{o.val}
	if o.val != nil && o.val.op == "tuple" {
		res = o.val.a
	}
	for _, x := range res {
		if x != nil && x != tNil && x.op != "int" {
			v.out = append(v.out, r.in.bigVal(o.st, x))
		}
	}
	for _, d := range o.st.facts.le {
		if o.st.proves(mkLe(tNeg(d), tZero)) {
			v.zero = append(v.zero, v.g.of(d))
		} else if e := tAddI(d, -1); v.compares(e) {
			v.non = append(v.non, v.g.of(e))
		}
	}
	for _, d := range o.st.facts.ne {
		if v.compares(d) {
			v.non = append(v.non, v.g.of(d))
		}
	}
	return v
}

// compares: the difference of two reduced values (or one of them), so that
// being different as integers is being different in the field.
func (v *pathView) compares(d *T) bool {
	l := toLin(d)
	if l.k.Sign() != 0 || len(l.m) == 0 || len(l.m) > 2 {
		return false
	}
	sum := new(big.Int)
	for a, c := range l.m {
		if c.CmpAbs(big.NewInt(1)) != 0 || v.g.isPrime(a) || !v.reduced(a) {
			return false
		}
		sum.Add(sum, c)
	}
	return len(l.m) == 1 || sum.Sign() == 0
}

// reduced: between 0 and the prime; so are the coordinates given.
func (v *pathView) reduced(t *T) bool {
	return t == tZero || t == tOne || t.isApp("bmod") && v.g.isPrime(t.a[1]) || t.isApp("bigof") || t.op == "app" && (t.s == "jd" || t.s == "ja" || t.s == "aff") || t.isApp("binv")
}

func (v *pathView) isZero(p poly) bool {
	if len(p) == 0 {
		return true
	}
	for _, z := range v.zero {
		if len(z) > 0 && z.multipleOf(p) {
			return true
		}
	}
	return false
}

func (v *pathView) isNonzero(p poly) bool {
	for _, z := range v.non {
		if z.multipleOf(p) {
			return true
		}
	}
	return false
}

func (v *pathView) outs() []poly {
	var ps []poly
	for _, t := range v.out {
		ps = append(ps, v.g.of(t))
	}
	return ps
}

func (v *pathView) allReduced() bool {
	for _, t := range v.out {
		if !v.reduced(t) {
			return false
		}
	}
	return true
}

// samePoint: two triples of Jacobian coordinates denote the same point.
func samePoint(a, b []poly) bool {
	if a[0].equal(b[0]) && a[1].equal(b[1]) && a[2].equal(b[2]) {
		return true
	}
	if len(a[2]) == 0 || len(b[2]) == 0 {
		return len(a[2]) == 0 && len(b[2]) == 0
	}
	za, zb := a[2].pow(2), b[2].pow(2)
	return a[0].times(zb).equal(b[0].times(za)) && a[1].times(zb.times(b[2])).equal(b[1].times(za.times(a[2])))
}

func doubled(p []poly) []poly {
	x, y, z := p[0], p[1], p[2]
	xx, yy := x.times(x), y.times(y)
	s := x.times(yy).scale(4)
	m := xx.scale(3)
	x3 := m.times(m).plus(s, -2)
	y3 := m.times(s.plus(x3, -1)).plus(yy.times(yy), -8)
	return []poly{x3, y3, y.times(z).scale(2)}
}

func added(p, q []poly) []poly {
	h, r := differences(p, q)
	u1, s1 := p[0].times(q[2].pow(2)), p[1].times(q[2].pow(3))
	h2 := h.times(h)
	h3 := h2.times(h)
	v := u1.times(h2)
	x3 := r.times(r).plus(h3, -1).plus(v, -2)
	y3 := r.times(v.plus(x3, -1)).plus(s1.times(h3), -1)
	return []poly{x3, y3, h.times(p[2]).times(q[2])}
}

// differences of the affine coordinates, without their denominators.
func differences(p, q []poly) (h, r poly) {
	h = q[0].times(p[2].pow(2)).plus(p[0].times(q[2].pow(2)), -1)
	r = q[1].times(p[2].pow(3)).plus(p[1].times(q[2].pow(3)), -1)
	return
}

func (k *curveRule) paths(f *ssa.Function, opts ...runOpt) []*pathView {
	r := k.c.analyse(f, nil, opts...)
	var vs []*pathView
	for _, o := range r.outs {
		if o.kind == outFault {
			continue
		}
		if !k.c.ok("returns", fnLabel(f), o.kind == outReturn, o.pos, "does not return") {
			continue
		}
		vs = append(vs, k.view(r, o))
		k.n++
	}
	return vs
}

func (k *curveRule) doubling() {
	label := fnLabel(k.double)
	for _, v := range k.paths(k.double) {
		out := v.outs()
		if len(out) != 3 {
			k.c.fail("double", label, v.o.pos, "no three coordinates are returned")
			continue
		}
		inf := v.isZero(v.in[2]) || v.isZero(v.in[1])
		ok := samePoint(out, doubled(v.in)) || inf && len(out[2]) == 0
		k.c.ok("double", label, ok, v.o.pos, "the coordinates returned are not those of twice the point: z is %v", v.out[2])
		k.c.ok("reduced", label, v.allReduced(), v.o.pos, "a coordinate is returned without being reduced modulo the prime, so that comparing it with zero is wrong")
	}
}

func (k *curveRule) addition() {
	label := fnLabel(k.add)
	hook := withHook(k.hook)
	for _, v := range k.paths(k.add, hook) {
		out := v.outs()
		if len(out) != 3 {
			k.c.fail("add", label, v.o.pos, "no three coordinates are returned")
			continue
		}
		p, q := v.in[:3], v.in[3:]
		h, r := differences(p, q)
		why := ""
		switch {
		case v.isZero(p[2]) && v.isZero(q[2]):
			if !samePoint(out, p) && !samePoint(out, q) && len(out[2]) != 0 {
				why = "the sum of two points at infinity is not infinity"
			}
		case v.isZero(p[2]):
			if !samePoint(out, q) {
				why = "infinity plus a point is not that point"
			}
		case v.isZero(q[2]):
			if !samePoint(out, p) {
				why = "a point plus infinity is not that point"
			}
		case v.doubles(p) || v.doubles(q):
			if !v.isZero(h) || !v.isZero(r) {
				why = "doubles a point without knowing that both points are equal"
			}
		case v.isZero(h) && len(out[2]) == 0:
			if !v.isNonzero(r) {
				why = "returns infinity without knowing that the points are opposite"
			}
		default:
			switch {
			case !v.isNonzero(p[2]) || !v.isNonzero(q[2]):
				why = "uses the addition formula without knowing that neither point is at infinity"
			case !v.isNonzero(h) && !v.isNonzero(r):
				why = "uses the addition formula although the points may be equal, where it gives 0/0"
			case !samePoint(out, added(p, q)):
				why = "the coordinates returned are not those of the sum"
			}
		}
		k.c.ok("add", label, why == "", v.o.pos, "%s", why)
		k.c.ok("reduced", label, v.allReduced(), v.o.pos, "a coordinate is returned without being reduced modulo the prime")
	}
}

// doubles: the result is the doubling of p.
func (v *pathView) doubles(p []poly) bool {
	for i, s := range []string{"x", "y", "z"} {
		t := v.out[i]
		if !t.isApp("jd") || t.a[0].s != s {
			return false
		}
		for j, a := range t.a[1:] {
			if !v.g.of(a).equal(p[j]) {
				return false
			}
		}
	}
	return true
}

// hook takes the three operations, which are decided on their own, as given.
func (k *curveRule) hook(cc *callCtx) []Outcome {
	var op string
	f := cc.common.StaticCallee()
	switch {
	case f == nil:
		return nil
	case f == k.double:
		op = "jd"
	case f == k.add:
		op = "ja"
	case f == k.affine:
		op = "aff"
	default:
		return nil
	}
	var args []*T
	for _, a := range cc.args[1:] {
		args = append(args, cc.in.bigVal(cc.st, a))
	}
	var res []*T
	for i := 0; i < f.Signature.Results().Len(); i++ {
		p := cc.in.freshAlloc("bigint", f.Signature.Results().At(i).Type().(*types.Pointer).Elem())
		cc.st.set(mkApp("bv", nil, p), mkApp(op, nil, append([]*T{mkLit("xyz"[i : i+1])}, args...)...))
		res = append(res, p)
	}
	return cc.ret(mkTuple(res...))
}

func (k *curveRule) conversion() {
	label := fnLabel(k.affine)
	for _, v := range k.paths(k.affine) {
		out := v.outs()
		if len(out) != 2 {
			k.c.fail("affine", label, v.o.pos, "no two coordinates are returned")
			continue
		}
		x, y, z := v.in[0], v.in[1], v.in[2]
		if v.isZero(z) {
			k.c.ok("affine", label, len(out[0]) == 0 && len(out[1]) == 0, v.o.pos, "the point at infinity is not shown as (0, 0)")
			continue
		}
		ok := v.isNonzero(z) && out[0].times(z.pow(2)).equal(x) && out[1].times(z.pow(3)).equal(y)
		k.c.ok("affine", label, ok, v.o.pos, "the coordinates returned are not x/z² and y/z³ of a point that is not at infinity")
		k.c.ok("reduced", label, v.allReduced(), v.o.pos, "a coordinate is returned without being reduced modulo the prime")
	}
}

// public: Add and Double convert, apply the operation, and convert back; (0, 0) is infinity.
func (k *curveRule) public(name string, npts int) {
	f := k.c.fn("crypto", "BitCurve."+name)
	if f == nil {
		return
	}
	label := fnLabel(f)
	for _, v := range k.paths(f, withHook(k.hook)) {
		if len(v.out) != 2 {
			k.c.fail("public", label, v.o.pos, "no two coordinates are returned")
			continue
		}
		why := ""
		var inf, fin []bool
		for i := 0; i < npts; i++ {
			x, y := v.in[2*i], v.in[2*i+1]
			inf = append(inf, v.isZero(x) && v.isZero(y))
			fin = append(fin, v.isNonzero(x) || v.isNonzero(y))
		}
		ops := v.affineOf()
		if ops == nil { // shortcuts
			switch {
			case npts == 1 && inf[0]:
				if o := v.outs(); len(o[0]) != 0 || len(o[1]) != 0 {
					why = "twice infinity is not infinity"
				}
			case npts == 2 && inf[0] && v.isPoint(2):
			case npts == 2 && inf[1] && v.isPoint(0):
			default:
				why = "the result is not a converted sum"
			}
		} else {
			for i := 0; i < npts; i++ {
				j := i
				if npts == 2 && v.g.of(ops[0]).equal(v.in[2]) && !v.g.of(ops[0]).equal(v.in[0]) {
					j = 1 - i // given in the other order
				}
				x, y, z := v.g.of(ops[3*i]), v.g.of(ops[3*i+1]), v.g.of(ops[3*i+2])
				switch {
				case !inf[j] && (!x.equal(v.in[2*j]) || !y.equal(v.in[2*j+1])):
					why = "the operation is not applied to the points given"
				case inf[j] && len(z) != 0:
					why = "(0, 0) is not treated as the point at infinity"
				case !inf[j] && !(fin[j] && z.equal(polyInt(big.NewInt(1)))):
					why = "a point given in affine coordinates does not get z = 1"
				}
			}
		}
		k.c.ok("public", label, why == "", v.o.pos, "%s: %v", why, v.out)
	}
}

func (v *pathView) isPoint(i int) bool {
	o := v.outs()
	return o[0].equal(v.in[i]) && o[1].equal(v.in[i+1])
}

// affineOf: the results are the affine coordinates of one operation; its operands.
func (v *pathView) affineOf() []*T {
	x, y := v.out[0], v.out[1]
	if !x.isApp("aff") || !y.isApp("aff") || x.a[0].s != "x" || y.a[0].s != "y" {
		return nil
	}
	for i := 1; i < 4; i++ {
		if x.a[i] != y.a[i] {
			return nil
		}
	}
	return jacobianOf(x.a[1:])
}

// jacobianOf: three coordinates of the result of one operation; its operands.
func jacobianOf(t []*T) []*T {
	for i, s := range []string{"x", "y", "z"} {
		if !t[i].isApp("jd") && !t[i].isApp("ja") || t[i].s != t[0].s || t[i].a[0].s != s || len(t[i].a) != len(t[0].a) {
			return nil
		}
		for j := 1; j < len(t[0].a); j++ {
			if t[i].a[j] != t[0].a[j] {
				return nil
			}
		}
	}
	return t[0].a[1:]
}

func (k *curveRule) onCurve() {
	f := k.c.fn("crypto", "BitCurve.IsOnCurve")
	if f == nil {
		return
	}
	label := fnLabel(f)
	for _, v := range k.paths(f) {
		b := v.g.of(v.r.in.bigVal(v.o.st, v.r.in.loadField(v.o.st, v.r.param(0), k.field[1])))
		x, y := v.in[0], v.in[1]
		e := y.times(y).plus(x.pow(3), -1).plus(b, -1)
		switch v.o.val {
		case tTrue:
			k.c.ok("equation", label, v.isZero(e), v.o.pos, "says yes without y² = x³ + B being established")
		case tFalse:
			k.c.ok("equation", label, v.isNonzero(e), v.o.pos, "says no without y² ≠ x³ + B being established")
		default:
			k.c.fail("equation", label, v.o.pos, "the answer is %v", v.o.val)
		}
	}
}

func (k *curveRule) baseMult() {
	f := k.c.fn("crypto", "BitCurve.ScalarBaseMult")
	mult := k.c.fn("crypto", "BitCurve.ScalarMult")
	if f == nil || mult == nil {
		return
	}
	label := fnLabel(f)
	var calls []*callCtx
	r := k.c.analyse(f, nil, withHook(func(cc *callCtx) []Outcome {
		if cc.common.StaticCallee() != mult {
			return nil
		}
		calls = append(calls, cc)
		return cc.ret(mkTuple(mkSym("mult.x", f.Signature.Results().At(0).Type()), mkSym("mult.y", f.Signature.Results().At(1).Type())))
	}))
	for _, o := range r.outs {
		if o.kind == outFault {
			continue
		}
		k.n++
		ok := o.kind == outReturn && o.val.op == "tuple" && o.val.a[0].s == "mult.x" && o.val.a[1].s == "mult.y"
		k.c.ok("base", label, ok, o.pos, "does not return a multiple computed by ScalarMult")
	}
	for _, cc := range calls {
		val := func(p *T) *T { return r.in.bigVal(cc.st, p) }
		g := func(i int) *T { return val(r.in.loadField(cc.st, r.param(0), k.field[i])) }
		ok := cc.args[0] == r.param(0) && val(cc.args[1]) == g(2) && val(cc.args[2]) == g(3) && r.in.sliceSeq(cc.st, cc.args[3]) == input(r, 1)
		k.c.ok("base", label, ok, cc.pos, "multiplies something else than the base point by the given number")
	}
	k.c.ok("base", label, len(calls) > 0, f.Pos(), "never multiplies")
}
