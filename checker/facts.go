package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts is what is known on a path: linear inequalities (each `lin <= 0`),
// disequalities (`lin != 0`), truth values of other atoms and equalities
// between terms.
type Facts struct {
	le    []*T      // d with d <= 0
	ne    []*T      // d with d != 0
	eqt   map[*T]*T // representative of a term known equal to another
	atoms map[*T]bool
	dead  bool
	gen   *int
}

func newFacts() *Facts { return &Facts{eqt: map[*T]*T{}, atoms: map[*T]bool{}} }

func (f *Facts) clone() *Facts {
	g := &Facts{le: f.le[:len(f.le):len(f.le)], ne: f.ne[:len(f.ne):len(f.ne)], dead: f.dead,
		eqt: make(map[*T]*T, len(f.eqt)), atoms: make(map[*T]bool, len(f.atoms))}
	for k, v := range f.eqt {
		g.eqt[k] = v
	}
	for k, v := range f.atoms {
		g.atoms[k] = v
	}
	return g
}

func (f *Facts) rep(t *T) *T {
	for {
		r := f.eqt[t]
		if r == nil {
			return t
		}
		t = r
	}
}

type truth int

const (
	unknown truth = iota
	yes
	no
)

func (t truth) not() truth {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func truthOf(b bool) truth {
	if b {
		return yes
	}
	return no
}

// natural reports whether an atom is >= 0 by its nature.
func natural(x *T) bool {
	if x.op == "app" {
		switch x.s {
		case "len", "cap", "bitlen", "abs", "nat":
			return true
		case "div":
			return naturalLin(x.a[0])
		case "mul":
			for _, y := range x.a {
				if !natural(y) {
					return false
				}
			}
			return true
		}
	}
	if b := intType(x); b != nil && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	return false
}

func naturalLin(t *T) bool {
	l := toLin(t)
	if l.k.Sign() < 0 {
		return false
	}
	for x, c := range l.m {
		if c.Sign() < 0 || !natural(x) {
			return false
		}
	}
	return true
}

func intType(x *T) *types.Basic {
	if x.typ == nil {
		return nil
	}
	b, _ := x.typ.Underlying().(*types.Basic)
	if b == nil || b.Info()&types.IsInteger == 0 {
		return nil
	}
	return b
}

var maxOf = map[types.BasicKind]*big.Int{
	types.Uint8:   big.NewInt(255),
	types.Uint16:  big.NewInt(65535),
	types.Uint32:  new(big.Int).SetUint64(1<<32 - 1),
	types.Uint64:  new(big.Int).SetUint64(1<<64 - 1),
	types.Uint:    new(big.Int).SetUint64(1<<64 - 1),
	types.Uintptr: new(big.Int).SetUint64(1<<64 - 1),
	types.Int8:    big.NewInt(127),
	types.Int16:   big.NewInt(32767),
	types.Int32:   big.NewInt(1<<31 - 1),
	types.Int64:   big.NewInt(1<<63 - 1),
	types.Int:     big.NewInt(1<<63 - 1),
}

var minOf = map[types.BasicKind]*big.Int{
	types.Int8:  big.NewInt(-128),
	types.Int16: big.NewInt(-32768),
	types.Int32: big.NewInt(-1 << 31),
	types.Int64: big.NewInt(-1 << 63),
	types.Int:   big.NewInt(-1 << 63),
}

// axioms are the linear facts every occurrence of an atom carries.
func axioms(x *T) []*lin {
	var out []*lin
	add := func(t *T) { out = append(out, toLin(t)) } // t <= 0
	if natural(x) {
		add(tNeg(x))
	}
	if b := intType(x); b != nil {
		if m := maxOf[b.Kind()]; m != nil {
			add(tSub(x, mkBig(m)))
		}
		if m := minOf[b.Kind()]; m != nil {
			add(tSub(mkBig(m), x))
		}
	}
	if x.isApp("cap") {
		add(tSub(mkApp("len", types.Typ[types.Int], x.a[0]), x))
	}
	if x.isApp("div") { // x = div(y, c), y >= 0: c*x <= y <= c*x + c-1
		if c, ok := x.a[1].int64(); ok && c > 0 {
			y := x.a[0]
			cx := tMul(x.a[1], x)
			if naturalLin(y) {
				add(tSub(cx, y))
				add(tSub(tAddI(y, -(c-1)), cx))
			} else { // |y - c*x| < c
				add(tSub(tAddI(y, -(c-1)), cx))
				add(tSub(tAddI(cx, -(c-1)), y))
			}
		}
	}
	return out
}

// prove reports whether t <= 0 follows from the facts.
func (f *Facts) prove(t *T) bool {
	if t.isInt() {
		return t.n.Sign() <= 0
	}
	neg := toLin(tSub(tOne, t)) // 1 - t <= 0 is the negation
	return f.refute(neg)
}

// refute: the goal contradicts the facts. Where the facts connected to it are too
// many to be combined, the longest combinations are left out.
func (f *Facts) refute(goal *lin) bool {
	cons := f.connected(goal, 8)
	no, large := infeasible(cons, false)
	for depth := 2; large && depth < 9; depth *= 2 {
		near := f.connected(goal, depth)
		if no, _ = infeasible(near, true); no {
			return true
		}
		if len(near) == len(cons) {
			break
		}
	}
	return no
}

func (f *Facts) connected(goal *lin, deep int) []*lin {
	// collect the facts connected to the goal's atoms
	known := map[*T]bool{}
	var cons []*lin
	cons = append(cons, goal)
	all := make([]*lin, 0, len(f.le))
	for _, t := range f.le {
		all = append(all, toLin(t))
	}
	used := make([]bool, len(all))
	work := goal.atoms()
	depth := 0
	for len(work) > 0 && depth < deep {
		depth++
		var next []*T
		for _, x := range work {
			if known[x] {
				continue
			}
			known[x] = true
			for _, ax := range axioms(x) {
				cons = append(cons, ax)
				next = append(next, ax.atoms()...)
			}
		}
		for i, l := range all {
			if used[i] {
				continue
			}
			for x := range l.m {
				if known[x] {
					used[i] = true
					cons = append(cons, l)
					next = append(next, l.atoms()...)
					break
				}
			}
		}
		work = next
		if len(cons) > 70 {
			break
		}
	}
	return cons
}

// infeasible decides by Fourier-Motzkin elimination (rational, with integer
// tightening) whether the conjunction of `l <= 0` has no solution; it gives up
// (false) when the system grows too large.
func fewest(ls []*lin, n int) []*lin {
	if len(ls) <= n {
		return ls
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].m) < len(ls[j].m) })
	return ls[:n]
}

func infeasible(cons []*lin, partial bool) (refuted, large bool) {
	norm := func(l *lin) *lin {
		if len(l.m) == 0 {
			return l
		}
		g := new(big.Int)
		for _, c := range l.m {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			r := newLin()
			for x, c := range l.m {
				r.m[x] = new(big.Int).Quo(c, g)
			}
			// sum + k <= 0  =>  sum <= floor(-k/g)  =>  k' = -floor(-k/g) = ceil(k/g)
			q, m := new(big.Int).DivMod(l.k, g, new(big.Int))
			if m.Sign() != 0 {
				q.Add(q, bigOne)
			}
			r.k = q
			return r
		}
		return l
	}
	seen := map[string]bool{}
	var cur []*lin
	push := func(dst []*lin, l *lin) ([]*lin, bool) {
		l = norm(l)
		if len(l.m) == 0 {
			return dst, l.k.Sign() > 0
		}
		k := l.key()
		if seen[k] {
			return dst, false
		}
		seen[k] = true
		return append(dst, l), false
	}
	for _, l := range cons {
		var bad bool
		if cur, bad = push(cur, l); bad {
			return true, false
		}
	}
	// equalities (l <= 0 and -l <= 0) are used to eliminate an atom each
	for again := true; again && len(cur) > 1; {
		again = false
		idx := map[string]int{}
		for i, l := range cur {
			idx[l.key()] = i
		}
		for i, l := range cur {
			j, ok := idx[newLin().addMul(l, bigMinusOne).key()]
			if !ok || j == i {
				continue
			}
			var x *T
			for _, a := range l.atoms() {
				if l.m[a].IsInt64() && (l.m[a].Int64() == 1 || l.m[a].Int64() == -1) {
					x = a
				}
			}
			if x == nil {
				continue
			}
			sub := l // x = -(l - cx)/c
			if l.m[x].Sign() < 0 {
				sub = newLin().addMul(l, bigMinusOne)
			}
			old := cur
			seen = map[string]bool{}
			cur = nil
			for k, o := range old {
				if k == i || k == j {
					continue
				}
				if c := o.m[x]; c != nil {
					o = o.clone().addMul(sub, new(big.Int).Neg(c))
				}
				var bad bool
				if cur, bad = push(cur, o); bad {
					return true, false
				}
			}
			again = true
			break
		}
	}
	for len(cur) > 0 {
		pos, neg := map[*T]int{}, map[*T]int{}
		for _, l := range cur {
			for x, c := range l.m {
				if c.Sign() > 0 {
					pos[x]++
				} else {
					neg[x]++
				}
			}
		}
		var best *T
		bestCost := 1 << 30
		cand := map[*T]bool{}
		for x := range pos {
			cand[x] = true
		}
		for x := range neg {
			cand[x] = true
		}
		for x := range cand {
			c := pos[x]*neg[x] - pos[x] - neg[x]
			if c < bestCost || (c == bestCost && x.id < best.id) {
				best, bestCost = x, c
			}
		}
		var P, N, rest []*lin
		for _, l := range cur {
			c := l.m[best]
			switch {
			case c == nil:
				rest = append(rest, l)
			case c.Sign() > 0:
				P = append(P, l)
			default:
				N = append(N, l)
			}
		}
		if len(P)*len(N)+len(rest) > 500 {
			// what is left out can only make the answer "not refuted"
			if !partial {
				return false, true
			}
			P, N, rest = fewest(P, 16), fewest(N, 16), fewest(rest, 200)
		}
		seen = map[string]bool{}
		cur = nil
		for _, l := range rest {
			cur, _ = push(cur, l)
		}
		for _, p := range P {
			for _, n := range N {
				r := newLin()
				r.addMul(p, new(big.Int).Neg(n.m[best]))
				r.addMul(n, p.m[best])
				delete(r.m, best)
				var bad bool
				if cur, bad = push(cur, r); bad {
					return true, false
				}
			}
		}
		if len(cur) > 500 && !partial {
			return false, true
		}
	}
	return false, false
}

// decide evaluates a boolean term under the facts.
func (f *Facts) decide(b *T) truth {
	switch b.op {
	case "bool":
		return truthOf(b == tTrue)
	case "not":
		return f.decide(b.a[0]).not()
	case "le0":
		d := f.normInt(b.a[0])
		if f.prove(d) {
			return yes
		}
		if f.prove(tSub(tOne, d)) {
			return no
		}
		return unknown
	case "eq0":
		d := f.normInt(b.a[0])
		if d.isInt() {
			return truthOf(d.n.Sign() == 0)
		}
		for _, n := range f.ne {
			n = f.normInt(n)
			if n == d || n == tNeg(d) {
				return no
			}
		}
		le, ge := f.prove(d), f.prove(tNeg(d))
		if le && ge {
			return yes
		}
		if f.prove(tAddI(d, 1)) || f.prove(tSub(tOne, d)) {
			return no
		}
		return unknown
	case "eq":
		return f.decideEq(b.a[0], b.a[1])
	case "and":
		r := yes
		for _, x := range b.a {
			switch f.decide(x) {
			case no:
				return no
			case unknown:
				r = unknown
			}
		}
		return r
	}
	if v, ok := f.atoms[b]; ok {
		return truthOf(v)
	}
	if r := f.rep(b); r != b {
		return f.decide(r)
	}
	return unknown
}

// normInt rewrites atoms by known equalities.
func (f *Facts) normInt(t *T) *T {
	if len(f.eqt) == 0 || t.isInt() {
		return t
	}
	l := toLin(t)
	ch := false
	for x := range l.m {
		if f.rep(x) != x {
			ch = true
		}
	}
	if !ch {
		return t
	}
	r := newLin()
	r.k.Set(l.k)
	for x, c := range l.m {
		r.addMul(toLin(f.rep(x)), c)
	}
	return r.term()
}

func isIntTerm(t *T) bool { return t.op == "int" || t.op == "sum" }

func (f *Facts) decideEq(a, b *T) truth {
	a, b = f.rep(a), f.rep(b)
	if a == b {
		return yes
	}
	switch s := simplEq(a, b); s.op {
	case "bool":
		return truthOf(s == tTrue)
	case "eq":
		a, b = s.a[0], s.a[1]
	default:
		return f.decide(s)
	}
	if v, ok := f.atoms[mkEqRaw(a, b)]; ok {
		return truthOf(v)
	}
	// sequences of different lengths differ; two known bytes that differ decide too
	if isSeq(a) || isSeq(b) {
		d := tSub(seqLen(a), seqLen(b))
		if f.decide(mkEq0(d)) == no {
			return no
		}
		for _, p := range [][2]*T{{a, b}, {b, a}} {
			if p[1].op == "lit" && len(p[1].s) <= 8 && f.decide(mkEq0(d)) == yes {
				all := true
				for i := range p[1].s {
					switch f.decide(mkIntEq(rawAt(p[0], mkInt(int64(i))), mkInt(int64(p[1].s[i])))) {
					case no:
						return no
					case unknown:
						all = false
					}
				}
				if all {
					return yes
				}
			}
		}
	}
	return unknown
}

func mkEqRaw(a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&T{op: "eq", a: []*T{a, b}})
}

// simplEq simplifies a == b where that needs no facts.
func simplEq(a, b *T) *T {
	if a == b {
		return tTrue
	}
	if isIntTerm(a) || isIntTerm(b) {
		return mkIntEq(a, b)
	}
	if a.isBool() || b.isBool() {
		if b.isBool() {
			a, b = b, a
		}
		if a == tTrue {
			return b
		}
		return mkNot(b)
	}
	if a == tNil && b.isApp("rtypeof") { // a type is nil for a nil value only
		return simplEq(b.a[0], tNil)
	}
	if b == tNil && a.isApp("rtypeof") {
		return simplEq(a.a[0], tNil)
	}
	if a == tEmpty || b == tEmpty {
		return mkEq0(tSub(seqLen(a), seqLen(b)))
	}
	if a.op == "lit" && b.op == "lit" {
		return mkBool(a.s == b.s)
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return simplEq(a.a[0], b.a[0])
	}
	if a.op == "struct" && b.op == "struct" && len(a.a) == len(b.a) {
		conj := []*T{}
		for i := range a.a {
			e := simplEq(a.a[i], b.a[i])
			if e == tFalse {
				return tFalse
			}
			if e != tTrue {
				conj = append(conj, e)
			}
		}
		switch len(conj) {
		case 0:
			return tTrue
		case 1:
			return conj[0]
		}
		return intern(&T{op: "and", a: conj})
	}
	if distinctRef(a, b) || distinctRef(b, a) {
		return tFalse
	}
	if a.op == "slice" || b.op == "slice" { // comparison with nil
		if b.op == "slice" {
			a, b = b, a
		}
		if b == tNil || b == tNilSlice {
			if a.a[0] == tNil {
				return tTrue
			}
			if a.a[0].op == "alloc" || a.a[0].op == "field" || a.a[0].op == "global" {
				return tFalse
			}
			return mkEqRaw(a.a[0], tNil)
		}
	}
	if a.op == "app" && b.op == "app" && a.s == "rpair" && b.s == "rpair" {
		return mkEqRaw(a, b)
	}
	return mkEqRaw(a, b)
}

// extConst: the value of an error variable of another module.
func extConst(t *T) bool {
	if !t.isApp("init") || t.a[0].op != "global" || len(t.a) != 1 {
		return false
	}
	g, ok := t.a[0].v.(*ssa.Global)
	return ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && types.IsInterface(g.Type().(*types.Pointer).Elem())
}

// distinctRef: a is a reference that can never equal b.
func distinctRef(a, b *T) bool {
	nonNil := func(t *T) bool {
		switch t.op {
		case "alloc", "field", "global", "elem", "iface", "fn", "mkchan", "mkmap":
			return true
		}
		return false
	}
	if b == tNil {
		return nonNil(a) || extConst(a) || a.isApp("keccakobj") || a.isApp("rvalue")
	}
	if extConst(a) && (extConst(b) || b.op == "iface") {
		return a != b
	}
	switch a.op {
	case "alloc", "mkchan", "mkmap":
		switch b.op {
		case "alloc", "mkchan", "mkmap", "global", "field", "fn":
			return true
		case "sym":
			return true // a fresh object is not one that existed before
		case "app":
			return b.s == "init"
		}
	case "global":
		return b.op == "global" || b.op == "field"
	case "iface":
		return false
	}
	return false
}

func rawAt(s, i *T) *T {
	return mkApp("at", types.Typ[types.Uint8], s, i)
}

// assume adds a boolean fact; it returns false if the path is infeasible.
func (f *Facts) assume(b *T, val bool) bool {
	if !val {
		b = mkNot(b)
	}
	switch f.decide(b) {
	case yes:
		return true
	case no:
		f.dead = true
		return false
	}
	f.add(b)
	return !f.dead
}

func (f *Facts) add(b *T) {
	neg := false
	if b.op == "not" {
		neg = true
		b = b.a[0]
	}
	switch b.op {
	case "le0":
		d := b.a[0]
		if neg {
			d = tSub(tOne, d)
		}
		f.le = append(f.le, d)
		f.tighten(d)
	case "eq0":
		d := b.a[0]
		if neg {
			f.ne = append(f.ne, d)
			f.tightenNe(d)
			return
		}
		f.le = append(f.le, d, tNeg(d))
		// a single atom equal to a constant is rewritten
		if l := toLin(d); len(l.m) == 1 {
			x := l.atoms()[0]
			c := l.m[x]
			if c.CmpAbs(bigOne) == 0 {
				v := new(big.Int).Neg(l.k)
				v.Mul(v, c)
				f.union(x, mkBig(v))
			}
		}
	case "eq":
		if neg {
			f.atoms[b] = false
			return
		}
		f.atoms[b] = true
		x, y := f.rep(b.a[0]), f.rep(b.a[1])
		f.union(x, y)
		if isSeq(x) || isSeq(y) {
			d := tSub(seqLen(x), seqLen(y))
			if !d.isInt() {
				f.assume(mkEq0(d), true)
			}
			for _, p := range [][2]*T{{x, y}, {y, x}} {
				if p[1].op == "lit" && p[0].op != "lit" && len(p[1].s) <= 8 {
					for i := range p[1].s {
						f.assume(mkIntEq(atTerm(f, p[0], mkInt(int64(i))), mkInt(int64(p[1].s[i]))), true)
					}
				}
			}
		}
	case "and":
		if neg {
			f.atoms[b] = false
			return
		}
		for _, x := range b.a {
			f.assume(x, true)
		}
	default:
		f.atoms[b] = !neg
		f.union(b, mkBool(!neg))
	}
}

func rank(t *T) int {
	switch t.op {
	case "int", "lit", "bool", "nil", "global", "fn":
		return 0
	case "alloc", "iface", "mkchan", "mkmap":
		return 1
	case "sym":
		return 3
	}
	return 4
}

func (f *Facts) union(x, y *T) {
	x, y = f.rep(x), f.rep(y)
	if x == y {
		return
	}
	if isIntTerm(x) && isIntTerm(y) {
		return
	}
	if rank(x) < rank(y) || (rank(x) == rank(y) && x.id < y.id) {
		x, y = y, x
	}
	if isIntTerm(x) || occurs(y, x) {
		return
	}
	f.eqt[x] = y
}

// tighten: d <= 0 together with d != 0 gives d+1 <= 0.
func (f *Facts) tighten(d *T) {
	for i := 0; i < 3; i++ {
		hit := false
		for _, n := range f.ne {
			if n == d || n == tNeg(d) {
				hit = true
			}
		}
		if !hit {
			return
		}
		d = tAddI(d, 1)
		f.le = append(f.le, d)
	}
}

func (f *Facts) tightenNe(d *T) {
	if f.prove(d) {
		f.le = append(f.le, tAddI(d, 1))
	} else if f.prove(tNeg(d)) {
		f.le = append(f.le, tSub(tOne, d))
	}
}

// bounds gives the constant interval known for an integer term (nil: unbounded).
func (f *Facts) bounds(x *T) (lo, hi *big.Int) {
	if x.isInt() {
		return x.n, x.n
	}
	if r := f.normInt(x); r.isInt() {
		return r.n, r.n
	}
	upd := func(l *lin) {
		if len(l.m) != 1 {
			return
		}
		c := l.m[x]
		if c == nil {
			return
		}
		if c.Sign() > 0 { // c x + k <= 0 : x <= floor(-k/c)
			v := new(big.Int).Div(new(big.Int).Neg(l.k), c)
			if hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		} else { // x >= ceil(k/|c|)
			ac := new(big.Int).Neg(c)
			q, m := new(big.Int).DivMod(l.k, ac, new(big.Int))
			if m.Sign() != 0 {
				q.Add(q, bigOne)
			}
			if lo == nil || q.Cmp(lo) > 0 {
				lo = q
			}
		}
	}
	if x.op != "sum" {
		for _, a := range axioms(x) {
			upd(a)
		}
	}
	for _, t := range f.le {
		upd(toLin(t))
	}
	return
}

// eachTerm visits every term the facts are about.
func (f *Facts) eachTerm(visit func(*T)) {
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		visit(t)
		for _, x := range t.a {
			walk(x)
		}
	}
	for _, t := range f.le {
		walk(t)
	}
	for _, t := range f.ne {
		walk(t)
	}
	for t, r := range f.eqt {
		walk(t)
		walk(r)
	}
	for t := range f.atoms {
		walk(t)
	}
}
