package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Polynomial value numbering: big integer terms read as Laurent polynomials
// over a field of characteristic p, so that two ways of computing the same
// field element get the same normal form.

type poly map[string]*big.Int // monomial -> coefficient

type ring struct {
	prime *T // the modulus: zero in the field
	memo  map[*T]poly
	ids   map[int]*T
}

func newRing(prime *T) *ring { return &ring{prime: prime, memo: map[*T]poly{}, ids: map[int]*T{}} }

type monomial map[int]int // variable id -> exponent

func (m monomial) key() string {
	ids := make([]int, 0, len(m))
	for i, e := range m {
		if e != 0 {
			ids = append(ids, i)
		}
	}
	sort.Ints(ids)
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(strconv.Itoa(i))
		b.WriteByte('^')
		b.WriteString(strconv.Itoa(m[i]))
		b.WriteByte(' ')
	}
	return b.String()
}

func parseMonomial(k string) monomial {
	m := monomial{}
	for _, f := range strings.Fields(k) {
		i := strings.IndexByte(f, '^')
		id, _ := strconv.Atoi(f[:i])
		e, _ := strconv.Atoi(f[i+1:])
		m[id] = e
	}
	return m
}

func (p poly) add(k string, c *big.Int) {
	if o := p[k]; o != nil {
		if s := new(big.Int).Add(o, c); s.Sign() != 0 {
			p[k] = s
		} else {
			delete(p, k)
		}
	} else if c.Sign() != 0 {
		p[k] = new(big.Int).Set(c)
	}
}

func (p poly) plus(q poly, f int64) poly {
	r := poly{}
	for k, c := range p {
		r.add(k, c)
	}
	for k, c := range q {
		r.add(k, new(big.Int).Mul(c, big.NewInt(f)))
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	ms := make(map[string]monomial, len(q))
	for k := range q {
		ms[k] = parseMonomial(k)
	}
	for k, c := range p {
		m := parseMonomial(k)
		for k2, c2 := range q {
			n := monomial{}
			for i, e := range m {
				n[i] = e
			}
			for i, e := range ms[k2] {
				n[i] += e
			}
			r.add(n.key(), new(big.Int).Mul(c, c2))
		}
	}
	return r
}

func (p poly) scale(n int64) poly { return poly{}.plus(p, n) }

func (p poly) equal(q poly) bool {
	if len(p) != len(q) {
		return false
	}
	for k, c := range p {
		if d := q[k]; d == nil || d.Cmp(c) != 0 {
			return false
		}
	}
	return true
}

func polyInt(n *big.Int) poly {
	p := poly{}
	p.add("", n)
	return p
}

func (p poly) pow(n int) poly {
	r := polyInt(big.NewInt(1))
	for ; n > 0; n-- {
		r = r.times(p)
	}
	return r
}

// variable is a term taken as an indeterminate.
func (g *ring) variable(t *T) poly {
	g.ids[t.id] = t
	p := poly{}
	p.add(monomial{t.id: 1}.key(), big.NewInt(1))
	return p
}

// isPrime: the modulus, or something known equal to it.
func (g *ring) isPrime(t *T) bool { return t == g.prime }

// of is the field element a term denotes.
func (g *ring) of(t *T) poly {
	if p := g.memo[t]; p != nil {
		return p
	}
	p := g.build(t)
	g.memo[t] = p
	return p
}

func (g *ring) build(t *T) poly {
	if g.isPrime(t) {
		return poly{}
	}
	if t.isInt() {
		return polyInt(t.n)
	}
	if t.op == "app" {
		switch t.s {
		case "mul":
			p := polyInt(big.NewInt(1))
			for _, a := range t.a {
				p = p.times(g.of(a))
			}
			return p
		case "bmod":
			if g.isPrime(t.a[1]) {
				return g.of(t.a[0])
			}
		case "binv":
			if u := g.of(t.a[0]); g.isPrime(t.a[1]) && len(u) == 1 {
				for k, c := range u {
					if c.CmpAbs(big.NewInt(1)) == 0 {
						m := parseMonomial(k)
						for i := range m {
							m[i] = -m[i]
						}
						r := poly{}
						r.add(m.key(), c)
						return r
					}
				}
			}
		case "bexp":
			if e, ok := t.a[1].int64(); ok && e >= 0 && e < 8 && (t.a[2] == tZero || g.isPrime(t.a[2])) {
				return g.of(t.a[0]).pow(int(e))
			}
		case "shl":
			if e, ok := t.a[1].int64(); ok && e >= 0 && e < 16 {
				return g.of(t.a[0]).scale(1 << uint(e))
			}
		}
	}
	if l := toLin(t); len(l.m) != 1 || l.k.Sign() != 0 || l.m[t] == nil {
		p := polyInt(l.k)
		for a, c := range l.m {
			q := g.of(a)
			for k, d := range q {
				p.add(k, new(big.Int).Mul(c, d))
			}
		}
		return p
	}
	return g.variable(t)
}

// multipleOf: p = c * q with c a power of two up to sign.
func (p poly) multipleOf(q poly) bool {
	if len(p) != len(q) || len(q) == 0 {
		return false
	}
	for k, d := range q {
		if p[k] == nil {
			return false
		}
		quo, rem := new(big.Int).QuoRem(p[k], d, new(big.Int))
		if rem.Sign() != 0 || quo.Sign() == 0 {
			return false
		}
		if a := new(big.Int).Abs(quo); a.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(a.BitLen()-1))) != 0 {
			return false
		}
		return p.equal(poly{}.scaled(q, quo))
	}
	return false
}

func (p poly) scaled(q poly, c *big.Int) poly {
	for k, d := range q {
		p.add(k, new(big.Int).Mul(c, d))
	}
	return p
}
