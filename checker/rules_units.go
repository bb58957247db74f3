package main

import (
	"go/constant"
	"go/token"
	"strings"
)

// S01: a size is shown as its number of the largest unit it reaches, an age as up to three
// whole numbers of units, largest first. Each result is a text term; the rule reads the
// numbers and units from it and compares them with what the facts of the path allow.

func init() { properties["S01"] = checkUnits }

var sizeUnits = []struct {
	name string
	n    int64
}{{"B", 1}, {"KiB", 1 << 10}, {"MiB", 1 << 20}, {"GiB", 1 << 30}, {"TiB", 1 << 40}}

const oneSecond = int64(1000000000)

var ageUnitsWant = []struct {
	name string
	n    int64
}{{"y", 12 * 30 * 86400 * oneSecond}, {"mo", 30 * 86400 * oneSecond}, {"w", 7 * 86400 * oneSecond}, {"d", 86400 * oneSecond}, {"h", 3600 * oneSecond}, {"m", 60 * oneSecond}, {"s", oneSecond}}

func checkUnits(c *Check) {
	n := 0
	for _, x := range [][2]string{{"StorageSize.String", " "}, {"StorageSize.TerminalString", ""}} {
		if fn := c.fn("common", x[0]); fn != nil {
			r := c.analyse(fn, nil)
			for i := range r.outs {
				n++
				sizeText(c, &r.outs[i], r.param(0), x[1], fnLabel(fn))
			}
		}
	}
	c.floor("size", "texts of sizes", n, 10)
	n = 0
	if fn := c.fn("common", "PrettyAge.String"); fn != nil {
		r := c.analyse(fn, nil)
		for i := range r.outs {
			n++
			ageText(c, r, &r.outs[i], fnLabel(fn))
		}
	}
	c.floor("age", "texts of ages", n, 30)
}

// scaled reads x as s divided by a power of two.
func scaled(x *T) (s *T, by constant.Value) {
	by = constant.MakeInt64(1)
	for {
		x = unconv(x)
		var v constant.Value
		ok := false
		switch {
		case x.isApp("f/"):
			if v, ok = floatVal(x.a[1]); ok {
				x = x.a[0]
			}
		case x.isApp("f*"):
			for i := 0; i < 2 && !ok; i++ {
				if v, ok = floatVal(x.a[i]); ok && constant.Sign(v) != 0 {
					v = constant.BinaryOp(constant.MakeInt64(1), token.QUO, constant.ToFloat(v))
					x = x.a[1-i]
				}
			}
		}
		if !ok {
			return x, by
		}
		if constant.Sign(v) <= 0 || !powerOfTwo(v) {
			return nil, by
		}
		by = constant.BinaryOp(by, token.MUL, v)
	}
}

func powerOfTwo(v constant.Value) bool {
	one, two := constant.MakeFloat64(1), constant.MakeFloat64(2)
	v = constant.ToFloat(v)
	for i := 0; i < 200 && constant.Compare(v, token.GTR, one); i++ {
		v = constant.BinaryOp(v, token.QUO, two)
	}
	for i := 0; i < 200 && constant.Compare(v, token.LSS, one); i++ {
		v = constant.BinaryOp(v, token.MUL, two)
	}
	return constant.Compare(v, token.EQL, one)
}

// floatBounds: what the comparisons on the path say about s.
func floatBounds(st *State, s *T) (lo, hi constant.Value) {
	for a, is := range st.facts.atoms {
		if !a.isApp("flt") && !a.isApp("fle") {
			continue
		}
		for i := 0; i < 2; i++ {
			k, ok := floatVal(a.a[1-i])
			if !ok {
				continue
			}
			b, by := scaled(a.a[i])
			if b != s {
				continue
			}
			k = constant.BinaryOp(constant.ToFloat(k), token.MUL, constant.ToFloat(by))
			if (i == 1) == is { // k < s, or not s < k
				if lo == nil || constant.Compare(k, token.GTR, lo) {
					lo = k
				}
			} else if hi == nil || constant.Compare(k, token.LSS, hi) {
				hi = k
			}
		}
	}
	return
}

func sizeText(c *Check, o *Outcome, s *T, sep, label string) {
	if !c.ok("size", label, o.kind == outReturn, o.pos, "the function can end with %s", o.kind) {
		return
	}
	ps := catParts(o.val)
	if !c.ok("size", label, len(ps) == 2 && ps[1].op == "lit", o.pos, "the text is %v, not a number and a unit", o.val) {
		return
	}
	unit := -1
	for i, u := range sizeUnits {
		if ps[1].s == sep+u.name {
			unit = i
		}
	}
	if !c.ok("size-unit", label, unit >= 0, o.pos, "the number is followed by %q", ps[1].s) {
		return
	}
	u := sizeUnits[unit]
	label += " " + u.name
	b, by := scaled(twoDecimals(ps[0]))
	c.ok("size-number", label, b == s && constant.Compare(by, token.EQL, constant.MakeInt64(u.n)), o.pos, "the number shown, %v, is not the size divided by %d with two decimals", ps[0], u.n)
	lo, hi := floatBounds(o.st, s)
	c.ok("size-unit", label, unit == 0 || lo != nil && constant.Compare(lo, token.GEQ, constant.MakeInt64(u.n)), o.pos, "the unit is used for sizes below %d", u.n)
	c.ok("size-unit", label, unit == len(sizeUnits)-1 || hi != nil && constant.Compare(hi, token.LEQ, constant.MakeInt64(u.n<<10)), o.pos, "the unit is used for sizes above %d", u.n<<10)
}

// twoDecimals: the number a text with two decimals shows.
func twoDecimals(t *T) *T {
	switch {
	case t.isApp("fmtv:%.2f"):
		return t.a[0]
	case t.op == "app" && strings.HasSuffix(t.s, "strconv.FormatFloat") && len(t.a) == 4:
		if t.a[1] == mkInt('f') && t.a[2] == mkInt(2) && t.a[3] == mkInt(64) {
			return t.a[0]
		}
	}
	return t
}

// decimal: the number a text of decimal digits shows.
func decimal(t *T) *T {
	if t.isApp("fmtv:%v") && len(t.a) == 2 && t.a[1].typ == nil && strings.HasPrefix(t.a[1].s, "type:int") {
		return t.a[0]
	}
	if t.isApp("fmtv:%d") || t.isApp("itoa") && t.a[1] == mkInt(10) {
		return t.a[0]
	}
	return nil
}

func ageText(c *Check, r *Run, o *Outcome, label string) {
	if !c.ok("age", label, o.kind == outReturn, o.pos, "the function can end with %s", o.kind) {
		return
	}
	var age *T
	for _, e := range events(o.st) {
		if e.kind == "call" && e.res != nil && (strings.HasSuffix(e.name, "time.Since") || strings.HasSuffix(e.name, "time.Time).Sub")) {
			if at := e.args[len(e.args)-1]; unconv(at) == r.param(0) {
				age = e.res
			}
		}
	}
	isAge := func(t *T) bool {
		return t.op == "app" && strings.HasSuffix(t.s, "time.Time).Sub") && len(t.a) == 2 && unconv(t.a[1]) == r.param(0)
	}
	for _, l := range o.st.facts.le {
		anyTerm(l, func(t *T) bool {
			if age == nil && isAge(t) {
				age = t
			}
			return false
		})
	}
	if !c.ok("age", label, age != nil, o.pos, "the text does not depend on the time since then") {
		return
	}
	// shown: numbers and units in turn
	ps := catParts(o.val)
	if o.val.op == "lit" && o.val.s == "0" {
		ps = nil
	} else if !c.ok("age", label, len(ps) >= 2 && len(ps)%2 == 0, o.pos, "the text is %v, not numbers with units", o.val) {
		return
	}
	st := o.st.clone()
	rest, n := age, 0
	for _, u := range ageUnitsWant {
		if n == 3 {
			break
		}
		unit := mkInt(u.n)
		if 2*n < len(ps) && ps[2*n+1] == mkLit(u.name) {
			q := decimal(ps[2*n])
			if !c.ok("age-number", label+" "+u.name, q != nil && (unconv(q) == mkDiv(st, rest, unit) || provesEq(st, q, mkDiv(st, rest, unit))), o.pos, "the number of %s is %v, not the whole ones in %v", u.name, ps[2*n], rest) {
				return
			}
			if !c.ok("age-unit", label+" "+u.name, st.proves(mkLe(unit, rest)), o.pos, "a component of 0 %s is shown", u.name) {
				return
			}
			rest = tSub(rest, tMul(unit, mkDiv(st, rest, unit)))
			n++
			continue
		}
		if !c.ok("age-unit", label+" "+u.name, st.proves(mkLt(rest, unit)), o.pos, "the text %v leaves out %s though there is one or more", o.val, u.name) {
			return
		}
	}
	c.ok("age-unit", label, 2*n == len(ps), o.pos, "the text %v has more than the components it may have, or in another order", o.val)
}
