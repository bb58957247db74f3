package main

// Loops that copy or fill a sequence element by element are read as the
// assignment they amount to: the inductive step (each round writes exactly one
// element, at an index that moves by one, from a source that stands still)
// gives the whole range written between entry and exit.

// settle rewrites the content of regions a loop of this path wrote.
func (in *Interp) settle(st *State, t *T) *T {
	if t == nil {
		return nil
	}
	switch t.op {
	case "cat":
		out := make([]*T, len(t.a))
		for i, p := range t.a {
			out[i] = in.settle(st, p)
		}
		return mkCat(out...)
	case "sub":
		return subSeq(st.facts, in.settle(st, t.a[0]), t.a[1], t.a[2])
	case "upd":
		return in.spliced(st, in.settle(st, t.a[0]), t.a[1], t.a[2])
	case "seq":
		return runs(st, t)
	case "app":
		if len(t.s) > 4 && t.s[:4] == "hav:" {
			if f := in.filled(st, t); f != nil {
				return f
			}
		}
	}
	return t
}

// spliced is s with element i replaced by v, as a concatenation where possible.
func (in *Interp) spliced(st *State, s, i, v *T) *T {
	if st.proves(mkLe(tZero, i)) && st.proves(mkLt(i, seqLen(s))) {
		one := mkSeq([]*T{v})
		if one.op == "seq" {
			one = runs(st, one)
		}
		return writeRange(st.facts, s, i, one)
	}
	return mkUpd(st, s, i, v)
}

func (in *Interp) filled(st *State, head *T) *T {
	for _, rec := range loopsOf(st) {
		if rec.unrolled {
			continue
		}
		var region *loopVar
		vars := in.carried(rec, true)
		for _, v := range vars {
			if v.head == head && len(v.backs) > 0 {
				region = v
			}
		}
		if region != nil && region.entry == nil {
			for a, v := range rec.assumed.heap {
				if v == head {
					region.entry = in.content(rec.entry, a)
				}
			}
		}
		if region == nil || region.entry == nil {
			continue
		}
		for _, w := range vars {
			if w.entry == nil || w == region || !isIntTerm(w.head) && intType(w.head) == nil {
				continue
			}
			if f := in.filledBy(st, rec, vars, region, w); f != nil {
				return f
			}
		}
	}
	return nil
}

func (in *Interp) filledBy(st *State, rec *LoopRec, vars []*loopVar, region, w *loopVar) *T {
	dir := int64(0)
	for _, b := range w.backs {
		switch b {
		case tAddI(w.head, 1):
			if dir < 0 {
				return nil
			}
			dir = 1
		case tAddI(w.head, -1):
			if dir > 0 {
				return nil
			}
			dir = -1
		default:
			return nil
		}
	}
	moving := func(t *T) bool {
		for _, v := range vars {
			if v.head != nil && v.head.op != "int" && anyTerm(t, func(x *T) bool { return x == v.head }) {
				return true
			}
		}
		return false
	}
	var c, d, src, val *T
	for i, b := range region.backs {
		if b == nil || b.op != "upd" || b.a[0] != region.head {
			return nil
		}
		f := rec.backs[i].st.facts
		ci := f.normInt(tSub(b.a[1], w.head))
		if moving(ci) || c != nil && c != ci {
			return nil
		}
		c = ci
		e := b.a[2]
		if e.isApp("at") && !moving(e.a[0]) {
			di := f.normInt(tSub(e.a[1], w.head))
			if moving(di) || d != nil && (d != di || src != e.a[0]) {
				return nil
			}
			d, src = di, e.a[0]
			continue
		}
		if moving(e) || val != nil && val != e {
			return nil
		}
		val = e
	}
	if c == nil || (src == nil) == (val == nil) {
		return nil
	}
	out := solved(st, w.head)
	lo, hi := w.entry, out
	if dir < 0 {
		lo, hi = tAddI(out, 1), tAddI(w.entry, 1)
	}
	var part *T
	f := st.facts
	if src != nil {
		part = subSeq(f, in.settle(st, src), tAdd(lo, d), tAdd(hi, d))
	} else {
		part = mkZero(f.normInt(tSub(hi, lo)), val)
	}
	entry := in.settle(st, region.entry)
	return mkCat(subSeq(f, entry, tZero, tAdd(lo, c)), part, subSeq(f, entry, tAdd(hi, c), seqLen(entry)))
}

// solved is what the facts say a variable is equal to, or the variable.
func solved(st *State, w *T) *T {
	one := func(k *lin) (int64, bool) {
		c := k.m[w]
		if c == nil || !c.IsInt64() {
			return 0, false
		}
		return c.Int64(), true
	}
	for _, t := range st.facts.le {
		k, ok := one(toLin(t))
		if !ok || k != 1 && k != -1 {
			continue
		}
		if st.proves(mkLe(tZero, t)) {
			if k > 0 {
				return tSub(w, t)
			}
			return tAdd(w, t)
		}
	}
	return w
}

// runs writes explicit elements that come from consecutive places of one
// sequence as the part of that sequence they are.
func runs(st *State, t *T) *T {
	var parts []*T
	for i := 0; i < len(t.a); {
		e := t.a[i]
		n := 1
		if e.isApp("at") {
			for i+n < len(t.a) && t.a[i+n].isApp("at") && t.a[i+n].a[0] == e.a[0] && t.a[i+n].a[1] == tAddI(e.a[1], int64(n)) {
				n++
			}
			parts = append(parts, subSeq(st.facts, e.a[0], e.a[1], tAddI(e.a[1], int64(n))))
		} else {
			for i+n < len(t.a) && t.a[i+n] == e {
				n++
			}
			parts = append(parts, mkZero(mkInt(int64(n)), e))
		}
		i += n
	}
	return mkCat(parts...)
}
