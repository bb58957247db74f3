package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R01: the tags of struct fields select and describe the fields that take part in
// RLP by fixed rules. The meaning of every tag is written down here as a step on the
// flags of a field; the loop over the tags, wherever it is, must take exactly that step.

const rlpStructPkg = "rlp/internal/rlpstruct"

func init() { properties["R01"] = checkTags }

type tagRule struct {
	c                          *Check
	r                          *Run
	in                         *Interp
	name, index, exported, typ *types.Var // Field
	tag                        *types.Var
	kind, isEncoder, elem      *types.Var // Type
	flags                      []*types.Var
	ignored, optional, tail    *types.Var // Tags
	nilOK, nilKind             *types.Var
	errField, errTag           *types.Var
	all                        *T       // the fields given
	fields                     *LoopRec // the loop over the fields
	at                         *T       // index of the field looked at there
	tags                       *LoopRec // the loop over the tags of a field
	parts, part, partAt        *T
	cur                        map[*types.Var]*T // the flags of the field at the head of tags
	outFields, outTags         *T                // what is collected, at the head of fields
	lastOK                     map[*T]string     // "last exported field", judged
	judged                     map[*State]bool
}

func checkTags(c *Check) {
	k := &tagRule{c: c, cur: map[*types.Var]*T{}, lastOK: map[*T]string{}}
	fv := c.fields(rlpStructPkg, "Field.Name", "Field.Index", "Field.Exported", "Field.Type", "Field.Tag",
		"Type.Kind", "Type.IsEncoder", "Type.Elem",
		"Tags.Ignored", "Tags.Optional", "Tags.Tail", "Tags.NilOK", "Tags.NilKind", "TagError.Field", "TagError.Tag")
	f := c.fn(rlpStructPkg, "ProcessFields")
	d := c.fn(rlpStructPkg, "Type.DefaultNilValue")
	if fv == nil || f == nil || d == nil {
		return
	}
	k.name, k.index, k.exported, k.typ, k.tag = fv[0], fv[1], fv[2], fv[3], fv[4]
	k.kind, k.isEncoder, k.elem = fv[5], fv[6], fv[7]
	k.ignored, k.optional, k.tail, k.nilOK, k.nilKind = fv[8], fv[9], fv[10], fv[11], fv[12]
	k.errField, k.errTag = fv[13], fv[14]
	k.flags = fv[8:13]
	k.defaults(d)
	k.r = c.analyse(f, nil)
	k.in = k.r.in
	k.process(f)
}

// cases splits a state by conditions.
func cases(st *State, conds []*T, body func(st *State, vals []bool)) {
	var walk func(st *State, vals []bool)
	walk = func(st *State, vals []bool) {
		if len(vals) == len(conds) {
			body(st, vals)
			return
		}
		for _, v := range []bool{true, false} {
			s := st.clone()
			if conds[len(vals)].isBool() && (conds[len(vals)] == tTrue) != v {
				continue
			}
			if !conds[len(vals)].isBool() && !s.assume(conds[len(vals)], v) || s.facts.dead {
				continue
			}
			walk(s, append(append([]bool{}, vals...), v))
		}
	}
	walk(st, nil)
}

// stringKind: the conditions under which a nil of a type stands for the empty string,
// as a decision over the type's properties.
func (k *tagRule) stringKind(in *Interp, st *State, typ *T) (conds []*T, is func(vals []bool) bool) {
	kd := mkFldOf(in, st, typ, k.kind)
	num := func(x reflect.Kind) *T { return mkInt(int64(x)) }
	for x := reflect.Uint; x <= reflect.Uintptr; x++ {
		conds = append(conds, mkIntEq(kd, num(x)))
	}
	for _, x := range []reflect.Kind{reflect.String, reflect.Bool, reflect.Slice, reflect.Array} {
		conds = append(conds, mkIntEq(kd, num(x)))
	}
	n := len(conds)
	el := mkFldOf(in, st, typ, k.elem)
	conds = append(conds, mkIntEq(in.loadField(st, el, k.kind), num(reflect.Uint8)), in.loadField(st, el, k.isEncoder))
	return conds, func(v []bool) bool {
		for i := 0; i < n-2; i++ {
			if v[i] {
				return true
			}
		}
		return (v[n-2] || v[n-1]) && v[n] && !v[n+1]
	}
}

const (
	nilString = 0x80
	nilList   = 0xC0
)

func nilKindOf(str bool) *T {
	if str {
		return mkInt(nilString)
	}
	return mkInt(nilList)
}

// defaults: DefaultNilValue on its own.
func (k *tagRule) defaults(f *ssa.Function) {
	c := k.c
	r := c.analyse(f, nil)
	label := fnLabel(f)
	n := 0
	for i := range r.outs {
		o := &r.outs[i]
		if !c.ok("default", label+" returns", o.kind == outReturn, o.pos, "DefaultNilValue does not return (%s)", o.kind) {
			continue
		}
		conds, is := k.stringKind(r.in, o.st, r.in.expand(r.param(0), f.Params[0].Type()))
		cases(o.st, conds, func(st *State, v []bool) {
			n++
			c.ok("default", label, provesEq(st, o.val, nilKindOf(is(v))), o.pos, "the kind of a nil value is %v, want %v, for a type with %s", o.val, nilKindOf(is(v)), holding(conds, v))
		})
	}
	c.floor("default", "cases of a type", n, 10)
}

func holding(conds []*T, v []bool) string {
	var s []string
	for i := range conds {
		if v[i] {
			s = append(s, conds[i].String())
		}
	}
	if s == nil {
		return "none of the kinds"
	}
	return strings.Join(s, ", ")
}

// subst: a loop's variables elsewhere.
func loopSubst(l *LoopRec, st *State, phis map[*ssa.Phi]*T) map[*T]*T {
	return (&sponge{}).headSubst(l, st, phis)
}

// counts: x goes through 0, 1, 2, ... over the iterations of l.
func counts(l *LoopRec, x *T) bool {
	if l.entry.facts.decide(mkIntEq(substLin(x, loopSubst(l, l.entry, l.ePhis)), tZero)) != yes {
		return false
	}
	for _, b := range l.backs {
		if b.st.facts.decide(mkIntEq(substLin(x, loopSubst(l, b.st, b.phis)), tAddI(x, 1))) != yes {
			return false
		}
	}
	return len(l.backs) > 0
}

// etaStruct: a struct whose fields are those of one value is that value.
func etaStruct(t *T) *T {
	if t == nil || t.op != "struct" || t.typ == nil {
		return t
	}
	s, ok := t.typ.Underlying().(*types.Struct)
	if !ok || s.NumFields() != len(t.a) || len(t.a) == 0 {
		return t
	}
	var base *T
	for i, x := range t.a {
		x = etaStruct(x)
		if !x.isApp("fld:"+s.Field(i).Name()) || base != nil && x.a[0] != base {
			return t
		}
		base = x.a[0]
	}
	return base
}

func (k *tagRule) field(i *T) *T { return atTerm(newState().facts, k.all, i) }

func (k *tagRule) fld(v *T, f *types.Var) *T { return mkFldOf(k.in, nil, v, f) }

func (k *tagRule) process(f *ssa.Function) {
	c, in := k.c, k.in
	label := fnLabel(f)
	k.judged = map[*State]bool{}
	k.all, _ = subRoot(in.sliceSeq(newState(), in.expand(k.r.param(0), f.Params[0].Type())))
	n := 0
	for _, l := range k.in.loops {
		w := *k
		w.cur, w.lastOK = map[*types.Var]*T{}, map[*T]string{}
		if w.reads(l) {
			n++
			w.walk(label, l)
		}
	}
	if !c.ok("tags", label+" reads the tags", n > 0, k.r.fn.Pos(), "the parts of the rlp tag of a field, separated by commas and without the spaces around them, are not read") {
		return
	}
	// every return is one of those judged
	for i := range k.r.outs {
		o := &k.r.outs[i]
		c.ok("result", label+" judged", k.judged[o.st], o.pos, "ProcessFields can return without looking at the fields")
	}
}

// walk judges one loop over the fields, with the loop over the tags in it.
func (k *tagRule) walk(label string, l *LoopRec) {
	c, in := k.c, k.in
	k.fields = l
	if !k.find(label) {
		return
	}
	// what is collected for a field
	for _, b := range k.fields.backs {
		k.collect(label, b)
	}
	for _, b := range k.tags.backs {
		k.step(label, b.st, loopPos(k.tags), func(st *State, x *types.Var) *T {
			h := k.cur[x]
			if v := loopSubst(k.tags, b.st, b.phis)[h]; v != nil {
				return v
			}
			return h
		}, false)
	}
	z := loopSubst(k.tags, k.tags.entry, k.tags.ePhis)
	for _, x := range k.flags {
		v, ok := z[k.cur[x]]
		zero := tZero
		if isBoolT(x.Type()) {
			zero = tFalse
		}
		if !ok && k.tags.entry.heap != nil {
			v = zero // a cell nothing was stored to
		}
		c.ok("tags", label+" start "+x.Name(), v == zero, loopPos(k.tags), "%s of a field is %v before its tags are read", x.Name(), v)
	}
	errs, good := 0, 0
	for i := range k.r.outs {
		o := &k.r.outs[i]
		if !onPath(o.st, k.fields) {
			continue
		}
		k.judged[o.st] = true
		ok := o.kind == outReturn && o.val.op == "tuple" && len(o.val.a) == 3
		if !c.ok("result", label+" returns", ok, o.pos, "ProcessFields does not return (%s)", o.kind) {
			continue
		}
		if isNil(o.st, o.val.a[2]) {
			good++
			k.success(label, o)
			continue
		}
		errs++
		empty := seqLen(in.sliceSeq(o.st, o.val.a[0])) == tZero && seqLen(in.sliceSeq(o.st, o.val.a[1])) == tZero
		c.ok("result", label+" error", empty, o.pos, "fields are returned along with an error")
		if k.inside(o.st) {
			k.step(label, o.st, o.pos, nil, true)
			e := o.val.a[2]
			if c.ok("result", label+" kind of error", e.op == "iface" && e.a[0].op == "struct", o.pos, "the error for a tag is not a TagError: %v", e) {
				fn, tn := k.fld(e.a[0], k.errField), k.fld(e.a[0], k.errTag)
				c.ok("result", label+" error names the field", fn == k.fld(k.field(k.at), k.name), o.pos, "the error for a tag names %v as the field", fn)
				c.ok("result", label+" error names the tag", tn == k.part, o.pos, "the error for a tag names %v as the tag", tn)
			}
			continue
		}
		k.order(label, o)
	}
	c.floor("result", "errors", errs, 5)
	c.floor("result", "successful returns", good, 1)
	c.floor("tags", "ways to read a tag", len(k.tags.backs), 6)
}

// reads: the tags of a field are read in an iteration of this loop over the fields.
func (k *tagRule) reads(fields *LoopRec) bool {
	if fields.unrolled {
		return false
	}
	visit := func(t *T) {
		eachSub(t, func(x *T) {
			if !x.isApp("trimspace") || !x.a[0].isApp("at") || !x.a[0].a[0].isApp("split") {
				return
			}
			sp := x.a[0].a[0]
			if len(sp.a) < 2 || sp.a[1].op != "lit" || sp.a[1].s != "," {
				return
			}
			get := sp.a[0]
			if get.op != "app" || !strings.HasSuffix(get.s, "(reflect.StructTag).Get") || len(get.a) < 2 || get.a[1] != mkLit("rlp") {
				return
			}
			tg := get.a[0]
			if !tg.isApp("fld:"+k.tag.Name()) || !tg.a[0].isApp("at") || tg.a[0].a[0] != k.all || !loopHas(fields, tg.a[0].a[1]) {
				return
			}
			if k.part == nil {
				k.part, k.parts, k.partAt, k.at = x, sp, x.a[0].a[1], tg.a[0].a[1]
			}
		})
	}
	for _, l := range k.in.loops {
		for _, b := range l.backs {
			if l.unrolled {
				continue
			}
			for x := range b.st.facts.atoms {
				visit(x)
			}
		}
	}
	return k.part != nil
}

// loopHas: the term is about a variable of the loop.
func loopHas(l *LoopRec, t *T) bool {
	ok := false
	for _, h := range l.phis {
		eachSub(t, func(x *T) { ok = ok || x == h })
	}
	return ok && !l.unrolled
}

// find the loop over the tags of a field, and what is collected.
func (k *tagRule) find(label string) bool {
	c := k.c
	for _, l := range k.in.loops {
		if loopHas(l, k.partAt) {
			k.tags = l
		}
	}
	if !c.ok("tags", label+" loops", k.tags != nil && k.fields != nil && k.tags != k.fields, k.r.fn.Pos(), "the loops over the fields and over the tags of a field are not found") {
		return false
	}
	c.ok("tags", label+" every tag", counts(k.tags, k.partAt), loopPos(k.tags), "the tags of a field are not read one after the other from the first")
	c.ok("fields", label+" every field", counts(k.fields, k.at), loopPos(k.fields), "the fields are not gone through one after the other from the first")
	// the collected values
	for p, h := range k.fields.phis {
		s, ok := p.Type().Underlying().(*types.Slice)
		if !ok || h.op != "slice" {
			continue
		}
		switch n := typeKey(s.Elem()); {
		case strings.HasSuffix(n, ".Field"):
			k.outFields = h
		case strings.HasSuffix(n, ".Tags"):
			k.outTags = h
		default:
			continue
		}
		e := k.fields.ePhis[p]
		c.ok("fields", label+" start", e != nil && seqLen(k.in.sliceSeq(k.fields.entry, e)) == tZero, loopPos(k.fields), "the list of %s is not empty at the start", typeKey(s.Elem()))
	}
	if !c.ok("fields", label+" lists", k.outFields != nil && k.outTags != nil, loopPos(k.fields), "the fields and tags collected are not found") {
		return false
	}
	// the flags
	for _, b := range k.fields.backs {
		x := k.appended(b, k.outTags)
		if x == nil || !onPath(b.st, k.tags) {
			continue
		}
		for _, v := range k.flags {
			k.cur[v] = k.fld(x, v)
		}
	}
	for _, v := range k.flags {
		h := k.cur[v]
		ok := false
		if h != nil {
			for _, y := range k.tags.phis {
				ok = ok || y == h
			}
			for a, y := range k.tags.assumed.heap {
				ok = ok || y == h && k.tags.entry.heap[a] != h
			}
		}
		if !c.ok("fields", label+" "+v.Name(), ok, loopPos(k.fields), "%s of a field collected is not what its tags say: %v", v.Name(), h) {
			return false
		}
	}
	return true
}

// appended: what an iteration over the fields adds to a list, nil for nothing or if it cannot be told.
func (k *tagRule) appended(b *backEdge, head *T) *T {
	now := k.now(b, head)
	if now == nil {
		return nil
	}
	was := k.in.sliceSeq(k.fields.assumed, head)
	seq := k.in.sliceSeq(b.st, now)
	n := seqLen(was)
	if b.st.facts.decide(mkIntEq(seqLen(seq), tAddI(n, 1))) != yes || !seqEq(b.st.facts, subSeq(b.st.facts, seq, tZero, n), was) {
		return nil
	}
	return atTerm(b.st.facts, seq, n)
}

func (k *tagRule) now(b *backEdge, head *T) *T {
	for p, h := range k.fields.phis {
		if h == head {
			return b.phis[p]
		}
	}
	return nil
}

func (k *tagRule) collect(label string, b *backEdge) {
	c := k.c
	pos := loopPos(k.fields)
	f := k.field(k.at)
	exported := b.st.facts.decide(k.fld(f, k.exported))
	same := func(head *T) bool {
		now := k.now(b, head)
		return now != nil && seqEq(b.st.facts, k.in.sliceSeq(b.st, now), k.in.sliceSeq(k.fields.assumed, head))
	}
	if same(k.outFields) && same(k.outTags) {
		skip := exported == no || onPath(b.st, k.tags) && b.st.facts.decide(k.cur[k.ignored]) == yes
		c.ok("fields", label+" skips", skip, pos, "a field is left out that is exported and not tagged \"-\"")
	} else {
		ft, tt := k.appended(b, k.outFields), k.appended(b, k.outTags)
		if !c.ok("fields", label+" collects", ft != nil && tt != nil, pos, "the fields and the tags collected do not grow by one together, or what was collected before changes") {
			return
		}
		c.ok("fields", label+" field", etaStruct(ft) == f, pos, "the field collected is not the one looked at: %v", ft)
		take := exported == yes && onPath(b.st, k.tags) && b.st.facts.decide(k.cur[k.ignored]) == no
		c.ok("fields", label+" takes", take, pos, "a field is taken that is not exported or is tagged \"-\"")
		for _, v := range k.flags {
			c.ok("fields", label+" tags of the field", k.fld(tt, v) == k.cur[v], pos, "%s collected for a field is not what its tags say", v.Name())
		}
	}
	if exported != no {
		done := onPath(b.st, k.tags) && k.after(b.st)
		c.ok("tags", label+" all tags", done, pos, "not all tags of an exported field are read")
	}
	if onPath(b.st, k.tags) {
		c.ok("tags", label+" exported", exported == yes, pos, "the tags of a field that is not exported are read")
	}
}

// inside: in an iteration over the tags.
func (k *tagRule) inside(st *State) bool {
	return onPath(st, k.tags) && st.proves(mkLt(k.partAt, seqLen(k.parts)))
}

// after: all tags of the field are read.
func (k *tagRule) after(st *State) bool { return st.proves(mkLe(seqLen(k.parts), k.partAt)) }

// step: what one tag does. now gives the flags after it; nil: an error is returned.
func (k *tagRule) step(label string, st *State, pos token.Pos, now func(*State, *types.Var) *T, failed bool) {
	c := k.c
	if k.noneExported(st) {
		return
	}
	c.count("ways to read a tag", 1)
	f := k.field(k.at)
	typ := k.fld(f, k.typ)
	kd := k.fld(typ, k.kind)
	c.ok("tags", label+" of exported fields", st.facts.decide(k.fld(f, k.exported)) == yes, pos, "the tags of a field that is not exported are judged")
	names := []string{"", "-", "nil", "nilString", "nilList", "optional", "tail", "any other"}
	for i, n := range names {
		s := st.clone()
		live := true
		if i < len(names)-1 {
			live = s.assume(simplEq(k.part, mkLit(n)), true)
		} else {
			for _, m := range names[:i] {
				live = live && s.assume(simplEq(k.part, mkLit(m)), false)
			}
		}
		if !live || s.facts.dead {
			continue
		}
		verdict := func(st *State, bad bool, set map[*types.Var]*T, when string) {
			if failed || bad {
				c.ok("tags", label+" errors", failed == bad, pos, "the tag %q is %s%s", n, map[bool]string{true: "rejected", false: "accepted"}[failed], when)
				return
			}
			for _, v := range k.flags {
				want := k.cur[v]
				if set[v] != nil {
					want = set[v]
				}
				got := now(st, v)
				eq := got == want
				if !eq && got != nil && isIntTerm(got) && isIntTerm(want) {
					eq = provesEq(st, got, want)
				}
				if !eq && got != nil && isBoolT(v.Type()) {
					a, b := got, want
					eq = a == b || st.facts.decide(a) != unknown && st.facts.decide(a) == st.facts.decide(b)
				}
				c.ok("tags", label+" sets", eq, pos, "the tag %q makes %s %v, want %v%s", n, v.Name(), got, want, when)
			}
		}
		switch n {
		case "":
			verdict(s, false, nil, "")
		case "-":
			verdict(s, false, map[*types.Var]*T{k.ignored: tTrue}, "")
		case "nil", "nilString", "nilList":
			cases(s, []*T{mkIntEq(kd, mkInt(int64(reflect.Ptr)))}, func(s *State, v []bool) {
				if !v[0] {
					verdict(s, true, nil, " for a field that is not a pointer")
					return
				}
				set := map[*types.Var]*T{k.nilOK: tTrue}
				if n != "nil" || failed {
					set[k.nilKind] = nilKindOf(n == "nilString")
					verdict(s, false, set, " for a pointer")
					return
				}
				el := k.fld(typ, k.elem)
				pt := mkStruct(k.elemType(), k.load(s, el))
				conds, is := k.stringKind(k.in, s, pt)
				cases(s, conds, func(s *State, v []bool) {
					set := map[*types.Var]*T{k.nilOK: tTrue, k.nilKind: nilKindOf(is(v))}
					verdict(s, false, set, " for a pointer to a type with "+holding(conds, v))
				})
			})
		case "optional":
			cases(s, []*T{k.cur[k.tail]}, func(s *State, v []bool) {
				if v[0] {
					verdict(s, true, nil, " after tail")
					return
				}
				verdict(s, false, map[*types.Var]*T{k.optional: tTrue}, "")
			})
		case "tail":
			cases(s, []*T{k.cur[k.optional], mkIntEq(kd, mkInt(int64(reflect.Slice)))}, func(s *State, v []bool) {
				if v[0] || !v[1] {
					verdict(s, true, nil, " after optional, or for a field that is not a slice")
					return
				}
				last, why := k.isLast(s)
				if last == unknown {
					c.fail("tags", label+" last", pos, "whether the field tagged %q is the last exported one is not asked: %s", n, why)
					return
				}
				if last == no {
					verdict(s, true, nil, " for a field that is not the last exported one")
					return
				}
				verdict(s, false, map[*types.Var]*T{k.tail: tTrue}, " for the last exported field")
			})
		default:
			verdict(s, true, nil, ", an unknown one,")
		}
	}
}

func (k *tagRule) elemType() types.Type { return deref(k.elem.Type()) }

func (k *tagRule) load(st *State, ptr *T) []*T {
	s := k.elemType().Underlying().(*types.Struct)
	var fs []*T
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, k.in.loadField(st, ptr, s.Field(i)))
	}
	return fs
}

// isLast: the field looked at is the last exported one, as the path tells.
func (k *tagRule) isLast(st *State) (truth, string) {
	f := k.field(k.at)
	idx := k.fld(f, k.index)
	why := "no comparison with the last exported field"
	var try []*T
	note := func(d *T) {
		l := toLin(d)
		if l.m[idx] == nil {
			return
		}
		for x := range l.m {
			if x != idx {
				try = append(try, x)
			}
		}
	}
	for _, d := range st.facts.le {
		note(d)
	}
	for _, d := range st.facts.ne {
		note(d)
	}
	for _, x := range try {
		switch k.last(x) {
		case "":
			if d := st.facts.decide(mkIntEq(idx, x)); d != unknown {
				return d, ""
			}
		default:
			why = k.last(x)
		}
	}
	return unknown, why
}

// noneExported: the path went through all fields and found none that is exported.
func (k *tagRule) noneExported(st *State) bool {
	for _, l := range k.in.loops {
		if l.unrolled || l == k.fields || !onPath(st, l) {
			continue
		}
		for _, b := range l.backs {
			for x := range b.st.facts.atoms {
				if !x.isApp("fld:"+k.exported.Name()) || !x.a[0].isApp("at") || x.a[0].a[0] != k.all {
					continue
				}
				at := x.a[0].a[1]
				all := l.entry.facts.decide(mkIntEq(substLin(at, loopSubst(l, l.entry, l.ePhis)), tAddI(k.count(), -1))) == yes && st.proves(mkLe(tAddI(at, 1), tZero))
				for _, b := range l.backs {
					all = all && b.st.facts.decide(x) == no && b.st.facts.decide(mkIntEq(substLin(at, loopSubst(l, b.st, b.phis)), tAddI(at, -1))) == yes
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

// count is the number of fields given.
func (k *tagRule) count() *T {
	return seqLen(k.in.sliceSeq(newState(), k.in.expand(k.r.param(0), k.r.fn.Params[0].Type())))
}

// last: x is the index of the last exported field. "" if so.
func (k *tagRule) last(x *T) (why string) {
	if w, ok := k.lastOK[x]; ok {
		return w
	}
	defer func() { k.lastOK[x] = why }()
	n := k.count()
	for _, l := range k.in.loops {
		if l.unrolled {
			continue
		}
		for p, h := range l.phis {
			if h != x {
				continue
			}
			// forward: the index of the last exported one seen
			var at *T
			for _, b := range l.backs {
				v := b.phis[p]
				if v == x {
					continue
				}
				if v == nil || !v.isApp("fld:"+k.index.Name()) || !v.a[0].isApp("at") || v.a[0].a[0] != k.all {
					return "the last exported field is taken from " + v.String()
				}
				at = v.a[0].a[1]
			}
			if at == nil || !counts(l, at) {
				return "the loop that looks for it does not go over the fields from the first"
			}
			exp := k.fld(k.field(at), k.exported)
			for _, b := range l.backs {
				switch d := b.st.facts.decide(exp); {
				case b.phis[p] == x && d != no:
					return "the index of an exported field is not noted"
				case b.phis[p] != x && (d != yes || b.phis[p] != k.fld(k.field(at), k.index)):
					return "the index of a field that is not exported is noted"
				}
			}
			for _, o := range k.r.outs {
				if onPath(o.st, l) && !o.st.proves(mkLe(n, at)) {
					return "not all fields are looked at"
				}
			}
			return ""
		}
		// backward: the first exported one from the end
		if x.isApp("fld:"+k.index.Name()) && x.a[0].isApp("at") && x.a[0].a[0] == k.all {
			at := x.a[0].a[1]
			mine := false
			for _, h := range l.phis {
				eachSub(at, func(y *T) { mine = mine || y == h })
			}
			if !mine || l == k.fields {
				continue
			}
			exp := k.fld(x.a[0], k.exported)
			if l.entry.facts.decide(mkIntEq(substLin(at, loopSubst(l, l.entry, l.ePhis)), tAddI(n, -1))) != yes {
				return "the search from the end does not start with the last field"
			}
			for _, b := range l.backs {
				if b.st.facts.decide(mkIntEq(substLin(at, loopSubst(l, b.st, b.phis)), tAddI(at, -1))) != yes || b.st.facts.decide(exp) != no {
					return "the search from the end goes on past an exported field, or skips one"
				}
			}
			return ""
		}
	}
	return "what it is compared with is not the index of the last exported field: " + x.String()
}

// optionality: the field at which the order of optional fields is checked: its flags, the
// loop, and the flag "an earlier one was optional".
type optOrder struct {
	loop     *LoopRec
	at       *T
	opt, end *T
}

// orderLoop: the loop that goes over the fields taken: the loop over the fields itself or
// one over the tags collected.
func (k *tagRule) orderLoop(st *State) *optOrder {
	var best *optOrder
	tags := k.in.sliceSeq(st, k.outTags)
	root, off := subRoot(tags)
	for x := range st.facts.atoms {
		eachSub(x, func(y *T) {
			if (y.isApp("fld:"+k.optional.Name()) || y.isApp("fld:"+k.tail.Name())) && y.a[0].isApp("at") && y.a[0].a[0] == root {
				at := tSub(y.a[0].a[1], off)
				for _, l := range k.in.loops {
					for _, h := range l.phis {
						if !l.unrolled && toLin(at).m[h] != nil {
							best = &optOrder{loop: l, at: at, opt: k.fld(y.a[0], k.optional), end: k.fld(y.a[0], k.tail)}
						}
					}
				}
			}
		})
	}
	if best == nil && onPath(st, k.tags) {
		best = &optOrder{loop: k.fields, at: nil, opt: k.cur[k.optional], end: k.cur[k.tail]}
	}
	return best
}

// earlier: the flag that tells that an earlier field was optional, at the head of a loop.
func (k *tagRule) earlier(st *State, w *optOrder) (*T, string) {
	why := "nothing tells whether an earlier field was optional"
	for p, h := range w.loop.phis {
		if !isBoolT(p.Type()) {
			continue
		}
		if w.loop.ePhis[p] != tFalse {
			continue
		}
		bad := ""
		for _, b := range w.loop.backs {
			v := b.phis[p]
			if w.at == nil && k.skipped(b) {
				if v != h && !sameBool(b.st, v, h) {
					bad = "the flag changes for a field that is left out"
				}
				continue
			}
			cases(b.st, []*T{h, w.opt, w.end}, func(s *State, c []bool) {
				if want := truthOf(c[0] || c[1] || c[2]); s.facts.decide(v) != want {
					bad = "the flag for an earlier optional field is not set by every optional or tail field, or set by another"
				}
			})
		}
		if bad == "" {
			return h, ""
		}
		why = bad
	}
	return nil, why
}

func sameBool(st *State, a, b *T) bool {
	return a == b || st.facts.decide(a) != unknown && st.facts.decide(a) == st.facts.decide(b)
}

func (k *tagRule) skipped(b *backEdge) bool {
	now := k.now(b, k.outTags)
	return now != nil && seqEq(b.st.facts, k.in.sliceSeq(b.st, now), k.in.sliceSeq(k.fields.assumed, k.outTags))
}

// order: an error that is not about one tag is about a field after an optional one.
func (k *tagRule) order(label string, o *Outcome) {
	c := k.c
	w := k.orderLoop(o.st)
	if !c.ok("order", label+" error", w != nil, o.pos, "an error is returned that is neither about a tag nor about a field after an optional one: %v", o.val.a[2]) {
		return
	}
	p, why := k.earlier(o.st, w)
	if !c.ok("order", label+" earlier", p != nil, loopPos(w.loop), "%s", why) {
		return
	}
	d := o.st.facts.decide
	ok := d(p) == yes && d(w.opt) == no && d(w.end) == no
	c.ok("order", label+" error only then", ok, o.pos, "fields are rejected though no field follows an optional one without being optional or the tail")
	if w.at == nil {
		c.ok("order", label+" of a field taken", d(k.cur[k.ignored]) == no, o.pos, "a field that is left out is rejected")
	}
}

func (k *tagRule) success(label string, o *Outcome) {
	c, in := k.c, k.in
	all := onPath(o.st, k.fields) && o.st.proves(mkLe(k.count(), k.at))
	c.ok("fields", label+" all fields", all, o.pos, "the fields are returned before all of them are looked at")
	for i, h := range []*T{k.outFields, k.outTags} {
		same := seqEq(o.st.facts, in.sliceSeq(o.st, o.val.a[i]), in.sliceSeq(k.fields.assumed, h))
		c.ok("result", label+" lists", same, o.pos, "what is returned is not the %s collected", []string{"fields", "tags"}[i])
	}
	// every field was checked against the earlier ones
	var found *optOrder
	for _, l := range k.in.loops {
		if l.unrolled || !onPath(o.st, l) {
			continue
		}
		for _, b := range l.backs {
			w := k.orderLoop(b.st)
			if w == nil || w.loop != l {
				continue
			}
			if p, _ := k.earlier(b.st, w); p != nil {
				found = w
			}
		}
	}
	if !c.ok("order", label+" checked", found != nil, o.pos, "fields are returned without a check that no field follows an optional one without being optional or the tail") {
		return
	}
	p, _ := k.earlier(o.st, found)
	for _, b := range found.loop.backs {
		if found.at == nil && k.skipped(b) {
			continue
		}
		cases(b.st, []*T{p, found.opt, found.end}, func(s *State, v []bool) {
			c.ok("order", label+" error", !v[0] || v[1] || v[2], loopPos(found.loop), "a field that is not optional is accepted after an optional one")
		})
	}
	if found.at != nil {
		n := seqLen(in.sliceSeq(k.fields.assumed, k.outTags))
		m := seqLen(in.sliceSeq(k.fields.assumed, k.outFields))
		ok := counts(found.loop, found.at) && (o.st.proves(mkLe(n, found.at)) || o.st.proves(mkLe(m, found.at)) && o.st.proves(mkLe(n, m)))
		c.ok("order", label+" all", ok, loopPos(found.loop), "not all fields are checked against the earlier ones")
	}
}
