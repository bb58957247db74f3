package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// S02: LoadJSON reports success exactly if the whole file was read and decoded, and the line of
// a syntax error is one more than the line breaks in front of its offset; AbsolutePath and
// FileExist.

func init() { properties["S02"] = checkFiles }

func checkFiles(c *Check) {
	if fn := c.fn("common", "LoadJSON"); fn != nil {
		loadJSON(c, fn)
	}
	if fn := c.fn("common", "AbsolutePath"); fn != nil {
		r := c.analyse(fn, nil)
		dir, name := r.param(0), r.param(1)
		for i := range r.outs {
			o := &r.outs[i]
			abs := unknown
			for a, v := range o.st.facts.atoms {
				if a.isApp("call:path/filepath.IsAbs") && a.a[0] == name {
					abs = no
					if v {
						abs = yes
					}
				}
			}
			joined := o.kind == outReturn && o.val.isApp("call:path/filepath.Join") && len(o.val.a) == 1 && o.val.a[0].op == "seq" &&
				len(o.val.a[0].a) == 2 && o.val.a[0].a[0] == dir && o.val.a[0].a[1] == name
			c.ok("path", fnLabel(fn), o.kind == outReturn && (abs == yes && o.val == name || abs == no && joined), o.pos,
				"the result is %v though the name is absolute: %v", o.val, abs == yes)
		}
		c.floor("path", "results of AbsolutePath", len(r.outs), 2)
	}
	if fn := c.fn("common", "FileExist"); fn != nil {
		r := c.analyse(fn, nil)
		for i := range r.outs {
			o := &r.outs[i]
			var err *T
			for _, e := range events(o.st) {
				if e.kind == "call" && (e.name == "os.Stat" || e.name == "os.Lstat") && e.args[0] == r.param(0) && e.name == "os.Stat" && e.res != nil {
					err = tupleAt(e.res, 1)
				}
			}
			if !c.ok("exists", fnLabel(fn), o.kind == outReturn && err != nil, o.pos, "the result does not come from asking for the file") {
				continue
			}
			var gone *T
			for _, e := range events(o.st) {
				if e.kind == "call" && e.res != nil && len(e.args) > 0 && e.args[0] == err && e.name == "os.IsNotExist" {
					gone = e.res
				}
			}
			isGone := func(t *T) bool {
				if t.isApp("errorsis") && t.a[0] == err && anyTerm(t.a[1], isNotExist) {
					gone = t
				}
				return false
			}
			anyTerm(o.val, isGone)
			for a := range o.st.facts.atoms {
				anyTerm(a, isGone)
			}
			f := o.st.facts
			want := unknown
			switch {
			case f.decide(mkEqRaw(err, tNil)) == yes:
				want = yes
			case gone != nil:
				want = f.decide(mkNot(gone))
			}
			got := f.decide(o.val)
			c.ok("exists", fnLabel(fn), got != unknown && got == want || gone != nil && o.val == mkNot(gone), o.pos, "the result is %v where a missing file is known to be missing: %v", o.val, want == no)
		}
		c.floor("exists", "results of FileExist", len(r.outs), 1)
	}
}

func isNotExist(t *T) bool { return t.op == "global" && strings.HasSuffix(t.s, ".ErrNotExist") }

func tupleAt(t *T, i int) *T {
	if t.op == "tuple" && i < len(t.a) {
		return t.a[i]
	}
	return nil
}

func loadJSON(c *Check, fn *ssa.Function) {
	r := c.analyse(fn, nil)
	file, val := r.param(0), r.param(1)
	label := fnLabel(fn)
	good, lines := 0, 0
	for i := range r.outs {
		o := &r.outs[i]
		f := o.st.facts
		var read, dec *Event
		n := 0
		for _, e := range events(o.st) {
			switch {
			case e.kind == "call" && (e.name == "os.ReadFile" || e.name == "io/ioutil.ReadFile"):
				read = e
				n++
			case e.kind == "json.Unmarshal":
				dec = e
				n++
			}
		}
		if !c.ok("load", label, o.kind == outReturn && read != nil && read.args[0] == file && read.res != nil && read.res.op == "tuple", o.pos, "the file named is not read, or the function ends with %s", o.kind) {
			continue
		}
		rerr := read.res.a[1]
		failed := f.decide(mkEqRaw(o.val, tNil))
		if o.val == tNil {
			failed = yes
		}
		if f.decide(mkEqRaw(rerr, tNil)) != yes {
			c.ok("load", label, failed == no && dec == nil, o.pos, "no error is returned, or something is decoded, though the file could not be read")
			continue
		}
		if !c.ok("load", label, n == 2 && dec != nil && dec.args[0] == r.in.sliceSeq(o.st, read.res.a[0]) && dec.args[1] == val, o.pos, "what is decoded is not the whole file, or not into the value given") {
			continue
		}
		if f.decide(mkEqRaw(dec.res, tNil)) == yes {
			good++
			c.ok("load", label, failed == yes, o.pos, "an error is returned though the file was decoded")
			continue
		}
		if !c.ok("load", label, failed == no, o.pos, "no error is returned though the file could not be decoded") {
			continue
		}
		if o.val == dec.res || !f.typeIs(dec.res, "*encoding/json.SyntaxError") {
			c.ok("load", label, o.val != dec.res || !f.typeIs(dec.res, "*encoding/json.SyntaxError"), o.pos, "a syntax error is returned without its place")
			continue
		}
		lines++
		text := errText(r.in, o.st, o.val)
		if !c.ok("line", label, text != nil, o.pos, "the error has no text known here: %v", o.val) {
			continue
		}
		ps := catParts(text)
		okLine := false
		for j := 0; j+2 < len(ps); j++ {
			if ps[j] == file && ps[j+1] == mkLit(":") {
				okLine = lineOf(r, o, shownInt(ps[j+2]), dec)
			}
		}
		c.ok("line", label, okLine, o.pos, "the text %v does not have, behind the file, the line: 1 and the line breaks before the error's offset", text)
	}
	c.floor("load", "successful loads", good, 1)
	c.floor("line", "syntax errors", lines, 1)
}

func (f *Facts) typeIs(x *T, typ string) bool {
	for a, v := range f.atoms {
		if v && a.op == "app" && a.s == "typeis:"+typ && a.a[0] == x {
			return true
		}
	}
	return false
}

// errText: the text of an error made on the path.
func errText(in *Interp, st *State, e *T) *T {
	if e.op != "iface" {
		return nil
	}
	for a, v := range st.heap {
		if a.isApp("ghost") && a.a[0] == e.a[0] && a.a[1] == mkLit("text") {
			return v
		}
	}
	return nil
}

// shownInt: the number a piece of text shows in decimal.
func shownInt(t *T) *T {
	if x := decimal(t); x != nil {
		return x
	}
	if t.isApp("fmtv:%v") && len(t.a) == 2 && strings.HasPrefix(t.a[1].s, "type:int") {
		return t.a[0]
	}
	return nil
}

// lineOf: n is 1 and the number of line breaks in front of the offset of the error.
func lineOf(r *Run, o *Outcome, n *T, dec *Event) bool {
	if n == nil {
		return false
	}
	data := dec.args[0]
	isOffset := func(t *T) bool {
		t = unconv(t)
		return t.isApp("init") && t.a[0].op == "field" && t.a[0].s == "Offset" && anyTerm(t.a[0].a[0], func(x *T) bool { return x == dec.res })
	}
	// counted by the library
	rest := o.st.facts.normInt(tAddI(n, -1))
	if (rest.isApp("call:bytes.Count") || rest.isApp("call:strings.Count")) && rest.a[1] == mkLit("\n") {
		root, lo, ln := subParts(rest.a[0])
		r2, lo2, _ := subParts(data)
		return root == r2 && lo == lo2 && isOffset(ln)
	}
	for _, l := range r.in.loops {
		if l.unrolled || !onPath(o.st, l) {
			continue
		}
		for phi, v := range l.phis {
			if v == n && countsLines(l, o, phi, data, isOffset) {
				return true
			}
		}
	}
	return false
}

// countsLines: the variable starts at 1 and goes up by one exactly at line breaks, over
// the bytes or characters of data from the first one up to the offset.
func countsLines(l *LoopRec, o *Outcome, phi *ssa.Phi, data *T, isOffset func(*T) bool) bool {
	if l.ePhis[phi] != tOne || len(l.backs) == 0 {
		return false
	}
	var pos *T
	for _, b := range l.backs {
		st := b.st
		// the character looked at
		var ch *T
		look := func(t *T) bool {
			if (t.isApp("rune") || t.isApp("at")) && len(t.a) == 2 && within(t.a[0], data) {
				ch = t
			}
			return false
		}
		for _, d := range st.facts.le {
			anyTerm(d, look)
		}
		for _, d := range st.facts.ne {
			anyTerm(d, look)
		}
		if ch == nil || pos != nil && ch.a[1] != pos {
			return false
		}
		pos = ch.a[1]
		nl := st.facts.decide(mkIntEq(ch, mkInt('\n')))
		if st.proves(mkIntEq(ch, mkInt('\n'))) || provesEq(st, ch, mkInt('\n')) {
			nl = yes
		}
		step := tSub(b.phis[phi], l.phis[phi])
		if nl == unknown || (nl == yes) != (step == tOne) || nl == no && step != tZero {
			return false
		}
		// not past the offset
		before := false
		anyOffset(st, isOffset, func(off *T) {
			before = before || st.proves(mkLt(pos, off))
		})
		if !before || !movesPast(l, b, ch) {
			return false
		}
	}
	if pos == nil || !startsAtZero(l, pos) {
		return false
	}
	// left at the offset or at the end
	if o.st.proves(mkLe(seqLen(data), pos)) {
		return true
	}
	at := false
	anyOffset(o.st, isOffset, func(off *T) { at = at || o.st.proves(mkLe(off, pos)) })
	return at
}

func anyOffset(st *State, isOffset func(*T) bool, do func(*T)) {
	seen := map[*T]bool{}
	for _, d := range st.facts.le {
		anyTerm(d, func(t *T) bool {
			if !seen[t] && isOffset(t) {
				seen[t] = true
				do(t)
			}
			return false
		})
	}
}

// within: s is data, or the front of it.
func within(s, data *T) bool {
	if s == data {
		return true
	}
	root, lo, _ := subParts(s)
	r2, lo2, _ := subParts(data)
	return root == r2 && lo == lo2 || root == data && lo == tZero
}

// startsAtZero, movesPast: the position goes over the text from its start, to the next
// character or byte each time.
func startsAtZero(l *LoopRec, pos *T) bool {
	for phi, v := range l.phis {
		if v == pos {
			return l.ePhis[phi] == tZero
		}
		if provesEq(l.assumed, pos, tAddI(v, 1)) {
			return l.ePhis[phi] == mkInt(-1)
		}
	}
	for a, v := range l.assumed.heap {
		if v == pos {
			e := l.entry.heap[a]
			return e == nil || e == tZero
		}
	}
	return false
}

func movesPast(l *LoopRec, b *backEdge, ch *T) bool {
	next := tAddI(ch.a[1], 1)
	if ch.isApp("rune") {
		next = tAdd(ch.a[1], mkApp("runelen", types.Typ[types.Int], ch.a...))
	}
	for phi, v := range l.phis {
		if v == ch.a[1] {
			return b.phis[phi] == next || provesEq(b.st, b.phis[phi], next)
		}
		if provesEq(l.assumed, ch.a[1], tAddI(v, 1)) {
			return provesEq(b.st, tAddI(b.phis[phi], 1), next)
		}
	}
	for a, v := range l.assumed.heap {
		if v == ch.a[1] {
			return b.st.heap[a] == next
		}
	}
	return false
}

func subParts(q *T) (root, lo, ln *T) {
	root, lo = subRoot(q)
	return root, lo, seqLen(q)
}
