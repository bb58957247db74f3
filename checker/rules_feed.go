package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["E01"] = ruleFeedSend
}

func ghostCounter(name string) *T { return mkApp("ghostc", types.Typ[types.Int], mkLit(name)) }

func (c *callCtx) bump(g *T, n int64) {
	v := c.st.heap[g]
	if v == nil {
		v = tZero
	}
	c.st.set(g, tAddI(v, n))
}

var gDelivered = ghostCounter("delivered")

// feedHook counts deliveries in a ghost cell and splits the two kinds of
// outcome of a selection.
func feedHook(c *callCtx) []Outcome {
	switch c.callee() {
	case "(reflect.Value).TrySend":
		ev := func(ok *T) func(c *callCtx) []Outcome {
			return func(c *callCtx) []Outcome {
				c.ev("trysend", "", c.args, ok)
				if ok == tTrue {
					c.bump(gDelivered, 1)
				}
				return c.ret(ok)
			}
		}
		return c.fork(ev(tTrue), ev(tFalse))
	case "reflect.Select":
		sl := c.args[0]
		alt := func(del bool) func(c *callCtx) []Outcome {
			return func(c *callCtx) []Outcome {
				in := c.in
				q := in.sliceSeq(c.st, sl)
				i := tZero
				name := "remove"
				if del {
					in.nfresh++
					i = mkSym(fmt.Sprintf("chosen#%d", in.nfresh), types.Typ[types.Int])
					f := c.st.WF()
					f.le = append(f.le, tSub(tOne, i), tSub(tAddI(i, 1), sl.a[2]))
					name = "deliver"
					c.bump(gDelivered, 1)
				}
				in.nfresh++
				v := mkTuple(i, mkApp("rvrecv", nil, mkInt(int64(in.nfresh))), mkSym(fmt.Sprintf("rok#%d", in.nfresh), types.Typ[types.Bool]))
				c.ev("rselect", name, []*T{sl, q}, v)
				return c.ret(v)
			}
		}
		if sl.op != "slice" {
			return nil
		}
		return c.fork(alt(false), alt(true))
	}
	return nil
}

type feedRule struct {
	c     *Check
	r     *Run
	label string
	cases *types.Var
	inbox *types.Var
	recv  *T
	et    types.Type // element type of the case list
}

func isDelivery(e *Event) bool {
	return e.kind == "trysend" && e.res == tTrue || e.kind == "rselect" && e.name == "deliver"
}

func ruleFeedSend(c *Check) {
	for _, owner := range []string{"Feed", "FeedOf"} {
		fn := c.fn("event", owner+".Send")
		cases, inbox := c.p.fieldOf("event."+owner, "sendCases"), c.p.fieldOf("event."+owner, "inbox")
		if fn == nil || cases == nil || inbox == nil {
			c.fail("anchor", owner+".Send", 0, "the send operation or its case lists cannot be found")
			continue
		}
		st := newState()
		st.set(gDelivered, tZero)
		r := c.analyseFrom(st, fn, nil, nil, withTokens(c.p), withHook(feedHook))
		fr := &feedRule{c: c, r: r, label: "event." + owner + ".Send", cases: cases, inbox: inbox, recv: r.param(0)}
		fr.et = elemType(cases.Type())
		fr.run(fn)
	}
}

// param is the term of the i-th parameter of the analysed root.
func (r *Run) param(i int) *T {
	p := r.fn.Params[i]
	return mkSym(p.Name(), p.Type())
}

func (f *feedRule) run(fn *ssa.Function) {
	c, in := f.c, f.r.in
	nret := 0
	recs := map[*LoopRec]*deliveryLoop{}
	for _, l := range in.loops {
		if d := f.deliveryLoop(l); d != nil {
			recs[l] = d
		}
	}
	for _, o := range f.r.outs {
		if o.kind != outReturn {
			continue
		}
		nret++
		c.ok("count", f.label+" result", o.st.proves(mkIntEq(o.val, o.st.heap[gDelivered])), o.pos, "the returned number is not shown to be the number of deliveries made: returns %v after %v deliveries", o.val, o.st.heap[gDelivered])
		loops := loopsOf(o.st)
		var last *deliveryLoop
		first := true
		for i, l := range loops {
			if d := recs[l]; d != nil {
				if first {
					f.atStart(l, loops[:i])
				}
				first = false
				last = d
			}
		}
		if last == nil {
			c.fail("complete", f.label+" return", o.pos, "a path returns without trying to deliver")
			continue
		}
		c.ok("complete", f.label+" return", last.x != nil && o.st.proves(mkIntEq(last.x.head, tOne)), o.pos, "Send returns although cases other than the removal case may be left")
		f.atEnd(o, loops)
		if owner := f.recv; owner != nil {
			for e := o.st.ev; e != nil && e.kind != "loop"; e = e.prev {
				if isDelivery(e) {
					c.fail("complete", f.label+" return", e.pos, "a delivery after the last loop")
				}
			}
		}
	}
	c.count("return_paths", nret)
	c.count("delivery_loops", len(recs))
	c.floor("count", "return paths of "+f.label, nret, 1)
	c.floor("slot", "delivery loops of "+f.label, len(recs), 1)
}

type deliveryLoop struct {
	x *loopVar // number of active cases
}

// deliveryLoop checks every iteration of a loop that delivers: a delivery takes
// exactly the delivered case out of the active cases, a removal takes exactly
// the case of the removed channel out of the list, nothing else changes them.
func (f *feedRule) deliveryLoop(l *LoopRec) *deliveryLoop {
	c, in := f.c, f.r.in
	relevant := false
	for _, b := range l.backs {
		for _, e := range own(l, b) {
			if e.kind == "trysend" || e.kind == "rselect" {
				relevant = true
			}
		}
	}
	if !relevant {
		return nil
	}
	d := &deliveryLoop{}
	// the active count: the variable whose changes account for every iteration
	type step struct {
		ev    *Event
		after func(x, want *T) *T
	}
	for _, v := range in.loopVars(l) {
		good := true
		for i, b := range l.backs {
			want := f.wantActive(l, b, v)
			if want == nil || !b.st.proves(mkIntEq(v.backs[i], want)) {
				good = false
				break
			}
		}
		if good {
			d.x = v
			break
		}
	}
	where := fmt.Sprintf("%s loop in %s", f.label, fnLabel(l.fn))
	if !c.ok("active", where, d.x != nil, l.header.Instrs[0].Pos(), "no variable of this loop accounts for the cases still to be served on every iteration (a delivery must retire exactly one case, a removal of a case still to be served one, anything else none)") {
		return d
	}
	for _, b := range l.backs {
		evs := own(l, b)
		nd := 0
		for _, e := range evs {
			switch {
			case e.kind == "trysend":
				f.checkTry(l, b, d, e)
			case e.kind == "rselect":
				f.checkSelect(where, e)
			}
			if isDelivery(e) {
				nd++
				f.checkSlot(where, l, b, e)
			}
			if e.kind == "rselect" && e.name == "remove" {
				f.checkRemove(where, b, e)
			}
		}
		if nd == 0 && !hasKind(evs, "rselect", "remove") {
			// nothing happened: the list is as before
			before := l.assumed
			for _, e := range evs {
				if e.kind == "loop" {
					before = nil
				}
			}
			if before != nil {
				f.samePrefix(where, before, b.st)
			}
		}
	}
	return d
}

func hasKind(es []*Event, kind, name string) bool {
	for _, e := range es {
		if e.kind == kind && (name == "" || e.name == name) {
			return true
		}
	}
	return false
}

// wantActive is the active count expected at the end of an iteration.
func (f *feedRule) wantActive(l *LoopRec, b *backEdge, v *loopVar) *T {
	evs := own(l, b)
	x := v.head
	for i, e := range evs {
		switch {
		case e.kind == "loop":
			// an inner loop may have moved the count: the next selection says where it stands
			x = nil
			for _, e2 := range evs[i:] {
				if e2.kind == "rselect" {
					x = e2.args[0].a[2]
					break
				}
			}
			if x == nil {
				for _, iv := range f.r.in.loopVars(e.loop) {
					if iv.entry != nil && iv.entry == v.head {
						x = iv.head
					}
				}
			}
			if x == nil {
				x = v.head
			}
		case isDelivery(e):
			if x == nil {
				return nil
			}
			if e.kind == "rselect" {
				x = e.args[0].a[2]
			}
			x = tAddI(x, -1)
		case e.kind == "rselect": // a removal
			idx := f.removedIndex(b.st, e)
			if idx == nil {
				return nil
			}
			n := e.args[0].a[2]
			switch b.st.facts.decide(mkLt(idx, n)) {
			case yes:
				x = tAddI(n, -1)
			case no:
				x = n
			default:
				return nil
			}
			return x
		}
	}
	return x
}

// removedIndex is the position whose channel was found equal to the one
// received on the removal channel.
func (f *feedRule) removedIndex(st *State, e *Event) *T {
	rv := e.res.a[1]
	for a, v := range st.facts.atoms {
		if !v || a.s != "eq" && a.op != "eq" || len(a.a) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			if !occurs(a.a[k], rv) {
				continue
			}
			if at := findAt(a.a[1-k]); at != nil {
				return at.a[1]
			}
		}
	}
	return nil
}

func findAt(t *T) *T {
	var r *T
	anyTerm(t, func(x *T) bool {
		if x.isApp("at") {
			r = x
			return true
		}
		return false
	})
	return r
}

// list is the feed's case list in a state: its slice and content.
func (f *feedRule) list(st *State) (sl, content *T) {
	sl = f.r.in.loadField(st, f.recv, f.cases)
	if sl.op != "slice" {
		return sl, nil
	}
	return sl, f.r.in.content(st, sl.a[0])
}

func chanSlot(ch *T) (seq, idx *T) {
	if ch.isApp("fld:Chan") && ch.a[0].isApp("at") {
		return ch.a[0].a[0], ch.a[0].a[1]
	}
	return nil, nil
}

func (f *feedRule) checkTry(l *LoopRec, b *backEdge, d *deliveryLoop, e *Event) {
	st := stAt(e)
	_, i := chanSlot(e.args[0])
	ok := i != nil && st.proves(mkLe(tOne, i)) && st.proves(mkLt(i, d.x.head))
	f.c.ok("slot", f.label+" non-blocking send", ok, e.pos, "the value is offered to something that is not shown to be an active subscriber case (slot %v of %v)", i, d.x.head)
	if i != nil {
		_, cont := f.list(st)
		f.c.ok("slot", f.label+" non-blocking send uses the case list", cont != nil && st.facts.rep(e.args[0].a[0].a[0]) == cont, e.pos, "the channel is not taken from the current case list")
	}
	f.c.ok("value", f.label+" non-blocking send", f.isValueOf(e.args[1], st), e.pos, "something other than the argument is sent: %v", e.args[1])
}

// isValueOf: the reflected argument of Send.
func (f *feedRule) isValueOf(v *T, st *State) bool {
	arg := f.r.param(1)
	if v.isApp("rvalue") && v.a[0] == arg {
		return true
	}
	if v.isApp("call:(reflect.Value).Elem") && v.a[0].isApp("rvalue") && v.a[0].a[0].op == "iface" {
		p := v.a[0].a[0].a[0] // reflect.ValueOf(&x).Elem() is x
		return p.op == "alloc" && st.heap[p] == arg
	}
	return false
}

func (f *feedRule) checkSelect(where string, e *Event) {
	st := stAt(e)
	sl, cont := f.list(st)
	a := e.args[0]
	f.c.ok("slot", where+" selection", cont != nil && a.a[0] == sl.a[0] && st.proves(mkIntEq(a.a[1], sl.a[1])), e.pos, "the selection is not over a prefix of the case list")
}

// checkSlot: after a delivery on slot i of n active cases, the first n-1 slots
// hold the other active cases and the list as a whole is a permutation.
func (f *feedRule) checkSlot(where string, l *LoopRec, b *backEdge, e *Event) {
	in := f.r.in
	st0 := stAt(e)
	_, c0 := f.list(st0)
	_, c1 := f.list(b.st)
	var i, n *T
	if e.kind == "trysend" {
		_, i = chanSlot(e.args[0])
		d := f.deliveryActive(l)
		if d != nil {
			n = d.head
		}
	} else {
		i, n = e.res.a[0], e.args[0].a[2]
	}
	if i == nil || n == nil || c0 == nil || c1 == nil {
		f.c.fail("slot", where+" "+e.kind, e.pos, "the delivered slot cannot be identified")
		return
	}
	last := tAddI(n, -1)
	facts := b.st.facts
	eq := func(fx *Facts, p, q *T) bool { return in.elem(fx, c1, p, f.et) == in.elem(fx, c0, q, f.et) }
	swap := func() bool {
		if !eq(facts, last, i) {
			return false
		}
		if facts.decide(mkIntEq(i, last)) != yes {
			fx := facts.clone()
			if fx.assume(mkIntEq(i, last), false) && !eq(fx, i, last) {
				return false
			}
		}
		fx := facts.clone()
		in.nfresh++
		k := mkSym(fmt.Sprintf("anyslot#%d", in.nfresh), types.Typ[types.Int])
		fx.le = append(fx.le, tNeg(k))
		return !fx.assume(mkIntEq(k, i), false) || !fx.assume(mkIntEq(k, last), false) || eq(fx, k, k)
	}
	f.c.ok("slot", where+" "+e.kind, swap(), e.pos, "after a delivery the delivered case is not the one taken out of the active cases (slot %v of %v): content %v", i, n, c1)
}

func (f *feedRule) deliveryActive(l *LoopRec) *loopVar {
	for _, v := range f.r.in.loopVars(l) {
		good := true
		for i, b := range l.backs {
			want := f.wantActive(l, b, v)
			if want == nil || !b.st.proves(mkIntEq(v.backs[i], want)) {
				good = false
				break
			}
		}
		if good {
			return v
		}
	}
	return nil
}

// checkRemove: the case of the removed channel leaves the list, the rest stays
// in order.
func (f *feedRule) checkRemove(where string, b *backEdge, e *Event) {
	st0 := stAt(e)
	sl0, c0 := f.list(st0)
	sl1, c1 := f.list(b.st)
	idx := f.removedIndex(b.st, e)
	ok := idx != nil && c0 != nil && c1 != nil
	if ok {
		ok = f.deleted(b.st, sl0, c0, sl1, c1, idx)
	}
	f.c.ok("removal", where, ok, e.pos, "a removal during a send does not take exactly the removed channel's case out of the list: %v", sl1)
}

// deleted: the list in the second state is the first with element idx left out.
func (f *feedRule) deleted(st *State, sl0, c0, sl1, c1, idx *T) bool {
	fx := st.facts
	n := sl0.a[2]
	if !st.proves(mkIntEq(sl1.a[2], tAddI(n, -1))) {
		return false
	}
	lo0, lo1 := sl0.a[1], sl1.a[1]
	new1 := subSeq(fx, c1, lo1, tAdd(lo1, sl1.a[2]))
	want := mkCat(subSeq(fx, c0, lo0, tAdd(lo0, idx)), subSeq(fx, c0, tAdd(lo0, tAddI(idx, 1)), tAdd(lo0, n)))
	return new1 == want
}

func (f *feedRule) samePrefix(where string, a, b *State) {
	sl0, c0 := f.list(a)
	sl1, c1 := f.list(b)
	f.c.ok("slot", where+" no delivery", sl0 == sl1 && c0 == c1, 0, "the case list changes although nothing was delivered or removed")
}

// atStart: when delivery starts the list is the old list followed by the
// inbox, the inbox is empty, and every subscriber case carries the value.
func (f *feedRule) atStart(l *LoopRec, before []*LoopRec) {
	in := f.r.in
	st := l.entry
	sl, _ := f.list(st)
	ib := in.loadField(st, f.recv, f.inbox)
	pos := l.header.Instrs[0].Pos()
	if sl.op != "slice" || ib.op != "slice" {
		f.c.fail("merge", f.label, pos, "the case list has no known shape when delivery starts")
		return
	}
	fill := f.fillLoop(before, st, sl.a[2], func(v *T) bool { return f.isValueOf(v, st) })
	f.c.ok("value", f.label+" prepares every case", fill != nil, pos, "not every subscriber case is given the value before the selection")
	m := st
	if fill != nil {
		m = fill.entry
	}
	_, cont := f.list(m)
	seq := subSeq(m.facts, cont, sl.a[1], tAdd(sl.a[1], sl.a[2]))
	ok := seq.op == "cat" && len(seq.a) == 2 && f.partOf(seq.a[0], f.cases) && f.partOf(seq.a[1], f.inbox) || seq.op == "cat" && len(seq.a) > 2 && f.partOf(seq.a[len(seq.a)-1], f.inbox)
	if !ok { // the list was just created
		ok = f.freshMerge(m, seq)
	}
	f.c.ok("merge", f.label+" list", ok, pos, "when delivery starts the case list is not the previous list followed by all new subscriptions: %v", seq)
	f.c.ok("merge", f.label+" inbox", m.proves(mkIntEq(ib.a[2], tZero)), pos, "the merged subscriptions stay in the inbox, they would be added again by the next send")
	if dl := f.deliveryActive(l); dl != nil && dl.entry != nil {
		f.c.ok("merge", f.label+" active", st.proves(mkIntEq(dl.entry, sl.a[2])), pos, "delivery starts with %v active cases of %v", dl.entry, sl.a[2])
	}
}

func (f *feedRule) freshMerge(st *State, seq *T) bool {
	if seq.op == "cat" && len(seq.a) == 2 {
		return seq.a[0].op == "seq" && f.partOf(seq.a[1], f.inbox)
	}
	return false
}

// partOf: the whole content a field had.
func (f *feedRule) partOf(t *T, v *types.Var) bool {
	if t.op == "sub" {
		if t.a[1] != tZero {
			return false
		}
		n := t.a[2]
		t = t.a[0]
		if !n.isApp("len") || !isFieldInit(n.a[0], f.recv, v) {
			return false
		}
	}
	for t.isApp("init") || t.isApp("rgn") {
		if isFieldInit(t, f.recv, v) {
			return true
		}
		t = t.a[0]
	}
	return false
}

func isFieldInit(t, recv *T, v *types.Var) bool {
	return t.isApp("init") && t.a[0].op == "field" && t.a[0].v == any(v) && t.a[0].a[0] == recv
}

// fillLoop finds, among the loops passed, one that gives .Send of every slot in
// [1, n) a value, as its last word on the list before st.
func (f *feedRule) fillLoop(loops []*LoopRec, st *State, n *T, good func(*T) bool) *LoopRec {
	in := f.r.in
	for k := len(loops) - 1; k >= 0; k-- {
		l := loops[k]
		_, c0 := f.list(l.assumed)
		if c0 == nil || len(l.backs) == 0 {
			continue
		}
		var idx *T
		ok := true
		for _, b := range l.backs {
			_, c1 := f.list(b.st)
			if c1 == nil || c1.op != "upd" || c1.a[0] != c0 {
				ok = false
				break
			}
			was, is := in.elem(b.st.facts, c0, c1.a[1], f.et), c1.a[2]
			si := fieldIdx(f.et, "Send")
			for j := range is.a {
				if j == si && !good(is.a[j]) || j != si && is.a[j] != was.a[j] {
					ok = false
				}
			}
			idx = c1.a[1]
		}
		if !ok || idx == nil {
			continue
		}
		// idx runs 1, 2, ... and the loop is left only at n
		for _, v := range in.loopVars(l) {
			off := tSub(idx, v.head)
			if !off.isInt() || v.entry == nil {
				continue
			}
			start := tAdd(v.entry, off)
			if !l.entry.proves(mkIntEq(start, tOne)) {
				continue
			}
			all := true
			for i := range l.backs {
				if v.backs[i] != tAddI(v.head, 1) {
					all = false
				}
			}
			if all && st.proves(mkLe(n, tAdd(v.head, off))) {
				return l
			}
		}
	}
	return nil
}

func fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// atEnd: the delivered value is not kept.
func (f *feedRule) atEnd(o Outcome, loops []*LoopRec) {
	sl, _ := f.list(o.st)
	if sl.op != "slice" {
		f.c.fail("forget", f.label, o.pos, "the case list has no known shape when Send returns")
		return
	}
	l := f.fillLoop(loops, o.st, sl.a[2], func(v *T) bool { return v.op == "app" && strings.HasPrefix(v.s, "zero:") })
	f.c.ok("forget", f.label+" return", l != nil, o.pos, "the value stays referenced by the feed after Send")
}
