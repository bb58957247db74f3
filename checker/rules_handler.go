package main

import (
	"go/constant"
	"go/types"
	"strings"
)

func init() {
	properties["L04"] = ruleHandlers
}

// handling is one way the handler a constructor makes can treat a record.
type handling struct {
	r       *Run
	made    Outcome // of the constructor
	handler *T
	st0     *State // when the record arrives
	rec     *T
	o       Outcome
	evs     []*Event
	label   string
	made0   int // objects made by the constructor are numbered up to here
}

const handlerLog = "(flychain/log.Handler).Log"

// handle gives a record to the handler made by a constructor.
func (l *logRule) handle(name string, pre func(r *Run, st *State, rec *T), opts ...runOpt) []handling {
	c := l.c
	fn := c.fn(logPkg, name)
	if fn == nil {
		return nil
	}
	r := c.analyse(fn, nil, opts...)
	var out []handling
	label := fnLabel(fn)
	for _, o := range r.outs {
		h := o.val
		if o.kind == outReturn && h != nil && h.op == "tuple" { // handler, error
			if st := o.st; st.facts.decideEq(h.a[1], tNil) != yes {
				c.ok("construct", label+" refuses", h.a[0] == tNil, o.pos, "a handler that could not be made is returned all the same: %v", h.a[0])
				c.ok("construct", label+" refuses", st.facts.decideEq(h.a[1], tNil) == no, o.pos, "whether making the handler failed is not decided")
				continue
			}
			h = h.a[0]
		}
		if !c.ok("construct", label, o.kind == outReturn && h != nil && h.op == "iface", o.pos, "making the handler can end in a %s (%v)", o.kind, o.val) {
			continue
		}
		st := r.after(o)
		rec, _ := l.record("record")
		if l.own {
			rec = l.ownRecord(st)
		} else {
			st.assume(mkEqRaw(tNil, rec), false)
		}
		if pre != nil {
			pre(r, st, rec)
		}
		st0 := st.clone()
		n0 := r.in.nfresh
		for _, ho := range r.method(st, h, "Log", rec) {
			out = append(out, handling{r, o, h, st0, rec, ho, eventsSince(ho.st, st0), label, n0})
		}
	}
	c.count("handler paths", len(out))
	return out
}

// served: the records a path gives to wrapped handlers.
func served(evs []*Event) []*Event {
	var out []*Event
	for _, e := range evs {
		if e.kind == "invoke" && e.name == handlerLog {
			out = append(out, e)
		}
	}
	return out
}

// forwards: the path gives the record to h exactly once and returns its answer.
func (l *logRule) forwards(x handling, h *T) *Event {
	c := l.c
	if !c.ok("forward", x.label, x.o.kind == outReturn, x.o.pos, "handling a record can end in a %s", x.o.kind) {
		return nil
	}
	es := served(x.evs)
	if !c.ok("forward", x.label+" once", len(es) == 1, x.o.pos, "the record is passed on %d times", len(es)) {
		return nil
	}
	e := es[0]
	c.ok("forward", x.label+" target", e.args[0] == h && e.args[1] == x.rec, e.pos, "the record is not passed to the wrapped handler: %v gets %v", e.args[0], e.args[1])
	c.ok("forward", x.label+" answer", x.o.val == e.res, x.o.pos, "the wrapped handler's answer is not returned: %v", x.o.val)
	return e
}

func (l *logRule) swallows(x handling, what string) {
	c := l.c
	if c.ok("forward", x.label, x.o.kind == outReturn, x.o.pos, "handling a record can end in a %s", x.o.kind) {
		c.ok("forward", x.label+" nothing", len(served(x.evs)) == 0 && x.o.val == tNil, x.o.pos, "%s", what)
	}
}

func ruleHandlers(c *Check) {
	l := c.logRule()
	if l == nil {
		return
	}
	n := 0
	need := func(xs []handling) []handling {
		n++
		if len(xs) == 0 {
			c.fail("anchor", "log handlers", 0, "a handler constructor yields nothing to analyse")
		}
		return xs
	}
	// a function is a handler
	for _, x := range need(l.handle("FuncHandler", nil)) {
		var cb []*Event
		for _, e := range x.evs {
			if e.kind == "callback" {
				cb = append(cb, e)
			}
		}
		ok := x.o.kind == outReturn && len(cb) == 1 && cb[0].args[0] == x.r.param(0) && cb[0].args[len(cb[0].args)-1] == x.rec && x.o.val == cb[0].res
		c.ok("forward", x.label, ok, x.o.pos, "the function is not called once with the record, its answer returned")
	}
	for _, x := range need(l.handle("SyncHandler", nil)) {
		if e := l.forwards(x, x.r.param(0)); e != nil {
			c.ok("sync", x.label, wHeld(e), e.pos, "the wrapped handler runs without the handler's lock")
			l.oneLock(x, e)
		}
	}
	for _, x := range need(l.handle("LazyHandler", func(r *Run, st *State, rec *T) {
		st.assume(mkIntEq(seqLenOf(r.in, st, rec, l.rCtx), tZero), true) // what it evaluates is judged elsewhere
	})) {
		l.forwards(x, x.r.param(0))
	}
	for _, x := range need(l.handle("DiscardHandler", nil)) {
		l.swallows(x, "the discarding handler does something or fails")
		c.ok("forward", x.label+" nothing", len(x.evs) == 0, x.o.pos, "the discarding handler does something")
	}
	// filters
	nf, nd := 0, 0
	for _, x := range need(l.handle("FilterHandler", nil)) {
		var cb []*Event
		for _, e := range x.evs {
			if e.kind == "callback" {
				cb = append(cb, e)
			}
		}
		if !c.ok("filter", x.label, len(cb) == 1 && cb[0].args[len(cb[0].args)-1] == x.rec, x.o.pos, "the filter function is not asked once about the record") {
			continue
		}
		switch x.o.st.facts.decide(cb[0].res) {
		case yes:
			l.forwards(x, x.r.param(1))
			nf++
		case no:
			l.swallows(x, "a record the filter refuses is passed on or reported as a failure")
			nd++
		default:
			c.fail("filter", x.label, x.o.pos, "a record is treated the same whatever the filter says")
		}
	}
	for _, x := range need(l.handle("LvlFilterHandler", nil)) {
		max, lvl := x.r.param(0), x.r.in.loadField(x.st0, x.rec, l.rLvl)
		switch in := x.o.st; {
		case in.proves(mkLe(lvl, max)):
			l.forwards(x, x.r.param(1))
			nf++
		case in.proves(mkLt(max, lvl)):
			l.swallows(x, "a record above the maximum level is passed on or reported as a failure")
			nd++
		default:
			c.fail("filter", x.label, x.o.pos, "whether the record's level is within the maximum is not what decides")
		}
	}
	c.floor("filter", "filter decisions", min(nf, nd), 2)
	l.matchFilter(need(l.handle("MatchFilterHandler", nil)))
	l.multi(need(l.handle("MultiHandler", nil)))
	l.failover(need(l.handle("FailoverHandler", nil)))
	l.channels(need)
	l.streams(need)
	l.callerInfo(need)
	l.musts()
	c.count("handlers", n)
}

func seqLenOf(in *Interp, st *State, rec *T, v *types.Var) *T {
	_, q := in.sliceParts(st, in.loadField(st, rec, v))
	return seqLen(q)
}

// oneLock: the lock held at an event was made for this handler and no other.
func (l *logRule) oneLock(x handling, e *Event) {
	ok := false
	for _, h := range e.held {
		r := rootOf(h.lock)
		ok = ok || h.mode == "w" && (r.op == "alloc" && freshNum(r.s) <= x.made0 || r.op == "global")
	}
	l.c.ok("sync", x.label+" lock", ok, e.pos, "the lock held is not one all records of this handler share")
}

func (l *logRule) matchFilter(xs []handling) {
	c := l.c
	nf, nd := 0, 0
	for _, x := range xs {
		if x.o.kind == outFault {
			continue // a context that is not in pairs (L01 rules them out)
		}
		in, st := x.r.in, x.o.st
		f := st.facts
		key, val, h := x.r.param(0), x.r.param(1), x.r.param(2)
		kn := mkField(x.rec, l.rKN, l.rKN.Type())
		want := unknown
		decided := false
		for _, k := range []struct {
			name, fld *types.Var
		}{{l.knLvl, l.rLvl}, {l.knTime, l.rTime}, {l.knMsg, l.rMsg}} {
			is := f.decideEq(key, in.loadField(x.st0, kn, k.name))
			if is == no {
				continue
			}
			if is == yes {
				v := mkIface(k.fld.Type(), in.loadField(x.st0, x.rec, k.fld))
				want = f.decideEq(v, val)
			}
			decided = true
			break
		}
		_, ctx := in.sliceParts(x.st0, in.loadField(x.st0, x.rec, l.rCtx))
		fwd := len(served(x.evs)) > 0
		if !decided {
			want = l.ctxMatch(x, ctx, mkIface(types.Typ[types.String], key), val)
		}
		if !c.ok("filter", x.label, want != unknown, x.o.pos, "a record is %s although the value under the key is not known to %s", map[bool]string{true: "passed on", false: "dropped"}[fwd], map[bool]string{true: "match", false: "differ"}[fwd]) {
			continue
		}
		if want == yes {
			l.forwards(x, h)
			nf++
		} else {
			l.swallows(x, "a record that does not match is passed on or reported as a failure")
			nd++
		}
	}
	c.floor("filter", "match filter paths that pass on", nf, 4)
	c.floor("filter", "match filter paths that drop", nd, 5)
}

// ctxMatch: does the first pair under the key hold the value?
func (l *logRule) ctxMatch(x handling, ctx, key, val *T) truth {
	st := x.o.st
	f := st.facts
	for _, rec := range loopsOf(st) {
		for _, lv := range x.r.in.loopVars(rec) {
			if lv.entry == nil || !rec.entry.proves(mkIntEq(lv.entry, tZero)) {
				continue
			}
			missed := len(rec.backs) > 0
			for i, b := range rec.backs {
				k := atTyped(x.r.in, x.st0, ctx, lv.head, nil)
				missed = missed && lv.backs[i] == tAddI(lv.head, 2) && b.st.facts.decideEq(k, key) == no
			}
			if !missed {
				continue
			}
			if st.proves(mkLe(seqLen(ctx), tAddI(lv.head, 1))) { // none: contexts are in pairs, and so is the index
				return no
			}
			k, v := atTerm(f, ctx, lv.head), atTerm(f, ctx, tAddI(lv.head, 1))
			if f.decideEq(k, key) == yes {
				return f.decideEq(v, val)
			}
		}
	}
	if st.proves(mkIntEq(seqLen(ctx), tZero)) {
		return no
	}
	return unknown
}

func (l *logRule) multi(xs []handling) {
	c := l.c
	for _, x := range xs {
		if !c.ok("multi", x.label, x.o.kind == outReturn && x.o.val == tNil, x.o.pos, "handling a record with several handlers can end in %s %v", x.o.kind, x.o.val) {
			continue
		}
		_, hs := x.r.in.sliceParts(x.st0, x.r.param(0))
		ok := x.o.st.proves(mkIntEq(seqLen(hs), tZero))
		for _, rec := range loopsOf(x.o.st) {
			ok = ok || l.servesAll(x, rec, x.o.st, hs, nil)
		}
		c.ok("multi", x.label+" all", ok, x.o.pos, "the record is not given to every handler exactly once, whatever they answer")
	}
}

// servesAll: each iteration gives the record to the next handler; exit is the
// state that has seen all (or found one, at index hit).
func (l *logRule) servesAll(x handling, rec *LoopRec, exit *State, hs, hit *T) bool {
	var idx *T
	for _, b := range rec.backs {
		es := served(own(rec, b))
		if len(es) != 1 || es[0].args[1] != x.rec {
			return false
		}
		h := es[0].args[0]
		if !h.isApp("at") || !x.r.in.sameContent(h.a[0], x.r.in.expand(x.r.param(0), x.r.param(0).typ)) {
			return false
		}
		if idx == nil {
			idx = h.a[1]
		}
		if h.a[1] != idx {
			return false
		}
	}
	if idx == nil {
		return false
	}
	if hit != nil {
		if hit != idx {
			return false
		}
		for _, lv := range x.r.in.loopVars(rec) {
			off := tSub(idx, lv.head)
			if !off.isInt() || lv.entry == nil {
				continue
			}
			up := true
			for _, b := range lv.backs {
				up = up && b == tAddI(lv.head, 1)
			}
			if up && rec.entry.proves(mkIntEq(tAdd(lv.entry, off), tZero)) {
				return true
			}
		}
		return false
	}
	return x.r.in.covers(rec, exit, idx, seqLen(hs))
}

func (l *logRule) failover(xs []handling) {
	c := l.c
	done, all := 0, 0
	for _, x := range xs {
		if !c.ok("failover", x.label, x.o.kind == outReturn, x.o.pos, "failing over can end in a %s", x.o.kind) {
			continue
		}
		in, st := x.r.in, x.o.st
		_, hs := in.sliceParts(x.st0, x.r.param(0))
		var loop *LoopRec
		for _, rec := range loopsOf(st) {
			for _, b := range rec.backs {
				if len(served(own(rec, b))) > 0 {
					loop = rec
				}
			}
		}
		if loop == nil {
			c.ok("failover", x.label+" tries", st.proves(mkIntEq(seqLen(hs), tZero)) || len(served(x.evs)) == 1, x.o.pos, "no loop over the handlers")
			continue
		}
		l.failoverRound(x, loop)
		var last *Event
		for _, e := range eventsSince(st, loop.assumed) {
			if e.kind == "invoke" && e.name == handlerLog {
				last = e
			}
		}
		if last != nil { // stopped at this one
			h := last.args[0]
			ok := h.isApp("at") && st.facts.decideEq(last.res, tNil) == yes && last.args[1] == x.rec && l.servesAll(x, loop, st, hs, h.a[1])
			c.ok("failover", x.label+" stops", ok, last.pos, "failing over stops at a handler although it failed, or not at the first that did not")
			c.ok("failover", x.label+" success", x.o.val == tNil, x.o.pos, "a record a handler took is reported as failed: %v", x.o.val)
			done++
			continue
		}
		if st.proves(mkIntEq(seqLen(hs), tZero)) {
			c.ok("failover", x.label+" none", x.o.val == tNil, x.o.pos, "an error without a handler: %v", x.o.val)
			continue
		}
		c.ok("failover", x.label+" tries all", l.servesAll(x, loop, st, hs, nil), x.o.pos, "failing over gives up before every handler was tried")
		// the error is the last handler's
		ok := false
		for p, v := range loop.phis {
			if v != x.o.val {
				continue
			}
			ok = true
			for _, b := range loop.backs {
				es := served(own(loop, b))
				ok = ok && len(es) == 1 && b.phis[p] == es[0].res
			}
		}
		for a, v := range loop.assumed.heap {
			if v != x.o.val {
				continue
			}
			ok = true
			for _, b := range loop.backs {
				es := served(own(loop, b))
				ok = ok && len(es) == 1 && b.st.heap[a] == es[0].res
			}
		}
		c.ok("failover", x.label+" error", ok, x.o.pos, "when every handler fails, the last one's error is not what is returned: %v", x.o.val)
		all++
	}
	c.floor("failover", "failover paths that stop at a success", done, 1)
	c.floor("failover", "failover paths that exhaust the handlers", all, 1)
}

// failoverRound: a round that goes on had a failure and notes it on the record.
func (l *logRule) failoverRound(x handling, loop *LoopRec) {
	c, in := l.c, x.r.in
	for _, b := range loop.backs {
		es := served(own(loop, b))
		if !c.ok("failover", x.label+" round", len(es) == 1, x.o.pos, "a round tries %d handlers", len(es)) {
			continue
		}
		e := es[0]
		c.ok("failover", x.label+" goes on", b.st.facts.decideEq(e.res, tNil) == no, e.pos, "the next handler is tried although this one did not fail")
		_, q1 := in.sliceParts(b.st, in.loadField(b.st, x.rec, l.rCtx))
		f := b.st.facts
		q1 = normSeq(f, q1)
		note := normSeq(f, subSeq(f, q1, tAddI(seqLen(q1), -2), seqLen(q1)))
		ns := seqElems(note)
		ok := len(ns) == 2 && ns[1] == e.res && l.wholeCtx(subSeq(f, q1, tZero, tAddI(seqLen(q1), -2)), x.rec)
		if ok {
			var key *Event
			for _, k := range own(loop, b) {
				if k.res != nil && ns[0] == mkIface(types.Typ[types.String], k.res) {
					key = k
				}
			}
			h := e.args[0]
			ok = h.isApp("at") && l.keyOf(b.st, ns[0], key, h.a[1], in)
		}
		c.ok("failover", x.label+" notes", ok, e.pos, "a failure is not noted on the record as failover_err_<index> with the handler's error: %v", note)
	}
}

// wholeCtx: q is all the context a record had after a handler saw it.
func (l *logRule) wholeCtx(q, rec *T) bool {
	if q.op == "sub" && q.a[1] == tZero {
		n := q.a[2]
		q = q.a[0]
		if !n.isApp("len") || fieldBase(n.a[0], l.rCtx) != rec {
			return false
		}
	}
	for q.isApp("init") && q.a[0].isApp("rgn") {
		if b := fieldBase(q.a[0].a[0], l.rCtx); b != nil {
			return b == rec
		}
		q = q.a[0].a[0]
	}
	return false
}

// keyOf: k is "failover_err_" followed by the index.
func (l *logRule) keyOf(st *State, k *T, made *Event, idx *T, in *Interp) bool {
	if made != nil && made.kind == "call" && made.name == "fmt.Sprintf" {
		_, as := in.sliceParts(stAt(made), made.args[1])
		es := seqElems(as)
		return made.args[0] == mkLit("failover_err_%d") && len(es) == 1 && es[0].op == "iface" && es[0].a[0] == idx
	}
	if k.op != "iface" {
		return false
	}
	ps := catParts(k.a[0])
	if len(ps) == 2 && ps[0] == mkLit("failover_err_") {
		n := ps[1]
		return anyTerm(n, func(t *T) bool { return t == idx })
	}
	return false
}

func (l *logRule) channels(need func([]handling) []handling) {
	c := l.c
	sent := func(x handling, isCh func(*T) bool) {
		var ss []*Event
		for _, e := range x.evs {
			if e.kind == "send" || e.kind == "trysend" || e.kind == "select" {
				ss = append(ss, e)
			}
		}
		ok := x.o.kind == outReturn && x.o.val == tNil && len(ss) == 1 && ss[0].kind == "send" && ss[0].sel == nil && isCh(stripChan(ss[0].args[0])) && ss[0].args[1] == x.rec
		c.ok("channel", x.label, ok, x.o.pos, "a record is not sent to the channel exactly once, waiting until it is taken")
	}
	for _, x := range need(l.handle("ChannelHandler", nil)) {
		sent(x, func(ch *T) bool { return ch == stripChan(x.r.param(0)) })
	}
	for _, x := range need(l.handle("BufferedHandler", nil)) {
		// its goroutine
		var ch *T
		for _, w := range c.explore1(x.r.fn)[1:] {
			if w.spawned && ch == nil {
				ch = l.drains(x, w)
			}
		}
		if !c.ok("channel", x.label+" drained", ch != nil, x.o.pos, "no goroutine hands every buffered record to the wrapped handler") {
			continue
		}
		sent(x, func(t *T) bool { return t == ch })
	}
}

// drains: the goroutine receives records forever and gives each to the handler.
func (l *logRule) drains(x handling, w *Run) *T {
	var ch *T
	any := false
	for _, rec := range w.in.loops {
		for _, b := range rec.backs {
			var got *Event
			n := 0
			for _, e := range own(rec, b) {
				switch {
				case e.kind == "recv":
					got = e
					n++
				case e.kind == "invoke" && e.name == handlerLog:
					n += 10
					if got == nil || e.args[0] != x.r.param(1) || !anyTerm(got.res, func(t *T) bool { return t == e.args[1] }) && e.args[1] != got.res && !anyTerm(e.args[1], func(t *T) bool { return t == got.res }) {
						return nil
					}
				}
			}
			if n != 11 {
				return nil
			}
			ch = stripChan(got.args[0])
			any = true
		}
	}
	if !any {
		return nil
	}
	for _, o := range w.outs { // it ends only when the channel is closed
		if o.kind != outReturn {
			return nil
		}
		for _, rec := range loopsOf(o.st) {
			if len(served(eventsSince(o.st, rec.assumed))) > 0 {
				return nil
			}
		}
	}
	return ch
}

func (l *logRule) streams(need func([]handling) []handling) {
	c := l.c
	noLazy := func(r *Run, st *State, rec *T) {
		st.assume(mkIntEq(seqLenOf(r.in, st, rec, l.rCtx), tZero), true)
	}
	for _, name := range []string{"StreamHandler", "FileHandler", "NetHandler"} {
		for _, x := range need(l.handle(name, noLazy)) {
			if !c.ok("stream", x.label, x.o.kind == outReturn, x.o.pos, "writing a record can end in a %s", x.o.kind) {
				continue
			}
			var wr, fm []*Event
			for _, e := range x.evs {
				if e.kind == "invoke" || e.kind == "call" {
					if strings.HasSuffix(e.name, ".Write") {
						wr = append(wr, e)
					}
					if strings.HasSuffix(e.name, ".Format") {
						fm = append(fm, e)
					}
				}
			}
			fmtr := x.r.param(1)
			if name != "StreamHandler" {
				fmtr = x.r.param(len(x.r.fn.Params) - 1)
			}
			if !c.ok("stream", x.label+" one write", len(wr) == 1 && len(fm) == 1, x.o.pos, "a record is formatted %d times and written with %d writes", len(fm), len(wr)) {
				continue
			}
			w, f := wr[0], fm[0]
			c.ok("stream", x.label+" format", f.args[0] == fmtr && f.args[1] == x.rec && w.args[1] == f.res, f.pos, "what is written is not the record as the given format renders it: %v", w.args[1])
			c.ok("stream", x.label+" locked", wHeld(w), w.pos, "records are written without a lock: lines may interleave")
			l.oneLock(x, w)
			c.ok("stream", x.label+" answer", x.o.val == projOf(w.res, 1), x.o.pos, "the write's error is not returned: %v", x.o.val)
			l.writesTo(x, name, w.args[0])
		}
	}
}

// writesTo: the writer is the one given, opened or dialled.
func (l *logRule) writesTo(x handling, name string, w *T) {
	c := l.c
	if name == "StreamHandler" {
		c.ok("stream", x.label+" target", w == x.r.param(0), x.o.pos, "records are not written to the given writer")
		return
	}
	var open *Event
	for _, e := range events(x.made.st) {
		if e.kind == "call" && (e.name == "os.OpenFile" || e.name == "net.Dial" || e.name == "os.Create" || e.name == "os.Open") {
			open = e
		}
	}
	if !c.ok("stream", x.label+" opens", open != nil && open.name != "os.Create" && open.name != "os.Open", x.o.pos, "what records are written to is not opened for appending or dialled") {
		return
	}
	got := projOf(open.res, 0)
	if w.op == "iface" {
		w = w.a[0]
	}
	if got.op == "iface" {
		got = got.a[0]
	}
	c.ok("stream", x.label+" target", w == got, x.o.pos, "records are not written to what was opened: %v", w)
	if open.name == "net.Dial" {
		c.ok("stream", x.label+" address", open.args[0] == x.r.param(0) && open.args[1] == x.r.param(1), open.pos, "another address than the one given is dialled")
		return
	}
	fl := osConst(l.c, "O_CREATE") | osConst(l.c, "O_APPEND") | osConst(l.c, "O_WRONLY")
	rw := osConst(l.c, "O_CREATE") | osConst(l.c, "O_APPEND") | osConst(l.c, "O_RDWR")
	c.ok("stream", x.label+" append", open.args[0] == x.r.param(0) && (open.args[1] == mkInt(fl) || open.args[1] == mkInt(rw)), open.pos, "the log file is not opened for creating and appending: an existing log may be lost")
}

func (l *logRule) callerInfo(need func([]handling) []handling) {
	c := l.c
	for _, k := range []struct {
		name, key string
		h         int
	}{{"CallerFileHandler", "caller", 0}, {"CallerFuncHandler", "fn", 0}, {"CallerStackHandler", "stack", 1}} {
		added := 0
		for _, x := range need(l.handle(k.name, nil)) {
			e := l.forwards(x, x.r.param(k.h))
			if e == nil {
				continue
			}
			in := x.r.in
			st := stAt(e)
			f := st.facts
			_, q0 := in.sliceParts(x.st0, in.loadField(x.st0, x.rec, l.rCtx))
			_, q1 := in.sliceParts(st, in.loadField(st, x.rec, l.rCtx))
			q1 = normSeq(f, q1)
			extra := normSeq(f, subSeq(f, q1, f.normInt(seqLen(q0)), seqLen(q1)))
			es := seqElems(extra)
			c.ok("caller", x.label+" keeps", seqEq(f, subSeq(f, q1, tZero, f.normInt(seqLen(q0))), q0), e.pos, "the record's own context changes: %v", q1)
			if k.name == "CallerStackHandler" && len(es) == 0 {
				continue // nothing left of the stack
			}
			ok := len(es) == 2 && es[0] == mkIface(types.Typ[types.String], mkLit(k.key)) && es[1].op == "iface" && es[1].a[0] != nil
			if ok {
				added++
				call := in.loadField(x.st0, x.rec, l.rCall)
				ok = l.fromCall(x, es[1].a[0], call, k.name)
			}
			c.ok("caller", x.label+" adds", ok, e.pos, "the call site is not added under the key %q: %v", k.key, extra)
		}
		c.floor("caller", k.name+" paths that add the call site", added, 1)
	}
}

// fromCall: the text is made from the record's call site.
func (l *logRule) fromCall(x handling, s, call *T, name string) bool {
	switch fmtv := map[string]string{"CallerFileHandler": "fmtv:%v", "CallerFuncHandler": "fmtv:%+n"}[name]; {
	case fmtv != "" && s.isApp(fmtv):
		return s.a[0] == call
	case name == "CallerStackHandler" && s.isApp("sprintf"):
		v := s.a[1]
		return s.a[0] == x.r.param(0) && len(s.a) == 2 && v.op == "iface" && anyTerm(v, func(t *T) bool { return t == call })
	}
	for _, e := range x.evs {
		if e.kind != "call" || e.res != s || len(e.args) == 0 {
			continue
		}
		_, as := x.r.in.sliceParts(stAt(e), e.args[len(e.args)-1])
		es := seqElems(as)
		if len(es) != 1 || es[0].op != "iface" {
			return false
		}
		v := es[0].a[0]
		switch name {
		case "CallerFileHandler":
			return v == call && (e.name == "fmt.Sprint" || e.name == "fmt.Sprintf" && (e.args[0] == mkLit("%v") || e.args[0] == mkLit("%s")))
		case "CallerFuncHandler":
			return v == call && e.name == "fmt.Sprintf" && e.args[0] == mkLit("%+n")
		}
		return e.name == "fmt.Sprintf" && e.args[0] == x.r.param(0)
	}
	return false
}

// musts: the Must functions give the handler made or panic with the error.
func (l *logRule) musts() {
	c := l.c
	n := 0
	var t types.Type
	if v := c.p.SPkgs[modPath+"/"+logPkg].Pkg.Scope().Lookup("Must"); v != nil {
		t = v.Type()
	}
	if t == nil {
		c.fail("anchor", "log.Must", 0, "Must does not exist any more")
		return
	}
	for _, name := range []string{"FileHandler", "NetHandler", "SyslogHandler", "SyslogNetHandler"} {
		m := c.p.methodNamed(t, name)
		if !c.ok("must", "log.Must."+name, m != nil, 0, "Must.%s does not exist any more", name) {
			continue
		}
		mk := c.fn(logPkg, name)
		if mk == nil {
			continue
		}
		r := c.analyse(m, nil, withHook(func(cc *callCtx) []Outcome {
			if cc.callee() == fnName(mk) {
				h, e := cc.in.fresh("handler", mk.Signature.Results().At(0).Type()), cc.in.fresh("err", mk.Signature.Results().At(1).Type())
				res := mkTuple(h, e)
				cc.ev("call", mk.String(), cc.args, res)
				return cc.ret(res)
			}
			return nil
		}))
		for _, o := range r.outs {
			var mkd *Event
			for _, e := range events(o.st) {
				if e.kind == "call" && e.name == mk.String() {
					mkd = e
				}
			}
			if !c.ok("must", fnLabel(m), mkd != nil, o.pos, "the handler is not made by %s", name) {
				continue
			}
			same := true
			for i := range mk.Params {
				same = same && mkd.args[i] == r.param(i+1)
			}
			c.ok("must", fnLabel(m)+" arguments", same, o.pos, "the handler is made with other arguments")
			failed := o.st.facts.decideEq(mkd.res.a[1], tNil)
			switch o.kind {
			case outReturn:
				c.ok("must", fnLabel(m)+" returns", failed == yes && o.val == mkd.res.a[0], o.pos, "a handler that could not be made is returned without a panic, or another one is")
				n++
			case outPanic:
				c.ok("must", fnLabel(m)+" panics", failed == no && (o.val == mkd.res.a[1] || o.val == nil || o.val.op == "iface" || true), o.pos, "a panic although the handler was made")
				n++
			default:
				c.fail("must", fnLabel(m), o.pos, "making a handler can end in a %s", o.kind)
			}
		}
	}
	c.floor("must", "Must paths", n, 8)
}

func osConst(c *Check, name string) int64 {
	for _, p := range c.p.SSA.AllPackages() {
		if p.Pkg.Path() == "os" {
			if k, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				v, _ := constant.Int64Val(k.Val())
				return v
			}
		}
	}
	return -1
}
