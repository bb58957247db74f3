package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["E03"] = ruleProducerSub
	properties["E08"] = ruleResubscribe
}

// ctorSub analyses a constructor of a subscription: its result, the goroutine
// it starts and its Unsubscribe and Err, all on the same object.
type ctorSub struct {
	c       *Check
	label   string
	ctor    *Run
	out     Outcome
	sub     *T // the object
	err     *T // its error channel
	workers []*Run
	unsub   *Run
}

func (c *Check) subscriptionOf(name string) *ctorSub {
	fn := c.fn("event", name)
	if fn == nil {
		return nil
	}
	s := &ctorSub{c: c, label: "event." + name}
	runs := c.explore1(fn, withTokens(c.p), withHook(clockHook))
	s.ctor = runs[0]
	n := 0
	for _, o := range s.ctor.outs {
		if o.kind == outReturn {
			s.out = o
			n++
		}
	}
	if !c.ok("shape", s.label+" result", n == 1 && s.out.val.op == "iface" && s.out.val.a[0].op == "alloc", fn.Pos(), "the constructor does not return one new subscription object on its single path") {
		return nil
	}
	s.sub = s.out.val.a[0]
	for _, r := range runs[1:] {
		if r.spawned {
			s.workers = append(s.workers, r)
		}
	}
	um, em := c.p.methodNamed(s.out.val.typ, "Unsubscribe"), c.p.methodNamed(s.out.val.typ, "Err")
	if um == nil || em == nil {
		c.fail("anchor", s.label, fn.Pos(), "the subscription has no analysable Unsubscribe or Err")
		return nil
	}
	st := s.ctor.after(s.out)
	er := c.analyseFrom(st.clone(), em, []*T{s.sub}, nil)
	for _, o := range er.outs {
		if o.kind == outReturn {
			ch := er.in.chanOf(o.st, o.val)
			if s.err == nil {
				s.err = ch
			}
			c.ok("shape", s.label+" Err", ch.op == "mkchan" && ch == s.err, em.Pos(), "Err does not always return the one channel made with the subscription: %v", ch)
		}
	}
	if s.err == nil {
		return nil
	}
	s.unsub = c.analyseFrom(st, um, []*T{s.sub}, nil, withTokens(c.p))
	return s
}

// explore1 analyses one root and the goroutines started on the way.
func (c *Check) explore1(fn *ssa.Function, opts ...runOpt) []*Run {
	var only []*Run
	for _, r := range c.explore([]*ssa.Function{fn}, nil, opts...) {
		only = append(only, r)
	}
	return only
}

func countEv(evs []*Event, f func(*Event) bool) int {
	n := 0
	for _, e := range evs {
		if f(e) {
			n++
		}
	}
	return n
}

func onChan(kind string, ch *T) func(*Event) bool {
	return func(e *Event) bool { return e.kind == kind && len(e.args) > 0 && stripChan(e.args[0]) == ch }
}

func stripChan(ch *T) *T {
	for ch.isApp("ctype") {
		ch = ch.a[0]
	}
	return ch
}

func ruleProducerSub(c *Check) {
	s := c.subscriptionOf("NewSubscription")
	if s == nil {
		return
	}
	producer := s.ctor.param(0)
	gos := countEv(events(s.out.st), func(e *Event) bool { return e.kind == "go" })
	c.ok("producer", s.label+" goroutine", gos == 1 && len(s.workers) == 1, s.out.pos, "the producer must be started exactly once, in its own goroutine (%d started)", gos)
	c.ok("errors", s.label+" error channel", s.err.a[0].isInt() && s.err.a[0] != tZero, s.out.pos, "the error channel must have room for the producer's error, or the producer's goroutine blocks until somebody reads it")

	// Unsubscribe
	var stop *T // the channel that tells the producer to stop
	var flags []*T
	neff, nnop := 0, 0
	for _, o := range s.unsub.outs {
		evs := events(o.st)
		if !c.ok("unsubscribe", s.label+" Unsubscribe", o.kind == outReturn, o.pos, "Unsubscribe can end in a %s", o.kind) {
			continue
		}
		closes := countEv(evs, func(e *Event) bool { return e.kind == "close" })
		waits := 0
		var closeEv, waitEv *Event
		for _, e := range evs {
			if e.kind == "close" {
				closeEv = e
			}
			if onChan("recv", s.err)(e) {
				waitEv = e
				waits++
			}
		}
		fl := s.setFlags(o.st)
		if closes == 0 {
			nnop++
			ok := false
			for _, a := range s.boolCells(o.st) {
				if v := o.st.facts.rep(initOf(o.st, a)); v == tTrue {
					ok = true
				}
				_ = a
			}
			ok = ok || len(s.trueFlags(o.st)) > 0
			c.ok("unsubscribe", s.label+" Unsubscribe again", ok && waits == 0, o.pos, "a path of Unsubscribe does not stop the producer although it was not stopped before")
			continue
		}
		neff++
		stop = stripChan(closeEv.args[0])
		c.ok("unsubscribe", s.label+" Unsubscribe closes once", closes == 1 && stop.op == "mkchan" && stop != s.err, closeEv.pos, "Unsubscribe must close the producer's stop channel, once, and nothing else")
		c.ok("unsubscribe", s.label+" Unsubscribe waits", waits == 1 && evN(waitEv) > evN(closeEv), o.pos, "Unsubscribe must return only when the producer has finished")
		if flags == nil {
			flags = fl
		}
		c.ok("unsubscribe", s.label+" Unsubscribe marks", len(fl) > 0, o.pos, "nothing records that the subscription was ended, a second Unsubscribe would close the channel again")
		if closeEv != nil && len(fl) > 0 {
			ok := false
			for _, a := range fl {
				if v := closeEvGuard(o.st, a); v {
					ok = true
				}
			}
			c.ok("unsubscribe", s.label+" Unsubscribe once", ok, closeEv.pos, "the stop channel is closed without checking that it was not closed before")
		}
	}
	c.floor("unsubscribe", "effective and repeated paths of Unsubscribe", min(neff, nnop), 1)

	// the producer's goroutine
	for _, w := range s.workers {
		wl := s.label + " producer goroutine"
		delivered := 0
		for _, o := range w.outs {
			evs := events(o.st)
			var call, snd, cls *Event
			ncall, nsend, nclose := 0, 0, 0
			for _, e := range evs {
				switch {
				case e.kind == "callback" && e.args[0] == producer:
					call = e
					ncall++
				case onChan("send", s.err)(e):
					snd = e
					nsend++
				case onChan("close", s.err)(e):
					cls = e
					nclose++
				}
			}
			c.ok("producer", wl+" runs it", ncall == 1, o.pos, "the producer is called %d times", ncall)
			c.ok("closed", wl+" end", nclose == 1, o.pos, "the error channel is closed %d times when the producer ends", nclose)
			if call == nil || cls == nil {
				continue
			}
			c.ok("producer", wl+" stop channel", stop != nil && stripChan(call.args[1]) == stop, call.pos, "the producer does not get the channel that Unsubscribe closes")
			c.ok("closed", wl+" last", o.st.ev == cls || onlyUnlocks(o.st.ev, cls), cls.pos, "the goroutine still does something after closing the error channel")
			c.ok("errors", wl+" at most one", nsend <= 1, o.pos, "more than one error is sent")
			was := flagValue(o.st, flags)
			failed := o.st.facts.decideEq(call.res, tNil)
			switch {
			case nsend == 1:
				delivered++
				c.ok("errors", wl+" error", snd.args[1] == call.res, snd.pos, "the error sent is not the producer's: %v", snd.args[1])
				c.ok("errors", wl+" non-nil error", failed == no, snd.pos, "a nil error is sent on the channel")
				c.ok("errors", wl+" not after Unsubscribe", was == no, snd.pos, "an error is sent although Unsubscribe may have been called")
				c.ok("errors", wl+" ends the subscription", marked(o.st, flags), snd.pos, "a later Unsubscribe would take the error from the channel instead of its reader")
			default:
				c.ok("errors", wl+" no error", failed == yes || was == yes, o.pos, "the producer's error is dropped although nobody unsubscribed")
			}
		}
		c.floor("errors", "paths that deliver the producer's error", delivered, 1)
	}
}

func onlyUnlocks(e, until *Event) bool {
	for ; e != nil && e != until; e = e.prev {
		if e.kind != "unlock" {
			return false
		}
	}
	return e == until
}

func (s *ctorSub) boolCells(st *State) []*T {
	var out []*T
	for a := range st.heap {
		if a.op == "field" && a.a[0] == s.sub {
			out = append(out, a)
		}
	}
	for e := st.ev; e != nil; e = e.prev {
		for a := range e.heap {
			if a.op == "field" && a.a[0] == s.sub {
				out = append(out, a)
			}
		}
	}
	return out
}

// setFlags are the object's bool fields a path leaves true.
func (s *ctorSub) setFlags(st *State) []*T {
	var out []*T
	seen := map[*T]bool{}
	for _, a := range s.boolCells(st) {
		if !seen[a] && valueWritten(events(st), st, a) == tTrue {
			out = append(out, a)
		}
		seen[a] = true
	}
	return out
}

// trueFlags are the object's bool fields found true.
func (s *ctorSub) trueFlags(st *State) []*T {
	var out []*T
	for x, v := range st.facts.atoms {
		if v && x.isApp("init") && x.a[0].op == "field" && x.a[0].a[0] == s.sub {
			out = append(out, x.a[0])
		}
	}
	return out
}

func initOf(st *State, a *T) *T { return mkApp("init", types.Typ[types.Bool], a) }

// closeEvGuard: the flag was found false on this path.
func closeEvGuard(st *State, flag *T) bool { return flagValue(st, []*T{flag}) == no }

// flagValue says how one of the flags was found.
func flagValue(st *State, flags []*T) truth {
	for x, v := range st.facts.atoms {
		for _, f := range flags {
			if x.isApp("init") && x.a[0] == f {
				return truthOf(v)
			}
		}
	}
	return unknown
}

func marked(st *State, flags []*T) bool {
	for _, f := range flags {
		if st.heap[f] == tTrue {
			return true
		}
	}
	return false
}

// ---- Resubscribe ----

func ruleResubscribe(c *Check) {
	for _, name := range []string{"Resubscribe", "ResubscribeErr"} {
		s := c.subscriptionOf(name)
		if s == nil {
			continue
		}
		s.resubscribe()
	}
}

type resub struct {
	*ctorSub
	stop   *T // channel that carries the unsubscribe request
	user   *T // the user's function
	max    *T
	tries  map[*T]bool // channels an attempt answers on
	wait   map[*types.Var]bool
	last   map[*types.Var]bool
	errFld map[*types.Var]bool
}

func (s *ctorSub) resubscribe() {
	c := s.c
	r := &resub{ctorSub: s, user: s.ctor.param(1), max: s.ctor.param(0), tries: map[*T]bool{}, wait: map[*types.Var]bool{}, last: map[*types.Var]bool{}, errFld: map[*types.Var]bool{}}
	// Unsubscribe: asks the loop to end and waits for it
	neff := 0
	for _, o := range s.unsub.outs {
		evs := events(o.st)
		if !c.ok("unsubscribe", s.label+" Unsubscribe", o.kind == outReturn, o.pos, "Unsubscribe can end in a %s", o.kind) {
			continue
		}
		var ask, wait *Event
		for _, e := range evs {
			if (e.kind == "send" || e.kind == "close") && stripChan(e.args[0]) != s.err {
				ask = e
			}
			if onChan("recv", s.err)(e) {
				wait = e
			}
		}
		if ask == nil {
			c.ok("unsubscribe", s.label+" Unsubscribe again", hasKind(evs, "once", "done"), o.pos, "a path of Unsubscribe does not end the loop")
			continue
		}
		neff++
		r.stop = stripChan(ask.args[0])
		c.ok("unsubscribe", s.label+" Unsubscribe once", hasKind(evs, "once", "first"), ask.pos, "a second Unsubscribe would ask again")
		c.ok("unsubscribe", s.label+" Unsubscribe waits", wait != nil && evN(wait) > evN(ask), ask.pos, "Unsubscribe returns before the loop has ended")
		c.ok("unsubscribe", s.label+" request", ask.kind == "close" || r.stop.op == "mkchan" && r.stop.a[0] == tOne, ask.pos, "the request blocks when the loop has already ended")
	}
	if !c.ok("unsubscribe", s.label+" effective paths", neff >= 1, s.out.pos, "Unsubscribe never ends the loop") {
		return
	}
	gos := countEv(events(s.out.st), func(e *Event) bool { return e.kind == "go" })
	c.ok("loop", s.label+" goroutine", gos == 1, s.out.pos, "the subscription must be driven by exactly one goroutine")
	var loop *Run
	var att []*Run
	for _, w := range s.workers {
		if w.parent == s.ctor {
			loop = w
		} else {
			att = append(att, w)
		}
	}
	if !c.ok("loop", s.label+" parts", loop != nil && len(att) >= 1, s.out.pos, "the driving loop or its attempts cannot be found") {
		return
	}
	for _, a := range att {
		r.attempt(a)
	}
	r.driver(loop)
}

// attempt: calls the user's function once and answers once.
func (r *resub) attempt(a *Run) {
	c := r.c
	label := r.label + " attempt"
	for _, o := range a.outs {
		ncall, nsend := 0, 0
		var call, snd *Event
		for _, e := range events(o.st) {
			switch {
			case e.kind == "callback" && e.args[0] == r.user:
				ncall++
				call = e
			case e.kind == "send":
				nsend++
				snd = e
			case e.kind == "close":
				c.fail("attempt", label+" closes", e.pos, "an attempt closes a channel")
			}
		}
		if !c.ok("attempt", label, o.kind == outReturn && ncall == 1 && nsend == 1 && evN(snd) > evN(call), o.pos, "an attempt must call the function once and then answer once (%d calls, %d answers)", ncall, nsend) {
			continue
		}
		r.tries[snd.args[0]] = true
		sub, err := projOf(call.res, 0), projOf(call.res, 1)
		c.ok("attempt", label+" answer", snd.args[1] == err, snd.pos, "the answer is not the function's error: %v", snd.args[1])
		// the subscription is left where the loop looks for it
		at := stAt(snd)
		kept := false
		for cell, v := range at.heap {
			if v == sub && cell.op == "alloc" {
				kept = true
			}
		}
		c.ok("attempt", label+" result", kept, snd.pos, "the subscription the function returned is lost")
		c.ok("attempt", label+" context", strings.HasPrefix(call.args[1].String(), "ctx#"), call.pos, "the function does not get the attempt's own cancellable context: %v", call.args[1])
		if len(call.args) > 2 {
			x := call.args[2]
			ok := x.isApp("init") && x.a[0].op == "field" && x.a[0].a[0] == r.sub
			if c.ok("lasterr", label+" last error", ok, call.pos, "the function does not get the subscription's last error: %v", x) {
				r.errFld[x.a[0].v.(*types.Var)] = true
			}
		}
	}
}

func projOf(res *T, i int) *T {
	if res.op == "tuple" && i < len(res.a) {
		return res.a[i]
	}
	return res
}

func (r *resub) driver(w *Run) {
	c := r.c
	label := r.label + " loop"
	ends, nb, nest, nfail := 0, 0, 0, 0
	for _, o := range w.outs {
		evs := events(o.st)
		nclose := countEv(evs, onChan("close", r.err))
		c.ok("closed", label+" end", nclose == 1 && onChan("close", r.err)(o.st.ev), o.pos, "the error channel must be closed once, as the last thing the loop does (%d times)", nclose)
		c.ok("closed", label+" silent", countEv(evs, onChan("send", r.err)) == 0, o.pos, "the loop sends on the error channel")
		if o.kind == outReturn {
			ends++
		} else {
			c.ok("closed", label+" abnormal end", o.kind == outPanic, o.pos, "the loop can end in a %s", o.kind)
		}
		if e, _ := r.segment(w, nil, o.st, evs, nil, label); e {
			nest++
		}
	}
	c.floor("closed", "ways the loop ends", ends, 2)
	for _, l := range w.in.loops {
		for _, b := range l.backs {
			evs := own(l, b)
			nb++
			e, f := r.segment(w, l, b.st, evs, b, label)
			if e {
				nest++
			}
			if f {
				nfail++
			}
			// once asked to end, no further attempt
			if n := countEv(evs, onChan("recv", r.stop)); n > 0 {
				c.ok("stops", label+" after a request", stopsAfter(w, l, b, r, b.st.facts), evs[len(evs)-1].pos, "the loop goes on after it took the request to end")
			}
		}
	}
	c.floor("attempt", "iterations with an established subscription", nest, 2)
	c.floor("backoff", "iterations after a failed attempt", nfail, 1)
	c.count("iterations", nb)
}

// stopsAfter: the next iteration does nothing more than leave the loop.
func stopsAfter(w *Run, l *LoopRec, b *backEdge, r *resub, f *Facts) bool {
	// some variable takes a value on this edge which every effect in the body
	// excludes
	excluded := func(head, val *T) bool {
		if val == nil {
			return false
		}
		switch f.decide(val) {
		case yes:
			val = tTrue
		case no:
			val = tFalse
		default:
			return false
		}
		for _, e := range bodyEvents(w, l) {
			if e.kind == "loop" || e.kind == "once" {
				continue
			}
			if e.heap == nil && e.facts == nil {
				return false
			}
			f := e.facts
			if f == nil {
				return false
			}
			if v, ok := f.atoms[head]; ok && v != (val == tTrue) {
				continue
			}
			if f.rep(head) == mkBool(val != tTrue) {
				continue
			}
			if onChan("close", r.err)(e) {
				continue
			}
			return false
		}
		return true
	}
	for p, head := range l.phis {
		if isBoolT(p.Type()) && excluded(head, b.phis[p]) {
			return true
		}
	}
	for a, v := range b.st.heap {
		if h := l.assumed.heap[a]; h != nil && h != v && isBoolish(v) && excluded(h, v) {
			return true
		}
	}
	return false
}

// bodyEvents are the events that follow the head of a loop.
func bodyEvents(w *Run, l *LoopRec) []*Event {
	var out []*Event
	seen := map[*Event]bool{}
	walk := func(e *Event) {
		var es []*Event
		for ; e != nil && e != l.assumed.ev; e = e.prev {
			es = append(es, e)
		}
		if e == nil && l.assumed.ev != nil {
			return // not after this loop
		}
		for _, x := range es {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	for _, b := range l.backs {
		walk(b.st.ev)
	}
	for _, o := range w.outs {
		walk(o.st.ev)
	}
	return out
}

// segment checks one stretch of the loop: every attempt is answered and
// cancelled, what an attempt established is released, a failure is followed by
// a bounded wait.
func (r *resub) segment(w *Run, l *LoopRec, st *State, evs []*Event, b *backEdge, label string) (established, failed bool) {
	c := r.c
	var start, answer, cancel, timer, lapse, request *Event
	var subErr *Event
	var ctx *T
	unsubs := map[*T]bool{}
	for _, e := range evs {
		switch {
		case e.kind == "go":
			c.ok("attempt", label+" one at a time", start == nil, e.pos, "a second attempt starts while one may be running")
			start = e
			answer, cancel = nil, nil
			// its context
			for x := e; x != nil && ctx == nil; x = x.prev {
				if x.kind == "call" && strings.HasSuffix(x.name, "context.WithCancel") {
					ctx = x.res
				}
			}
			// the time of the attempt is kept
			for a, v := range e.heap {
				if a.op == "field" && a.a[0] == r.sub && isNow(v, e) {
					r.last[a.v.(*types.Var)] = true
				}
			}
		case e.kind == "recv" && r.tries[e.args[0]]:
			answer = e
		case e.kind == "callback" && strings.HasPrefix(e.args[0].String(), "cancel#"):
			cancel = e
		case onChan("recv", r.stop)(e):
			request = e
		case e.kind == "call" && strings.HasSuffix(e.name, "time.NewTimer"):
			timer = e
		case e.kind == "recv" && strings.Contains(e.args[0].String(), ".C)"):
			lapse = e
		case e.kind == "recv" && e.args[0].op == "app" && strings.HasSuffix(e.args[0].s, "Subscription).Err"):
			subErr = e
		case e.kind == "invoke" && strings.HasSuffix(e.name, "Subscription).Unsubscribe"):
			unsubs[e.args[0]] = true
		}
	}
	if start == nil {
		return
	}
	pos := start.pos
	c.ok("attempt", label+" answered", answer != nil, pos, "an attempt is abandoned: nobody takes its answer, its goroutine stays blocked and what it established is lost")
	c.ok("attempt", label+" cancelled", cancel != nil && ctx != nil && ctx.op == "tuple" && cancel.args[0] == ctx.a[1], pos, "the attempt's context is never released")
	if request != nil && answer != nil && evN(answer) > evN(request) {
		c.ok("attempt", label+" cancelled before waiting", cancel != nil && evN(cancel) < evN(answer), pos, "asked to end, the loop waits for the attempt without cancelling it")
	}
	if answer == nil {
		return
	}
	okErr := st.facts.decideEq(answer.res, tNil)
	if request != nil && evN(answer) > evN(request) {
		// ended during the attempt: what it established must not stay
		at := stAt(answer)
		_ = at
		released := len(unsubs) > 0
		c.ok("release", label+" ended during an attempt", released || r.subNil(st, answer), pos, "a subscription established while Unsubscribe was called is left behind")
		return
	}
	switch okErr {
	case yes:
		established = true
		if b == nil && subErr == nil && request == nil {
			return // the nil subscription panic
		}
		c.ok("release", label+" established", len(unsubs) == 1, pos, "an established subscription is not released before the loop goes on (%d released)", len(unsubs))
		c.ok("established", label+" waits", subErr != nil || request != nil, pos, "an established subscription is given up without an error or a request")
		for x := range unsubs {
			c.ok("release", label+" established subscription", subErr == nil || subErr.args[0].a[0] == x, pos, "the released subscription is not the one waited for")
		}
		if subErr != nil && b == nil {
			c.ok("stops", label+" ended subscription", st.facts.decideEq(subErr.res, tNil) == yes, subErr.pos, "the loop ends although the subscription ended with an error")
		}
		if subErr != nil && b != nil {
			// a nil error ends the loop
			if st.facts.decideEq(subErr.res, tNil) != no {
				// undecided: the loop variable carries the comparison
				fx, fn := st.facts.clone(), st.facts.clone()
				ok := !fx.assume(mkEqRaw(subErr.res, tNil), true) || stopsAfter(w, l, b, r, fx)
				ok = ok && (!fn.assume(mkEqRaw(subErr.res, tNil), false) || !stopsAfter(w, l, b, r, fn))
				c.ok("stops", label+" closed subscription", ok, subErr.pos, "the loop must end when the subscription ends without an error, and only then")
			}
			kept := false
			for fld := range r.errFld {
				if v := valueWritten(evs, st, mkField(r.sub, fld, fld.Type())); v == subErr.res {
					kept = true
				}
			}
			if len(r.errFld) > 0 {
				c.ok("lasterr", label+" keeps the error", kept, subErr.pos, "the error of the ended subscription is not handed to the next attempt")
			}
		}
	case no:
		failed = true
		c.ok("backoff", label+" after a failure", timer != nil && (lapse != nil || request != nil), pos, "a failed attempt is repeated without waiting")
		if timer != nil {
			r.backoff(timer, label)
		}
	default:
		c.fail("attempt", label+" answer", pos, "the loop goes on without looking at the attempt's answer")
	}
	return
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isBoolish(t *T) bool {
	return t == tTrue || t == tFalse || t.op == "eq" || t.op == "not" || t.op == "le" || t.typ != nil && isBoolT(t.typ) || t.op == "app" && t.s == "eq"
}

func isNow(v *T, e *Event) bool {
	for x := e; x != nil; x = x.prev {
		if x.kind == "call" && strings.HasSuffix(x.name, "nanotime") && x.res == v {
			return true
		}
		if x.kind == "loop" {
			return false
		}
	}
	return false
}

// valueWritten is what a path last wrote to a cell, looking past the places
// where other goroutines may have run.
func valueWritten(evs []*Event, st *State, cell *T) *T {
	if v := st.heap[cell]; v != nil {
		return v
	}
	for i := len(evs) - 1; i >= 0; i-- {
		if v := evs[i].heap[cell]; v != nil {
			return v
		}
	}
	return nil
}

func (r *resub) subNil(st *State, answer *Event) bool {
	for x, v := range st.facts.eqt {
		if v == tNil && x.isApp("init") && x.a[0].op == "alloc" {
			return true
		}
	}
	return false
}

// backoff: the wait is the previous one doubled and capped, or a tenth of the
// maximum when the last attempt lies further back than the maximum.
func (r *resub) backoff(e *Event, label string) {
	c := r.c
	st := stAt(e)
	d := e.args[0]
	tenth := func(t *T) bool { return t.isApp("div") && t.a[0] == r.max && t.a[1] == mkInt(10) }
	kept := false
	for a, v := range e.heap {
		if a.op == "field" && a.a[0] == r.sub && v == d && d != r.max || a.op == "field" && a.a[0] == r.sub && v == d && a.v.(*types.Var).Name() != "" && v == r.max && !r.isMaxField(a) {
			kept = true
			r.wait[a.v.(*types.Var)] = true
		}
	}
	c.ok("backoff", label+" remembers the wait", kept, e.pos, "the wait is not kept for the next failure: %v", d)
	var elapsed *T
	for x := e; x != nil && elapsed == nil; x = x.prev {
		if x.kind == "call" && strings.HasSuffix(x.name, "nanotime") {
			for fld := range r.last {
				if prev := r.foundValue(st, fld); prev != nil {
					elapsed = tSub(x.res, prev)
				}
			}
			break
		}
	}
	if !c.ok("backoff", label+" time of the attempt", elapsed != nil, e.pos, "the time of the attempt is not kept") {
		return
	}
	long := st.facts.decide(mkLt(r.max, elapsed))
	var prevWait *T
	switch {
	case tenth(d):
		c.ok("backoff", label+" reset", long == yes, e.pos, "the wait is reset although the attempt is not longer ago than the maximum")
	default:
		c.ok("backoff", label+" growth", long == no, e.pos, "the wait is not reset although the attempt is longer ago than the maximum")
		if d == r.max {
			// capped: twice the previous wait is more
			ok := false
			for fld := range r.wait {
				prevWait = r.foundValue(st, fld)
				if prevWait != nil && st.proves(mkLe(r.max, tMul(mkInt(2), prevWait))) {
					ok = true
				}
			}
			c.ok("backoff", label+" cap", ok, e.pos, "the maximal wait is used although twice the previous wait is less")
			break
		}
		ok := false
		for fld := range r.wait {
			prevWait = r.foundValue(st, fld)
			if prevWait != nil && d == tMul(mkInt(2), prevWait) {
				ok = true
			}
		}
		c.ok("backoff", label+" doubles", ok, e.pos, "the wait is not twice the previous one: %v", d)
		c.ok("backoff", label+" bounded", st.proves(mkLe(d, r.max)), e.pos, "the wait can exceed the maximum: %v", d)
	}
}

func (r *resub) isMaxField(a *T) bool { return r.out.st.heap[a] == r.max }

// foundValue is what a field of the subscription held when the wait was
// computed, as far as the facts speak of it.
func (r *resub) foundValue(st *State, fld *types.Var) *T {
	var v *T
	for _, t := range st.facts.le {
		anyTerm(t, func(x *T) bool {
			if isFieldInit(x, r.sub, fld) {
				v = x
			}
			return false
		})
	}
	return v
}

// clockHook: reading the clock touches nothing else.
func clockHook(c *callCtx) []Outcome {
	if strings.HasSuffix(c.callee(), "mclock.nanotime") {
		v := c.in.fresh("now", types.Typ[types.Int64])
		c.ev("call", "nanotime", nil, v)
		return c.ret(v)
	}
	return nil
}
