package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["M01"] = ruleSimClock
	properties["M02"] = ruleAlarm
	properties["M03"] = ruleSystemClock
}

const clockPkg = "common/mclock"

type simRule struct {
	c                            *Check
	now, sched, cond             *types.Var
	at, index, clk, do, ch       *types.Var
	heapPtr                      types.Type
	timerPtr                     types.Type
	stopped, fired, pushed, wait int
}

func (c *Check) fields(pkg string, names ...string) []*types.Var {
	var out []*types.Var
	for _, n := range names {
		i := strings.LastIndex(n, ".")
		v := c.p.fieldOf(pkg+"."+n[:i], n[i+1:])
		if v == nil {
			c.fail("anchor", n, 0, "the field this property is anchored on does not exist any more")
			return nil
		}
		out = append(out, v)
	}
	return out
}

func ruleSimClock(c *Check) {
	f := c.fields(clockPkg, "Simulated.now", "Simulated.scheduled", "Simulated.cond", "simTimer.at", "simTimer.index", "simTimer.s", "simTimer.do", "simTimer.ch")
	if f == nil {
		return
	}
	s := &simRule{c: c, now: f[0], sched: f[1], cond: f[2], at: f[3], index: f[4], clk: f[5], do: f[6], ch: f[7]}
	s.heapPtr = types.NewPointer(s.sched.Type())
	if sl, ok := s.sched.Type().Underlying().(*types.Slice); ok {
		s.timerPtr = sl.Elem()
	} else {
		c.fail("anchor", "Simulated.scheduled", s.sched.Pos(), "the scheduled timers are not a list")
		return
	}
	s.heap()
	s.run()
	s.schedule()
	s.timers()
	s.queries()
}

// isAt is the time of a timer.
func (s *simRule) timeOf(in *Interp, st *State, timer *T) *T { return in.loadField(st, timer, s.at) }

// list is the schedule of a clock in a state: its elements.
func (s *simRule) list(in *Interp, st *State, clock *T) (*T, *T) {
	sl := in.loadField(st, clock, s.sched)
	return in.sliceParts(st, sl)
}

// sliceParts gives a slice term its shape and the sequence of its elements.
func (in *Interp) sliceParts(st *State, sl *T) (shape, seq *T) {
	if sl.op != "slice" {
		sl = in.expand(sl, sl.typ)
	}
	if sl == nil || sl.op != "slice" {
		return nil, nil
	}
	return sl, in.sliceSeq(st, sl)
}

// heap checks that the schedule is a heap ordered by time that keeps every
// timer's index.
func (s *simRule) heap() {
	c := s.c
	get := func(name string) *ssa.Function {
		m := c.p.methodNamed(s.heapPtr, name)
		if m == nil {
			c.fail("anchor", "heap "+name, s.sched.Pos(), "the schedule has no %s", name)
		}
		return m
	}
	label := "schedule "
	if m := get("Len"); m != nil {
		r := c.analyse(m, nil)
		for _, o := range r.outs {
			_, q := r.in.sliceParts(o.st, r.in.load(o.st, r.param(0), s.sched.Type()))
			c.ok("heap", label+"Len", o.kind == outReturn && q != nil && o.st.proves(mkIntEq(o.val, seqLen(q))), o.pos, "Len is not the number of timers: %v", o.val)
		}
	}
	if m := get("Less"); m != nil {
		r := c.analyse(m, nil)
		for _, o := range r.outs {
			_, q := r.in.sliceParts(o.st, r.in.load(o.st, r.param(0), s.sched.Type()))
			ok := o.kind == outReturn && q != nil
			if ok {
				ti := s.timeOf(r.in, o.st, atTyped(r.in, o.st, q, r.param(1), s.timerPtr))
				tj := s.timeOf(r.in, o.st, atTyped(r.in, o.st, q, r.param(2), s.timerPtr))
				want := mkLt(ti, tj)
				ok = o.val == want || o.val == tTrue && o.st.proves(want) || o.val == tFalse && o.st.proves(mkLe(tj, ti))
			}
			c.ok("heap", label+"Less", ok, o.pos, "timers are not ordered by their times: %v", o.val)
		}
	}
	if m := get("Swap"); m != nil {
		for _, same := range []bool{true, false} {
			st := newState()
			i, j := mkSym(m.Params[1].Name(), m.Params[1].Type()), mkSym(m.Params[2].Name(), m.Params[2].Type())
			h := mkSym(m.Params[0].Name(), m.Params[0].Type())
			if same {
				j = i
			} else {
				st.facts.assume(mkIntEq(i, j), false)
			}
			r := c.analyseFrom(st, m, []*T{h, i, j}, nil)
			for _, o := range r.outs {
				_, q := r.in.sliceParts(o.st, r.in.load(o.st, h, s.sched.Type()))
				_, q0 := r.in.sliceParts(newState(), r.in.load(newState(), h, s.sched.Type()))
				ok := o.kind == outReturn && q != nil && q0 != nil
				if ok {
					a, b := atTyped(r.in, o.st, q0, i, s.timerPtr), atTyped(r.in, o.st, q0, j, s.timerPtr)
					ok = o.st.facts.rep(atTyped(r.in, o.st, q, i, s.timerPtr)) == o.st.facts.rep(b) && o.st.facts.rep(atTyped(r.in, o.st, q, j, s.timerPtr)) == o.st.facts.rep(a)
					idx := func(t *T) *T { return r.in.loadField(o.st, t, s.index) }
					ok = ok && o.st.proves(mkIntEq(idx(a), j)) && o.st.proves(mkIntEq(idx(b), i))
				}
				c.ok("heap", label+"Swap", ok, o.pos, "Swap does not exchange the two timers and their indices")
			}
		}
	}
	if m := get("Push"); m != nil {
		t := mkSym("timer", s.timerPtr)
		r := c.analyse(m, []*T{mkSym(m.Params[0].Name(), m.Params[0].Type()), mkIface(s.timerPtr, t)})
		for _, o := range r.outs {
			_, q := r.in.sliceParts(o.st, r.in.load(o.st, r.param(0), s.sched.Type()))
			_, q0 := r.in.sliceParts(o.st, r.in.load(newState(), r.param(0), s.sched.Type()))
			ok := o.kind == outReturn && q != nil && q0 != nil
			c.ok("heap", label+"Push", ok && seqEq(o.st.facts, q, mkCat(q0, mkSeq([]*T{t}))), o.pos, "Push does not append the timer: %v", q)
			c.ok("heap", label+"Push index", ok && o.st.proves(mkIntEq(r.in.loadField(o.st, t, s.index), seqLen(q0))), o.pos, "Push does not record the timer's place")
		}
	}
	if m := get("Pop"); m != nil {
		st := newState()
		h := mkSym(m.Params[0].Name(), m.Params[0].Type())
		tmp := newInterp(c.p)
		_, q0 := tmp.sliceParts(st, tmp.load(st, h, s.sched.Type()))
		if q0 == nil {
			return
		}
		st.facts.add(mkLe(tOne, seqLen(q0)))
		r := c.analyseFrom(st, m, nil, nil)
		for _, o := range r.outs {
			_, q := r.in.sliceParts(o.st, r.in.load(o.st, h, s.sched.Type()))
			last := atTyped(r.in, o.st, q0, tAddI(seqLen(q0), -1), s.timerPtr)
			ok := o.kind == outReturn && q != nil && o.val.op == "iface" && o.val.a[0] == last
			c.ok("heap", label+"Pop", ok, o.pos, "Pop does not return the last timer: %v", o.val)
			c.ok("heap", label+"Pop list", ok && seqEq(o.st.facts, q, subSeq(o.st.facts, q0, tZero, tAddI(seqLen(q0), -1))), o.pos, "Pop does not just take the last timer off: %v", q)
			c.ok("heap", label+"Pop index", ok && o.st.proves(mkLt(r.in.loadField(o.st, last, s.index), tZero)), o.pos, "a timer taken off the schedule is not marked as gone")
		}
	}
}

func seqEq(f *Facts, a, b *T) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if subSeq(f, a, tZero, seqLen(a)) == subSeq(f, b, tZero, seqLen(b)) {
		return true
	}
	if normSeq(f, a) == normSeq(f, b) {
		return true
	}
	n := f.normInt(seqLen(a))
	return f.decide(mkIntEq(n, seqLen(b))) == yes && normSeq(f, subSeq(f, a, tZero, n)) == normSeq(f, subSeq(f, b, tZero, n))
}

// normSeq writes the bounds of sub-sequences the way the facts have them.
func normSeq(f *Facts, s *T) *T {
	switch s.op {
	case "sub":
		lo, hi := f.normInt(s.a[1]), f.normInt(s.a[2])
		if f.decide(mkIntEq(lo, hi)) == yes {
			return tEmpty
		}
		if f.decide(mkIntEq(lo, tZero)) == yes {
			lo = tZero
		}
		if lo == tZero && f.decide(mkIntEq(hi, seqLen(s.a[0]))) == yes {
			return normSeq(f, s.a[0])
		}
		return mkSubRaw(s.a[0], lo, hi)
	case "zero":
		n := f.normInt(s.a[0])
		if lo, hi := f.bounds(n); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			n = mkBig(lo)
		}
		return mkZero(n, s.a[1])
	case "cat":
		var out []*T
		for _, p := range s.a {
			if n := seqLen(p); f.decide(mkLe(n, tZero)) != yes {
				out = append(out, normSeq(f, p))
			}
		}
		return mkCat(out...)
	}
	return s
}

func (s *simRule) onSchedule(in *Interp, e *Event, clock *T) bool {
	if e.args[0].op != "iface" {
		return false
	}
	a := e.args[0].a[0]
	return a.op == "field" && a.v == any(s.sched) && a.a[0] == clock
}

func heldNow(e *Event) bool { return len(e.held) > 0 }

// growth: the slices an iteration extends, with what it appends.
func (in *Interp) growth(l *LoopRec, b *backEdge) map[*T]*T {
	out := map[*T]*T{}
	check := func(head, back *T) {
		if head == nil || back == nil || head.op != "slice" || back.op != "slice" {
			return
		}
		hs, bs := in.sliceSeq(l.assumed, head), in.sliceSeq(b.st, back)
		if bs.op == "cat" && len(bs.a) >= 2 && mkCat(bs.a[:len(bs.a)-1]...) == hs {
			out[head] = bs.a[len(bs.a)-1]
		}
	}
	for p, h := range l.phis {
		check(h, b.phis[p])
	}
	for a, h := range l.assumed.heap {
		if v := b.st.heap[a]; v != nil && v != h {
			check(h, v)
		}
	}
	return out
}

func (s *simRule) run() {
	c := s.c
	fn := c.fn(clockPkg, "Simulated.Run")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, clock, d := r.in, r.param(0), r.param(1)
	label := clockPkg + ".Simulated.Run"
	nret := 0
	for _, o := range r.outs {
		if !c.ok("run", label, o.kind == outReturn, o.pos, "Run can end in a %s", o.kind) {
			continue
		}
		nret++
		evs := events(o.st)
		var lock, unlock *Event
		for _, e := range evs {
			switch e.kind {
			case "lock":
				if lock == nil {
					lock = e
				}
			case "unlock":
				unlock = e
			}
		}
		if !c.ok("run", label+" locking", lock != nil && unlock != nil, o.pos, "Run does not work under the clock's lock") {
			continue
		}
		// the queue of due timers
		var collect *LoopRec
		var queue, what *T
		for _, l := range loopsOf(o.st) {
			npop := 0
			for _, b := range l.backs {
				for _, e := range own(l, b) {
					if e.kind == "heap" && e.name == "Pop" {
						npop++
					}
				}
			}
			if npop == 0 {
				continue
			}
			collect = l
			for _, b := range l.backs {
				var pops []*Event
				for _, e := range own(l, b) {
					if e.kind == "heap" {
						pops = append(pops, e)
					}
				}
				if !c.ok("run", label+" collects", len(pops) == 1 && pops[0].name == "Pop" && s.onSchedule(in, pops[0], clock), fn.Pos(), "an iteration does not take exactly one timer off the schedule") {
					continue
				}
				st := stAt(pops[0])
				_, q := s.list(in, st, clock)
				end := tAdd(mkInitOf(in, o.st, clock, s.now, lock), d)
				due := q != nil && st.proves(mkLe(tOne, seqLen(q))) && st.proves(mkLe(s.timeOf(in, st, atTyped(in, st, q, tZero, s.timerPtr)), end))
				c.ok("due", label+" takes due timers only", due, pops[0].pos, "a timer is taken off the schedule although it is not shown to be due by the new time")
				p := pops[0].res
				if p == nil || p.op != "iface" {
					c.fail("run", label+" collects", pops[0].pos, "the timer taken off the schedule is lost")
					continue
				}
				p = p.a[0]
				ok := false
				for head, x := range in.growth(l, b) {
					if x.op != "seq" || len(x.a) != 1 {
						continue
					}
					switch x.a[0] {
					case in.loadField(b.st, p, s.do):
						what, ok = tOne, true
					case p:
						what, ok = tZero, true
					default:
						continue
					}
					c.ok("run", label+" one queue", queue == nil || queue == head, pops[0].pos, "due timers go to different places")
					queue = head
				}
				c.ok("run", label+" queues", ok, pops[0].pos, "a timer taken off the schedule is not queued to run")
			}
		}
		if !c.ok("run", label+" collect loop", collect != nil, o.pos, "no loop takes the due timers off the schedule") {
			continue
		}
		// nothing due is left, and the clock shows the new time, before anything runs
		st := stAt(unlock)
		_, q := s.list(in, st, clock)
		end := tAdd(mkInitOf(in, st, clock, s.now, lock), d)
		left := q != nil && (st.proves(mkIntEq(seqLen(q), tZero)) || st.proves(mkLt(end, s.timeOf(in, st, atTyped(in, st, q, tZero, s.timerPtr)))))
		c.ok("due", label+" leaves no due timer", left, unlock.pos, "a timer that is due by the new time can stay on the schedule")
		c.ok("time", label+" advances", st.proves(mkIntEq(in.loadField(st, clock, s.now), end)), unlock.pos, "the clock does not show the old time plus the given duration when the timers run: %v", in.loadField(st, clock, s.now))
		ncb := 0
		for _, e := range evs {
			if e.kind == "callback" || e.kind == "heap" {
				ncb++
			}
		}
		c.ok("run", label+" nothing else", ncb == 0, o.pos, "Run calls something or changes the schedule outside its loops")
		// run the queue
		ran := queue == nil || o.st.proves(mkIntEq(queue.a[2], tZero))
		for _, l := range loopsOf(o.st) {
			if l == collect || queue == nil {
				continue
			}
			all := len(l.backs) > 0
			var idx *T
			any := false
			for _, b := range l.backs {
				var cbs []*Event
				for _, e := range own(l, b) {
					if e.kind == "callback" {
						cbs = append(cbs, e)
					}
				}
				any = any || len(cbs) > 0
				if len(cbs) != 1 {
					all = false
					continue
				}
				f := cbs[0].args[0]
				if what == tZero {
					if b := fieldBase(f, s.do); b != nil {
						f = b
					} else {
						all = false
						continue
					}
				}
				if !f.isApp("at") || !in.sameContent(f.a[0], queue) {
					all = false
					continue
				}
				idx = f.a[1]
				c.ok("lock", label+" runs timers unlocked", !heldNow(cbs[0]), cbs[0].pos, "a timer's function runs while the clock's lock is held: it cannot use the clock")
			}
			if !any {
				continue
			}
			good := all && idx != nil && in.covers(l, o.st, idx, queue.a[2])
			if good {
				up := false
				for _, x := range in.loopVars(l) {
					if off := tSub(idx, x.head); off.isInt() && len(x.backs) > 0 && x.backs[0] == tAddI(x.head, 1) {
						up = true
					}
				}
				c.ok("order", label+" order", up, o.pos, "timers do not run in the order they are due")
			}
			ran = ran || good
		}
		c.ok("run", label+" runs the queue", ran, o.pos, "not every timer taken off the schedule is run exactly once")
	}
	c.floor("run", "paths of Run", nret, 1)
}

// mkInitOf is what a field held when the lock had just been taken.
func mkInitOf(in *Interp, st *State, base *T, v *types.Var, lock *Event) *T {
	epoch := st.epoch
	for e := st.ev; e != nil && e != lock; e = e.prev {
		if e.kind != "loop" {
			epoch = e.epoch
		}
	}
	x := newState()
	x.epoch = epoch
	return in.loadField(x, base, v)
}

// woken: a broadcast follows e under the same lock.
func (s *simRule) woken(in *Interp, evs []*Event, e *Event, clock *T) bool {
	past := false
	for _, x := range evs {
		if x == e {
			past = true
			continue
		}
		if !past {
			continue
		}
		if x.kind == "unlock" {
			return false
		}
		if x.kind == "broadcast" && x.name == "Broadcast" && x.args[0] == in.loadField(stAt(x), clock, s.cond) {
			return true
		}
	}
	return false
}

// scheduled checks one path that must put a timer on a clock's schedule and
// returns it.
func (s *simRule) scheduled(r *Run, o Outcome, clock, d *T, label string) (*T, *Event) {
	c, in := s.c, r.in
	evs := events(o.st)
	var push *Event
	n := 0
	for _, e := range evs {
		if e.kind == "heap" {
			n++
			push = e
		}
	}
	if !c.ok("schedule", label+" push", n == 1 && push.name == "Push" && s.onSchedule(in, push, clock) && push.args[1].op == "iface" && push.args[1].a[0].op == "alloc", o.pos, "the call does not put exactly one new timer on the schedule") {
		return nil, nil
	}
	t := push.args[1].a[0]
	st := stAt(push)
	want := tAdd(in.loadField(st, clock, s.now), d)
	c.ok("schedule", label+" time", st.proves(mkIntEq(s.timeOf(in, st, t), want)), push.pos, "the timer is not due at the current time plus the duration: %v", s.timeOf(in, st, t))
	c.ok("schedule", label+" clock", in.loadField(o.st, t, s.clk) == clock, push.pos, "the timer does not know its clock")
	c.ok("schedule", label+" locked", len(push.held) > 0 && wHeld(push), push.pos, "the schedule is changed without the clock's lock")
	c.ok("wake", label+" wakes waiters", s.woken(in, evs, push, clock), push.pos, "goroutines waiting for timers are not woken when one is scheduled")
	s.pushed++
	return t, push
}

func wHeld(e *Event) bool {
	for _, h := range e.held {
		if h.mode == "w" {
			return true
		}
	}
	return false
}

func (s *simRule) schedule() {
	c := s.c
	for _, name := range []string{"AfterFunc", "NewTimer", "After", "Sleep"} {
		fn := c.fn(clockPkg, "Simulated."+name)
		if fn == nil {
			continue
		}
		label := clockPkg + ".Simulated." + name
		r := c.analyse(fn, nil)
		in, clock, d := r.in, r.param(0), r.param(1)
		n := 0
		for _, o := range r.outs {
			if !c.ok("schedule", label, o.kind == outReturn, o.pos, "%s can end in a %s", name, o.kind) {
				continue
			}
			n++
			t, push := s.scheduled(r, o, clock, d, label)
			if t == nil {
				continue
			}
			if name == "AfterFunc" {
				c.ok("schedule", label+" result", o.val.op == "iface" && o.val.a[0] == t, o.pos, "AfterFunc does not return its timer")
				c.ok("schedule", label+" function", in.loadField(o.st, t, s.do) == r.param(2), o.pos, "the timer does not run the given function")
				continue
			}
			done := o.st // the state when the clock is given back
			for e := o.st.ev; e != nil && e != push; e = e.prev {
				if e.kind == "unlock" {
					done = stAt(e)
				}
			}
			raw := stripChan(in.loadField(done, t, s.ch))
			c.ok("channel", label+" channel", raw.op == "mkchan" && raw.a[0].isInt() && raw.a[0] != tZero, o.pos, "the timer's channel cannot take the expiry without a reader: Run would block")
			switch name {
			case "NewTimer":
				c.ok("schedule", label+" result", o.val.op == "iface" && o.val.a[0] == t, o.pos, "NewTimer does not return its timer")
			case "After":
				c.ok("schedule", label+" result", stripChan(o.val) == raw, o.pos, "After does not return its timer's channel")
			case "Sleep":
				var waits *Event
				k := 0
				for e := o.st.ev; e != nil && e != push; e = e.prev {
					if e.kind == "recv" {
						waits = e
						k++
					}
				}
				c.ok("schedule", label+" waits", k == 1 && stripChan(waits.args[0]) == raw && !heldNow(waits), o.pos, "Sleep does not wait for its timer")
			}
			do := in.loadField(done, t, s.do)
			if !c.ok("channel", label+" function", do.op == "fn", o.pos, "what the timer does is unknown: %v", do) {
				continue
			}
			f := do.v.(*ssa.Function)
			st := r.after(o)
			er := c.analyseFrom(st, f, nil, do.a)
			for _, eo := range er.outs {
				evs := events(eo.st)
				var send *Event
				k := 0
				for _, e := range evs {
					if e.kind == "send" || e.kind == "close" || e.kind == "recv" {
						k++
						send = e
					}
				}
				ok := eo.kind == outReturn && k == 1 && send.kind == "send" && stripChan(send.args[0]) == raw
				c.ok("channel", label+" expiry", ok, eo.pos, "an expiring timer does not send on its channel exactly once")
				if ok {
					v := send.args[1]
					c.ok("channel", label+" expiry time", fieldBase(v, s.at) == t || v == in.loadField(stAt(send), t, s.at), send.pos, "the time sent is not the time the timer was due: %v", v)
				}
			}
		}
		c.floor("schedule", "paths of "+name, n, 1)
	}
}

// timers checks Stop, Reset and C of the timers the clock makes.
func (s *simRule) timers() {
	c := s.c
	get := func(n string) *ssa.Function {
		m := c.p.methodNamed(s.timerPtr, n)
		if m == nil {
			c.fail("anchor", "timer "+n, s.sched.Pos(), "the simulated clock's timers have no %s", n)
		}
		return m
	}
	heapEvents := func(o Outcome) []*Event {
		var out []*Event
		for _, e := range events(o.st) {
			if e.kind == "heap" {
				out = append(out, e)
			}
		}
		return out
	}
	// gone: was the timer off the schedule
	gone := func(in *Interp, st *State, t *T, lock *Event) truth {
		i := mkInitOf(in, st, t, s.index, lock)
		switch {
		case st.proves(mkLt(i, tZero)):
			return yes
		case st.proves(mkLe(tZero, i)):
			return no
		}
		return unknown
	}
	firstLock := func(o Outcome) *Event {
		for _, e := range events(o.st) {
			if e.kind == "lock" && e.name == "w" {
				return e
			}
		}
		return nil
	}
	if m := get("Stop"); m != nil {
		label := clockPkg + " simulated timer Stop"
		r := c.analyse(m, nil)
		in, t := r.in, r.param(0)
		for _, o := range r.outs {
			lock := firstLock(o)
			if !c.ok("stop", label, o.kind == outReturn && lock != nil, o.pos, "Stop can end in a %s or works without the clock's lock", o.kind) {
				continue
			}
			hs := heapEvents(o)
			g := gone(in, o.st, t, lock)
			if !c.ok("stop", label+" looks", g != unknown, o.pos, "a path of Stop does not look whether the timer is still scheduled") {
				continue
			}
			if g == yes {
				c.ok("stop", label+" expired", o.st.facts.decide(o.val) == no && len(hs) == 0, o.pos, "stopping a timer that is not scheduled must change nothing and report false (%v)", o.val)
				continue
			}
			s.stopped++
			clock := in.loadField(o.st, t, s.clk)
			ok := len(hs) == 1 && hs[0].name == "Remove" && s.onSchedule(in, hs[0], clock)
			c.ok("stop", label+" removes", ok && o.st.facts.decide(o.val) == yes, o.pos, "stopping a scheduled timer must take it off the schedule and report true (%v)", o.val)
			if ok {
				c.ok("stop", label+" removes itself", hs[0].args[1] == in.loadField(stAt(hs[0]), t, s.index) && isFieldInit(hs[0].args[1], t, s.index), hs[0].pos, "Stop removes another timer: %v", hs[0].args[1])
				c.ok("lock", label+" locked", wHeld(hs[0]), hs[0].pos, "the schedule is changed without the clock's lock")
				v := o.st.heap[mkField(t, s.index, s.index.Type())]
				c.ok("stop", label+" marks", v == nil || o.st.proves(mkLt(v, tZero)), o.pos, "a stopped timer is not marked as gone")
			}
		}
		c.floor("stop", "paths of Stop that stop", s.stopped, 1)
	}
	if m := get("Reset"); m != nil {
		label := clockPkg + " simulated timer Reset"
		r := c.analyse(m, nil)
		in, t, d := r.in, r.param(0), r.param(1)
		npush, nfix := 0, 0
		for _, o := range r.outs {
			if o.kind == outPanic {
				c.ok("reset", label+" panic", len(heapEvents(o)) == 0 && fieldKnown(o.st, t, s.ch, tNil), o.pos, "Reset panics on a timer that has a channel")
				continue
			}
			lock := firstLock(o)
			if !c.ok("reset", label, o.kind == outReturn && lock != nil, o.pos, "Reset can end in a %s or works without the clock's lock", o.kind) {
				continue
			}
			hs := heapEvents(o)
			g := gone(in, o.st, t, lock)
			if !c.ok("reset", label+" looks", g != unknown && len(hs) > 0, o.pos, "a path of Reset does not look whether the timer is still scheduled") {
				continue
			}
			clock := in.loadField(o.st, t, s.clk)
			last := hs[len(hs)-1]
			st := stAt(last)
			want := tAdd(mkInitOf(in, o.st, clock, s.now, lock), d)
			c.ok("reset", label+" time", st.proves(mkIntEq(s.timeOf(in, st, t), want)), last.pos, "a timer that is reset is not due at the current time plus the duration: %v", s.timeOf(in, st, t))
			mine := s.onSchedule(in, last, clock) && wHeld(last)
			self := func(e *Event) bool { return isFieldInit(e.args[1], t, s.index) }
			if g == yes {
				npush++
				c.ok("reset", label+" expired", mine && len(hs) == 1 && last.name == "Push" && last.args[1].op == "iface" && last.args[1].a[0] == t, last.pos, "resetting an expired timer must put it on the schedule once")
			} else {
				nfix++
				fix := len(hs) == 1 && last.name == "Fix" && self(last)
				again := len(hs) == 2 && hs[0].name == "Remove" && self(hs[0]) && last.name == "Push" && last.args[1].op == "iface" && last.args[1].a[0] == t
				c.ok("reset", label+" pending", mine && (fix || again), last.pos, "resetting a pending timer must put it in its new place")
			}
			c.ok("wake", label+" wakes waiters", s.woken(in, events(o.st), last, clock), last.pos, "goroutines waiting for timers are not woken")
		}
		c.floor("reset", "paths of Reset on an expired timer", npush, 1)
		c.floor("reset", "paths of Reset on a pending timer", nfix, 1)
	}
	if m := get("C"); m != nil {
		r := c.analyse(m, nil)
		for _, o := range r.outs {
			ok := o.kind == outReturn && fieldBase(o.val, s.ch) == r.param(0) || o.kind == outPanic && fieldKnown(o.st, r.param(0), s.ch, tNil)
			c.ok("channel", clockPkg+" simulated timer C", ok, o.pos, "C does not return the timer's channel: %v", o.val)
		}
	}
}

// fieldKnown: base.v was read and found equal to val.
func fieldKnown(st *State, base *T, v *types.Var, val *T) bool {
	for x, y := range st.facts.eqt {
		if isFieldInit(x, base, v) && y == val {
			return true
		}
	}
	return false
}

func (s *simRule) queries() {
	c := s.c
	if fn := c.fn(clockPkg, "Simulated.Now"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("time", clockPkg+".Simulated.Now", o.kind == outReturn && isFieldInit(o.val, r.param(0), s.now) && hasKind(events(o.st), "lock", ""), o.pos, "Now is not the clock's time: %v", o.val)
			c.ok("time", clockPkg+".Simulated.Now pure", o.st.heap[mkField(r.param(0), s.now, s.now.Type())] == nil, o.pos, "reading the clock changes it")
		}
	}
	if fn := c.fn(clockPkg, "Simulated.ActiveTimers"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			ok := o.kind == outReturn && o.val.isApp("len") && isFieldInit(o.val.a[0], r.param(0), s.sched) && hasKind(events(o.st), "lock", "")
			c.ok("count", clockPkg+".Simulated.ActiveTimers", ok, o.pos, "ActiveTimers is not the number of scheduled timers: %v", o.val)
		}
	}
	if fn := c.fn(clockPkg, "Simulated.WaitForTimers"); fn != nil {
		label := clockPkg + ".Simulated.WaitForTimers"
		r := c.analyse(fn, nil)
		in, clock, n := r.in, r.param(0), r.param(1)
		waits := 0
		for _, o := range r.outs {
			var unlock *Event
			for _, e := range events(o.st) {
				if e.kind == "unlock" {
					unlock = e
				}
			}
			ok := o.kind == outReturn && unlock != nil
			if ok {
				st := stAt(unlock)
				_, q := s.list(in, st, clock)
				ok = q != nil && st.proves(mkLe(n, seqLen(q)))
			}
			c.ok("wait", label+" returns when there are enough", ok, o.pos, "WaitForTimers can return with fewer timers than asked for")
		}
		for _, l := range in.loops {
			for _, b := range l.backs {
				k := 0
				for _, e := range own(l, b) {
					if e.kind == "condwait" {
						k++
						c.ok("wait", label+" waits on the clock", e.args[0] == in.loadField(stAt(e), clock, s.cond) && wHeld(e), e.pos, "WaitForTimers waits for something else than the schedule")
					}
				}
				waits += k
				c.ok("wait", label+" waits", k >= 1, fn.Pos(), "WaitForTimers spins instead of waiting")
			}
		}
		c.floor("wait", "waits of WaitForTimers", waits, 1)
	}
}

// ---- Alarm ----

func ruleAlarm(c *Check) {
	f := c.fields(clockPkg, "Alarm.ch", "Alarm.clock", "Alarm.timer", "Alarm.deadline")
	if f == nil {
		return
	}
	ch, clk, timer, deadline := f[0], f[1], f[2], f[3]
	label := clockPkg + ".Alarm "
	if fn := c.fn(clockPkg, "NewAlarm"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			if o.kind != outReturn {
				c.ok("new", label+"New panic", o.kind == outPanic && fieldlessNil(o.st, r.param(0)), o.pos, "NewAlarm fails with a clock")
				continue
			}
			cv := stripChan(r.in.loadField(o.st, o.val, ch))
			c.ok("new", label+"New", o.val.op == "alloc" && r.in.loadField(o.st, o.val, clk) == r.param(0), o.pos, "NewAlarm does not keep the clock")
			c.ok("signal", label+"channel", cv.op == "mkchan" && cv.a[0] == tOne, o.pos, "the alarm's channel must hold exactly one notification: %v", cv)
		}
	}
	if fn := c.fn(clockPkg, "Alarm.C"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("signal", label+"C", o.kind == outReturn && fieldBase(o.val, ch) == r.param(0), o.pos, "C does not return the alarm's channel: %v", o.val)
		}
	}
	if fn := c.fn(clockPkg, "Alarm.Stop"); fn != nil {
		r := c.analyse(fn, nil)
		in, a := r.in, r.param(0)
		ntimer := 0
		for _, o := range r.outs {
			if !c.ok("stop", label+"Stop", o.kind == outReturn, o.pos, "Stop can end in a %s", o.kind) {
				continue
			}
			evs := events(o.st)
			var stop, drain *Event
			block := false
			for _, e := range evs {
				if e.kind == "invoke" && strings.HasSuffix(e.name, ".Stop") && fieldBase(e.args[0], timer) == a {
					stop = e
				}
				if e.kind == "recv" && fieldBase(e.args[0], ch) == a || e.kind == "selectdefault" && offers(e, false, a, ch) {
					drain = e
					if e.kind == "recv" && (e.sel == nil || e.sel.Blocking) {
						block = true
					}
				}
			}
			if !fieldKnown(o.st, a, timer, tNil) {
				ntimer++
				c.ok("stop", label+"Stop stops the timer", stop != nil, o.pos, "the pending timer is not stopped")
			}
			c.ok("stop", label+"Stop drains", drain != nil && !block, o.pos, "a notification already sent is not taken back, or Stop waits for one")
			if drain != nil && stop != nil {
				c.ok("stop", label+"Stop order", evN(stop) < evN(drain), drain.pos, "the channel is drained before the timer is stopped: a notification can still arrive")
			}
			dl, tm := valueWritten(evs, o.st, mkField(a, deadline, deadline.Type())), valueWritten(evs, o.st, mkField(a, timer, timer.Type()))
			c.ok("stop", label+"Stop forgets", tm == tNil || fieldKnown(o.st, a, timer, tNil) || dl != nil && o.st.proves(mkLe(dl, tZero)), o.pos, "after Stop the old deadline still counts as scheduled: the next Schedule may set no timer")
		}
		_ = in
		c.floor("stop", "paths of Stop with a timer", ntimer, 1)
	}
	fn := c.fn(clockPkg, "Alarm.Schedule")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, a, want := r.in, r.param(0), r.param(1)
	nset, nkeep := 0, 0
	var send *T
	for _, o := range r.outs {
		if !c.ok("schedule", label+"Schedule", o.kind == outReturn, o.pos, "Schedule can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		var now, set, stop *Event
		n := 0
		for _, e := range evs {
			if e.kind != "invoke" {
				continue
			}
			switch {
			case strings.HasSuffix(e.name, ".Now"):
				now = e
			case strings.HasSuffix(e.name, ".AfterFunc"):
				set = e
				n++
			case strings.HasSuffix(e.name, ".Stop") && fieldBase(e.args[0], timer) == a:
				stop = e
			}
		}
		if !c.ok("schedule", label+"Schedule clock", now != nil && fieldBase(now.args[0], clk) == a, o.pos, "Schedule does not ask the alarm's clock for the time") {
			continue
		}
		old := in.loadField(o.st, a, deadline)
		had := !fieldKnown(o.st, a, timer, tNil)
		if n == 0 {
			nkeep++
			ok := had && old != nil && o.st.proves(mkLt(now.res, old)) && o.st.proves(mkLe(old, want))
			c.ok("schedule", label+"Schedule keeps", ok, o.pos, "no timer is set although none is pending that fires by the new deadline")
			c.ok("schedule", label+"Schedule keeps the deadline", stop == nil && o.st.heap[mkField(a, deadline, deadline.Type())] == nil, o.pos, "the pending timer is kept but stopped or given another deadline")
			continue
		}
		nset++
		if !c.ok("schedule", label+"Schedule sets", n == 1 && fieldBase(set.args[0], clk) == a && len(set.args) == 3, o.pos, "Schedule sets %d timers", n) {
			continue
		}
		d := set.args[1]
		past := o.st.proves(mkLe(want, now.res))
		ok := o.st.proves(mkIntEq(d, tSub(want, now.res))) || past && o.st.proves(mkIntEq(d, tZero))
		ok = ok && (past || o.st.proves(mkLe(now.res, want)))
		c.ok("schedule", label+"Schedule duration", ok, set.pos, "the timer is not set for the time left until the deadline, or at once when it has passed: %v", d)
		if had {
			c.ok("schedule", label+"Schedule replaces", stop != nil && evN(stop) < evN(set), set.pos, "the old timer is not stopped: it fires as well")
		}
		tm := valueWritten(evs, o.st, mkField(a, timer, timer.Type()))
		c.ok("schedule", label+"Schedule remembers the timer", tm != nil && tm == set.res, set.pos, "the timer cannot be stopped later: %v", tm)
		dl := valueWritten(evs, o.st, mkField(a, deadline, deadline.Type()))
		okd := dl != nil && (o.st.proves(mkIntEq(dl, want)) || past && o.st.proves(mkIntEq(dl, now.res)))
		c.ok("schedule", label+"Schedule remembers the deadline", okd, set.pos, "the deadline remembered is not the one the timer is set for: %v", dl)
		send = set.args[2]
		if send.op == "fn" {
			alarmFires(c, r, o, send, a, ch, label)
		} else {
			c.fail("signal", label+"Schedule function", set.pos, "what the timer does is unknown")
		}
	}
	c.floor("schedule", "paths of Schedule that set a timer", nset, 1)
	c.floor("schedule", "paths of Schedule that keep the timer", nkeep, 1)
}

func fieldlessNil(st *State, t *T) bool { return st.facts.decideEq(t, tNil) == yes }

// offers: a select has a case on base.v.
func offers(e *Event, send bool, base *T, v *types.Var) bool {
	for _, k := range e.cases {
		if k.send == send && fieldBase(k.ch, v) == base {
			return true
		}
	}
	return false
}

// alarmFires: the timer's function offers one notification and never waits.
func alarmFires(c *Check, r *Run, o Outcome, f, a *T, ch *types.Var, label string) {
	fn := f.v.(*ssa.Function)
	er := c.analyseFrom(r.after(o), fn, nil, f.a)
	sent := 0
	for _, eo := range er.outs {
		n := 0
		for _, e := range events(eo.st) {
			switch e.kind {
			case "send":
				n++
				sent++
				c.ok("signal", label+"fires", fieldBase(e.args[0], ch) == a, e.pos, "the notification goes to another channel")
				c.ok("signal", label+"fires without waiting", e.sel != nil && !e.sel.Blocking, e.pos, "the timer's function waits for a reader")
			case "close", "recv":
				c.fail("signal", label+"fires", e.pos, "the timer's function closes or reads a channel")
			}
		}
		c.ok("signal", label+"fires once", eo.kind == outReturn && n <= 1, eo.pos, "the timer's function sends more than once or ends in a %s", eo.kind)
	}
	c.floor("signal", "notifications an expiring alarm offers", sent, 1)
}

// ---- System ----

func ruleSystemClock(c *Check) {
	label := clockPkg + ".System."
	isNow := func(o Outcome, t *T) bool {
		for _, e := range events(o.st) {
			if e.kind == "call" && strings.HasSuffix(e.name, "nanotime") && e.res != nil && e.res == t {
				return true
			}
		}
		return false
	}
	if fn := c.fn(clockPkg, "Now"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("now", clockPkg+".Now", o.kind == outReturn && isNow(o, o.val) && countEv(events(o.st), func(e *Event) bool { return e.kind == "call" }) == 1, o.pos, "Now is not the runtime's monotonic time: %v", o.val)
		}
	}
	if fn := c.fn(clockPkg, "System.Now"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("now", label+"Now", o.kind == outReturn && isNow(o, o.val), o.pos, "Now is not the runtime's monotonic time: %v", o.val)
		}
	}
	for _, k := range []struct {
		name string
		sign int64
	}{{"AbsTime.Add", 1}, {"AbsTime.Sub", -1}} {
		fn := c.fn(clockPkg, k.name)
		if fn == nil {
			continue
		}
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			want := tAdd(r.param(0), tMul(r.param(1), mkInt(k.sign)))
			c.ok("arithmetic", clockPkg+"."+k.name, o.kind == outReturn && o.st.proves(mkIntEq(o.val, want)), o.pos, "%s does not compute %v: %v", k.name, want, o.val)
		}
	}
	calls := func(o Outcome, suffix string) (*Event, int) {
		var x *Event
		n := 0
		for _, e := range events(o.st) {
			if e.kind == "call" || e.kind == "invoke" {
				if strings.HasSuffix(e.name, suffix) {
					x = e
				}
				n++
			}
		}
		return x, n
	}
	if fn := c.fn(clockPkg, "System.Sleep"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			e, n := calls(o, "time.Sleep")
			c.ok("sleep", label+"Sleep", o.kind == outReturn && e != nil && n == 1 && e.args[0] == r.param(1), o.pos, "Sleep does not sleep for the given duration")
		}
	}
	for _, name := range []string{"AfterFunc", "After", "NewTimer"} {
		fn := c.fn(clockPkg, "System."+name)
		if fn == nil {
			continue
		}
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			e, n := calls(o, "time.AfterFunc")
			if !c.ok("timer", label+name, o.kind == outReturn && e != nil && n == 1 && e.args[0] == r.param(1), o.pos, "%s does not set one timer for the given duration", name) {
				continue
			}
			f := e.args[1]
			if name == "AfterFunc" {
				c.ok("timer", label+name+" function", f == r.param(2), o.pos, "the timer runs something else")
				c.ok("timer", label+name+" result", o.val.op == "iface" && o.val.a[0] == e.res, o.pos, "the timer returned cannot stop it: %v", o.val)
				continue
			}
			var ch *T
			if name == "After" {
				ch = stripChan(o.val)
			} else if o.val.op == "iface" {
				cm, rm := c.p.methodNamed(o.val.typ, "C"), c.p.methodNamed(o.val.typ, "Reset")
				sm := c.p.methodNamed(o.val.typ, "Stop")
				if cm == nil || rm == nil || sm == nil {
					c.fail("anchor", label+name, o.pos, "the timer has no analysable C, Reset or Stop")
					continue
				}
				st := r.after(o)
				for _, m := range []struct {
					fn   *ssa.Function
					name string
					args []*T
				}{{sm, "Timer).Stop", nil}, {rm, "Timer).Reset", []*T{mkSym("d", r.param(1).typ)}}} {
					mr := c.analyseFrom(st.clone(), m.fn, append([]*T{o.val.a[0]}, m.args...), nil)
					for _, mo := range mr.outs {
						x, n := calls(mo, m.name)
						ok := mo.kind == outReturn && x != nil && n == 1 && x.args[0] == e.res && (len(m.args) == 0 || x.args[1] == m.args[0])
						c.ok("timer", label+name+" "+m.name, ok, mo.pos, "the method does not act on the timer that was set")
						if len(m.args) == 0 && ok {
							c.ok("timer", label+name+" Stop result", mo.val == x.res, mo.pos, "Stop does not report whether the timer was stopped: %v", mo.val)
						}
					}
				}
				cr := c.analyseFrom(st, cm, []*T{o.val.a[0]}, nil)
				for _, co := range cr.outs {
					if co.kind == outReturn {
						ch = stripChan(co.val)
					}
				}
			}
			if !c.ok("channel", label+name+" channel", ch != nil && ch.op == "mkchan" && ch.a[0].isInt() && ch.a[0] != tZero, o.pos, "the timer's channel cannot take the expiry without a reader: a goroutine is left behind (%v)", ch) {
				continue
			}
			if !c.ok("channel", label+name+" function", f.op == "fn", o.pos, "what the timer does is unknown") {
				continue
			}
			er := c.analyseFrom(r.after(o), f.v.(*ssa.Function), nil, f.a)
			sends := 0
			for _, eo := range er.outs {
				k := 0
				for _, x := range events(eo.st) {
					switch x.kind {
					case "send":
						k++
						sends++
						c.ok("channel", label+name+" expiry", stripChan(x.args[0]) == ch && isNow(eo, x.args[1]), x.pos, "an expiring timer does not send the time on its channel")
						// a timer that can be reset can expire twice before it is read
						c.ok("channel", label+name+" never blocks", name == "After" || x.sel != nil && !x.sel.Blocking, x.pos, "an expiring timer that was reset waits for a reader")
					case "recv", "close":
						c.fail("channel", label+name+" expiry", x.pos, "an expiring timer reads or closes its channel")
					}
				}
				c.ok("channel", label+name+" expires once", eo.kind == outReturn && (k == 1 || k == 0 && name != "After"), eo.pos, "an expiry sends %d times", k)
			}
			c.floor("channel", "sends of an expiring "+name+" timer", sends, 1)
		}
	}
}
