package main

import (
	"go/types"
	"strings"
)

func init() {
	properties["E06"] = ruleTypeMux
	properties["E07"] = ruleScope
}

// covers: the loop visits every index of [0, n), n known in the exit state; idx
// is the index an arbitrary iteration uses.
func (in *Interp) covers(l *LoopRec, exit *State, idx, n *T) bool {
	if len(l.backs) == 0 {
		return false
	}
	for _, x := range in.loopVars(l) {
		off := tSub(idx, x.head)
		if !off.isInt() || x.entry == nil {
			continue
		}
		up, down := true, true
		for _, b := range x.backs {
			up = up && b == tAddI(x.head, 1)
			down = down && b == tAddI(x.head, -1)
		}
		first := tAdd(x.entry, off)
		if up && l.entry.proves(mkIntEq(first, tZero)) && exit.proves(mkLe(n, idx)) {
			return true
		}
		if down && l.entry.proves(mkIntEq(first, tAddI(n, -1))) && exit.proves(mkLt(idx, tZero)) {
			return true
		}
	}
	return false
}

// atsOf are the elements at(content, i) mentioned in terms.
func atsOf(t *T, out map[*T]bool) {
	anyTerm(t, func(x *T) bool {
		if x.isApp("at") {
			out[x] = true
		}
		return false
	})
}

func inCond(st *State, t *T) truth { return st.facts.decide(t) }

// found is the value a bool field of base had when the path read it.
func foundBool(st *State, base *T, v *types.Var) truth {
	r := unknown
	for x, val := range st.facts.atoms {
		if isFieldInit(x, base, v) {
			r = truthOf(val)
		}
	}
	return r
}

// mapInit: t is the content or handle a map field had.
func isMapOf(t, base *T, v *types.Var) bool { return isFieldInit(t, base, v) }

type muxRule struct {
	c                              *Check
	subm, stopped                  *types.Var
	created, closed, closing, post *types.Var
	read, owner                    *types.Var
	evTime, evData                 *types.Var
	sendLock                       map[any]bool // the lock fields closing waits on
}

func ruleTypeMux(c *Check) {
	f := func(o, n string) *types.Var {
		v := c.p.fieldOf("event."+o, n)
		if v == nil {
			c.fail("anchor", o+"."+n, 0, "the field this property is anchored on does not exist any more")
		}
		return v
	}
	m := &muxRule{c: c, subm: f("TypeMux", "subm"), stopped: f("TypeMux", "stopped"),
		created: f("TypeMuxSubscription", "created"), closed: f("TypeMuxSubscription", "closed"), closing: f("TypeMuxSubscription", "closing"),
		post: f("TypeMuxSubscription", "postC"), read: f("TypeMuxSubscription", "readC"), owner: f("TypeMuxSubscription", "mux"),
		evTime: f("TypeMuxEvent", "Time"), evData: f("TypeMuxEvent", "Data")}
	for _, v := range []*types.Var{m.subm, m.stopped, m.created, m.closed, m.closing, m.post, m.read, m.owner, m.evTime, m.evData} {
		if v == nil {
			return
		}
	}
	m.sendLock = map[any]bool{}
	m.unsubscribe()
	m.stop()
	m.postRule()
	m.subscribe()
	m.chanRule()
}

func (m *muxRule) postRule() {
	c := m.c
	fn := c.fn("event", "TypeMux.Post")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, mux, ev := r.in, r.param(0), r.param(1)
	label := "event.TypeMux.Post"
	nclosed, nall := 0, 0
	errClosed := c.p.globalVal("event", "ErrMuxClosed")
	for _, o := range r.outs {
		if !c.ok("post", label, o.kind == outReturn, o.pos, "Post can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		switch foundBool(o.st, mux, m.stopped) {
		case yes:
			nclosed++
			c.ok("stopped", label+" on a stopped mux", errClosed != nil && o.val == errClosed && len(loopsOf(o.st)) == 0, o.pos, "Post on a stopped mux does not just return ErrMuxClosed: %v", o.val)
		case no:
			c.ok("post", label+" result", o.val == tNil, o.pos, "Post on a running mux reports %v", o.val)
			var get *Event
			for _, e := range evs {
				if e.kind == "mapget" && isMapOf(e.args[0], mux, m.subm) {
					get = e
				}
			}
			if !c.ok("post", label+" lookup", get != nil && get.args[1].isApp("rtypeof") && get.args[1].a[0] == ev, o.pos, "the subscribers are not looked up by the type of the event") {
				continue
			}
			if get.res.op != "slice" || get.res.a[2] == tZero {
				continue
			}
			nall++
			n := get.res.a[2]
			ok := false
			for _, l := range loopsOf(o.st) {
				if m.delivers(r, l, o, get, n, ev) {
					ok = true
				}
			}
			c.ok("post", label+" delivers to all", ok, o.pos, "no loop hands the event to every subscriber of its type")
		default:
			c.fail("stopped", label, o.pos, "a path of Post does not look whether the mux is stopped")
		}
	}
	_ = in
	c.floor("stopped", "paths of Post on a stopped mux", nclosed, 1)
	c.floor("post", "paths of Post that deliver", nall, 1)
}

// delivers: every iteration hands the event to the subscriber at the loop's
// index, or finds it closing or younger than the event.
func (m *muxRule) delivers(r *Run, l *LoopRec, o Outcome, get *Event, n, ev *T) bool {
	c, in := m.c, r.in
	var idx, sub *T
	all := len(l.backs) > 0
	nsend, nskip, nclosing := 0, 0, 0
	evs := m.eventObj(l.assumed, ev)
	var last *Event
	for _, b := range l.backs {
		done := false
		for _, e := range own(l, b) {
			last = e
			var s *T
			switch {
			case e.kind == "send":
				s = fieldBase(e.args[0], m.post)
				if s != nil {
					nsend++
					good := evs[e.args[1]]
					c.ok("post", "event.TypeMux.Post event", good, e.pos, "something else than the posted event is delivered")
				}
			case e.kind == "recv":
				s = fieldBase(e.args[0], m.closing)
				nclosing++
			}
			if s != nil {
				done = true
				if sub == nil {
					sub = s
				}
				all = all && s == sub
			}
		}
		if !done { // skipped
			stale := m.isStale(b.st, evs)
			nskip++
			if stale == nil {
				all = false
				continue
			}
			if sub == nil {
				sub = stale
			}
			all = all && sub == stale
		}
	}
	if !all || sub == nil || nsend == 0 {
		return false
	}
	if sub.isApp("at") && in.sameContent(sub.a[0], get.res) {
		idx = sub.a[1]
	}
	if idx == nil || !in.covers(l, o.st, idx, n) {
		return false
	}
	c.ok("closing", "event.TypeMux.Post gives up on a closing subscriber", nclosing > 0, last.pos, "a delivery cannot be abandoned when the subscriber closes")
	// every wait offers both
	for _, b := range l.backs {
		for _, e := range own(l, b) {
			if e.kind == "send" && fieldBase(e.args[0], m.post) != nil {
				held := false
				for _, h := range e.held {
					held = held || h.lock.op == "field" && h.lock.a[0] == sub && m.sendLock[h.lock.v]
				}
				c.ok("closing", "event.TypeMux.Post send holds its lock", held, e.pos, "the delivery does not hold the lock closing the channel waits for: it may send on a closed channel")
				c.ok("closing", "event.TypeMux.Post send", e.sel != nil || inSelect(e), e.pos, "the delivery waits for the subscriber alone")
			}
		}
	}
	return true
}

func inSelect(e *Event) bool { return e.prev != nil && e.prev.kind == "select" }

// sameContent: an element's sequence is the content the slice had.
func (in *Interp) sameContent(seq, sl *T) bool {
	if sl.op != "slice" || sl.a[1] != tZero {
		return false
	}
	for seq.isApp("init") {
		if seq.a[0] == sl.a[0] {
			return true
		}
		seq = seq.a[0]
	}
	return seq == sl.a[0]
}

// fieldBase: t is a read of field v, of which object.
func fieldBase(t *T, v *types.Var) *T {
	t = stripChan(t)
	if t.isApp("init") && t.a[0].op == "field" && t.a[0].v == any(v) {
		return t.a[0].a[0]
	}
	return nil
}

// eventObj are the objects that hold the posted event.
func (m *muxRule) eventObj(st *State, ev *T) map[*T]bool {
	out := map[*T]bool{}
	for a, v := range st.heap {
		if a.op == "field" && a.v == any(m.evData) && v == ev {
			t := st.heap[mkField(a.a[0], m.evTime, m.evTime.Type())]
			if t != nil && strings.Contains(t.String(), "Now#") {
				out[a.a[0]] = true
			}
		}
	}
	return out
}

// isStale: the path skipped a subscriber because it was created after the event.
func (m *muxRule) isStale(st *State, evs map[*T]bool) *T {
	for x, v := range st.facts.atoms {
		if !v || !strings.Contains(x.String(), "After") && !strings.Contains(x.String(), "Before") {
			continue
		}
		var base *T
		anyTerm(x, func(y *T) bool {
			if y.isApp("init") && y.a[0].op == "field" && y.a[0].v == any(m.created) {
				base = y.a[0].a[0]
			}
			return false
		})
		if base != nil && strings.Contains(x.String(), "Now#") {
			// the creation time must be the later one
			args := x.a
			after := strings.Contains(x.s, "After")
			if len(args) == 2 {
				createdFirst := strings.Contains(args[0].String(), ".created")
				if createdFirst == after {
					return base
				}
			}
		}
	}
	return nil
}

func (p *Program) globalVal(pkg, name string) *T {
	sp := p.SPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	return p.initHeap[mkGlobal(g)]
}

func (m *muxRule) subscribe() {
	c := m.c
	fn := c.fn("event", "TypeMux.Subscribe")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, mux, typs := r.in, r.param(0), r.param(1)
	label := "event.TypeMux.Subscribe"
	nstop, nreg := 0, 0
	for _, o := range r.outs {
		evs := events(o.st)
		stopped := foundBool(o.st, mux, m.stopped)
		if o.kind == outPanic {
			c.ok("register", label+" panic", stopped == no && m.duplicate(o.st), o.pos, "Subscribe panics although no type was given twice")
			continue
		}
		if !c.ok("register", label, o.kind == outReturn && o.val.op == "alloc", o.pos, "Subscribe does not return a new subscription (%s)", o.kind) {
			continue
		}
		sub := o.val
		get := func(v *types.Var) *T { return o.st.heap[mkField(sub, v, v.Type())] }
		pc, rc, cl := get(m.post), get(m.read), get(m.closing)
		if pc == nil || rc == nil || cl == nil {
			c.fail("channel", label, o.pos, "a subscription without its channels is returned")
			continue
		}
		c.ok("channel", label, stripChan(pc) == stripChan(rc) && stripChan(pc).op == "mkchan" && cl.op == "mkchan" && cl != stripChan(pc), o.pos, "the channel events are sent on is not the one handed to the subscriber")
		c.ok("channel", label+" unbuffered", stripChan(pc).a[0] == tZero, o.pos, "the subscriber's channel is buffered, events stay in it after Unsubscribe")
		c.ok("register", label+" owner", get(m.owner) == mux, o.pos, "the subscription does not know its mux")
		cr := get(m.created)
		c.ok("stale", label+" creation time", cr != nil && strings.Contains(cr.String(), "Now#"), o.pos, "the creation time is not recorded: %v", cr)
		nclose := countEv(evs, onChan("close", stripChan(pc)))
		switch stopped {
		case yes:
			nstop++
			c.ok("stopped", label+" on a stopped mux", nclose == 1 && get(m.closed) == tTrue, o.pos, "a subscription made on a stopped mux is not closed and marked closed")
			c.ok("stopped", label+" on a stopped mux keeps nothing", !hasKind(evs, "mapset", "") && len(loopsOf(o.st)) == 0, o.pos, "a subscription made on a stopped mux is registered")
		case no:
			c.ok("register", label+" open", nclose == 0 && get(m.closed) != tTrue, o.pos, "a subscription on a running mux is closed from the start")
			n := mkApp("len", types.Typ[types.Int], typs)
			ok := o.st.proves(mkIntEq(n, tZero))
			for _, l := range loopsOf(o.st) {
				if m.registers(r, l, o, mux, typs, sub) {
					ok = true
				}
			}
			nreg++
			c.ok("register", label+" every type", ok, o.pos, "the subscription is not registered for every type it was asked for")
		default:
			c.fail("stopped", label, o.pos, "a path of Subscribe does not look whether the mux is stopped")
		}
	}
	_ = in
	c.floor("stopped", "paths of Subscribe on a stopped mux", nstop, 1)
	c.floor("register", "paths of Subscribe that register", nreg, 1)
}

// duplicate: the path compared a registered subscription equal to the new one.
func (m *muxRule) duplicate(st *State) bool {
	for x, v := range st.facts.atoms {
		if v && x.op == "eq" && (x.a[0].op == "alloc" || x.a[1].op == "alloc") && findAt(x) != nil {
			return true
		}
	}
	return false
}

// registers: every iteration stores, under the type at the loop's index, a new
// list that is the old one followed by the subscription.
func (m *muxRule) registers(r *Run, l *LoopRec, o Outcome, mux, typs, sub *T) bool {
	c, in := m.c, r.in
	var idx *T
	all := len(l.backs) > 0
	for _, b := range l.backs {
		var get, set *Event
		nset := 0
		for _, e := range own(l, b) {
			switch e.kind {
			case "mapget":
				get = e
			case "mapset":
				set = e
				nset++
			}
		}
		if set == nil || get == nil || nset != 1 {
			return false
		}
		k := set.args[1]
		if !k.isApp("rtypeof") || !k.a[0].isApp("at") || !strings.Contains(k.a[0].a[0].String(), "rgn("+typs.s+")") {
			return false
		}
		c.ok("register", "event.TypeMux.Subscribe list key", get.args[1] == k && get.args[0] == set.args[0], set.pos, "the new list is made from the subscribers of another type")
		idx = k.a[0].a[1]
		st := stAt(set)
		v := set.args[2]
		ok := v.op == "slice" && v.a[0].op == "alloc"
		if ok {
			seq := subSeq(st.facts, in.content(st, v.a[0]), v.a[1], tAdd(v.a[1], v.a[2]))
			want := mkSeq([]*T{sub})
			if get.res.op == "slice" && get.res.a[2] != tZero {
				old := subSeq(st.facts, in.content(st, get.res.a[0]), tZero, get.res.a[2])
				want = mkCat(old, want)
			}
			ok = seq == want
		}
		c.ok("register", "event.TypeMux.Subscribe list", ok, set.pos, "the list stored for a type is not a fresh copy of the old one followed by the subscription (Post may be walking the old one): %v", v)
	}
	if !all || idx == nil {
		return false
	}
	return in.covers(l, o.st, idx, mkApp("len", types.Typ[types.Int], typs))
}

func (m *muxRule) unsubscribe() {
	c := m.c
	fn := c.fn("event", "TypeMuxSubscription.Unsubscribe")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, s := r.in, r.param(0)
	label := "event.TypeMuxSubscription.Unsubscribe"
	nclose := 0
	for _, o := range r.outs {
		if !c.ok("unsubscribe", label, o.kind == outReturn, o.pos, "Unsubscribe can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		removed := false
		var at int
		for _, l := range loopsOf(o.st) {
			if m.removes(r, l, s) {
				removed = true
				for _, e := range evs {
					if e.kind == "iterdone" && evN(e) > 0 {
						at = evN(e)
					}
				}
			}
		}
		c.ok("unsubscribe", label+" removes", removed && at > 0, o.pos, "the subscription is not taken out of the list of every type")
		nclose += m.closeRule(o, evs, s, label, at)
	}
	_ = in
	c.floor("closing", "paths of Unsubscribe that close the channel", nclose, 1)
}

// closeRule: a subscription is closed once: senders are told first, then the
// channel is closed when none is left.
func (m *muxRule) closeRule(o Outcome, evs []*Event, s *T, label string, from int) int {
	c := m.c
	was := foundBool(o.st, s, m.closed)
	var tell, cls *Event
	n := 0
	for _, e := range evs {
		if e.kind != "close" {
			continue
		}
		n++
		switch {
		case fieldBase(e.args[0], m.closing) == s:
			tell = e
		case fieldBase(e.args[0], m.post) == s:
			cls = e
		}
	}
	switch was {
	case yes:
		c.ok("closing", label+" again", n == 0, o.pos, "a closed subscription is closed again")
		return 0
	case no:
		ok := n == 2 && tell != nil && cls != nil && evN(tell) < evN(cls) && evN(tell) > from
		c.ok("closing", label+" closes", ok, o.pos, "an open subscription must be closed by telling the senders first and then closing its channel")
		if !ok {
			return 0
		}
		c.ok("closing", label+" waits for senders", m.waits(tell, cls), cls.pos, "the channel is closed without waiting for the senders that may still use it")
		v := valueWritten(evs, o.st, mkField(s, m.closed, m.closed.Type()))
		c.ok("closing", label+" marks", v == tTrue, o.pos, "a closed subscription is not marked, it would be closed again")
		pv := valueWritten(evs, o.st, mkField(s, m.post, m.post.Type()))
		c.ok("closing", label+" forgets the channel", pv == tNil, o.pos, "the closed channel stays where deliveries find it")
		return 1
	}
	c.fail("closing", label, o.pos, "a path does not look whether the subscription is already closed")
	return 0
}

func (m *muxRule) waits(tell, cls *Event) bool {
	for x := cls; x != nil && x != tell; x = x.prev {
		if x.kind == "lock" && x.name == "w" && x.args[0].op == "field" {
			m.sendLock[x.args[0].v] = true
		}
	}
	return lockBetween(tell, cls)
}

// lockBetween: a write lock is taken after a and held at b.
func lockBetween(a, b *Event) bool {
	for x := b; x != nil && x != a; x = x.prev {
		if x.kind == "lock" && x.name == "w" {
			for _, h := range b.held {
				if h.lock == x.args[0] {
					return true
				}
			}
		}
	}
	return false
}

// removes: a range over the mux's table in which every list that contains s is
// replaced by a fresh list without it (or dropped, when s was the only one),
// and no other list changes.
func (m *muxRule) removes(r *Run, l *LoopRec, s *T) bool {
	c, in := m.c, r.in
	label := "event.TypeMuxSubscription.Unsubscribe"
	good := false
	for _, b := range l.backs {
		evs := own(l, b)
		var rng, del, set *Event
		for _, e := range evs {
			switch e.kind {
			case "rangemap":
				rng = e
			case "mapdelete":
				del = e
			case "mapset":
				set = e
			}
		}
		if rng == nil {
			return false
		}
		good = true
		k, list := rng.args[1], rng.args[2]
		pos := m.position(b.st, list, s, in)
		switch {
		case del != nil:
			c.ok("unsubscribe", label+" drops a list", del.args[1] == k && pos != nil && b.st.proves(mkIntEq(list.a[2], tOne)), del.pos, "a list is dropped that may hold other subscriptions")
		case set != nil:
			ok := set.args[1] == k && pos != nil && set.args[2].op == "slice" && set.args[2].a[0].op == "alloc"
			if ok {
				st := stAt(set)
				v := set.args[2]
				got := subSeq(b.st.facts, in.content(st, v.a[0]), v.a[1], tAdd(v.a[1], v.a[2]))
				old := in.content(st, list.a[0])
				want := mkCat(subSeq(b.st.facts, old, tZero, pos), subSeq(b.st.facts, old, tAddI(pos, 1), list.a[2]))
				ok = got == want
			}
			c.ok("unsubscribe", label+" replaces a list", ok, set.pos, "the list is not replaced by a fresh copy without the subscription")
		default:
			c.ok("unsubscribe", label+" leaves a list", pos == nil && m.absent(r, b, list, s), evs[len(evs)-1].pos, "a list is left alone that is not shown to be without the subscription")
		}
	}
	return good
}

// position: where s was found in the list.
func (m *muxRule) position(st *State, list, s *T, in *Interp) *T {
	for x, v := range st.facts.atoms {
		if !v || x.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if x.a[k] == s && x.a[1-k].isApp("at") && in.sameContent(x.a[1-k].a[0], list) {
				return x.a[1-k].a[1]
			}
		}
	}
	for x, v := range st.facts.eqt {
		if v == s && x.isApp("at") && in.sameContent(x.a[0], list) {
			return x.a[1]
		}
	}
	return nil
}

// absent: an inner loop compared every element of the list with s.
func (m *muxRule) absent(r *Run, b *backEdge, list, s *T) bool {
	in := r.in
	if b.st.proves(mkIntEq(list.a[2], tZero)) {
		return true
	}
	for _, l := range loopsOf(b.st) {
		var idx *T
		ok := len(l.backs) > 0
		for _, ib := range l.backs {
			found := false
			for x, v := range ib.st.facts.atoms {
				if v || x.op != "eq" {
					continue
				}
				for k := 0; k < 2; k++ {
					if x.a[k] == s && x.a[1-k].isApp("at") && in.sameContent(x.a[1-k].a[0], list) {
						idx, found = x.a[1-k].a[1], true
					}
				}
			}
			ok = ok && found
		}
		if ok && idx != nil && in.covers(l, b.st, idx, list.a[2]) {
			return true
		}
	}
	return false
}

func (m *muxRule) stop() {
	c := m.c
	fn := c.fn("event", "TypeMux.Stop")
	if fn == nil {
		return
	}
	r := c.analyse(fn, nil)
	in, mux := r.in, r.param(0)
	label := "event.TypeMux.Stop"
	nend, nclose := 0, 0
	for _, o := range r.outs {
		if !c.ok("stopped", label, o.kind == outReturn, o.pos, "Stop can end in a %s", o.kind) {
			continue
		}
		already := foundBool(o.st, mux, m.stopped) == yes
		set := o.st.heap[mkField(mux, m.stopped, m.stopped.Type())] == tTrue
		if already && len(loopsOf(o.st)) == 0 {
			continue
		}
		nend++
		c.ok("stopped", label+" marks", set || already, o.pos, "a stopped mux is not marked as stopped")
		sm := o.st.heap[mkField(mux, m.subm, m.subm.Type())]
		c.ok("stopped", label+" forgets", sm == tNil, o.pos, "a stopped mux keeps its subscriptions")
		whole := false
		for _, e := range events(o.st) {
			if e.kind == "iterdone" && isMapOf(e.args[0], mux, m.subm) {
				whole = true
			}
		}
		c.ok("stopped", label+" walks the table", whole, o.pos, "Stop does not walk the whole table")
	}
	// each list of the table is closed completely
	lists := 0
	for _, l := range in.loops {
		for _, b := range l.backs {
			var rng *Event
			var inner *LoopRec
			for _, e := range own(l, b) {
				if e.kind == "rangemap" {
					rng = e
				}
				if e.kind == "loop" {
					inner = e.loop
				}
			}
			if rng == nil {
				continue
			}
			lists++
			list := rng.args[2]
			ok := list.op == "slice" && (list.a[2] == tZero || b.st.proves(mkIntEq(list.a[2], tZero)))
			if !ok && inner != nil {
				var idx *T
				all := len(inner.backs) > 0
				for _, ib := range inner.backs {
					var s *T
					ievs := own(inner, ib)
					ats := map[*T]bool{}
					for _, e := range ievs {
						for _, a := range e.args {
							atsOf(a, ats)
						}
					}
					for a := range ats {
						if in.sameContent(a.a[0], list) {
							s = a
						}
					}
					if s == nil {
						all = false
						continue
					}
					idx = s.a[1]
					nclose += m.closeLoop(inner, ib, ievs, s, label)
				}
				ok = all && idx != nil && in.covers(inner, b.st, idx, list.a[2])
			}
			c.ok("stopped", label+" closes every subscription", ok, rng.pos, "not every subscription of a type is closed")
		}
	}
	c.floor("stopped", "ends of Stop", nend, 1)
	c.floor("stopped", "lists Stop closes", lists, 1)
	c.floor("closing", "iterations of Stop that close a channel", nclose, 1)
}

// closeLoop is closeRule for a subscription visited by a loop: the values at
// the head of the iteration stand for the found ones.
func (m *muxRule) closeLoop(l *LoopRec, b *backEdge, evs []*Event, s *T, label string) int {
	c := m.c
	head := func(v *types.Var) *T { return l.assumed.heap[mkField(s, v, v.Type())] }
	was := foundBool(b.st, s, m.closed)
	if h := head(m.closed); was == unknown && h != nil {
		was = b.st.facts.decide(h)
	}
	var tell, cls *Event
	n := 0
	for _, e := range evs {
		if e.kind != "close" {
			continue
		}
		n++
		if fieldBase(e.args[0], m.closing) == s {
			tell = e
		}
		if fieldBase(e.args[0], m.post) == s || head(m.post) != nil && e.args[0] == head(m.post) {
			cls = e
		}
	}
	switch was {
	case yes:
		c.ok("closing", label+" again", n == 0, evs[0].pos, "a closed subscription is closed again")
	case no:
		if c.ok("closing", label+" closes", n == 2 && tell != nil && cls != nil && evN(tell) < evN(cls), evs[0].pos, "an open subscription must be closed by telling the senders first and then closing its channel") {
			c.ok("closing", label+" waits for senders", m.waits(tell, cls), cls.pos, "the channel is closed without waiting for the senders that may still use it")
			return 1
		}
	default:
		c.fail("closing", label, evs[0].pos, "an iteration does not look whether the subscription is already closed")
	}
	return 0
}

func (m *muxRule) chanRule() {
	c := m.c
	if fn := c.fn("event", "TypeMuxSubscription.Chan"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("channel", "event.TypeMuxSubscription.Chan", o.kind == outReturn && fieldBase(o.val, m.read) == r.param(0), o.pos, "Chan does not return the subscription's channel: %v", o.val)
		}
	}
	if fn := c.fn("event", "TypeMuxSubscription.Closed"); fn != nil {
		r := c.analyse(fn, nil)
		for _, o := range r.outs {
			c.ok("closing", "event.TypeMuxSubscription.Closed", o.kind == outReturn && isFieldInit(o.val, r.param(0), m.closed), o.pos, "Closed does not report the subscription's mark: %v", o.val)
		}
	}
}

// ---- SubscriptionScope ----

func ruleScope(c *Check) {
	subs, closed := c.p.fieldOf("event.SubscriptionScope", "subs"), c.p.fieldOf("event.SubscriptionScope", "closed")
	track, cls, cnt := c.fn("event", "SubscriptionScope.Track"), c.fn("event", "SubscriptionScope.Close"), c.fn("event", "SubscriptionScope.Count")
	if subs == nil || closed == nil || track == nil || cls == nil || cnt == nil {
		c.fail("anchor", "SubscriptionScope", 0, "the scope's operations or fields cannot be found")
		return
	}
	r := c.analyse(track, nil)
	sc, s := r.param(0), r.param(1)
	label := "event.SubscriptionScope.Track"
	nin, nno := 0, 0
	var inner *types.Var
	for _, o := range r.outs {
		if !c.ok("track", label, o.kind == outReturn, o.pos, "Track can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		n := countEv(evs, func(e *Event) bool { return e.kind == "mapset" })
		switch foundBool(o.st, sc, closed) {
		case yes:
			nno++
			c.ok("track", label+" on a closed scope", o.val == tNil && n == 0, o.pos, "Track on a closed scope does not just return nil: %v", o.val)
		case no:
			nin++
			c.ok("track", label+" result", o.val.op == "iface" && o.val.a[0].op == "alloc" && n == 1, o.pos, "Track on an open scope must add exactly one entry and return it (%d added)", n)
			if o.val.op != "iface" || n != 1 {
				continue
			}
			ss := o.val.a[0]
			for _, e := range evs {
				if e.kind != "mapset" {
					continue
				}
				cur := r.in.loadField(o.st, sc, subs)
				c.ok("track", label+" entry", e.args[1] == ss && e.args[0] == cur, e.pos, "the entry added is not the returned one")
				cont := r.in.mapContent(o.st, cur)
				isNew := func(t *T) bool { return t.op == "sym" && t.s == "mapempty" }
				kept := cont.isApp("mapupd") && (cont.a[0].isApp("init") || isNew(cont.a[0]) && nilBefore(o.st, sc, subs))
				c.ok("track", label+" keeps the others", kept, e.pos, "the entries tracked before are lost: %v", cont)
			}
			for a, v := range o.st.heap {
				if a.op == "field" && a.a[0] == ss && v == s {
					inner = a.v.(*types.Var)
				}
			}
			c.ok("track", label+" wraps", inner != nil, o.pos, "the returned subscription does not hold the tracked one")
			if inner != nil {
				scopeMember(c, r, o, ss, s, sc, subs)
			}
		default:
			c.fail("track", label, o.pos, "a path of Track does not look whether the scope is closed")
		}
		c.ok("track", label+" does not touch it", countEv(evs, func(e *Event) bool { return e.kind == "invoke" }) == 0, o.pos, "Track calls the subscription")
	}
	c.floor("track", "paths of Track on an open scope", nin, 1)
	c.floor("track", "paths of Track on a closed scope", nno, 1)

	// Close
	cr := c.analyse(cls, nil)
	sc = cr.param(0)
	label = "event.SubscriptionScope.Close"
	nend := 0
	for _, o := range cr.outs {
		if !c.ok("close", label, o.kind == outReturn, o.pos, "Close can end in a %s", o.kind) {
			continue
		}
		evs := events(o.st)
		was := foundBool(o.st, sc, closed)
		if was == yes {
			c.ok("close", label+" again", countEv(evs, func(e *Event) bool { return e.kind == "invoke" || e.kind == "loop" }) == 0, o.pos, "a second Close unsubscribes again")
			continue
		}
		nend++
		c.ok("close", label+" marks", o.st.heap[mkField(sc, closed, closed.Type())] == tTrue, o.pos, "a closed scope is not marked: Track would accept more")
		v := o.st.heap[mkField(sc, subs, subs.Type())]
		c.ok("close", label+" forgets", v == tNil || v != nil && v.op == "mkmap", o.pos, "a closed scope keeps its subscriptions: Count is not zero")
		whole := false
		for _, e := range evs {
			if e.kind == "iterdone" && isMapOf(e.args[0], sc, subs) {
				whole = true
			}
		}
		c.ok("close", label+" walks the table", whole, o.pos, "Close does not walk all tracked subscriptions")
	}
	its := 0
	for _, l := range cr.in.loops {
		for _, b := range l.backs {
			var rng *Event
			n, good := 0, false
			for _, e := range own(l, b) {
				if e.kind == "rangemap" {
					rng = e
				}
				if e.kind == "invoke" && strings.HasSuffix(e.name, ".Unsubscribe") {
					n++
					good = rng != nil && inner != nil && fieldBase(e.args[0], inner) == rng.args[1]
				}
			}
			if rng != nil {
				its++
				c.ok("close", label+" unsubscribes each", n == 1 && good, rng.pos, "a tracked subscription is not unsubscribed exactly once")
			}
		}
	}
	c.floor("close", "iterations of Close", its, 1)
	c.floor("close", "effective paths of Close", nend, 1)

	// Count
	nr := c.analyse(cnt, nil)
	for _, o := range nr.outs {
		m := nr.in.loadField(o.st, nr.param(0), subs)
		want := mapLen(nr.in.mapContent(o.st, m))
		locked := hasKind(events(o.st), "lock", "")
		c.ok("count", "event.SubscriptionScope.Count", o.kind == outReturn && locked && (o.val == want || strings.HasPrefix(o.val.String(), "len(init(mapc(init("+nr.param(0).s+"."+subs.Name())), o.pos, "Count is not the number of tracked subscriptions: %v", o.val)
	}
}

func nilBefore(st *State, base *T, v *types.Var) bool {
	for x, val := range st.facts.eqt {
		if isFieldInit(x, base, v) && val == tNil {
			return true
		}
	}
	return false
}

// scopeMember checks the subscription Track returned.
func scopeMember(c *Check, r *Run, o Outcome, ss, s, sc *T, subs *types.Var) {
	um, em := c.p.methodNamed(o.val.typ, "Unsubscribe"), c.p.methodNamed(o.val.typ, "Err")
	if um == nil || em == nil {
		c.fail("anchor", o.val.typ.String(), o.pos, "the tracked subscription has no analysable Unsubscribe or Err")
		return
	}
	label := "event.SubscriptionScope member"
	st := r.after(o)
	er := c.analyseFrom(st.clone(), em, []*T{ss}, nil)
	for _, eo := range er.outs {
		c.ok("member", label+" Err", eo.kind == outReturn && eo.val.op == "app" && strings.HasSuffix(eo.val.s, ").Err") && eo.val.a[0] == s, eo.pos, "Err is not the tracked subscription's: %v", eo.val)
	}
	ur := c.analyseFrom(st, um, []*T{ss}, nil)
	for _, uo := range ur.outs {
		evs := events(uo.st)
		var inv, del *Event
		ni, nd := 0, 0
		for _, e := range evs {
			if e.kind == "invoke" && strings.HasSuffix(e.name, ".Unsubscribe") {
				inv = e
				ni++
			}
			if e.kind == "mapdelete" {
				del = e
				nd++
			}
		}
		c.ok("member", label+" Unsubscribe", uo.kind == outReturn && ni == 1 && inv.args[0] == s, uo.pos, "Unsubscribe does not unsubscribe the tracked subscription exactly once")
		c.ok("member", label+" leaves the scope", nd == 1 && del.args[1] == ss && isMapOf(del.args[0], sc, subs), uo.pos, "Unsubscribe does not take the subscription, and only it, out of the scope")
	}
}
