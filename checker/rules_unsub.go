package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["E02"] = ruleFeedMembership
}

// methodNamed is the concrete method a dynamic value runs for a name.
func (p *Program) methodNamed(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if n, ok := deref(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	if f, ok := sel.Obj().(*types.Func); ok {
		if g := p.SSA.FuncValue(f.Origin()); g != nil && len(g.Blocks) > 0 {
			return g // the generic body for an instance
		}
	}
	return p.SSA.MethodValue(sel)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// after is the state a later operation starts from: everything shared may have
// changed, construction-time state has not.
func (r *Run) after(o Outcome) *State {
	st := spawnState(r.in, o.st.heap, o.st.facts, o.st.escaped, o.st.epoch, r.in.nepoch+1)
	return st
}

// onceDone marks a sync.Once as run, so that later operations skip it.
func feedSetUp(o Outcome) bool {
	for e := o.st.ev; e != nil; e = e.prev {
		if e.kind == "once" && e.name == "first" {
			return true
		}
	}
	return false
}

// appended: seq is the whole previous content of a field's slice plus extra
// elements; it returns the extra part.
func (f *feedRule) appended(seq *T, v *types.Var) *T {
	if seq.op == "cat" && len(seq.a) == 2 && f.partOf(seq.a[0], v) {
		return seq.a[1]
	}
	return nil
}

// unchanged: the field and what it refers to are as they were found (no own
// write on the path).
func (f *feedRule) unchanged(st *State, v *types.Var) bool {
	sl := f.r.in.loadField(st, f.recv, v)
	if !isFieldInit(sl, f.recv, v) {
		if sl.op != "slice" {
			return false
		}
		if sl.a[1] != tZero || !sl.a[2].isApp("len") || !isFieldInit(sl.a[2].a[0], f.recv, v) {
			return false
		}
		c := f.r.in.content(st, sl.a[0])
		for c.isApp("init") || c.isApp("rgn") {
			if isFieldInit(c, f.recv, v) {
				return true
			}
			c = c.a[0]
		}
		return false
	}
	return true
}

func ruleFeedMembership(c *Check) {
	for _, owner := range []string{"Feed", "FeedOf"} {
		fn := c.fn("event", owner+".Subscribe")
		cases, inbox := c.p.fieldOf("event."+owner, "sendCases"), c.p.fieldOf("event."+owner, "inbox")
		rm, lock := c.p.fieldOf("event."+owner, "removeSub"), c.p.fieldOf("event."+owner, "sendLock")
		if fn == nil || cases == nil || inbox == nil || rm == nil || lock == nil {
			c.fail("anchor", owner+".Subscribe", 0, "the subscribe operation or the feed's fields cannot be found")
			continue
		}
		r := c.analyse(fn, nil, withTokens(c.p))
		fr := &feedRule{c: c, r: r, label: "event." + owner, cases: cases, inbox: inbox, recv: r.param(0), et: elemType(cases.Type())}
		ch := r.param(1)
		nret := 0
		done := map[string]bool{}
		for _, o := range r.outs {
			et := c.p.fieldOf("event."+owner, "etype")
			switch o.kind {
			case outPanic:
				c.ok("rejected", fr.label+".Subscribe panic", fr.unchanged(o.st, inbox), o.pos, "a rejected Subscribe leaves something in the inbox")
				if et != nil {
					v := r.in.loadField(o.st, fr.recv, et)
					c.ok("rejected", fr.label+".Subscribe panic type", isFieldInit(v, fr.recv, et) || v == tNil || fr.unset(o.st, v, et), o.pos, "a rejected Subscribe changes the feed's element type")
				}
			case outReturn:
				nret++
				fr.subscribed(o, ch, et)
				if feedSetUp(o) {
					fr.initialised(o, rm, lock)
				}
				// the subscription it returned
				if o.val.op != "iface" {
					c.fail("subscription", fr.label+".Subscribe result", o.pos, "Subscribe does not return a subscription: %v", o.val)
					continue
				}
				key := o.val.typ.String()
				if done[key] || feedSetUp(o) {
					continue
				}
				done[key] = true
				fr.unsubscribe(o, ch, rm, lock)
			}
		}
		c.floor("subscribe", "return paths of "+fr.label+".Subscribe", nret, 2)
		c.floor("unsubscribe", "subscription kinds of "+fr.label, len(done), 1)
		c.count("return_paths", nret)
	}
}

func (f *feedRule) unset(st *State, v *T, et *types.Var) bool {
	return st.facts.decideEq(v, tNil) == yes
}

// subscribed: a successful Subscribe adds exactly one case, for the given
// channel, and keeps the feed's element type.
func (f *feedRule) subscribed(o Outcome, ch *T, et *types.Var) {
	c, in := f.c, f.r.in
	label := f.label + ".Subscribe"
	sl := in.loadField(o.st, f.recv, f.inbox)
	var cas *T
	if sl.op == "slice" {
		content := in.content(o.st, sl.a[0])
		seq := subSeq(o.st.facts, content, sl.a[1], tAdd(sl.a[1], sl.a[2]))
		extra := f.appended(seq, f.inbox)
		if extra != nil && extra.op == "seq" && len(extra.a) == 1 {
			cas = extra.a[0]
		}
		c.ok("subscribe", label+" inbox", cas != nil, o.pos, "a successful Subscribe must leave the earlier pending subscriptions and exactly one new case, in that order: %v", seq)
	} else {
		c.fail("subscribe", label+" inbox", o.pos, "a successful Subscribe does not add a case")
	}
	if cas != nil {
		fld := func(n string) *T { return cas.a[fieldIdx(f.et, n)] }
		okch := isReflectOf(fld("Chan"), ch)
		c.ok("subscribe", label+" case channel", okch, o.pos, "the case is not for the given channel: %v", fld("Chan"))
		c.ok("subscribe", label+" case direction", fld("Dir") == mkInt(1), o.pos, "the case is not a send: %v", fld("Dir"))
		c.ok("subscribe", label+" case value", isZeroTerm(fld("Send")), o.pos, "the case carries a value before any send")
	}
	// only its own fields change
	c.ok("subscribe", label+" active cases", feedSetUp(o) || f.unchanged(o.st, f.cases), o.pos, "Subscribe changes the active case list itself")
	if et == nil {
		return
	}
	v := in.loadField(o.st, f.recv, et)
	elem := func(t *T) bool {
		return t.isApp("inv:(reflect.Type).Elem") && t.a[0].isApp("rtypeof") && t.a[0].a[0] == ch
	}
	same := elem(v) || elem(o.st.facts.rep(v))
	if !same {
		for _, e := range equalTo(o.st.facts, v) {
			if elem(e) {
				same = true
			}
		}
	}
	c.ok("type", label+" element type", same, o.pos, "after a successful Subscribe the feed's type is not shown to be the channel's element type: %v", v)
	if !isFieldInit(v, f.recv, et) { // written here: only when it was not set
		was := false
		for a, val := range o.st.facts.atoms {
			if val && a.s == "eq" && len(a.a) == 2 && (a.a[0] == tNil && isFieldInit(a.a[1], f.recv, et) || a.a[1] == tNil && isFieldInit(a.a[0], f.recv, et)) {
				was = true
			}
		}
		if !was {
			for x, val := range o.st.facts.eqt {
				if isFieldInit(x, f.recv, et) && val == tNil {
					was = true
				}
			}
		}
		c.ok("type", label+" fixes the type once", was, o.pos, "Subscribe overwrites the element type of a feed that already has one")
	}
	kind, dir := false, false
	k := findApp(o.st, "inv:(reflect.Type).Kind", ch)
	if k != nil {
		kind = o.st.proves(mkIntEq(k, mkInt(18)))
	}
	d := findApp(o.st, "inv:(reflect.Type).ChanDir", ch)
	if d != nil {
		m := mkApp("and", types.Typ[types.Int], mkInt(2), d)
		dir = !o.st.proves(mkIntEq(m, tZero)) && o.st.facts.decide(mkIntEq(m, tZero)) == no || o.st.facts.decide(mkIntEq(d, mkInt(1))) == no
	}
	c.ok("type", label+" accepts only channels", kind, o.pos, "something that is not shown to be a channel is accepted")
	c.ok("type", label+" accepts only sendable channels", dir, o.pos, "a channel that is not shown to be sendable is accepted")
}

// findApp looks for an application to the reflected type of ch among the facts.
func findApp(st *State, name string, ch *T) *T {
	var r *T
	look := func(t *T) {
		anyTerm(t, func(x *T) bool {
			if x.isApp(name) && x.a[0].isApp("rtypeof") && x.a[0].a[0] == ch {
				r = x
				return true
			}
			return false
		})
	}
	for _, t := range st.facts.le {
		look(t)
	}
	for _, t := range st.facts.ne {
		look(t)
	}
	for a := range st.facts.atoms {
		look(a)
	}
	for a, b := range st.facts.eqt {
		look(a)
		look(b)
	}
	return r
}

func equalTo(f *Facts, v *T) []*T {
	var out []*T
	for x := range f.eqt {
		if f.rep(x) == f.rep(v) {
			out = append(out, x)
		}
	}
	return append(out, f.rep(v))
}

func isZeroTerm(t *T) bool {
	return t == tNil || t.op == "app" && len(t.s) > 5 && t.s[:5] == "zero:"
}

// isReflectOf: the reflect.Value of ch, with or without the conversion to an
// interface.
func isReflectOf(v, ch *T) bool {
	if !v.isApp("rvalue") {
		return false
	}
	x := v.a[0]
	if x.op == "iface" {
		x = x.a[0]
	}
	return x == ch
}

func isChanValue(v, ch *T) bool {
	if v == ch || v.isApp("rvinterface") && isReflectOf(v.a[0], ch) {
		return true
	}
	return v.op == "iface" && v.a[0] == ch
}

// initialised: the one-time set-up gives an unbuffered removal channel, one
// send token, and a case list that starts with the removal case.
func (f *feedRule) initialised(o Outcome, rm, lock *types.Var) {
	c, in := f.c, f.r.in
	label := f.label + " set-up"
	rch := in.loadField(o.st, f.recv, rm)
	lch := in.loadField(o.st, f.recv, lock)
	c.ok("setup", label+" removal channel", rch.op == "mkchan" && rch.a[0] == tZero, o.pos, "the removal channel must be unbuffered: Unsubscribe may only get past it when a running Send has taken the request (%v)", rch)
	sends := 0
	for _, e := range events(o.st) {
		if e.kind == "send" && e.args[0] == lch {
			sends++
		}
	}
	c.ok("setup", label+" send token", lch.op == "mkchan" && lch.a[0] == tOne && sends == 1, o.pos, "the send token must be one value in a channel of capacity one (%v, %d sends)", lch, sends)
	at := o.st
	for _, e := range events(o.st) { // before anything is shared
		if e.kind == "lock" {
			at = stAt(e)
			break
		}
	}
	sl, content := f.list(at)
	ok := sl.op == "slice" && content.op == "seq" && len(content.a) == 1 && sl.a[2] == tOne
	if ok {
		cas := content.a[0]
		ok = isReflectOf(cas.a[fieldIdx(f.et, "Chan")], rch) && cas.a[fieldIdx(f.et, "Dir")] == mkInt(2)
	}
	c.ok("setup", label+" case list", ok, o.pos, "the case list does not start as the one case that receives removals: %v", content)
}

// unsubscribe checks the subscription a successful Subscribe returned.
func (f *feedRule) unsubscribe(o Outcome, ch *T, rm, lock *types.Var) {
	c := f.c
	m := c.p.methodNamed(o.val.typ, "Unsubscribe")
	errm := c.p.methodNamed(o.val.typ, "Err")
	if m == nil || errm == nil {
		c.fail("anchor", o.val.typ.String(), o.pos, "the subscription has no analysable Unsubscribe or Err")
		return
	}
	st := f.r.after(o)
	// its error channel
	er := c.analyseFrom(st.clone(), errm, []*T{o.val.a[0]}, nil, withTokens(c.p))
	var errch *T
	for _, eo := range er.outs {
		if eo.kind == outReturn {
			errch = eo.val
		}
	}
	if errch != nil && errch.isApp("ctype") {
		errch = errch.a[0]
	}
	c.ok("closes", f.label+" error channel", errch != nil && errch.op == "mkchan" && len(er.outs) == 1, errm.Pos(), "Err does not return the channel the subscription was created with: %v", errch)
	r := c.analyseFrom(st, m, []*T{o.val.a[0]}, nil, withTokens(c.p))
	g := &feedRule{c: c, r: r, label: f.label, cases: f.cases, inbox: f.inbox, recv: f.recv, et: f.et}
	label := f.label + " Unsubscribe"
	nfirst, nkinds := 0, map[string]bool{}
	for _, uo := range r.outs {
		if uo.kind == outFault && g.searchMissed(uo.st, ch, false) {
			continue // the case is in neither list: excluded by the rules above and E01
		}
		if uo.kind != outReturn {
			c.fail("unsubscribe", label, uo.pos, "Unsubscribe can end in a %s", uo.kind)
			continue
		}
		evs := events(uo.st)
		closes := 0
		var last *Event
		for _, e := range evs {
			if e.kind == "close" {
				closes++
				last = e
				c.ok("closes", label+" closes its own channel", errch != nil && r.in.chanOf(uo.st, e.args[0]) == errch, e.pos, "Unsubscribe closes something else than the subscription's error channel: %v", e.args[0])
			}
		}
		inboxSame, casesSame := g.unchanged(uo.st, f.inbox), g.unchanged(uo.st, f.cases)
		var handed, tookTok, gaveTok *Event
		for _, e := range evs {
			if e.kind == "send" && isFieldInit(e.args[0], f.recv, rm) {
				handed = e
			}
			if e.kind == "recv" && isFieldInit(e.args[0], f.recv, lock) {
				tookTok = e
			}
			if e.kind == "send" && isFieldInit(e.args[0], f.recv, lock) {
				gaveTok = e
			}
		}
		if hasKind(evs, "once", "done") && !hasKind(evs, "once", "first") || inboxSame && casesSame && handed == nil && closes == 0 {
			// a repeated Unsubscribe
			c.ok("idempotent", label+" again", inboxSame && casesSame && handed == nil && closes == 0, uo.pos, "a second Unsubscribe changes the feed or closes the error channel again")
			c.ok("idempotent", label+" again guard", hasKind(evs, "once", "done"), uo.pos, "a path of Unsubscribe does nothing although the subscription may still be active")
			continue
		}
		nfirst++
		c.ok("closes", label, closes == 1, uo.pos, "Unsubscribe closes the error channel %d times", closes)
		if last != nil {
			for e := uo.st.ev; e != nil && e != last; e = e.prev {
				c.ok("closes", label+" order", e.kind != "send" && e.kind != "recv" && e.kind != "select", e.pos, "Unsubscribe still talks to the feed after closing the error channel")
			}
			if lst := stAt(last); lst != nil {
				c.ok("closes", label+" removed before close", handed != nil && evN(handed) < evN(last) || !g.unchanged(lst, f.inbox) || !g.unchanged(lst, f.cases), last.pos, "the error channel is closed before the subscription is removed")
			}
		}
		switch {
		case handed != nil:
			nkinds["handover"] = true
			c.ok("unsubscribe", label+" handover", inboxSame && casesSame, handed.pos, "the removal is handed to the running Send, but the lists change as well")
			c.ok("unsubscribe", label+" handover value", isChanValue(handed.args[1], ch), handed.pos, "something else than the subscription's channel is handed to the running Send: %v", handed.args[1])
			c.ok("search", label+" handover", g.searchMissed(uo.st, ch, true), handed.pos, "the inbox is not shown to have been searched completely before asking Send")
		case !inboxSame && casesSame:
			nkinds["inbox"] = true
			c.ok("unsubscribe", label+" inbox", g.exactRemoval(uo.st, ch, f.inbox), uo.pos, "the inbox does not lose exactly the subscription's case: %v", r.in.loadField(uo.st, f.recv, f.inbox))
		case inboxSame && !casesSame:
			nkinds["cases"] = true
			c.ok("unsubscribe", label+" active cases", g.exactRemoval(uo.st, ch, f.cases), uo.pos, "the active cases do not lose exactly the subscription's case: %v", r.in.loadField(uo.st, f.recv, f.cases))
			c.ok("unsubscribe", label+" token", tookTok != nil && gaveTok != nil, uo.pos, "the active cases are changed without the send token")
			c.ok("search", label+" active cases", g.searchMissed(uo.st, ch, true), uo.pos, "the inbox is not shown to have been searched completely before the active cases are changed")
		case inboxSame && casesSame:
			c.fail("unsubscribe", label, uo.pos, "Unsubscribe closes the error channel although the subscription is still in the feed")
		default:
			c.fail("unsubscribe", label, uo.pos, "Unsubscribe removes a case from both lists")
		}
	}
	c.ok("unsubscribe", label+" during a send", nkinds["handover"], m.Pos(), "no path hands the removal to a send in progress: unsubscribing waits for a send that may be waiting for this subscriber")
	c.ok("unsubscribe", label+" pending", nkinds["inbox"], m.Pos(), "no path removes a subscription that no send has picked up yet")
	c.ok("unsubscribe", label+" between sends", nkinds["cases"], m.Pos(), "no path removes a subscription while no send is in progress")
	c.floor("unsubscribe", "effective paths of "+label, nfirst, 1)
	c.count("unsubscribe_paths", len(r.outs))
}

// chanOf strips the direction conversion of a channel.
func (in *Interp) chanOf(st *State, ch *T) *T {
	ch = st.facts.rep(ch)
	for ch.isApp("ctype") {
		ch = ch.a[0]
	}
	return ch
}

// exactRemoval: the list is the previous one without one case whose channel was
// compared equal to ch.
func (f *feedRule) exactRemoval(st *State, ch *T, v *types.Var) bool {
	in := f.r.in
	sl := in.loadField(st, f.recv, v)
	if sl.op != "slice" || sl.a[1] != tZero {
		return false
	}
	for a, val := range st.facts.atoms {
		if !val || a.s != "eq" && a.op != "eq" || len(a.a) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			if !isChanValue(a.a[k], ch) {
				continue
			}
			at := findAt(a.a[1-k])
			if at == nil || !f.partOf(at.a[0], v) {
				continue
			}
			old, idx := at.a[0], at.a[1]
			ln := oldLen(old)
			if ln == nil {
				continue
			}
			if !st.proves(mkIntEq(sl.a[2], tAddI(ln, -1))) {
				continue
			}
			fx := st.facts
			got := subSeq(fx, in.content(st, sl.a[0]), tZero, sl.a[2])
			want := mkCat(subSeq(fx, old, tZero, idx), subSeq(fx, old, tAddI(idx, 1), ln))
			if got == want {
				return true
			}
		}
	}
	return false
}

// oldLen is the length of the slice whose backing content a term is.
func oldLen(c *T) *T {
	for c.isApp("init") || c.isApp("rgn") {
		if c.isApp("rgn") {
			return mkApp("len", types.Typ[types.Int], c.a[0])
		}
		c = c.a[0]
	}
	return nil
}

// searchMissed: a loop on the path compared every element of the inbox (or of
// the active cases) with ch and found none equal.
func (f *feedRule) searchMissed(st *State, ch *T, inbox bool) bool {
	in := f.r.in
	v := f.cases
	if inbox {
		v = f.inbox
	}
	for _, l := range loopsOf(st) {
		if len(l.backs) == 0 {
			continue
		}
		for _, x := range in.loopVars(l) {
			ok := x.entry != nil
			var off *T
			var ln *T
			for i, b := range l.backs {
				if !ok {
					break
				}
				found := false
				for a, val := range b.st.facts.atoms {
					if val || a.s != "eq" && a.op != "eq" || len(a.a) != 2 {
						continue
					}
					for k := 0; k < 2; k++ {
						at := findAt(a.a[1-k])
						if !isChanValue(a.a[k], ch) || at == nil || !f.partOf(at.a[0], v) {
							continue
						}
						d := tSub(at.a[1], x.head)
						if d.isInt() && (off == nil || d == off) && tSub(x.backs[i], x.head) == tOne {
							off, found = d, true
							ln = oldLen(at.a[0])
						}
					}
				}
				ok = ok && found
			}
			if !ok || off == nil || ln == nil {
				continue
			}
			if l.entry.proves(mkIntEq(tAdd(x.entry, off), tZero)) && st.proves(mkLe(ln, tAdd(x.head, off))) {
				return true
			}
		}
	}
	return false
}
