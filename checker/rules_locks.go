package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func init() {
	properties["E04"] = ruleLocks
}

var syncPkgs = []string{"event", "common/mclock", "log", "crypto/randentropy", "crypto", "common", "common/compiler"}

// E04: every acquire is released on every way out, nothing is acquired twice,
// the acquisition order is acyclic, and foreign code and blocking operations
// stay outside locks.
func ruleLocks(c *Check) {
	roots := c.apiRoots(syncPkgs...)
	q := newQuiet(c.p)
	kept := roots[:0]
	for _, f := range roots {
		if q.of(f).quiet { // nothing it can reach synchronises at all
			c.count("roots_without_synchronisation", 1)
			c.ok("lock-released", fnLabel(f)+" (no synchronisation reachable)", true, f.Pos(), "")
			continue
		}
		kept = append(kept, f)
	}
	roots = kept
	runs := c.explore(roots, q, withTokens(c.p), withQuiet(q, nil))
	type edge struct{ a, b string }
	edges := map[edge]*Event{}
	sites := map[token.Pos]bool{}
	for _, r := range runs {
		label := fnLabel(r.fn)
		for _, o := range r.outs {
			if o.kind == outExit {
				continue
			}
			var hs []string
			for _, h := range o.st.held {
				hs = append(hs, lockClass(h.lock))
			}
			c.ok("lock-released", label+" "+o.kind.String()+" "+strings.Join(hs, ","), len(hs) == 0, o.pos, "%s with %s still held", o.kind, strings.Join(hs, ", "))
		}
		for _, ob := range r.in.oblig {
			if ob.kind == "lockloop" {
				c.fail("lock-released", label+" loop", ob.pos, "a loop iteration ends with different locks held than it began with")
			}
		}
		acquire := func(e *Event, l *T, name string) {
			sites[e.pos] = true
			for _, h := range e.held {
				if h.lock == l && l != nil {
					c.fail("no-self-lock", label+" "+name, e.pos, "%s is acquired while it is already held", name)
					continue
				}
				if h.mode == "once" {
					continue
				}
				k := edge{lockClass(h.lock), name}
				if edges[k] == nil {
					edges[k] = e
				}
			}
		}
		r.allEvents(func(e *Event) {
			switch e.kind {
			case "lock":
				acquire(e, e.args[0], lockClass(e.args[0]))
			case "locks":
				acquire(e, nil, e.name)
			case "recv":
				if r.in.isToken(e.args[0]) {
					for _, h := range e.held {
						if h.mode != "once" && h.mode != "token" {
							acquire(e, e.args[0], lockClass(e.args[0]))
							break
						}
					}
					for _, h := range e.held {
						if h.mode == "token" && h.lock == e.args[0] && e.sel == nil {
							acquire(e, e.args[0], lockClass(e.args[0]))
						}
					}
				}
			case "unlock":
				c.ok("unlock-held", label+" "+lockClass(e.args[0]), !strings.HasSuffix(e.name, "!"), e.pos, "%s is released without being held", lockClass(e.args[0]))
			}
			for _, h := range e.held {
				if h.mode == "once" {
					continue
				}
				what := blockingOrForeign(e)
				if what == "" {
					continue
				}
				c.ok("outside-locks", label+" "+what+" under "+lockClass(h.lock), c.allowedUnder(r, e, h), e.pos, "%s while %s is held", what, lockClass(h.lock))
			}
		})
	}
	c.count("roots", len(runs))
	c.count("acquisition_sites", len(sites))
	c.floor("outside-locks", "lock acquisition sites", len(sites), 20)
	// acyclic order
	var names []string
	adj := map[string][]string{}
	for e := range edges {
		adj[e.a] = append(adj[e.a], e.b)
		names = append(names, e.a)
	}
	sort.Strings(names)
	c.count("order_edges", len(edges))
	var path []string
	state := map[string]int{}
	var visit func(n string)
	visit = func(n string) {
		state[n] = 1
		path = append(path, n)
		sort.Strings(adj[n])
		for _, m := range adj[n] {
			c.ok("lock-order", n+" -> "+m, state[m] != 1, edges[edge{n, m}].pos, "acquisition order has a cycle: %s -> %s", strings.Join(path, " -> "), m)
			if state[m] == 0 {
				visit(m)
			}
		}
		path = path[:len(path)-1]
		state[n] = 2
	}
	for _, n := range names {
		if state[n] == 0 {
			visit(n)
		}
	}
}

func blockingOrForeign(e *Event) string {
	switch e.kind {
	case "callback":
		return "calls a function it was given"
	case "invoke":
		return "calls " + strings.ReplaceAll(e.name, modPath+"/", "")
	case "recv":
		if e.sel != nil && (!e.sel.Blocking) {
			return ""
		}
		return "receives from a channel"
	case "send":
		if e.sel != nil && (!e.sel.Blocking) {
			return ""
		}
		return "sends on a channel"
	case "rselect":
		return "waits in a select"
	case "condwait":
		return "waits on a condition"
	case "call":
		if e.name == "time.Sleep" {
			return "sleeps"
		}
	}
	return ""
}

// allowedUnder lists, with reasons, what may happen while a lock is held.
func (c *Check) allowedUnder(r *Run, e *Event, h Held) bool {
	if h.mode == "token" {
		// the token serialises whole deliveries, including their blocking part
		return true
	}
	switch e.kind {
	case "send":
		if r.in.isToken(e.args[0]) {
			return true // handing the token on never blocks: there is only one
		}
		if e.args[0].op == "mkchan" {
			if k, ok := e.args[0].a[0].int64(); ok && k >= 1 {
				return true // buffered for the one value it carries
			}
		}
		if e.sel != nil && h.mode == "r" && len(e.sel.States) > 1 {
			return true // TypeMux delivery: the other case is the subscription's closing signal, and closers signal before locking
		}
	case "recv":
		if e.sel != nil && h.mode == "r" && len(e.sel.States) > 1 {
			return true
		}
	case "condwait":
		return len(e.held) == 1 // waiting releases the condition's own lock
	case "invoke":
		if strings.HasPrefix(lockClass(h.lock), "local ") {
			// SyncHandler: the lock exists to serialise the wrapped handler
			return strings.HasPrefix(e.name, "("+modPath+"/log.") || e.name == "(io.Writer).Write"
		}
		if e.name == "("+modPath+"/event.Subscription).Unsubscribe" && recvTypeName(e.fn.Signature.Recv()) == "SubscriptionScope" {
			return true // Close ends every tracked subscription before anybody can track another
		}
	}
	return false
}

func recvTypeName(v *types.Var) string {
	if v == nil {
		return ""
	}
	t := v.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}
