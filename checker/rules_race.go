package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	properties["E05"] = ruleRaces
}

type accSite struct {
	acc   Access
	run   *Run
	locks map[string]string // lock name -> mode
}

// E05: every piece of shared state is either never written after its object
// is published, or all its accesses agree on a lock.
func ruleRaces(c *Check) {
	q := newQuiet(c.p)
	var roots []*ssa.Function
	for _, f := range c.apiRoots(syncPkgs...) {
		if !q.of(f).quiet && !c.p.isCollection(f) {
			roots = append(roots, f)
		}
	}
	runs := c.explore(roots, q, withTokens(c.p), withQuiet(q, nil), func(in *Interp) { in.trackAccess = true })
	tf, makes := c.p.tokenChans()
	_ = tf
	by := map[string][]accSite{}
	add := func(key string, r *Run, a Access) {
		s := accSite{acc: a, run: r, locks: map[string]string{}}
		for _, h := range a.held {
			n := c.lockName(h, a, makes)
			if h.mode == "once" && strings.HasPrefix(n, "self.") {
				return // initialisation that happens before every other use
			}
			s.locks[n] = h.mode
		}
		for _, o := range a.onces {
			if n := c.lockName(Held{lock: o}, a, makes); s.locks[n] == "" {
				s.locks[n] = "r"
			}
		}
		by[key] = append(by[key], s)
	}
	globMap := map[*T]*ssa.Global{}
	for a, v := range c.p.initHeap {
		if a.op == "global" && v.op == "mkmap" {
			globMap[v] = a.v.(*ssa.Global)
		}
	}
	for _, r := range runs {
		for _, a := range r.in.access {
			if a.fresh {
				continue
			}
			switch {
			case a.field != nil:
				if c.p.immutable[a.field] || !c.p.sharedOwner(a.field) {
					continue
				}
				add(c.p.fieldOwner(a.field), r, a)
			case a.glob != nil:
				if c.p.mutGlobal[a.glob] {
					add(strings.ReplaceAll(a.glob.String(), modPath+"/", ""), r, a)
				}
			}
		}
		r.allEvents(func(e *Event) {
			a := Access{fn: e.fn, pos: e.pos, held: e.held, onces: e.onces}
			switch e.kind {
			case "mapget", "rangemap", "iterdone":
			case "mapset", "mapdelete", "mapclear":
				a.write = true
			default:
				return
			}
			m := e.args[0]
			if g := globMap[m]; g != nil {
				a.glob = g
				add(strings.ReplaceAll(g.String(), modPath+"/", "")+" (contents)", r, a)
				return
			}
			if m.isApp("init") && m.a[0].op == "field" {
				a.field, a.base = m.a[0].v.(*types.Var), m.a[0].a[0]
				if c.p.sharedOwner(a.field) {
					add(c.p.fieldOwner(a.field)+" (contents)", r, a)
				}
			}
		})
	}
	var keys []string
	for k := range by {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	guarded := 0
	for _, k := range keys {
		sites := by[k]
		writes, atomics := 0, 0
		held := map[string]int{} // lock -> accesses that hold it well enough
		for _, s := range sites {
			if s.acc.write {
				writes++
			}
			if s.acc.atomic {
				atomics++
			}
			for l, m := range s.locks {
				if !(s.acc.write && m == "r") {
					held[l]++
				}
			}
		}
		c.count("shared_variables", 1)
		c.count("accesses", len(sites))
		if os.Getenv("CHK_DEBUG") != "" {
			fmt.Println("FIELD", k, len(sites), "writes", writes, "atomic", atomics, held)
		}
		if writes == 0 {
			c.ok("guarded", k+" is never written once shared", true, 0, "")
			continue
		}
		if atomics > 0 {
			for _, s := range sites {
				c.ok("atomic-only", k+" in "+fnLabel(s.run.fn), s.acc.atomic, s.acc.pos, "%s is accessed atomically elsewhere but plainly here", k)
			}
			continue
		}
		best, bn := "", -1
		var ls []string
		for l := range held {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			if held[l] > bn {
				best, bn = l, held[l]
			}
		}
		if confined(k, sites) {
			c.ok("confined", k+" is only used by the goroutine that owns it", true, 0, "")
			continue
		}
		guarded++
		for _, s := range sites {
			m := s.locks[best]
			good := m != "" && !(s.acc.write && m == "r") || raceException(k, s)
			how := "read"
			if s.acc.write {
				how = "written"
			}
			c.ok("guarded", k+" "+how+" in "+fnLabel(s.acc.fn)+" from "+fnLabel(s.run.fn), good, s.acc.pos, "%s is %s holding %s, but its other accesses hold %q", k, how, lockSet(s.locks), best)
		}
	}
	c.count("guarded_variables", guarded)
	c.floor("guarded", "lock-guarded shared variables", guarded, 12)
}

func lockSet(m map[string]string) string {
	if len(m) == 0 {
		return "no lock"
	}
	var ls []string
	for l, k := range m {
		ls = append(ls, l+"("+k+")")
	}
	sort.Strings(ls)
	return strings.Join(ls, ", ")
}

// raceException: accesses that are ordered by something other than a lock.
func raceException(k string, s accSite) bool {
	switch k {
	case "event.Feed.etype":
		// the element type is set once, under the lock; Send re-reads it for the
		// panic message after it has seen it set
		return !s.acc.write && fnLabel(s.run.fn) == "(*event.Feed).Send"
	case "common/mclock.simTimer.at":
		// the callback of a channel timer reads its own due time; Reset must not
		// race with expiry by the contract of Reset
		return !s.acc.write && (s.acc.fn.Parent() != nil || s.run.fn.Parent() != nil)
	case "common/mclock.simTimer.ch":
		// set by NewTimer before the timer is returned to anybody
		return !s.acc.write
	}
	return false
}

// confined: every access happens in one goroutine (or one it starts and waits
// for) of the type's own, started by its constructor.
func confined(k string, sites []accSite) bool {
	top := func(r *Run) *Run {
		for r.parent != nil && r.parent.spawned {
			r = r.parent
		}
		return r
	}
	var t *ssa.Function
	for _, s := range sites {
		r := top(s.run)
		if !r.spawned || t != nil && t != r.fn {
			return false
		}
		t = r.fn
		if s.run != r && s.acc.write {
			return false // only the owner itself may write
		}
	}
	return true
}

// isCollection: methods of the unexported container types handed to
// container/heap and sort, which run inside the operations that use them.
func (p *Program) isCollection(f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return false
	}
	ms := p.SSA.MethodSets.MethodSet(rv.Type())
	has := func(n string) bool { return ms.Lookup(f.Pkg.Pkg, n) != nil }
	return has("Less") && has("Swap") && has("Len")
}

// sharedOwner: the field belongs to a structure meant for concurrent use: one
// that carries synchronisation state, or one reached only through such a one.
func (p *Program) sharedOwner(v *types.Var) bool {
	o := p.fieldOwner(v)
	o = o[:strings.LastIndex(o, ".")]
	if o == "common/mclock.Alarm" {
		return false // documented for use by one goroutine
	}
	st := p.structs[o]
	if hasSync(st) {
		return true
	}
	for i := 0; st != nil && i < st.NumFields(); i++ { // a part that points back to its synchronised whole
		if pt, ok := st.Field(i).Type().(*types.Pointer); ok && hasMutex(structOf(pt)) {
			return true
		}
	}
	return false
}

func hasMutex(s *types.Struct) bool {
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if n, ok := s.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return true
		}
	}
	return false
}

func (p *Program) fieldOwner(v *types.Var) string {
	p.indexStructs()
	o := p.owners[v]
	if o == "" {
		o = "?"
	}
	return o + "." + v.Name()
}

// indexStructs fills the tables of the module's struct types.
func (p *Program) indexStructs() {
	if p.owners == nil {
		p.owners = map[*types.Var]string{}
		p.structs = map[string]*types.Struct{}
		for _, sp := range p.SPkgs {
			for _, m := range sp.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				st, ok := t.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				p.structs[strings.TrimPrefix(sp.Pkg.Path(), modPath+"/")+"."+t.Name()] = st
				for i := 0; i < st.NumFields(); i++ {
					p.owners[st.Field(i).Origin()] = strings.TrimPrefix(sp.Pkg.Path(), modPath+"/") + "." + t.Name()
				}
			}
		}
	}
}

// lockName identifies a held lock relative to the object accessed.
func (c *Check) lockName(h Held, a Access, makes map[*ssa.MakeChan]*types.Var) string {
	l := h.lock
	if l.op == "mkchan" {
		mc, _ := l.v.(*ssa.MakeChan)
		if v := makes[mc]; v != nil {
			if a.field != nil && sameOwner(c.p, v, a.field) {
				return "self." + v.Name()
			}
			return c.p.fieldOwner(v)
		}
	}
	if l.isApp("init") {
		l = l.a[0]
	}
	if l.op == "field" && a.base != nil {
		lv := l.v.(*types.Var)
		if a.field != nil && sameOwner(c.p, lv, a.field) {
			if sameObject(l.a[0], a.base) {
				return "self." + lv.Name()
			}
			return "other instance's " + lv.Name()
		}
	}
	return lockClass(h.lock)
}

func sameOwner(p *Program, a, b *types.Var) bool {
	oa, ob := p.fieldOwner(a), p.fieldOwner(b)
	return oa[:strings.LastIndex(oa, ".")] == ob[:strings.LastIndex(ob, ".")]
}

func sameObject(a, b *T) bool { return a == b }
