package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiRoots are the functions and methods other code can reach by name in the
// given packages (relative import paths).
func (c *Check) apiRoots(pkgs ...string) []*ssa.Function {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[modPath+"/"+p] = true
		if c.p.SPkgs[modPath+"/"+p] == nil {
			c.fail("anchor", "package "+p, token.NoPos, "package does not exist any more")
		}
	}
	var out []*ssa.Function
	for _, f := range c.p.Funcs {
		if f.Parent() != nil || f.Pkg == nil || !want[f.Pkg.Pkg.Path()] || f.Synthetic != "" {
			continue
		}
		if !token.IsExported(f.Name()) && f.Name() != "main" {
			continue
		}
		if originOf(f) != f {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// explore analyses the roots, then every goroutine they start and every
// function value they hand out (return or leave in shared memory), each as a
// root of its own in the state it was created in.
func (c *Check) explore(roots []*ssa.Function, q *quietSet, opts ...runOpt) []*Run {
	type item struct {
		fn      *ssa.Function
		st      *State
		args    []*T
		binds   []*T
		parent  *Run
		spawned bool
	}
	var work []item
	for _, f := range roots {
		work = append(work, item{fn: f, st: newState()})
	}
	seen := map[*T]bool{}
	seenFn := map[*ssa.Function]bool{}
	var runs []*Run
	add := func(st *State, parent *Run, spawned bool, f *T, args []*T) {
		if f.op != "fn" {
			return
		}
		fn := f.v.(*ssa.Function)
		if !inRepo(fn) || len(fn.Blocks) == 0 || seen[f] || seenFn[fn] && fn.Parent() == nil {
			return
		}
		if fn.Parent() == nil && token.IsExported(fn.Name()) && len(args) == 0 {
			return
		}
		seen[f] = true
		n := 0
		for k := range seen {
			if k.v == f.v {
				n++
			}
		}
		if n > 12 {
			return // the same closure in many states
		}
		work = append(work, item{fn, st, args, f.a, parent, spawned})
	}
	for {
		if len(work) == 0 && q != nil {
			for _, f := range q.apart {
				if !seenFn[f] {
					work = append(work, item{fn: f, st: newState()})
				}
			}
		}
		if len(work) == 0 {
			break
		}
		it := work[0]
		work = work[1:]
		seenFn[it.fn] = true
		r := c.analyseFrom(it.st, it.fn, it.args, it.binds, opts...)
		r.parent, r.spawned = it.parent, it.spawned
		runs = append(runs, r)
		for _, e := range r.in.spawns {
			st := spawnState(r.in, e.heap, e.facts, e.escaped, e.epoch, r.in.nepoch+1)
			add(st, r, true, c.p.repOf(e.facts, e.args[0]), e.args[1:])
		}
		for _, o := range r.outs {
			if o.kind != outReturn {
				continue
			}
			var fns []*T
			collectFns(o.st, o.val, map[*T]bool{}, &fns, 0)
			for _, a := range sortedAddrs(o.st.heap) {
				if ra := rootOf(a); ra.op != "alloc" || o.st.escaped[ra] {
					if ra.op == "global" && c.p.initHeap[a] == o.st.heap[a] {
						continue
					}
					collectFns(o.st, o.st.heap[a], map[*T]bool{}, &fns, 0)
				}
			}
			for _, f := range fns {
				if f.v.(*ssa.Function).Parent() == nil && strings.HasSuffix(f.v.(*ssa.Function).Name(), "$bound") == false {
					continue
				}
				st := spawnState(r.in, o.st.heap, o.st.facts, o.st.escaped, o.st.epoch, r.in.nepoch+1)
				add(st, r, false, f, nil)
			}
		}
	}
	return runs
}

func (p *Program) repOf(f *Facts, t *T) *T {
	if f == nil {
		return t
	}
	return f.rep(t)
}

func sortedAddrs(h map[*T]*T) []*T {
	var as []*T
	for a := range h {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

// collectFns finds function values reachable from v.
func collectFns(st *State, v *T, seen map[*T]bool, out *[]*T, depth int) {
	if v == nil || seen[v] || depth > 6 {
		return
	}
	seen[v] = true
	if v.op == "fn" {
		*out = append(*out, v)
		for _, x := range v.a {
			collectFns(st, x, seen, out, depth+1)
		}
		return
	}
	if v.op == "alloc" {
		if x, ok := st.heap[v]; ok {
			collectFns(st, x, seen, out, depth+1)
		}
		for _, a := range sortedAddrs(st.heap) {
			if a.op == "field" && a.a[0] == v {
				collectFns(st, st.heap[a], seen, out, depth+1)
			}
		}
		return
	}
	if v.op == "iface" || v.op == "struct" || v.op == "tuple" {
		for _, x := range v.a {
			collectFns(st, x, seen, out, depth+1)
		}
	}
}

// spawnState is the state another goroutine (or a later caller) starts from:
// everything reachable is shared and may have changed, except what is
// immutable after construction.
func spawnState(in *Interp, heap map[*T]*T, facts *Facts, escaped map[*T]bool, epoch, newEpoch int) *State {
	st := newState()
	for a, v := range heap {
		st.heap[a] = v
	}
	if facts != nil {
		st.facts = facts.clone()
	}
	for a := range heap {
		if r := rootOf(a); r.op == "alloc" {
			st.escaped[r] = true
		}
	}
	for a := range escaped {
		st.escaped[a] = true
	}
	in.havocShared(st)
	// locks are not inherited; closure cells keep their values only if never
	// written again, which havocShared decides
	return st
}

// ---- lock classes ----

// lockClass names a lock by where it lives, not by instance.
func lockClass(l *T) string {
	switch l.op {
	case "field":
		return fieldName(l.v.(*types.Var), l.a[0])
	case "global":
		return l.v.(*ssa.Global).String()
	case "alloc":
		s := l.s
		if i := strings.LastIndexByte(s, '#'); i >= 0 {
			s = s[:i]
		}
		return "local " + s
	case "mkchan":
		return "channel token"
	case "app":
		if l.s == "init" || strings.HasPrefix(l.s, "fld:") {
			return lockClass(l.a[0])
		}
		if len(l.a) > 0 {
			return l.s + "(" + lockClass(l.a[0]) + ")"
		}
	}
	return l.String()
}

func fieldName(v *types.Var, base *T) string {
	owner := ""
	if base != nil && base.typ != nil {
		t := base.typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			owner = n.Obj().Name() + "."
		}
	}
	pkg := ""
	if v.Pkg() != nil {
		pkg = v.Pkg().Name() + "."
	}
	return pkg + owner + v.Name()
}

// tokenFields are channel fields used as a lock: made with capacity one,
// element type struct{}, and filled by the function that makes them.
func (p *Program) tokenChans() (map[*types.Var]bool, map[*ssa.MakeChan]*types.Var) {
	out := map[*types.Var]bool{}
	makes := map[*ssa.MakeChan]*types.Var{}
	for _, f := range p.Funcs {
		made := map[*types.Var]*ssa.MakeChan{}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					mc, ok2 := i.Val.(*ssa.MakeChan)
					if ok && ok2 {
						k, okc := mc.Size.(*ssa.Const)
						st, okS := mc.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct)
						if okc && k.Int64() == 1 && okS && st.NumFields() == 0 {
							made[fieldVar(fa)] = mc
						}
					}
				case *ssa.Send:
					if u, ok := i.Chan.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && made[fieldVar(fa)] != nil {
							out[fieldVar(fa)] = true
							makes[made[fieldVar(fa)]] = fieldVar(fa)
						}
					}
				}
			}
		}
	}
	return out, makes
}

func withTokens(p *Program) runOpt {
	tf, makes := p.tokenChans()
	return func(in *Interp) {
		in.isToken = func(ch *T) bool {
			if ch.op == "mkchan" {
				mc, _ := ch.v.(*ssa.MakeChan)
				return makes[mc] != nil
			}
			if ch.isApp("init") && ch.a[0].op == "field" {
				return tf[ch.a[0].v.(*types.Var)]
			}
			return false
		}
	}
}

// allEvents are the distinct events met on every path of the run, including
// those inside loop bodies.
func (r *Run) allEvents(f func(e *Event)) {
	seen := map[*Event]bool{}
	walk := func(e *Event) {
		for ; e != nil && !seen[e]; e = e.prev {
			seen[e] = true
			f(e)
		}
	}
	for _, o := range r.outs {
		walk(o.st.ev)
	}
	for _, l := range r.in.loops {
		for _, b := range l.backs {
			walk(b.st.ev)
		}
	}
	for _, e := range r.in.spawns {
		walk(e)
	}
}
