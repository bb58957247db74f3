package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// runInit evaluates package initialisation abstractly and records what the
// never-reassigned globals hold.
func (p *Program) runInit() {
	p.initHeap = map[*T]*T{}
	p.initDone = map[*ssa.Package]bool{}
	p.initEv = map[*ssa.Package]*State{}
	p.onceCell = p.computeOnce()
	var paths []string
	for k := range p.SPkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	done := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if done[path] {
			return
		}
		done[path] = true
		sp := p.SPkgs[path]
		imps := sp.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, im := range imps {
			if p.SPkgs[im.Path()] != nil {
				visit(im.Path())
			}
		}
		in := newInterp(p)
		in.inInit = true
		in.noHavoc = true
		in.nfresh = p.freshBase
		fn := sp.Func("init")
		if fn == nil {
			return
		}
		st := newState()
		for k, v := range p.initHeap {
			st.heap[k] = v
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				if isBigInt(t) {
					continue
				}
				if _, ok := t.Underlying().(*types.Array); ok || splittable(t) == nil {
					st.heap[mkGlobal(g)] = in.zeroVal(t)
				}
			}
		}
		in.hook = func(c *callCtx) []Outcome {
			if f := c.common.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != sp && f.Signature.Recv() == nil {
				return c.ret(tUnit)
			}
			return nil
		}
		outs := in.Call(st, fn, nil, nil)
		p.freshBase = in.nfresh
		p.initOver = in.overrun
		for _, o := range outs {
			if o.kind == outReturn {
				for k, v := range o.st.heap {
					p.initHeap[k] = v
				}
				p.initDone[sp] = true
				p.initEv[sp] = o.st
				break
			}
		}
	}
	for _, k := range paths {
		visit(k)
	}
}

// computeOnce finds local variables shared with closures that are assigned at
// most once, by the function that declares them.
func (p *Program) computeOnce() map[string]bool {
	in := newInterp(p)
	stores := map[*ssa.Alloc]int{}
	bad := map[*ssa.Alloc]bool{}
	freeOf := map[*ssa.FreeVar]ssa.Value{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					for i, x := range mc.Bindings {
						freeOf[mc.Fn.(*ssa.Function).FreeVars[i]] = x
					}
				}
			}
		}
	}
	var root func(v ssa.Value) *ssa.Alloc
	root = func(v ssa.Value) *ssa.Alloc {
		switch v := v.(type) {
		case *ssa.Alloc:
			return v
		case *ssa.FreeVar:
			if freeOf[v] != nil {
				return root(freeOf[v])
			}
		}
		return nil
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if a := root(ins.Addr); a != nil {
						stores[a]++
						if _, direct := ins.Addr.(*ssa.Alloc); !direct {
							bad[a] = true
						}
					}
					if a := root(ins.Val); a != nil {
						bad[a] = true
					}
				case *ssa.UnOp, *ssa.DebugRef, *ssa.MakeClosure:
				default:
					for _, op := range ins.Operands(nil) {
						if *op == nil {
							continue
						}
						if a := root(*op); a != nil {
							bad[a] = true
						}
					}
				}
			}
		}
	}
	m := map[string]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if a, ok := ins.(*ssa.Alloc); ok && !bad[a] && (stores[a] <= 1 || storedBeforeShared(a)) {
					m[in.allocLabel(fn, a)] = true
				}
			}
		}
	}
	return m
}

// storedBeforeShared: no assignment of the variable can follow the making of a
// closure that uses it.
func storedBeforeShared(a *ssa.Alloc) bool {
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	reaches := func(from *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		if m := reach[from]; m != nil {
			return m
		}
		m := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, from.Succs...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if !m[b] {
				m[b] = true
				work = append(work, b.Succs...)
			}
		}
		reach[from] = m
		return m
	}
	for _, r := range *a.Referrers() {
		mc, ok := r.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		after := reaches(mc.Block())
		if after[a.Block()] {
			return false // several instances
		}
		for _, r2 := range *a.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok {
				continue
			}
			if after[st.Block()] || st.Block() == mc.Block() && instrIndex(mc) < instrIndex(st) {
				return false
			}
		}
	}
	return true
}

func instrIndex(i ssa.Instruction) int {
	for n, x := range i.Block().Instrs {
		if x == i {
			return n
		}
	}
	return -1
}
