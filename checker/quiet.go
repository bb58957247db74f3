package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// quietInfo says whether a function can be replaced, for the synchronisation
// rules, by "returns anything": nothing reachable from it takes a lock, uses a
// channel, starts a goroutine, touches a structure that has synchronisation
// state, or panics on its own account.
type quietInfo struct {
	quiet    bool
	self     bool // like quiet, except that it uses locks and variables that are package-level
	locks    map[string]bool
	callback bool // runs code passed in from outside (interface or function value)
}

type quietSet struct {
	p     *Program
	memo  map[*ssa.Function]*quietInfo
	apart []*ssa.Function // self-contained functions met, to be analysed on their own
}

func newQuiet(p *Program) *quietSet { return &quietSet{p: p, memo: map[*ssa.Function]*quietInfo{}} }

func (q *quietSet) of(fn *ssa.Function) *quietInfo {
	fn = originOf(fn)
	if i := q.memo[fn]; i != nil {
		return i
	}
	i := &quietInfo{quiet: true, self: true, locks: map[string]bool{}}
	q.memo[fn] = i // recursion: assume quiet
	q.scan(fn, i)
	return i
}

func (q *quietSet) scan(fn *ssa.Function, qi *quietInfo) {
	bad := func() { qi.quiet, qi.self = false, false }
	shared := func() { qi.quiet = false }
	if rt, ok := resultType(fn.Signature).(*types.Tuple); ok {
		for i := 0; i < rt.Len(); i++ {
			if !plainResult(rt.At(i).Type()) {
				bad()
			}
		}
	} else if !plainResult(resultType(fn.Signature)) {
		bad()
	}
	recovers := false
	for _, a := range fn.AnonFuncs {
		if callsRecover(a) {
			recovers = true
		}
	}
	if callsRecover(fn) {
		recovers = true
	}
	call := func(cc *ssa.CallCommon) {
		if cc.IsInvoke() {
			qi.callback = true
			return
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return
		}
		f := cc.StaticCallee()
		if f == nil {
			qi.callback = true
			return
		}
		if len(f.Blocks) > 0 && inRepoOrSynthetic(f) {
			q.merge(qi, q.of(f))
			return
		}
		if f.Pkg != nil || f.Object() != nil && f.Object().Pkg() != nil {
			pkg := f.Object().Pkg().Path()
			if pkg == "sync" && len(cc.Args) > 0 {
				if g, ok := cc.Args[0].(*ssa.Global); ok {
					shared()
					qi.locks[g.String()] = true
					return
				}
			}
			if pkg == "sync/atomic" && len(cc.Args) > 0 {
				if _, ok := cc.Args[0].(*ssa.Global); ok {
					shared()
					return
				}
			}
			switch pkg {
			case "sync", "sync/atomic", "os", "time", "net", "os/exec", "log/syslog", "context", "github.com/go-stack/stack":
				if pkg != "time" || f.Signature.Recv() == nil && f.Name() != "Duration" {
					bad()
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
				bad()
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					bad()
				}
				if g, ok := i.X.(*ssa.Global); ok && q.p.mutGlobal[g] {
					shared()
				}
			case *ssa.Store:
				if _, ok := i.Addr.(*ssa.Global); ok {
					shared()
				}
			case *ssa.FieldAddr:
				if hasSync(structOf(i.X.Type())) {
					bad()
				}
			case *ssa.Panic:
				if !recovers {
					bad()
				}
			case *ssa.Call:
				call(&i.Call)
			case *ssa.Defer:
				call(&i.Call)
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		q.merge(qi, q.of(a))
	}
}

func (q *quietSet) merge(qi, s *quietInfo) {
	qi.quiet = qi.quiet && s.quiet
	qi.self = qi.self && s.self
	qi.callback = qi.callback || s.callback
	for l := range s.locks {
		qi.locks[l] = true
	}
}

func plainResult(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Array:
		return true
	case *types.Slice:
		return plainResult(u.Elem())
	case *types.Pointer:
		return isBigInt(u.Elem())
	case *types.Interface:
		return types.Identical(t, errType()) || u.Empty()
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !plainResult(u.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// hasSync: the structure carries synchronisation state.
func hasSync(s *types.Struct) bool {
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		t := s.Field(i).Type()
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "sync/atomic":
				return true
			}
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return true
		}
	}
	return false
}

// withQuiet replaces calls of quiet functions that branch or loop a lot.
func withQuiet(q *quietSet, next func(*callCtx) []Outcome) runOpt {
	return func(in *Interp) {
		prev := in.hook
		in.hook = func(c *callCtx) []Outcome {
			if next != nil {
				if o := next(c); o != nil {
					return o
				}
			}
			if prev != nil {
				if o := prev(c); o != nil {
					return o
				}
			}
			if c.common.IsInvoke() || c.fnv == nil || c.fnv.op != "fn" {
				return nil
			}
			fn := originOf(c.fnv.v.(*ssa.Function))
			if len(fn.Blocks) < 8 && len(in.info(fn).loops) == 0 || !inRepo(fn) {
				return nil
			}
			qi := q.of(fn)
			if !qi.quiet && (!qi.self || fn == in.root) {
				return nil
			}
			if !qi.quiet {
				known := false
				for _, f := range q.apart {
					known = known || f == fn
				}
				if !known {
					q.apart = append(q.apart, fn)
				}
				for l := range qi.locks {
					c.ev("locks", l, nil, nil)
				}
			}
			for _, a := range c.args {
				in.clobber(c.st, a)
			}
			if qi.callback {
				e := c.ev("callback", fnName(fn), c.args, nil)
				outs := in.unknownCall(c, c.args, c.resType())
				e.res = outs[0].val
				return outs
			}
			var v *T = tUnit
			if rt := c.resType(); rt != nil {
				if tt, ok := rt.(*types.Tuple); !ok || tt.Len() > 0 {
					v = in.fresh("res", rt)
				}
			}
			return c.ret(v)
		}
	}
}
