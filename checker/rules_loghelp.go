package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// call runs a function in a state of this run.
func (r *Run) call(st *State, fn *ssa.Function, args, binds []*T) []Outcome {
	outs := r.in.Call(st, fn, args, binds)
	if r.in.overrun != "" {
		r.c.fail("analysis", fnLabel(fn), fn.Pos(), "undecided: %s", r.in.overrun)
	}
	r.c.count("paths", len(outs))
	for f := range r.in.analysed {
		r.c.funcs[fnLabel(f)] = true
	}
	return outs
}

// method calls a method of an interface value whose dynamic type is known.
func (r *Run) method(st *State, recv *T, name string, args ...*T) []Outcome {
	if recv == nil || recv.op != "iface" {
		r.c.fail("analysis", fnLabel(r.fn)+" result", r.fn.Pos(), "the value whose %s is called is not known: %v", name, recv)
		return nil
	}
	m := r.c.p.methodNamed(recv.typ, name)
	if m == nil {
		r.c.fail("analysis", fnLabel(r.fn)+" result", r.fn.Pos(), "the result has no method %s", name)
		return nil
	}
	return r.call(st, m, append([]*T{recv.a[0]}, args...), nil)
}

// record is a log record made by somebody else.
func (l *logRule) record(name string) (*T, *State) {
	t := l.c.p.TypeOf(logPkg, "Record")
	return mkSym(name, types.NewPointer(t)), newState()
}

func eventsSince(st, from *State) []*Event {
	var es []*Event
	for e := st.ev; e != nil && e != from.ev; e = e.prev {
		es = append(es, e)
	}
	for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
		es[i], es[j] = es[j], es[i]
	}
	return es
}

// formatted is one way a format can render a record.
type formatted struct {
	st  *State
	seq *T
	pos token.Pos
	in  *Interp
	st0 *State
}

// format renders a record with the format a constructor makes.
func (l *logRule) format(ctor *ssa.Function, args []*T, rec *T, pre func(st *State), opts ...runOpt) []formatted {
	c := l.c
	r := c.analyse(ctor, args, opts...)
	var out []formatted
	for _, o := range r.outs {
		if !c.ok("format", fnLabel(ctor), o.kind == outReturn, o.pos, "making a format can end in a %s", o.kind) {
			continue
		}
		st := r.after(o)
		if pre != nil {
			pre(st)
		}
		st0 := st.clone()
		for _, fo := range r.method(st, o.val, "Format", rec) {
			if fo.kind != outReturn {
				out = append(out, formatted{fo.st, nil, fo.pos, r.in, st0})
				continue
			}
			_, q := r.in.sliceParts(fo.st, fo.val)
			out = append(out, formatted{fo.st, q, fo.pos, r.in, st0})
		}
	}
	return out
}

// leading is the constant text a sequence starts with.
func leading(q *T) string {
	if q == nil {
		return ""
	}
	s := ""
	for _, p := range catParts(q) {
		if p.op != "lit" {
			break
		}
		s += p.s
	}
	return s
}

func catParts(q *T) []*T {
	if q.op == "cat" {
		return q.a
	}
	return []*T{q}
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

// constMap is the content of a map built from constants only.
func constMap(t *T) map[*T]*T {
	out := map[*T]*T{}
	for t.isApp("mapupd") {
		if out[t.a[1]] == nil {
			out[t.a[1]] = t.a[2]
		}
		t = t.a[0]
	}
	if t.op == "sym" && t.s == "mapempty" {
		return out
	}
	return nil
}
