package main

import (
	"go/types"
	"sort"
	"strings"
)

// loopVar is an integer a loop carries: a local, the length of a slice, or a cell.
type loopVar struct {
	name  string
	head  *T // at the head of an arbitrary iteration
	entry *T
	backs []*T // per back edge
}

// loopVars are the integers that change in the loop.
func (in *Interp) loopVars(rec *LoopRec) []*loopVar { return in.carried(rec, false) }

// flagVar is a value a loop carries that tells whether something happened in
// any of its rounds.
type flagVar struct {
	*loopVar
	set   func(st *State, v *T) bool // v means it happened
	truth func(st *State) truth
}

func (in *Interp) flagVars(rec *LoopRec) []flagVar {
	var out []flagVar
	for _, v := range in.carried(rec, true) {
		v := v
		switch {
		case v.entry == nil:
		case v.entry == tFalse || v.entry == tTrue:
			out = append(out, flagVar{v, func(st *State, b *T) bool { return st.facts.decide(b) == truthOf(v.entry == tFalse) }, func(st *State) truth {
				t := st.facts.decide(v.head)
				if v.entry == tTrue && t != unknown {
					t = yes + no - t
				}
				return t
			}})
		case v.entry == tZero:
			out = append(out, flagVar{v, func(_ *State, b *T) bool { return b == tAddI(v.head, 1) || b == tOne }, func(st *State) truth {
				return yesNoOf(!st.proves(mkLe(v.head, tZero)), st.proves(mkLe(v.head, tZero)) || st.proves(mkLe(tOne, v.head)) || st.facts.decide(mkIntEq(v.head, tZero)) == no)
			}})
		case v.entry == tNil:
			out = append(out, flagVar{v, func(st *State, b *T) bool { return st.facts.decideEq(b, tNil) == no }, func(st *State) truth {
				t := st.facts.decideEq(v.head, tNil)
				if t != unknown {
					t = yes + no - t
				}
				return t
			}})
		}
	}
	return out
}

func yesNoOf(v, known bool) truth {
	if !known {
		return unknown
	}
	return truthOf(v)
}

// carried are the values that change in the loop, or the integers among them.
func (in *Interp) carried(rec *LoopRec, all bool) []*loopVar {
	var out []*loopVar
	add := func(name string, head, entry *T, backs []*T) {
		if head == nil {
			return
		}
		if head.op == "slice" {
			bs := make([]*T, len(backs))
			for i, b := range backs {
				if b == nil || b.op != "slice" {
					return
				}
				bs[i] = b.a[2]
			}
			var en *T
			if entry != nil && entry.op == "slice" {
				en = entry.a[2]
			}
			out = append(out, &loopVar{name + ".len", head.a[2], en, bs})
			return
		}
		if all || intType(head) != nil || isIntTerm(head) {
			out = append(out, &loopVar{name, head, entry, backs})
		}
	}
	for p, h := range rec.phis {
		var bs []*T
		for _, b := range rec.backs {
			bs = append(bs, b.phis[p])
		}
		add(phiName(p), h, rec.ePhis[p], bs)
	}
	cells := map[*T]bool{}
	for _, b := range rec.backs {
		for a, v := range b.st.heap {
			if rec.assumed.heap[a] != nil && rec.assumed.heap[a] != v {
				cells[a] = true
			}
		}
	}
	for a := range cells {
		var bs []*T
		for _, b := range rec.backs {
			v := b.st.heap[a]
			if v == nil {
				v = rec.assumed.heap[a]
			}
			bs = append(bs, v)
		}
		add(a.String(), rec.assumed.heap[a], rec.entry.heap[a], bs)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// own are the events of one iteration at the loop's own level, oldest first;
// an inner loop appears as its "loop" event followed by the events after it.
func own(rec *LoopRec, b *backEdge) []*Event {
	var es []*Event
	for e := b.st.ev; e != nil && e != rec.assumed.ev; e = e.prev {
		es = append(es, e)
	}
	for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
		es[i], es[j] = es[j], es[i]
	}
	return es
}

// stAt is the state in which an event happened.
func stAt(e *Event) *State {
	st := newState()
	for a, v := range e.heap {
		st.heap[a] = v
	}
	if e.facts != nil {
		st.facts = e.facts.clone()
	}
	st.epoch, st.escaped, st.eshared = e.epoch, e.escaped, true
	if st.escaped == nil {
		st.escaped = map[*T]bool{}
		st.eshared = false
	}
	st.held = e.held
	return st
}

// elem is element i of a sequence of structs, with its shape.
func (in *Interp) elem(f *Facts, s, i *T, typ types.Type) *T {
	v := atTerm(f, s, i)
	if v.op != "struct" {
		v = in.expand(mkApp("at", typ, v.a...), typ)
	}
	return v
}

// loadField reads base.name in a state.
func (in *Interp) loadField(st *State, base *T, v *types.Var) *T {
	return in.load(st, mkField(base, v, v.Type()), v.Type())
}

// loopsOf are the loop records on a path, oldest first.
func loopsOf(st *State) []*LoopRec {
	var out []*LoopRec
	for _, e := range events(st) {
		if e.kind == "loop" {
			out = append(out, e.loop)
		}
	}
	return out
}

func hasSym(t *T, pred func(s string) bool) bool {
	return anyTerm(t, func(x *T) bool { return x.op == "sym" && pred(x.s) })
}

func termMentions(t *T, sub string) bool { return strings.Contains(t.String(), sub) }

func (in *Interp) storeField(st *State, base *T, v *types.Var, val *T) {
	in.store(st, mkField(base, v, v.Type()), val, v.Type())
}
