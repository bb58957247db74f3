package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect properties: B01 (numbers are not changed behind their owner's back)
// and B04 (the same for slices). The summaries come from effects.go.

func init() {
	properties["B01"] = ruleNumbersUntouched
	properties["B04"] = ruleSlicesUntouched
}

// callable: code outside the package can call it, by name or through an interface.
func callable(f *ssa.Function) bool {
	return f.Parent() == nil && f.Synthetic == "" && token.IsExported(f.Name())
}

// destination: the receiver is what the method is there to fill in.
func destination(f *ssa.Function, idx int) bool {
	if f.Signature.Recv() == nil || idx != 0 {
		return false
	}
	n := f.Name()
	return strings.HasPrefix(n, "Unmarshal") || strings.HasPrefix(n, "Set") || n == "Scan" || n == "DecodeRLP"
}

func paramText(f *ssa.Function, o origin) string {
	t := "?"
	if o.idx < len(f.Params) {
		t = f.Params[o.idx].Name()
		if f.Signature.Recv() != nil && o.idx == 0 {
			t = "its receiver"
		}
	}
	if o.inside {
		return "what " + t + " refers to"
	}
	return t
}

func (c *Check) effectsRun() *effects {
	e := c.p.effects()
	for _, f := range c.p.Funcs {
		c.funcs[fnLabel(f)] = true
	}
	c.count("call_sites", e.calls)
	c.count("write_sites", e.sites)
	return e
}

func ruleNumbersUntouched(c *Check) {
	e := c.effectsRun()
	// documented as overwriting their argument
	destructive := map[string]bool{"common/math.U256": true, "common/math.U256Bytes": true}
	calls := 0
	for _, f := range c.p.Funcs {
		label := fnLabel(f)
		numbers := false
		for _, p := range f.Params {
			if leadsToNumber(p.Type(), 4) {
				numbers = true
				if callable(f) {
					c.ok("reads-only", label+" "+p.Name(), true, f.Pos(), "")
				}
			}
		}
		if numbers {
			calls++
		}
		for _, ef := range e.sortedWrites(f) {
			w := e.sum[f].writes[ef]
			where := c.p.Pos(w.pos)
			switch {
			case ef.o.kind == 'g' && (ef.what == "number" || ef.what == "replace"):
				c.ok("shared-constant", label+" changes "+ef.o.obj.Name(), e.once[f], w.pos, "%s changes the shared number %s: %s (%s)", label, ef.o.obj.Name(), w.text, where)
			case ef.o.kind == 'p' && ef.what == "number" && ef.o.inside && e.value[f] && !callable(f):
				c.fail("reads-only", label+" changes "+paramText(f, ef.o), w.pos, "%s changes a number it was given: %s (%s)", label, w.text, where)
			case ef.o.kind == 'p' && ef.what == "number" && callable(f):
				c.ok("reads-only", label+" changes "+paramText(f, ef.o), !ef.o.inside && (destructive[label] && ef.o.idx == 0 || destination(f, ef.o.idx)), w.pos,
					"%s changes the number %s that it was given: %s (%s)", label, paramText(f, ef.o), w.text, where)
			case ef.o.kind == 'p' && ef.what == "replace" && callable(f):
				c.ok("reads-only", label+" replaces a number in "+paramText(f, ef.o), destination(f, ef.o.idx), w.pos,
					"%s replaces a number in %s: %s (%s)", label, paramText(f, ef.o), w.text, where)
			case ef.what == "keep" && strings.Contains(w.text, "digits") && (callable(f) || ef.o.kind == 'g'):
				c.fail("own-digits", label+" shares the digits", w.pos, "%s leaves two numbers that share their digits (%s): changing one changes the other", label, where)
			}
		}
		for i, os := range e.sum[f].results {
			if !callable(f) || !leadsToNumber(f.Signature.Results().At(i).Type(), 1) {
				continue
			}
			shared := ""
			for o := range os {
				if o.kind == 'g' {
					shared = o.obj.Name()
				}
			}
			c.ok("own-result", label+" result", shared == "", f.Pos(), "%s hands out the shared number %s: its caller may change it", label, shared)
		}
	}
	c.count("functions_with_numbers", calls)
	c.floor("subject", "functions taking numbers", calls, 20)
	c.floor("subject", "sites that write a number or slice", e.sites, 60)
}

// leadsToNumber: a value of this type is or holds a pointer to a big.Int.
func leadsToNumber(t types.Type, depth int) bool {
	if depth < 0 {
		return false
	}
	if isBigLike(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return leadsToNumber(u.Elem(), depth-1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if leadsToNumber(u.Field(i).Type(), depth-1) {
				return true
			}
		}
	case *types.Slice:
		return leadsToNumber(u.Elem(), depth-1)
	}
	return false
}

func ruleSlicesUntouched(c *Check) {
	e := c.effectsRun()
	// the parameter these are documented to fill
	out := func(f *ssa.Function, idx int) bool {
		switch fnLabel(f) {
		case "common/math.ReadBits":
			return f.Params[idx].Name() == "buf" || idx == 1
		}
		n := f.Name()
		switch {
		case strings.HasPrefix(n, "UnmarshalFixed"):
			return idx == len(f.Params)-1
		case n == "Read" || n == "Sum" || strings.HasPrefix(n, "Append"):
			return f.Signature.Recv() != nil && idx == 1
		}
		return false
	}
	taking, decoders := 0, 0
	for _, f := range c.p.Funcs {
		label := fnLabel(f)
		recv := 0
		if f.Signature.Recv() != nil {
			recv = 1
		}
		if callable(f) {
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok && i >= recv {
					taking++
					c.ok("reads-only", label+" "+p.Name(), true, f.Pos(), "")
				}
			}
		}
		isDecoder := callable(f) && (strings.HasPrefix(f.Name(), "Unmarshal") || f.Name() == "Scan" || f.Name() == "SetBytes" || f.Name() == "Write")
		if isDecoder {
			decoders++
			c.ok("keeps-nothing", label, true, f.Pos(), "")
		}
		for _, ef := range e.sortedWrites(f) {
			w := e.sum[f].writes[ef]
			where := c.p.Pos(w.pos)
			switch {
			case ef.o.kind == 'g' && (ef.what == "slice" || ef.what == "table") && isTable(ef.o.obj):
				c.ok("shared-table", label+" changes "+ef.o.obj.Name(), e.once[f], w.pos, "%s changes the shared table %s: %s (%s)", label, ef.o.obj.Name(), w.text, where)
			case ef.o.kind == 'p' && ef.what == "slice" && callable(f) && ef.o.idx >= recv && !ef.o.inside:
				c.ok("reads-only", label+" changes "+paramText(f, ef.o), out(f, ef.o.idx), w.pos, "%s writes into the slice %s it was given: %s (%s)", label, paramText(f, ef.o), w.text, where)
			case ef.what == "keep" && isDecoder && ef.o.kind == 'p' && ef.o.idx >= recv && isInput(f, ef.o.idx):
				c.ok("keeps-nothing", label+" keeps "+paramText(f, ef.o), out(f, ef.o.idx), w.pos, "%s goes on referring to %s after it returned: %s (%s)", label, paramText(f, ef.o), w.text, where)
			}
		}
		for i, os := range e.sum[f].results {
			if _, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Slice); !ok || !callable(f) {
				continue
			}
			for o := range os {
				dbg("RES %s %c%d inside=%v", label, o.kind, o.idx, o.inside)
				switch {
				case o.kind == 'g':
					c.fail("own-result", label+" hands out "+o.obj.Name(), f.Pos(), "%s hands out the shared table %s: its caller may change it", label, o.obj.Name())
				case o.kind == 'p' && label == "common.CopyBytes":
					c.fail("own-result", label+" returns its argument", f.Pos(), "CopyBytes returns the slice it was given instead of a copy")
				case o.kind == 'p' && o.idx < recv:
					c.fail("own-result", label+" hands out its own memory", f.Pos(), "%s hands out a slice of the value it is called on: writing to it changes the value", label)
				}
			}
			c.ok("own-result", label+" result", true, f.Pos(), "")
		}
	}
	c.count("functions_taking_slices", taking)
	c.count("decoders", decoders)
	c.floor("subject", "slice parameters of exported functions", taking, 30)
	c.floor("subject", "decoders", decoders, 15)
}

func isTable(g ssa.Value) bool {
	p, ok := g.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	switch p.Elem().Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

func isInput(f *ssa.Function, idx int) bool {
	switch f.Params[idx].Type().Underlying().(type) {
	case *types.Slice, *types.Interface:
		return true
	}
	return false
}
