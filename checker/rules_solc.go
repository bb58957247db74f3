package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// K01: a contract of solc's combined JSON becomes one Contract under its own name, and
// every part of it comes from the member of the same meaning. The terms an iteration
// stores are compared with the members (found through the JSON names of the decoding
// type) of the contract the iteration is about.

func init() { properties["K01"] = checkSolc }

const solcPkg = "common/compiler"

type solcRule struct {
	c                  *Check
	f                  map[string]*types.Var // Contract.X, ContractInfo.X
	contract           types.Type
	entries, docs, all int
}

// member → the JSON name solc gives it and the one a Contract is saved under.
var solcStrings = [][2]string{{"Info.SrcMap", "srcmap"}, {"Info.SrcMapRuntime", "srcmap-runtime"}, {"Info.Metadata", "metadata"}, {"Hashes", "hashes"}}
var solcCodes = [][2]string{{"Code", "bin"}, {"RuntimeCode", "bin-runtime"}}
var solcDocs = [][2]string{{"Info.AbiDefinition", "abi"}, {"Info.UserDoc", "userdoc"}, {"Info.DeveloperDoc", "devdoc"}}
var contractNames = [][2]string{{"Contract.Code", "code"}, {"Contract.RuntimeCode", "runtime-code"}, {"Contract.Info", "info"}, {"Contract.Hashes", "hashes"},
	{"ContractInfo.Source", "source"}, {"ContractInfo.Language", "language"}, {"ContractInfo.LanguageVersion", "languageVersion"},
	{"ContractInfo.CompilerVersion", "compilerVersion"}, {"ContractInfo.CompilerOptions", "compilerOptions"}, {"ContractInfo.SrcMap", "srcMap"},
	{"ContractInfo.SrcMapRuntime", "srcMapRuntime"}, {"ContractInfo.AbiDefinition", "abiDefinition"}, {"ContractInfo.UserDoc", "userDoc"},
	{"ContractInfo.DeveloperDoc", "developerDoc"}, {"ContractInfo.Metadata", "metadata"}}

// jsonName: the member name encoding/json uses for field i of s; "" when it has none.
func jsonName(s *types.Struct, i int) (name string, quoted bool) {
	if !s.Field(i).Exported() {
		return "", false
	}
	tag := reflect.StructTag(s.Tag(i)).Get("json")
	if tag == "-" {
		return "", false
	}
	name, opts, _ := strings.Cut(tag, ",")
	for _, o := range strings.Split(opts, ",") {
		quoted = quoted || o == "string"
	}
	if name == "" {
		name = s.Field(i).Name()
	}
	return name, quoted
}

// jsonField: the one field of typ that a member of that name is decoded into.
func jsonField(typ types.Type, name string) *types.Var {
	s, _ := typ.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	var f *types.Var
	for i := 0; i < s.NumFields(); i++ {
		n, q := jsonName(s, i)
		v := s.Field(i)
		if v.Embedded() && reflect.StructTag(s.Tag(i)).Get("json") == "" {
			if g := jsonField(v.Type(), name); g != nil && f == nil {
				f = g
			}
			continue
		}
		if strings.EqualFold(n, name) {
			if f != nil || q {
				return nil
			}
			f = v
		}
	}
	return f
}

// part splits a read of a decoded struct into the field and the struct read.
func part(t *T) (*types.Var, *T) {
	for t.op == "app" && strings.HasPrefix(t.s, "fld:") && len(t.a) == 1 && t.a[0].typ != nil {
		s, _ := t.a[0].typ.Underlying().(*types.Struct)
		if s == nil {
			return nil, nil
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == t.s[4:] {
				b := t.a[0]
				for g, up := part(b); g != nil && g.Embedded(); g, up = part(b) {
					b = up
				}
				return s.Field(i), b
			}
		}
		return nil, nil
	}
	return nil, nil
}

// member: t is what the document (or contract) base holds under the name.
func member(t, base *T, name string) bool {
	f, b := part(t)
	return f != nil && b == base && jsonField(base.typ, name) == f
}

// contractsOf: what the decoded document holds under "contracts", and the number of
// the decoding, when x is that and data what was decoded.
func contractsOf(x, data *T) (doc *T, id string) {
	_, doc = part(x)
	if doc == nil || !doc.isApp("json") || doc.a[0] != data || !member(x, doc, "contracts") {
		return nil, ""
	}
	return doc, fmt.Sprintf("jsonerr#%v", doc.a[1])
}

// legacy: the layout of before 0.8, where the documents are strings of JSON.
func legacy(typ types.Type) (bool, bool) {
	f := jsonField(typ, "contracts")
	if f == nil {
		return false, false
	}
	m, _ := f.Type().Underlying().(*types.Map)
	if m == nil {
		return false, false
	}
	abi := jsonField(m.Elem(), "abi")
	if abi == nil {
		return false, false
	}
	return isStringT(abi.Type()), true
}

func checkSolc(c *Check) {
	k := &solcRule{c: c, f: map[string]*types.Var{}}
	k.names()
	for _, n := range []string{"ParseCombinedJSON", "ParseCombinedJSONV8"} {
		k.parse(n)
	}
	c.floor("solc-entry", "contract entries", k.entries, 3)
	c.floor("solc-document", "decoded documents", k.docs, 3)
	c.floor("solc-result", "results", k.all, 7)
}

// names: the JSON form of a Contract.
func (k *solcRule) names() {
	c := k.c
	for _, p := range contractNames {
		fs := c.fields(solcPkg, p[0])
		if fs == nil {
			return
		}
		k.f[p[0]] = fs[0]
		typ := c.p.TypeOf(solcPkg, p[0][:strings.Index(p[0], ".")])
		s, _ := typ.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i) == fs[0] {
				n, q := jsonName(s, i)
				c.ok("solc-saved-name", p[0], n == p[1] && !q && jsonField(typ, p[1]) == fs[0], fs[0].Pos(), "the field is saved as %q, not as %q", n, p[1])
			}
		}
	}
	k.contract = c.p.TypeOf(solcPkg, "Contract")
}

func (k *solcRule) parse(name string) {
	c := k.c
	fn := c.fn(solcPkg, name)
	if fn == nil || k.contract == nil {
		return
	}
	r := c.analyse(fn, nil)
	data := r.in.sliceSeq(newState(), r.in.expand(r.param(0), fn.Params[0].Type()))
	// the failure that makes a result an error
	failed := func(st *State, layouts bool) (doc, old, now bool) {
		for _, e := range events(st) {
			if e.kind != "json.Unmarshal" || st.facts.decide(mkEqRaw(e.res, tNil)) != no {
				continue
			}
			if e.args[0] != data {
				doc = true
				continue
			}
			if p, ok := e.args[1].typ.Underlying().(*types.Pointer); ok && e.args[1].op == "iface" {
				if l, ok := legacy(p.Elem()); ok && l {
					old = true
				} else if ok {
					now = true
				}
			}
		}
		return
	}
	for i := range r.outs {
		o := &r.outs[i]
		label := fnLabel(fn)
		if o.kind != outReturn {
			c.ok("solc-result", label, false, o.pos, "the function can end with %s", o.kind)
			continue
		}
		k.all++
		m, err := o.val.a[0], o.val.a[1]
		doc, _, now := failed(o.st, true)
		if d := o.st.facts.decide(mkEqRaw(err, tNil)); d != yes && err != tNil {
			c.ok("solc-result", label, m == tNil && (doc || now), o.pos, "an error is returned with contracts, or though no decoding failed (the older layout alone does not count: the newer one is tried)")
			continue
		}
		if !c.ok("solc-result", label, !doc && !now, o.pos, "no error is returned though a document could not be decoded") {
			continue
		}
		// the loop that filled the map, left only when every contract was visited
		cont := r.in.mapContent(o.st, m)
		var loop *LoopRec
		for _, l := range r.in.loops {
			if r.in.mapContent(l.assumed, m) == cont && onPath(o.st, l) {
				loop = l
			}
		}
		if !c.ok("solc-all", label, loop != nil && !loop.unrolled, o.pos, "the contracts returned are not those the loop over the document stored") {
			continue
		}
		done := false
		var over *T
		for _, e := range eventsSince(o.st, loop.assumed) {
			if e.kind == "iterdone" && over == nil {
				over, done = e.args[0], true
			}
			if e.kind == "rangemap" {
				done = false
			}
		}
		if !c.ok("solc-all", label, done, o.pos, "the loop is left before every contract was visited") {
			continue
		}
		top, id := contractsOf(over, data)
		if !c.ok("solc-all", label, top != nil && o.st.facts.decide(mkEqRaw(mkSym(id, errType()), tNil)) == yes, o.pos, "the loop is not over the contracts of the decoded document") {
			continue
		}
		old, known := legacy(top.typ)
		_, tried, _ := failed(o.st, false)
		c.ok("solc-layout", label, known && (old || tried || name == "ParseCombinedJSONV8"), o.pos, "a document is read in the layout of 0.8 though the older layout was not tried")
		c.ok("solc-layout", label, known && (!old || name != "ParseCombinedJSONV8"), o.pos, "a document of 0.8 is read in the older layout")
		c.ok("solc-all", label, isEmptyMap(r.in.mapContent(loop.entry, m)), o.pos, "the map is not empty before the first contract")
		for _, b := range loop.backs {
			k.entry(r, loop, b.st, m, over, top, old, label, loopPos(loop))
		}
	}
}

func isEmptyMap(t *T) bool { return t.op == "sym" && t.s == "mapempty" }

// entry: what one iteration stores.
func (k *solcRule) entry(r *Run, l *LoopRec, st *State, m, over, top *T, old bool, label string, pos token.Pos) {
	c, in := k.c, r.in
	k.entries++
	var ev *Event
	n := 0
	for _, e := range eventsSince(st, l.assumed) {
		if e.kind == "rangemap" && e.args[0] == over {
			ev = e
			n++
		}
	}
	if !c.ok("solc-entry", label, n == 1, pos, "an iteration is about %d contracts", n) {
		return
	}
	key := ev.args[1]
	cont := in.mapContent(st, m)
	if !c.ok("solc-entry", label, cont.isApp("mapupd") && cont.a[0] == in.mapContent(l.assumed, m) && cont.a[1] == key, ev.pos,
		"an iteration does not store one contract under the name of the one it is about") {
		return
	}
	p := cont.a[2]
	if !c.ok("solc-entry", label, p.op == "alloc" && !allocBefore(l.assumed, p), ev.pos, "the contract stored is not a new one: entries share it") {
		return
	}
	base := mkApp("mapget", nil, ev.args[3], key)
	is := func(t *T, name string) bool {
		f, b := part(t)
		return f != nil && b != nil && b.isApp("mapget") && b.a[0] == base.a[0] && b.a[1] == key && jsonField(b.typ, name) == f
	}
	field := func(path string) *T {
		a := p
		typ := k.contract
		for _, s := range strings.Split(path, ".") {
			on := "Contract."
			if typ != k.contract {
				on = "ContractInfo."
			}
			f := k.f[on+s]
			if f == nil {
				return tNil
			}
			a = mkField(a, f, f.Type())
			typ = f.Type()
		}
		return in.load(st, a, typ)
	}
	for _, x := range solcCodes {
		v := field(x[0])
		ps := catParts(v)
		c.ok("solc-field", label+" "+x[0], len(ps) == 2 && ps[0] == mkLit("0x") && is(ps[1], x[1]), ev.pos, "%s is %v, not 0x and what the document has as %q", x[0], v, x[1])
	}
	for _, x := range solcStrings {
		v := field(x[0])
		if v.op == "iface" {
			v = v.a[0]
		}
		c.ok("solc-field", label+" "+x[0], is(v, x[1]), ev.pos, "%s is %v, not what the document has as %q", x[0], v, x[1])
	}
	for _, x := range solcDocs {
		v := field(x[0])
		if old {
			k.docs++
			good := v.isApp("json") && is(v.a[0], x[1]) && st.facts.decide(mkEqRaw(mkSym(fmt.Sprintf("jsonerr#%v", v.a[1]), errType()), tNil)) == yes
			c.ok("solc-document", label+" "+x[0], good, ev.pos, "%s is %v, not the decoded document the contract has as %q", x[0], v, x[1])
			continue
		}
		i, _ := v.typ.Underlying().(*types.Interface)
		c.ok("solc-field", label+" "+x[0], is(v, x[1]) && i != nil && i.NumMethods() == 0, ev.pos, "%s is %v, not the value the document has as %q", x[0], v, x[1])
	}
	for i, x := range []string{"Info.Source", "Info.LanguageVersion", "Info.CompilerVersion", "Info.CompilerOptions"} {
		v := field(x)
		c.ok("solc-field", label+" "+x, v == r.param(i+1), ev.pos, "%s is %v, not the argument given for it", x, v)
	}
	v := field("Info.Language")
	c.ok("solc-field", label+" Info.Language", v == mkLit("Solidity"), ev.pos, "the language is %v", v)
}

// allocBefore: the object already existed at the head of the loop.
func allocBefore(st *State, p *T) bool {
	for a := range st.heap {
		if anyTerm(a, func(t *T) bool { return t == p }) {
			return true
		}
	}
	for _, v := range st.heap {
		if anyTerm(v, func(t *T) bool { return t == p }) {
			return true
		}
	}
	return false
}
