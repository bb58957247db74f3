package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The rules name struct fields of the analysed packages. When a field or a
// struct type has been renamed, it is recognised by what it was at the commit
// the rules were written for: its type, and its place among fields of that type.

//go:embed baseline.json
var baselineJSON []byte

type baseField struct{ Name, Type string }

var baseline map[string][]baseField

func loadBaseline() {
	if baseline == nil {
		baseline = map[string][]baseField{}
		json.Unmarshal(baselineJSON, &baseline)
	}
}

func baseType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return strings.TrimPrefix(p.Path(), modPath+"/") })
}

// dumpBaseline prints the table for the current tree.
func dumpBaseline(p *Program) {
	p.indexStructs()
	out := map[string][]baseField{}
	for n, st := range p.structs {
		for i := 0; i < st.NumFields(); i++ {
			out[n] = append(out[n], baseField{st.Field(i).Name(), baseType(st.Field(i).Type())})
		}
	}
	data, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(data))
}

// structOf is the struct type called owner at the baseline.
func (p *Program) structOf(owner string) *types.Struct {
	p.indexStructs()
	if st := p.structs[owner]; st != nil {
		return st
	}
	loadBaseline()
	want := baseline[owner]
	if want == nil {
		return nil
	}
	pkg := owner[:strings.LastIndex(owner, ".")+1]
	var names []string
	for n := range p.structs {
		if strings.HasPrefix(n, pkg) && baseline[n] == nil && !strings.Contains(n[len(pkg):], "/") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var best *types.Struct
	bestN := 0
	for _, n := range names {
		st := p.structs[n]
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			for _, f := range want {
				if f.Name == st.Field(i).Name() {
					k++
				}
			}
		}
		if k > bestN {
			best, bestN = st, k
		}
	}
	return best
}

// fieldOf is a field of a struct, by its name at the baseline.
func (p *Program) fieldOf(owner, name string) *types.Var {
	st := p.structOf(owner)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	loadBaseline()
	want := ""
	known := map[string]bool{}
	for _, f := range baseline[owner] {
		known[f.Name] = true
		if f.Name == name {
			want = f.Type
		}
	}
	var cand, same []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); !known[f.Name()] {
			cand = append(cand, f)
			if baseType(f.Type()) == want {
				same = append(same, f)
			}
		}
	}
	if want == "" {
		return nil
	}
	if len(same) == 0 {
		same = cand
	}
	// the k-th missing name of this type is the k-th new field of it
	k := 0
	for _, f := range baseline[owner] {
		if f.Name == name {
			break
		}
		if f.Type == want && !hasField(st, f.Name) {
			k++
		}
	}
	if k < len(same) {
		return same[k]
	}
	return nil
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}
