package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "flychain"

// Program is the type-checked, SSA-form program of the repository under analysis.
type Program struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package // import path -> package (repository packages only)
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	Funcs []*ssa.Function // every source function of the repository, including closures
	Files int

	initHeap  map[*T]*T
	initDone  map[*ssa.Package]bool
	initEv    map[*ssa.Package]*State
	onceCell  map[string]bool
	freshBase int
	initOver  string
	immutable map[*types.Var]bool
	mutGlobal map[*ssa.Global]bool
	owners    map[*types.Var]string
	structs   map[string]*types.Struct
}

// excluded packages do not compile at the pinned commit and are imported by nothing.
var excluded = map[string]bool{modPath + "/rpc": true, modPath + "/internal/cmdtest": true}

func loadProgram(repo string, patterns ...string) (*Program, error) {
	repo, err := filepath.EvalSymlinks(repo)
	if err != nil {
		return nil, err
	}
	repo, _ = filepath.Abs(repo)
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: fset,
		Env:  append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0", "PWD="+repo),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution|parser.ParseComments)
			if f != nil && !strings.HasPrefix(filename, repo+string(filepath.Separator)) && !keepBodies(filename) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil // dependencies are needed for their types only
					}
				}
			}
			return f, err
		},
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Fset: fset, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var keep []*packages.Package
	for _, pk := range pkgs {
		if excluded[pk.PkgPath] {
			continue
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		keep = append(keep, pk)
		p.Pkgs[pk.PkgPath] = pk
		p.Files += len(pk.Syntax)
	}
	if len(keep) == 0 {
		return nil, fmt.Errorf("no packages in %s", repo)
	}
	prog := ssa.NewProgram(fset, ssa.BuilderMode(0))
	kept := map[*packages.Package]bool{}
	for _, pk := range keep {
		kept[pk] = true
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		switch {
		case pk.Types == nil:
		case kept[pk]:
			prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
		default:
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	})
	p.SSA = prog
	for _, pk := range keep {
		sp := prog.Package(pk.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA package for %s", pk.PkgPath)
		}
		sp.Build()
		p.SPkgs[pk.PkgPath] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	p.computeImmutable()
	return p, nil
}

func keepBodies(filename string) bool { return false }

// Func returns the function or method with the given package-relative name,
// e.g. "event.(*Feed).Send" or "common.CopyBytes".
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return p.SSA.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return sp.Func(name)
}

// TypeOf returns the named type pkg.name.
func (p *Program) TypeOf(pkg, name string) *types.Named {
	sp := p.SPkgs[modPath+"/"+pkg]
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	n, _ := sp.Type(name).Type().(*types.Named)
	return n
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Pkg != nil {
			return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
		}
		if obj := o.Object(); obj != nil && obj.Pkg() != nil {
			return strings.HasPrefix(obj.Pkg().Path(), modPath)
		}
	}
	return false
}

// computeImmutable finds struct fields that are only ever stored into objects
// under construction (a local allocation of the same function), and globals
// that are only stored by package initialisation.
func (p *Program) computeImmutable() {
	stored := map[*types.Var]bool{}
	addrTaken := map[*types.Var]bool{}
	p.mutGlobal = map[*ssa.Global]bool{}
	onceFn := p.onceFuncs()
	for _, fn := range p.Funcs {
		isInit := strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						_, isChan := st.Val.Type().Underlying().(*types.Chan)
						if _, fresh := fa.X.(*ssa.Alloc); !fresh && !(isChan && onceFn[fn]) {
							stored[fieldVar(fa)] = true
						}
					}
					if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
						if fa, ok := ia.X.(*ssa.FieldAddr); ok {
							stored[fieldVar(fa)] = true
						}
						if g, ok := ia.X.(*ssa.Global); ok && !isInit {
							p.mutGlobal[g] = true
						}
					}
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						p.mutGlobal[g] = true
					}
				}
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					for _, r := range *fa.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Val == ssa.Value(fa) {
								addrTaken[fieldVar(fa)] = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case *ssa.Slice:
							addrTaken[fieldVar(fa)] = true
						default:
							addrTaken[fieldVar(fa)] = true
						}
					}
				}
				// a global whose address escapes into anything but a load is mutable
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || isInit {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr != ssa.Value(g) {
							p.mutGlobal[g] = true
						}
					default:
						p.mutGlobal[g] = true
					}
				}
			}
		}
	}
	p.immutable = map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					v := fieldVar(fa)
					if !stored[v] && !addrTaken[v] {
						p.immutable[v] = true
					}
				}
			}
		}
	}
	for v := range p.immutable {
		if stored[v] || addrTaken[v] {
			delete(p.immutable, v)
		}
	}
}

func structOf(t types.Type) *types.Struct {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	v := structOf(fa.X.Type()).Field(fa.Field)
	return v.Origin()
}

// onceFuncs are the functions that only ever run through (*sync.Once).Do.
func (p *Program) onceFuncs() map[*ssa.Function]bool {
	once, other := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	target := func(v ssa.Value) *ssa.Function {
		mc, ok := v.(*ssa.MakeClosure)
		if !ok {
			f, _ := v.(*ssa.Function)
			return f
		}
		f := mc.Fn.(*ssa.Function)
		if strings.HasPrefix(f.Synthetic, "bound method wrapper") {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if k, ok := i.(*ssa.Call); ok {
						if g := k.Call.StaticCallee(); g != nil {
							return generic(g)
						}
					}
				}
			}
		}
		return generic(f)
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var isDo bool
				if k, ok := ins.(ssa.CallInstruction); ok {
					cc := k.Common()
					if f := cc.StaticCallee(); f != nil {
						if fnName(f) == "(*sync.Once).Do" {
							isDo = true
							if g := target(cc.Args[1]); g != nil {
								once[g] = true
							}
						} else {
							other[generic(f)] = true
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if _, mk := ins.(*ssa.MakeClosure); mk || isDo || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if k, call := ins.(ssa.CallInstruction); !call || k.Common().Value != *op {
							other[generic(f)] = true
						}
					}
				}
			}
		}
	}
	for f := range other {
		delete(once, f)
	}
	return once
}

var debugHooks []func(*Program)

func generic(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}
