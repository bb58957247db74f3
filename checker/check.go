package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects what one property's rules analysed and found.
type Check struct {
	p       *Program
	id      string
	tier    string
	oblig   int
	done    int
	vio     []violation
	viokeys map[string]bool
	counts  map[string]int
	funcs   map[string]bool
	samples []string
	rules   map[string]int
	assume  []string
	known   []knownFinding
}

type violation struct{ rule, construct, pos, msg string }

// key identifies a violation by rule and construct, not by line.
func (v violation) key() string { return v.rule + "|" + v.construct }

type knownFinding struct{ property, key, text string }

// ok records one obligation: rule applied to a construct.
func (c *Check) ok(rule, construct string, cond bool, pos token.Pos, format string, args ...any) bool {
	c.oblig++
	c.rules[rule]++
	if cond {
		c.done++
		if len(c.samples) < 12 && c.rules[rule] == 1 {
			c.samples = append(c.samples, rule+": "+construct)
		}
		return true
	}
	v := violation{rule, construct, c.p.Pos(pos), fmt.Sprintf(format, args...)}
	if !c.viokeys[v.key()] {
		c.viokeys[v.key()] = true
		c.vio = append(c.vio, v)
	}
	return false
}

func (c *Check) fail(rule, construct string, pos token.Pos, format string, args ...any) {
	c.ok(rule, construct, false, pos, format, args...)
}

// count adds to a named coverage counter.
func (c *Check) count(name string, n int) { c.counts[name] += n }

// floor fails the check when the rule stopped seeing what it is about.
func (c *Check) floor(rule, name string, n, min int) {
	c.ok(rule, "instances of "+name, n >= min, token.NoPos, "only %d %s found, at least %d are confirmed in this code base: the rule no longer sees its subject", n, name, min)
}

// fn resolves an anchored function; its absence is a violation.
func (c *Check) fn(pkg, name string) *ssa.Function {
	f := c.p.Func(pkg, name)
	if f == nil {
		c.fail("anchor", pkg+"."+name, token.NoPos, "the function this property is anchored on does not exist any more")
	}
	return f
}

func (c *Check) note(f string, args ...any) { c.assume = append(c.assume, fmt.Sprintf(f, args...)) }

type property struct {
	id  string
	run func(*Check)
}

var properties = map[string]func(*Check){}

func cliMain(args []string) int {
	if pf := os.Getenv("CHK_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	fs := flag.NewFlagSet("verifchecker", flag.ExitOnError)
	id := fs.String("property", "", "property id")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "verification directory")
	tier := fs.String("tier", "quick", "quick or thorough")
	quiet := fs.Bool("q", false, "only print the verdict")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	ids := strings.Split(*id, ",")
	if *id == "all" {
		ids = nil
		for k := range properties {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if runProperty(id, *repo, *verif, *tier, *quiet) != 0 {
			rc = 1
		}
	}
	return rc
}

func runProperty(id, repo, verif, tier string, quiet bool) int {
	start := time.Now()
	c := &Check{id: id, tier: tier, viokeys: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, rules: map[string]int{}}
	run := properties[id]
	func() {
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprintf("the analysis of the current source failed: %v", r)
				if os.Getenv("CHK_STACK") != "" {
					msg += "\n" + string(debug.Stack())
				}
				c.vio = append(c.vio, violation{"analysis", "checker", "", msg})
			}
		}()
		if run == nil {
			panic("no such property: " + id)
		}
		p, err := theProgram(repo)
		if err != nil {
			c.p = &Program{Fset: token.NewFileSet()}
			c.vio = append(c.vio, violation{"load", "source", "", err.Error()})
			return
		}
		c.p = p
		run(c)
	}()
	c.known = readKnown(filepath.Join(verif, "known_findings.txt"), id)
	var unlisted []violation
	for _, v := range c.vio {
		listed := false
		for _, k := range c.known {
			if k.key == v.key() {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
			}
		}
		if !listed {
			unlisted = append(unlisted, v)
		}
	}
	c.writeEvidence(filepath.Join(verif, "evidence", id+".json"), len(unlisted), time.Since(start).Seconds())
	report := filepath.Join(verif, "evidence", id+".report.txt")
	if len(unlisted) == 0 {
		os.Remove(report)
		if !quiet {
			fmt.Printf("OK property=%s: %d obligations discharged in %d functions (%.1fs)\n", id, c.done, len(c.funcs), time.Since(start).Seconds())
		}
		return 0
	}
	var b strings.Builder
	for _, v := range unlisted {
		fmt.Fprintf(&b, "%s [%s] %s: %s\n", v.pos, v.rule, v.construct, v.msg)
	}
	os.WriteFile(report, []byte(b.String()), 0o644)
	for i, v := range unlisted {
		if i < 20 {
			fmt.Printf("%s [%s] %s: %s\n", v.pos, v.rule, v.construct, v.msg)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, report)
	return 1
}

var loaded = map[string]*Program{}

func theProgram(repo string) (*Program, error) {
	if p := loaded[repo]; p != nil {
		return p, nil
	}
	p, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	p.runInit()
	loaded[repo] = p
	return p, nil
}

// readKnown: lines "known: property=<id> key=<rule|construct> :: <text>"; lines
// starting with "fixed:" suppress nothing.
func readKnown(file, id string) []knownFinding {
	data, _ := os.ReadFile(file)
	var out []knownFinding
	for _, l := range strings.Split(string(data), "\n") {
		rest, ok := strings.CutPrefix(strings.TrimSpace(l), "known: property="+id+" key=")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, " :: ")
		if ok {
			out = append(out, knownFinding{id, key, text})
		}
	}
	return out
}

func (c *Check) writeEvidence(file string, nvio int, wall float64) {
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	npk, nf := 0, 0
	if c.p != nil {
		npk, nf = len(c.p.Pkgs), len(c.p.Funcs)
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "wall_s": wall, "violations": nvio,
		"coverage": map[string]any{
			"explanation":        "Static analysis of the type-checked SSA program of the current source tree. Each obligation is one rule applied to one construct (function, path, call site, table entry); functions_analysed lists what was interpreted over the abstract domain for this property.",
			"obligations":        c.oblig,
			"discharged":         c.done,
			"rules":              c.rules,
			"counts":             c.counts,
			"functions_analysed": fns,
			"packages_loaded":    npk,
			"functions_in_tree":  nf,
			"samples":            append([]string{}, c.samples...),
		},
		"assumptions": append([]string{
			"go/types and go/ssa represent the program the compiler builds",
			"two address expressions the analysis cannot relate denote different objects",
			"the models of standard library and external calls (checker/models.go, modeltab.go) describe their documented behaviour",
		}, c.assume...),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(file), 0o755)
	os.WriteFile(file, append(data, '\n'), 0o644)
}

// ---- running the abstract interpreter from a root ----

// Run is the analysis of one root function.
type Run struct {
	c       *Check
	in      *Interp
	fn      *ssa.Function
	outs    []Outcome
	parent  *Run
	spawned bool
}

type runOpt func(*Interp)

func withHook(h func(*callCtx) []Outcome) runOpt { return func(in *Interp) { in.hook = h } }

func (c *Check) analyse(fn *ssa.Function, args []*T, opts ...runOpt) *Run {
	return c.analyseFrom(newState(), fn, args, nil, opts...)
}

func (c *Check) analyseFrom(st *State, fn *ssa.Function, args, binds []*T, opts ...runOpt) *Run {
	in := newInterp(c.p)
	for _, o := range opts {
		o(in)
	}
	in.root = fn
	r := &Run{c: c, in: in, fn: fn}
	t0 := time.Now()
	r.outs = in.Call(st, fn, args, binds)
	dbg("TIME %.2f %s steps=%d outs=%d", time.Since(t0).Seconds(), fnLabel(fn), in.steps, len(r.outs))
	if in.overrun != "" {
		c.fail("analysis", fnLabel(fn), fn.Pos(), "undecided: %s", in.overrun)
	}
	c.count("paths", len(r.outs))
	c.count("abstract_steps", in.steps)
	for f := range in.analysed {
		c.funcs[fnLabel(f)] = true
	}
	return r
}

// fnLabel names a function the way a reader would.
func fnLabel(f *ssa.Function) string {
	s := strings.ReplaceAll(f.String(), modPath+"/", "")
	return s
}

// events of a path, oldest first
func events(st *State) []*Event {
	var es []*Event
	for e := st.ev; e != nil; e = e.prev {
		es = append(es, e)
	}
	for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
		es[i], es[j] = es[j], es[i]
	}
	return es
}
