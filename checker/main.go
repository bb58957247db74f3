package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 2 && os.Args[1] == "baseline" {
		p, err := loadProgram(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dumpBaseline(p)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "debug" {
		debugMain(os.Args[2], os.Args[3:])
		return
	}
	os.Exit(cliMain(os.Args[1:]))
}

func debugMain(repo string, names []string) {
	if pf := os.Getenv("CHK_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	p.runInit()
	fmt.Println("init", time.Since(t0), len(p.initHeap), p.initOver)
	for _, h := range debugHooks {
		h(p)
	}
	for _, sp := range p.SPkgs {
		if !p.initDone[sp] {
			fmt.Println("init failed", sp)
		}
	}
	if os.Getenv("CHK_EXPLORE") != "" { // events of every path of a root and of what it spawns
		for _, n := range names {
			i := strings.LastIndex(n, "/")
			j := strings.Index(n[i+1:], ".") + i + 1
			c := &Check{p: p, viokeys: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}, rules: map[string]int{}}
			fn := p.Func(n[:j], n[j+1:])
			for _, r := range c.explore([]*ssa.Function{fn}, newQuiet(p), withTokens(p)) {
				fmt.Println("RUN", fnLabel(r.fn), r.spawned)
				for k, o := range r.outs {
					fmt.Printf("  [%d] %s %v\n", k, o.kind, o.val)
					for e := range events(o.st) {
						ev := events(o.st)[e]
						fmt.Printf("      %s %s %v -> %v held=%d\n", ev.kind, ev.name, ev.args, ev.res, len(ev.held))
					}
					for x, v := range o.st.facts.atoms {
						fmt.Printf("       %v = %v\n", x, v)
					}
					for x, v := range o.st.facts.eqt {
						fmt.Printf("       %v == %v\n", x, v)
					}
					for a, v := range o.st.heap {
						if rootOf(a).op != "global" && p.initHeap[a] != v {
							fmt.Printf("       *%v := %v\n", a, v)
						}
					}
				}
				for _, l := range r.in.loops {
					fmt.Println("   LOOP", fnLabel(l.fn), l.header.Index)
					for _, b := range l.backs {
						fmt.Println("     BACK")
						for _, e := range own(l, b) {
							fmt.Println("        ", e.kind, e.name, e.args, e.res)
						}
					}
				}
			}
		}
		return
	}
	if len(names) == 0 {
		for _, fn := range p.Funcs {
			if fn.Parent() != nil {
				continue
			}
			func() {
				in := newInterp(p)
				in.limit = 60000
				in.hook = func(c *callCtx) []Outcome {
					if strings.HasSuffix(c.callee(), "keccakF1600") && fn.Name() != "keccakF1600" {
						c.ev("keccakf", "", c.args, nil)
						in.clobber(c.st, c.args[0])
						return c.ret(tUnit)
					}
					return nil
				}
				t := time.Now()
				defer func() {
					if r := recover(); r != nil {
						fmt.Printf("PANIC %s: %v\n", fn, r)
						if os.Getenv("TRACE") != "" {
							panic(r)
						}
					}
				}()
				outs := in.Call(newState(), fn, nil, nil)
				bad := 0
				for _, ob := range in.oblig {
					if !ob.proven {
						bad++
					}
				}
				fmt.Printf("%s: %d outcomes, %d steps, %d oblig (%d not proven), %d loops %.0fms %s\n", fn, len(outs), in.steps, len(in.oblig), bad, len(in.loops), float64(time.Since(t).Milliseconds()), in.overrun)
			}()
		}
		return
	}
	for _, n := range names {
		i := strings.LastIndex(n, "/")
		j := strings.Index(n[i+1:], ".") + i + 1
		fn := p.Func(n[:j], n[j+1:])
		if fn == nil {
			fmt.Println("no function", n)
			continue
		}
		in := newInterp(p)
		t := time.Now()
		outs := in.Call(newState(), fn, nil, nil)
		fmt.Printf("== %s: %d outcomes, %d steps, %s overrun=%q\n", n, len(outs), in.steps, time.Since(t), in.overrun)
		for k, o := range outs {
			if k > 40 {
				break
			}
			fmt.Printf("  [%d] %s %v\n", k, o.kind, o.val)
			for _, x := range o.st.facts.le {
				fmt.Printf("       %v <= 0\n", x)
			}
			for _, x := range o.st.facts.ne {
				fmt.Printf("       %v != 0\n", x)
			}
			for x, v := range o.st.facts.atoms {
				fmt.Printf("       %v = %v\n", x, v)
			}
			for a, v := range o.st.heap {
				if rootOf(a).op != "global" && p.initHeap[a] != v {
					fmt.Printf("       *%v := %v\n", a, v)
				}
			}
			for _, f := range o.st.all {
				fmt.Printf("       all %v[%v:%v] in %v\n", f.seq, f.lo, f.hi, f.class)
			}
			var evs []string
			for e := o.st.ev; e != nil; e = e.prev {
				evs = append([]string{fmt.Sprintf("%s:%s%v", e.kind, e.name, e.args)}, evs...)
			}
			fmt.Printf("       events %s\n", strings.Join(evs, " ; "))
		}
		bad := map[string]int{}
		for _, ob := range in.oblig {
			if !ob.proven {
				bad[fmt.Sprintf("%s %s %s %s", p.Pos(ob.pos), ob.fn, ob.kind, ob.text)]++
			}
		}
		for b, n := range bad {
			fmt.Println("   OBLIGATION", n, b)
		}
		for _, l := range in.loops {
			fmt.Printf("   LOOP %s b%d unrolled=%v backs=%d phis=%v\n", l.fn, l.header.Index, l.unrolled, len(l.backs), l.phis)
		}
	}
}
