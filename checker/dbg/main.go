package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func main() {
	t0 := time.Now()
	repo := "/repo"
	if r := os.Getenv("REPO"); r != "" {
		repo = r
	}
	p, err := load.Load(repo, "linux", "./...")
	if err != nil {
		panic(err)
	}
	fmt.Println("load", time.Since(t0))
	verbose := os.Getenv("V") != ""
	for _, a := range os.Args[1:] {
		var fns []*ssa.Function
		if a == "all" {
			fns = p.Funcs()
		} else {
			i := strings.Index(a, ":")
			f := p.Func(a[:i], a[i+1:])
			if f == nil {
				fmt.Println("no", a)
				continue
			}
			fns = append(fns, f)
		}
		for _, f := range fns {
			if f.Parent() != nil {
				continue
			}
			t := time.Now()
			if os.Getenv("EFF") != "" {
				rr := eng.Analyze(p.SSA, f, &eng.Config{Module: load.Module, Budget: 10})
				e := rr.EffectsOf(f)
				for m := range e.Mod {
					fmt.Println("MOD", m)
				}
				for m := range e.Calls {
					fmt.Println("CALLS", m)
				}
				continue
			}
			cfg := &eng.Config{Module: load.Module, Budget: 3e6}
			if n, err := strconv.Atoi(os.Getenv("ENTRIES")); err == nil {
				cfg.Entries, cfg.Join = n, n
			}
			if os.Getenv("STORES") != "" {
				cfg.Stores = func(*eng.Term) bool { return true }
			}
			if T := os.Getenv("T"); T != "" {
				m := map[string]bool{}
				for _, x := range strings.Split(T, ",") {
					m[x] = true
				}
				cfg.Target = func(in ssa.Instruction, n string) bool { return m[n] }
				cfg.Interest = func(e *eng.Event) bool { return m[e.Name] || m[e.Kind] }
			}
			if O := os.Getenv("OPQ"); O != "" {
				m := map[string]bool{}
				for _, x := range strings.Split(O, ",") {
					m[x] = true
				}
				cfg.Opaque = func(f *ssa.Function) bool { return m[f.Name()] }
				if T := os.Getenv("T"); T == "" {
					cfg.Interest = func(e *eng.Event) bool { return true }
				}
			}
			if a == "all" {
				cfg.Opaque = func(*ssa.Function) bool { return true }
			}
			r := eng.Analyze(p.SSA, f, cfg)
			fmt.Printf("== %s: steps=%d events=%d loops=%d terms=%d merged=%d over=%v funcs=%d %v\n", f, r.Steps, len(r.Events), len(r.Loops), len(r.Terms), r.Merged, r.Over, len(r.Funcs), time.Since(t))
			if verbose {
				for _, l := range r.Loops {
					fmt.Printf(" loop %s (%s) heads=%d backs=%d exits=%d\n", l.Key, p.Pos(l.Pos), len(l.Heads), len(l.Backs), len(l.Exits))
					for _, ph := range l.Phis {
						fmt.Printf("   phi %s init=%s backs=%v\n", ph.Sym, ph.Init, ph.Backs)
					}
					for _, h := range l.Heads {
						fmt.Printf("   inv[%s] %v\n", h.Auto, h.Facts)
					}
					for i, b := range l.Backs {
						if i < 3 {
							fmt.Printf("   back facts %v\n", b.Facts)
						}
						if i < 3 {
							for _, e := range b.Events(true) {
								fmt.Printf("      ev %s %s %v\n", e.Kind, e.Name, e.Args)
							}
						}
					}
				}
				for i, t := range r.Terms {
					if i > 12 {
						break
					}
					fmt.Printf(" term %s rets=%v facts=%v\n", t.Kind, t.Rets, t.St.Facts)
					for _, h := range t.St.Path(false) {
						if h.Ev != nil {
							fmt.Printf("      ev %s %s %v @%s\n", h.Ev.Kind, h.Ev.Name, h.Ev.Args, pos(p, h.Ev))
						} else if h.Loop != nil {
							fmt.Printf("      loop %s\n", h.Loop.Key)
						}
					}
				}
			}
		}
	}
}

func pos(p *load.Program, e *eng.Event) string {
	if e.Instr == nil {
		return "?"
	}
	return p.Pos(e.Instr.Pos())
}
