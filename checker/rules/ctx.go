// Package rules holds the property rules.
package rules

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

// A Violation is a construct that breaks a rule (or that a rule could not
// decide, which fails just the same).
type Violation struct {
	Rule, Construct, Pos, Msg string
}

// An Obligation is one instance of a rule that was examined.
type Obligation struct {
	Rule, Construct, Pos string
	OK                   bool
}

// Ctx is one run of one property's rules.
type Ctx struct {
	Repo string
	Tier string
	Prop string
	P    *load.Program

	viol   []Violation
	obls   []Obligation
	counts map[string]int
	seen   map[string]bool
	funcs  map[string]bool
	states int
	steps  int
	notes  []string
}

// A Rule decides one property.
type Rule struct {
	ID          string
	Explanation string
	Assumptions []string
	Run         func(c *Ctx)
}

var registry = map[string]*Rule{}

func register(r *Rule) { registry[r.ID] = r }

// IDs lists the registered properties.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() || c.P == nil {
		return ""
	}
	return c.P.Pos(p)
}

// Viol reports a violation of rule by construct.
func (c *Ctx) Viol(rule, construct string, pos token.Pos, format string, args ...any) {
	k := rule + "\x00" + construct
	if c.seen["v"+k] {
		return
	}
	c.seen["v"+k] = true
	c.viol = append(c.viol, Violation{rule, construct, c.pos(pos), fmt.Sprintf(format, args...)})
}

// Check records an obligation and reports a violation if it fails.
func (c *Ctx) Check(ok bool, rule, construct string, pos token.Pos, format string, args ...any) bool {
	k := fmt.Sprintf("o%s\x00%s\x00%v", rule, construct, ok)
	if !c.seen[k] {
		c.seen[k] = true
		c.counts[rule]++
		c.obls = append(c.obls, Obligation{rule, construct, c.pos(pos), ok})
	}
	if !ok {
		c.Viol(rule, construct, pos, format, args...)
	}
	return ok
}

// Min fails the run if rule has been examined on fewer than n instances.
func (c *Ctx) Min(rule string, n int) {
	if c.counts[rule] < n {
		c.Viol("min-instances", rule, token.NoPos, "rule %s examined %d instances, expected at least %d: the code it reads has changed beyond what the rule recognises", rule, c.counts[rule], n)
	}
}

// Note adds a line to the evidence.
func (c *Ctx) Note(format string, args ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// Func resolves an anchor; a missing anchor is a violation.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	f := c.P.Func(pkg, name)
	if f == nil || len(f.Blocks) == 0 {
		c.Viol("anchor", pkg+":"+name, token.NoPos, "anchor %s.%s not found in the current source", pkg, name)
		return nil
	}
	return f
}

// Analyze runs the abstract interpreter; an exhausted budget is a violation.
func (c *Ctx) Analyze(fn *ssa.Function, cfg *eng.Config, args ...*eng.Term) *eng.Run {
	cfg.Module = load.Module
	r := eng.Analyze(c.P.SSA, fn, cfg, args...)
	for f := range r.Funcs {
		c.funcs[f.String()] = true
	}
	c.steps += r.Steps
	c.states += len(r.Terms)
	if r.Over {
		c.Viol("undecided", fn.String(), fn.Pos(), "analysis budget exhausted in %s (%d steps)", fn, r.Steps)
	}
	return r
}

// One program per target is loaded per process: terms refer to its types.
var progCache = map[string]*load.Program{}

// Load returns the program for another GOOS.
func (c *Ctx) Load(goos string, patterns ...string) *load.Program {
	k := c.Repo + " " + goos + " " + strings.Join(patterns, " ")
	if p := progCache[k]; p != nil {
		return p
	}
	p, err := load.Load(c.Repo, goos, patterns...)
	if err != nil {
		c.Viol("load", goos, token.NoPos, "cannot load the source for %s: %v", goos, err)
		return nil
	}
	progCache[k] = p
	return p
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Run decides one property and writes its evidence; it returns the exit
// status.
func Run(repo, verif, id, tier string, seed int) int {
	t0 := time.Now()
	rule := registry[id]
	c := &Ctx{Repo: repo, Tier: tier, Prop: id, counts: map[string]int{}, seen: map[string]bool{}, funcs: map[string]bool{}}
	if rule == nil {
		c.Viol("framework", id, token.NoPos, "no rule for property %s", id)
		rule = &Rule{ID: id}
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.Viol("undecided", "checker", token.NoPos, "the checker failed: %v\n%s", e, debug.Stack())
				}
			}()
			goos := os.Getenv("VCHK_GOOS")
			if goos == "" {
				goos = "linux"
			}
			c.P = c.Load(goos, "./...")
			if c.P != nil {
				rule.Run(c)
			}
		}()
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []Violation
	suppressed := 0
	for _, v := range c.viol {
		if txt, ok := known[id+"\x00"+v.Rule+"\x00"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
			suppressed++
			continue
		}
		bad = append(bad, v)
	}
	ev := evidence{Property: id, Tier: tier, Seed: seed, Level: "other", Assumptions: rule.Assumptions, Violations: len(bad)}
	discharged := 0
	bySample := map[string]int{}
	var samples []any
	for _, o := range c.obls {
		if o.OK {
			discharged++
		}
		if bySample[o.Rule]++; bySample[o.Rule] <= 3 {
			samples = append(samples, map[string]any{"rule": o.Rule, "construct": o.Construct, "pos": o.Pos, "ok": o.OK})
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, strings.ReplaceAll(f, load.Module+"/", ""))
	}
	sort.Strings(fns)
	ev.Coverage = map[string]any{
		"explanation":          rule.Explanation,
		"obligations":          len(c.obls),
		"discharged":           discharged,
		"instances_by_rule":    c.counts,
		"samples":              samples,
		"functions_analysed":   len(fns),
		"functions":            fns,
		"abstract_paths":       c.states,
		"instructions":         c.steps,
		"checker_cmd":          "./run.sh " + id,
		"trusted_base":         []string{"go/types and golang.org/x/tools/go/ssa (type checking, SSA construction)", "checker/eng (abstract interpreter)", "checker/rules (this rule)", "the stated models of the standard library functions"},
		"notes":                c.notes,
		"suppressed_known":     suppressed,
		"violating_constructs": bad,
	}
	ev.WallS = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(verif, "evidence"), 0777)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0666)
	rep := filepath.Join("evidence", id+".violations.txt")
	os.Remove(filepath.Join(verif, rep))
	if len(bad) == 0 {
		fmt.Printf("ok property=%s obligations=%d functions=%d %.1fs\n", id, len(c.obls), len(fns), ev.WallS)
		return 0
	}
	var b strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&b, "rule %s\n  construct: %s\n  at: %s\n  %s\n", v.Rule, v.Construct, v.Pos, v.Msg)
	}
	os.WriteFile(filepath.Join(verif, rep), []byte(b.String()), 0666)
	for _, v := range bad {
		msg := v.Msg
		if i := strings.Index(msg, "\n"); i >= 0 {
			msg = msg[:i]
		}
		fmt.Printf("VIOLATION property=%s replay=%s rule=%s construct=%q at=%s: %s\n", id, rep, v.Rule, v.Construct, v.Pos, msg)
	}
	return 1
}

// readKnown reads the committed list of known findings.
func readKnown(file string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID rule=RULE construct=CONSTRUCT | text
		l = strings.TrimPrefix(l, "finding: ")
		head, txt, _ := strings.Cut(l, " | ")
		var id, rule, cons string
		if i := strings.Index(head, " construct="); i >= 0 {
			cons = head[i+len(" construct="):]
			head = head[:i]
		}
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				id = v
			}
			if v, ok := strings.CutPrefix(f, "rule="); ok {
				rule = v
			}
		}
		out[id+"\x00"+rule+"\x00"+cons] = txt
	}
	return out
}
