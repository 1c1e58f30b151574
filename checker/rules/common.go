package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deepest returns the functions reachable from root that reach all of names
// (full names of module or external functions) while no single function they
// use does.
func (c *Ctx) deepest(root *ssa.Function, names ...string) []*ssa.Function {
	g := graphOf(c.P)
	memo := map[*ssa.Function]bool{}
	has := func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		r := g.reach(f)
		n := 0
		for _, want := range names {
			if len(r.ext[want]) > 0 {
				n++
				continue
			}
			for h := range r.fns {
				if fullName(h) == want {
					n++
					break
				}
			}
		}
		memo[f] = n == len(names)
		return memo[f]
	}
	var out []*ssa.Function
	for f := range g.reach(root).fns {
		if !has(f) {
			continue
		}
		deep := true
		for h := range g.reach(f).fns {
			if h != f && has(h) {
				deep = false
			}
		}
		if deep {
			out = append(out, f)
		}
	}
	sortFns(out)
	return out
}

// hasSuffixAny reports whether s ends in one of the suffixes.
func hasSuffixAny(s string, suf ...string) bool {
	for _, x := range suf {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}
