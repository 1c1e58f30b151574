package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"verif/checker/eng"
)

// checkedWhenAsked decides that cindex -check checks every index it reports
// on or leaves behind: the one it lists, the one it updates and the one it has
// written (the one it puts in place of another is decided with the
// replacement).
func (c *Ctx) checkedWhenAsked() {
	r := c.cindexRun()
	if r == nil {
		return
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		evs := st.Events(false)
		opened, flushed := false, -1
		for i, e := range evs {
			switch e.Name {
			case idx + "Open":
				opened = opened || nameClass(e.Args[0]) == "M"
			case idx + "Create":
				opened = true
			case "(*" + idx + "IndexWriter).Flush":
				if isCall(e.Args[0], idx+"Create") && nameClass(e.Args[0].Args[0]) == "M" {
					flushed = i
				}
			}
		}
		if !opened {
			continue // nothing but the removal of an index
		}
		ok := everFact(st.Facts, func(f *eng.Term) bool { return f.Op == "not" && flagLoad(c, f.Args[0], "check") })
		for i, e := range evs {
			if e.Name == "(*"+idx+"Index).Check" && isCall(e.Args[0], idx+"Open") && nameClass(e.Args[0].Args[0]) == "M" && i > flushed && st.Implies(eng.Eq(e.Res, eng.Nil, e.Res.Typ)) {
				ok = true
			}
		}
		n++
		what := "listed or updated"
		if flushed >= 0 {
			what = "written"
		}
		c.Check(ok, "checked", "cindex: "+what, r.Fn.Pos(), "with -check, cindex can finish without having checked the index it has %s", what)
	}
	c.Check(n >= 3, "checked", "cindex: ends", r.Fn.Pos(), "fewer ways to the end of cindex found than expected")
	c.Min("checked", 3)
}

// namesRefused decides that a file is refused for its name only if that is
// empty or holds a control character, and that names that hold one are.
func (c *Ctx) namesRefused() {
	fn := c.Func("index", "IndexWriter.Add")
	if fn == nil {
		return
	}
	inner := func(f *ssa.Function) bool {
		// a check of the name, or of its elements
		sig := f.Signature
		for i := 0; i < sig.Params().Len(); i++ {
			if !types.Identical(sig.Params().At(i).Type(), types.Typ[types.String]) {
				return false
			}
		}
		return inModule(f) && sig.Params().Len() > 0
	}
	proceeds := func(n string) bool {
		return n == "archive/zip.NewReader" || n == "(*"+idx+"IndexWriter).add" || n == "(io.Reader).Read" || n == "(io/fs.FileInfo).Mode"
	}
	r := c.Analyze(fn, &eng.Config{
		Join: 200, MaxStates: 1000, KeepFacts: true,
		Opaque:   func(f *ssa.Function) bool { return !inner(f) },
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && (proceeds(e.Name) || c.takesName(e)) },
	})
	name := r.Params[1]
	part := func(t *eng.Term) bool { return t.Any(func(x *eng.Term) bool { return x == name }) }
	// asks whether some rune of the name is one of those f holds of
	asks := func(st *eng.State) (some, none bool) {
		for _, f := range st.Facts {
			f.Walk(func(t *eng.Term) bool {
				index, has := isCall(t, "strings.IndexFunc"), isCall(t, "strings.ContainsFunc")
				if !index && !has || !part(t.Args[0]) || !c.isControl(t.Args[1]) {
					return true
				}
				yes := t
				if index {
					yes = eng.Le(eng.Int(0), t)
				}
				some = some || st.Implies(yes)
				none = none || st.Implies(eng.Not(yes)) && t.Args[0] == name
				return true
			})
		}
		return
	}
	bad := func(st *eng.State) bool {
		if some, _ := asks(st); some {
			return true
		}
		if st.Implies(eng.Le(eng.Len(name), eng.Int(0))) || st.Implies(eng.Eq(name, eng.Str(""), nil)) {
			return true
		}
		for _, f := range st.Facts {
			found := false
			f.Walk(func(t *eng.Term) bool {
				if (t.Op == "ld" || t.Op == "index" || t.Op == "byteat" || t.Op == "stridx" || t.Op == "next" && strings.HasPrefix(t.Aux, "v@")) && part(t) && isNumeric(t.Typ) && st.Implies(eng.Lt(t, eng.Int(' '))) {
					found = true
				}
				return !found
			})
			if found {
				return true
			}
		}
		return false
	}
	good := func(st *eng.State) bool {
		if _, none := asks(st); none {
			return true
		}
		// every rune of the name
		for _, l := range st.Passed() {
			ok := len(l.Backs) > 0
			for _, b := range l.Backs {
				ok = ok && everFact(b.Facts, func(f *eng.Term) bool {
					return f.Any(func(t *eng.Term) bool {
						return t.Op == "next" && strings.HasPrefix(t.Aux, "v@") && t.Any(func(x *eng.Term) bool { return x == name }) && b.Implies(eng.Le(eng.Int(' '), t))
					})
				})
			}
			if ok {
				return true
			}
		}
		for _, l := range st.Passed() {
			for _, p := range l.Phis {
				if !p.Init.IsInt() || !isNumeric(p.Sym.Typ) {
					continue
				}
				ok := len(l.Backs) > 0
				for bi, b := range l.Backs {
					seen := false
					for _, f := range b.Facts {
						f.Walk(func(t *eng.Term) bool {
							if len(t.Args) == 0 || !isNumeric(t.Typ) || !part(t) {
								return true
							}
							for k := int64(-1); k < 2; k++ {
								if t.Any(func(x *eng.Term) bool { return x == eng.AddK(p.Sym, k) }) && p.Init.K+k == 0 && b.Implies(eng.Le(eng.Int(' '), t)) && p.Backs[bi] == eng.AddK(p.Sym, 1) {
									seen = true
								}
							}
							return true
						})
					}
					ok = ok && seen
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
	refused, taken := 0, 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		went := false
		for _, e := range t.St.Events(false) {
			went = went || c.takesName(e) || proceeds(e.Name)
		}
		if !went {
			refused++
			c.Check(bad(t.St), "refused", "IndexWriter.Add", fn.Pos(), "a file can be refused although its name is not empty and holds no control character (under %v)", lastFacts(t.St, 4))
		} else {
			taken++
			c.Check(good(t.St), "accepted", "IndexWriter.Add", fn.Pos(), "a file can be added although its name may hold a control character (under %v)", lastFacts(t.St, 4))
		}
	}
	c.Check(refused > 0 && taken > 0, "refused", "IndexWriter.Add ends", fn.Pos(), "no refusal of a name found")
}

// isControl reports whether f is the function that holds of control
// characters.
func (c *Ctx) isControl(f *eng.Term) bool {
	if f.Op != "func" {
		return false
	}
	for fn := range ssautil.AllFunctions(c.P.SSA) {
		if fullName(fn) != f.Aux || len(fn.Params) != 1 || len(fn.FreeVars) != 0 {
			continue
		}
		r := c.Analyze(fn, &eng.Config{})
		for _, t := range r.Terms {
			if t.Kind != "return" {
				return false
			}
			low := eng.Lt(r.Params[0], eng.Int(' '))
			v := t.Rets[0]
			if !(v == low || t.St.Implies(low) && v == eng.True || t.St.Implies(eng.Not(low)) && v == eng.False) {
				return false
			}
		}
		return len(r.Terms) > 0
	}
	return false
}

// takesName reports whether e adds something under a name.
func (c *Ctx) takesName(e *eng.Event) bool {
	ci, ok := e.Instr.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := ci.Common().StaticCallee()
	return f != nil && methodOf(f, "IndexWriter")
}
