package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C31",
		Explanation: "Path-sensitive analysis of index.File: every path returns what the environment variable CSEARCHINDEX holds and knows it not to be empty, or knows it to be empty or unset and returns .csearchindex in the directory HOME names. " +
			"Backward provenance of the argument of every index.Open in the commands: in csearch and csweb it is the result of index.File and nothing else, in cindex that or that with ~ appended; both searching commands open an index. " +
			"No function of the module that is called changes the environment or the working directory.",
		Assumptions: []string{"os.Getenv, os.LookupEnv, os.UserHomeDir", "package path/filepath", "runtime.GOOS is that of the analysis"},
		Run:         runWhere,
	})
}

func runWhere(c *Ctx) {
	c.indexFileName()
	c.indexOpened()
	c.Min("name", 2)
	c.Min("opened", 4)
	c.Min("unchanged", 1)
}

// indexFileName: what index.File returns.
func (c *Ctx) indexFileName() {
	f := c.Func("index", "File")
	if f == nil {
		return
	}
	r := c.Analyze(f, &eng.Config{KeepFacts: true})
	if r == nil {
		return
	}
	cons := fnLabel(f)
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(t.Kind != "return", "name", cons, f.Pos(), "it does not return a name")
			continue
		}
		ret := t.Rets[0]
		if envVar(ret, "CSEARCHINDEX") {
			c.Check(t.St.Implies(eng.Not(eng.EqInt(eng.Len(ret), eng.Int(0)))), "name", cons+" of the environment", f.Pos(), "the variable CSEARCHINDEX is used where it may be empty")
			continue
		}
		c.Check(noVar(t.St, "CSEARCHINDEX"), "name", cons+" default", f.Pos(), "the default is used where the variable CSEARCHINDEX may name an index")
		dir, base, ok := homeFile(t.St, ret)
		c.Check(ok && base == ".csearchindex" && (envVar(dir, "HOME") || dir.Op == "extract" && isCall(dir.Args[0], "os.UserHomeDir")), "name", cons+" at home", f.Pos(), "the default is not .csearchindex in the directory HOME names, but %s", ret)
	}
}

// envVar reports whether t is what the environment variable holds.
func envVar(t *eng.Term, name string) bool {
	if t.Op == "extract" {
		t = t.Args[0]
		if !isCall(t, "os.LookupEnv") {
			return false
		}
	} else if !isCall(t, "os.Getenv") {
		return false
	}
	return len(t.Args) == 1 && t.Args[0].Op == "str" && t.Args[0].Aux == name
}

// noVar reports whether st knows the environment variable to be empty or
// unset.
func noVar(st *eng.State, name string) bool {
	found := false
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if envVar(t, name) {
				if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					found = found || st.Implies(eng.Not(t))
				} else {
					found = found || st.Implies(eng.EqInt(eng.Len(t), eng.Int(0)))
				}
			}
			return true
		})
	}
	return found
}

// homeFile splits the name of a file.
func homeFile(st *eng.State, t *eng.Term) (dir *eng.Term, base string, ok bool) {
	for isCall(t, "path/filepath.Clean") {
		t = t.Args[0]
	}
	var parts []*eng.Term
	sep := ""
	if isCall(t, "path/filepath.Join") {
		l := t.Args[0]
		n := eng.Len(l)
		if n.Op != "int" || n.K > 4 {
			return nil, "", false
		}
		for i := range n.K {
			p := types.NewPointer(types.Typ[types.String])
			parts = append(parts, st.Load(eng.Elem(l, eng.Int(i), p), types.Typ[types.String]))
		}
	} else {
		var flat func(t *eng.Term)
		flat = func(t *eng.Term) {
			if t.Op != "cat" {
				parts = append(parts, t)
				return
			}
			for _, a := range t.Args {
				flat(a)
			}
		}
		flat(t)
		sep = "/"
	}
	if len(parts) < 2 {
		return nil, "", false
	}
	for _, p := range parts[1:] {
		if p.Op != "str" {
			return nil, "", false
		}
		base += p.Aux
	}
	if sep != "" {
		if base, ok = strings.CutPrefix(base, sep); !ok {
			return nil, "", false
		}
	}
	return parts[0], base, true
}

// indexOpened: which indexes the commands open, and that their names stay
// what they are.
func (c *Ctx) indexOpened() {
	g := graphOf(c.P)
	name := load.Module + "/index.File"
	opens := map[string]int{}
	bad := 0
	for _, f := range c.P.Funcs() {
		p := fnPkg(f)
		if p == nil || !inModulePkg(p) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok {
						switch n := fn.String(); n {
						case "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "(*os.File).Chdir", "syscall.Setenv", "syscall.Chdir":
							if called(c, f) || f.Name() == "main" || f.Name() == "init" {
								bad++
								c.Check(false, "unchanged", fnLabel(f)+" "+n, in.Pos(), "%s changes what the name of the index means, with %s", f, n)
							}
						}
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok || callee(ci) != load.Module+"/index.Open" || !strings.Contains(p.Path(), "/cmd/") {
					continue
				}
				cmd := p.Path()[strings.LastIndex(p.Path(), "/")+1:]
				tr := &Tracer{g: g, Stop: func(n string) bool { return n == name }}
				own := false
				for _, s := range tr.Trace(ci.Common().Args[0]) {
					ok := s.Kind == "call" && s.Name == name
					own = own || ok
					tilde := s.Kind == "const" && s.Name == `"~"` && cmd == "cindex"
					c.Check(ok || tilde, "opened", fnLabel(f)+" "+cmd, in.Pos(), "an index is opened that is not the one index.File names: %s %s", s.Kind, s.Name)
				}
				c.Check(own, "opened", fnLabel(f)+" "+cmd, in.Pos(), "an index is opened that is not the one index.File names")
				opens[cmd]++
			}
		}
	}
	for _, cmd := range []string{"csearch", "csweb", "cindex"} {
		c.Check(opens[cmd] > 0, "opened", cmd+" some", 0, "%s opens no index", cmd)
	}
	c.Check(bad == 0, "unchanged", "environment and directory", 0, "they are changed in %d places", bad)
}
