package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const idx = load.Module + "/index."

func init() {
	register(&Rule{
		ID: "C04",
		Explanation: "Path-sensitive typestate analysis of cindex's main (helpers and the walk callback inlined, package index kept abstract): file names are classified by their symbolic value (index file, index file with a suffix, other). " +
			"On every path, each operation that can change the index file must be (a) a rename onto it of a file that an earlier Merge on the same path produced from the index file and from a second file whose writer was created and flushed before the Merge, or " +
			"(b) a removal or direct creation on a path whose conditions imply -reset or that the index file could not be statted. Every path that returns after creating a writer must flush it, add no file after that, and, if the writer was not for the index file itself, rename with a nil error.",
		Assumptions: []string{"index.Merge writes only its first argument and reads the others (decided separately)", "os.Rename replaces its target atomically", "index.File returns the same name throughout a run"},
		Run:         runReplace,
	})
}

// nameClass classifies a file name: "M", "M+suffix" or "".
func nameClass(t *eng.Term) string {
	if isCall(t, load.Module+"/index.File") {
		return "M"
	}
	if t.Op == "cat" {
		s := nameClass(t.Args[0])
		if s == "" {
			return ""
		}
		for _, a := range t.Args[1:] {
			if a.Op != "str" {
				return ""
			}
			s += a.Aux
		}
		return s
	}
	return ""
}

func runReplace(c *Ctx) {
	main := c.Func("cmd/cindex", "main")
	if main == nil {
		return
	}
	interesting := func(n string) bool {
		if _, ok := pathMutators[n]; ok {
			return true
		}
		return strings.HasPrefix(n, idx) || strings.HasPrefix(n, "(*"+idx+"IndexWriter).") || n == "(*"+idx+"Index).Check" || n == "os.Stat" || n == "os.Lstat"
	}
	w := func(n string) string { return "(*" + idx + "IndexWriter)." + n }
	r := c.Analyze(main, &eng.Config{
		Join: 150, Entries: 64, MaxStates: 1000,
		Opaque: func(f *ssa.Function) bool {
			return fnPkg(f) != nil && !strings.HasSuffix(fnPkg(f).Path(), "cmd/cindex")
		},
		Target:   targetNames(interesting),
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && interesting(e.Name) },
	})
	flagTrue := func(facts []*eng.Term) bool {
		return everFact(facts, func(f *eng.Term) bool { return flagLoad(c, f, "reset") })
	}
	// the index file is missing: a stat of it failed
	missing := func(st *eng.State) bool {
		for _, f := range st.Facts {
			if f.Op == "not" && f.Args[0].Op == "eq" {
				for _, a := range f.Args[0].Args {
					if (isResult(a, "os.Stat", "1") || isResult(a, "os.Lstat", "1")) && nameClass(a.Args[0].Args[0]) == "M" {
						return true
					}
				}
			}
		}
		return false
	}
	isNilErr := func(st *eng.State, t *eng.Term) bool { return st.Implies(eng.Eq(t, eng.Nil, t.Typ)) }
	mayChange := func(e *eng.Event) []int {
		if is, ok := pathMutators[e.Name]; ok {
			return is
		}
		switch e.Name {
		case idx + "Create", idx + "Merge":
			return []int{0}
		}
		return nil
	}
	checks := func(st *eng.State, n string, at *eng.Event) bool {
		// with -check on, file n was opened and checked with a nil error
		if everFact(st.Facts, func(f *eng.Term) bool { return f.Op == "not" && flagLoad(c, f.Args[0], "check") }) {
			return true
		}
		for _, p := range st.Events(false) {
			if p.Name == "(*"+idx+"Index).Check" && isCall(p.Args[0], idx+"Open") && nameClass(p.Args[0].Args[0]) == n && isNilErr(st, p.Res) {
				return true
			}
		}
		return false
	}
	// a name that does not resolve to one value on the path: does it draw on
	// the index file's own name?
	mayBeMaster := func(e *eng.Event, i int) bool {
		if e.Args[i].Op == "cat" || e.Args[i].Op == "str" {
			return false
		}
		ci, ok := e.Instr.(ssa.CallInstruction)
		if !ok || i >= len(ci.Common().Args) {
			return true
		}
		tr := &Tracer{g: graphOf(c.P), NoConcat: true, Stop: func(n string) bool { return n == idx+"File" }}
		for _, s := range tr.Trace(ci.Common().Args[i]) {
			if s.Name == idx+"File" {
				return true
			}
		}
		return false
	}
	for _, e := range r.Events {
		for _, i := range mayChange(e) {
			cl := nameClass(e.Args[i])
			if cl == "" && mayBeMaster(e, i) {
				cl = "M"
			}
			if cl != "M" {
				continue
			}
			cons := "cindex:" + e.Name
			past := e.St.Events(false)
			switch {
			case e.Name == "os.Rename" && i == 1:
				from := nameClass(e.Args[0])
				c.Check(from != "" && from != "M", "rename-source", cons, e.Instr.Pos(), "the index file is replaced by %s, which is not one of cindex's own files", e.Args[0])
				var merge *eng.Event
				for _, p := range past {
					if p.Name == idx+"Merge" && nameClass(p.Args[0]) == from {
						merge = p
					}
				}
				if !c.Check(merge != nil, "rename-after-merge", cons, e.Instr.Pos(), "the index file is replaced on a path with no earlier Merge into %s", e.Args[0]) {
					continue
				}
				c.Check(nameClass(merge.Args[1]) == "M", "merge-old-first", cons, merge.Instr.Pos(), "Merge's older index is %s, not the index file", merge.Args[1])
				f := nameClass(merge.Args[2])
				c.Check(f != "" && f != "M" && f != from, "merge-new-second", cons, merge.Instr.Pos(), "Merge's newer index is %s, not a separate temporary file", merge.Args[2])
				created, flushed := false, false
				for _, p := range past {
					if p == merge {
						break
					}
					if p.Name == idx+"Create" && nameClass(p.Args[0]) == f {
						created = true
						flushed = false
					}
					if p.Name == w("Flush") && isCall(p.Args[0], idx+"Create") && nameClass(p.Args[0].Args[0]) == f {
						flushed = true
					}
				}
				c.Check(created && flushed, "merge-after-flush", cons, merge.Instr.Pos(), "Merge reads %s before its writer was created and flushed", merge.Args[2])
				c.Check(checks(e.St, from, e), "check-before-rename", cons, e.Instr.Pos(), "with -check, the index file is replaced by an index that was not checked")
			case e.Name == "os.Remove" || e.Name == idx+"Create":
				c.Check(flagTrue(e.Facts) || missing(e.St), "discard-only-on-reset", cons, e.Instr.Pos(), "the index file is discarded or overwritten on a path that implies neither -reset nor that it is missing")
			default:
				c.Check(false, "direct-change", cons, e.Instr.Pos(), "the index file itself is changed by %s", e.Name)
			}
		}
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		var created, flushed, renamed *eng.Event
		for _, e := range t.St.Events(false) {
			switch e.Name {
			case idx + "Create":
				created = e
			case w("Flush"):
				flushed = e
			case "os.Rename":
				if nameClass(e.Args[1]) == "M" {
					renamed = e
					c.Check(isNilErr(t.St, e.Res), "rename-error", "cindex:os.Rename", e.Instr.Pos(), "cindex can finish successfully although replacing the index failed")
				}
			case "os.Remove":
				if nameClass(e.Args[0]) == "M" {
					ok := isNilErr(t.St, e.Res) || everFact(t.St.Facts, func(f *eng.Term) bool {
						return isCall(f, "os.IsNotExist") && f.Args[0] == e.Res || isCall(f, "errors.Is") && f.Args[0] == e.Res
					})
					c.Check(ok, "remove-error", "cindex:os.Remove", e.Instr.Pos(), "cindex -reset can finish successfully although removing the index failed")
				}
			case "(*" + idx + "Index).Check":
				c.Check(isNilErr(t.St, e.Res), "check-error", "cindex:Check", e.Instr.Pos(), "cindex can finish successfully although -check found the index malformed")
			case w("Add"), w("AddFile"), w("AddRoots"):
				c.Check(flushed == nil, "add-after-flush", "cindex:"+e.Name, e.Instr.Pos(), "files or roots are added after the index was flushed")
			}
		}
		if created == nil {
			continue
		}
		n++
		if !c.Check(flushed != nil, "flushed", "cindex:main", created.Instr.Pos(), "cindex can finish without flushing the index it created") {
			continue
		}
		if nameClass(created.Args[0]) == "M" {
			c.Check(true, "replaced", "cindex:main fresh", created.Instr.Pos(), "")
			continue
		}
		c.Check(renamed != nil, "replaced", "cindex:main update", created.Instr.Pos(), "cindex can finish without moving the new index into place")
	}
	c.Check(n >= 2, "paths", "cindex:main", main.Pos(), "found %d successful indexing paths", n)
	for _, rule := range []string{"rename-source", "rename-after-merge", "merge-old-first", "merge-new-second", "merge-after-flush", "check-before-rename", "rename-error", "remove-error", "flushed"} {
		c.Min(rule, 1)
	}
	c.Min("discard-only-on-reset", 2)
	c.Min("replaced", 2)
}

// flagLoad reports whether t reads the boolean flag called name.
func flagLoad(c *Ctx, t *eng.Term, name string) bool {
	if t.Op != "ld" {
		return false
	}
	a := t.Args[0]
	g := graphOf(c.P)
	if a.Op == "ld" && a.Args[0].Op == "global" {
		for _, s := range g.storesOfGlobal(a.Args[0].Aux) {
			if call, ok := s.Val.(*ssa.Call); ok {
				if n, _ := calleeOf(call); strings.HasPrefix(n, "flag.") && len(call.Call.Args) > 0 && constStr(call.Call.Args[0]) == name {
					return true
				}
			}
		}
	}
	if a.Op == "global" || a.Op == "field" {
		for _, f := range g.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					n, _ := calleeOf(call)
					if strings.HasPrefix(n, "flag.") && strings.HasSuffix(n, "Var") && len(call.Call.Args) > 1 && constStr(call.Call.Args[1]) == name {
						if gl, ok := call.Call.Args[0].(*ssa.Global); ok && a.Op == "global" && gl.RelString(nil) == a.Aux {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (g *graph) storesOfGlobal(aux string) []*ssa.Store {
	return g.stores["G:"+strings.TrimPrefix(aux, "global:")]
}

func constStr(v ssa.Value) string {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || !strings.HasPrefix(k.Value.ExactString(), "\"") {
		return ""
	}
	s := k.Value.ExactString()
	return strings.Trim(s, "\"")
}
