package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// lists checks how Merge reads the two sets of posting lists together: every
// list of either index is started, read to its end, and left exactly once,
// with the lists of the same trigram together, and their numbers in order.
func (m *mergeRules) lists() {
	c := m.c
	tri := ""
	for i := 0; i < m.reader.NumFields(); i++ {
		if types.Identical(m.reader.Field(i).Type(), types.Typ[types.Uint32]) {
			if !c.Check(tri == "", "merge-lists", "trigram", m.f.Pos(), "cannot tell where the reader of an index to be merged has its trigram") {
				return
			}
			tri = m.reader.Field(i).Name()
		}
	}
	rrole, wrole := map[string]string{}, map[string]string{}
	for _, f := range c.P.Funcs() {
		if f.Parent() != nil {
			continue
		}
		switch recvNamed(f) {
		case "postMapReader":
			switch {
			case f.Name() == m.next:
				rrole[f.Name()] = "next"
			case does(f, "deltaReader", "init") && len(f.Params) == 3:
				rrole[f.Name()] = "init"
			case does(f, "deltaReader", "init") && len(f.Params) == 1:
				rrole[f.Name()] = "advance"
			}
		case "postDataWriter":
			switch {
			case f.Name() == "init":
				wrole[f.Name()] = "init"
			case does(f, "Buffer", "WriteTrigram") && !does(f, "deltaWriter", "Write"):
				wrole[f.Name()] = "start"
			case does(f, "deltaWriter", "Flush"):
				wrole[f.Name()] = "end"
			case does(f, "deltaWriter", "Write"):
				wrole[f.Name()] = "number"
			}
		}
	}
	role := func(e *eng.Event) (string, string) {
		if e.Kind != "call" {
			return "", ""
		}
		i := strings.LastIndex(e.Name, ".")
		if i < 0 {
			return "", ""
		}
		n := e.Name[i+1:]
		switch {
		case isMethod(e.Name, "postMapReader", n):
			return "r", rrole[n]
		case isMethod(e.Name, "postDataWriter", n):
			return "w", wrole[n]
		}
		return "", ""
	}
	var rd [2]*eng.Term
	end := eng.Int(0xffffffff)
	triOf := func(st *eng.State, i int) *eng.Term { return final(st, rd[i], m.reader, tri) }
	idOf := func(st *eng.State, i int) *eng.Term { return final(st, rd[i], m.reader, m.idF) }
	over := func(st *eng.State, i int) bool { return st.Implies(eng.EqInt(idOf(st, i), eng.Int(-1))) }
	names := [2]string{"older", "newer"}
	good := map[string]int{}
	auto := func(st *eng.State, e *eng.Event) string {
		a := st.Auto
		if a == "" {
			a = "--c"
		}
		if strings.HasPrefix(a, "x:") {
			return a
		}
		on, what := role(e)
		if what == "" {
			return a
		}
		b := []byte(a)
		i := 0
		if on == "r" {
			switch {
			case rd[0] == e.Args[0]:
			case rd[1] == e.Args[0]:
				i = 1
			case what == "init" && rd[0] == nil:
				rd[0] = e.Args[0]
			case what == "init" && rd[1] == nil:
				rd[1], i = e.Args[0], 1
			default:
				return "x:reads a third index"
			}
		}
		good[on+what]++
		switch on + what {
		case "rinit":
			if b[i] != '-' {
				return "x:starts to read an index again"
			}
			b[i] = 'P'
		case "winit":
		case "wstart":
			if b[2] != 'c' {
				return "x:starts a list within another"
			}
			b[2] = 'o'
			t := e.Args[1]
			any := false
			for i := range rd {
				if b[i] == '-' {
					return "x:writes a list before both indexes are read"
				}
				if strings.IndexByte("PDG", b[i]) < 0 {
					return "x:writes a list although the one before of the " + names[i] + " index is not finished"
				}
				u := triOf(st, i)
				switch {
				case u == t || st.Implies(eng.EqInt(u, t)):
					b[i] = 'E'
					any = true
				case st.Implies(eng.Lt(t, u)):
					b[i] = 'G'
				default:
					return "x:writes a list although the next of the " + names[i] + " index may come before it"
				}
			}
			if !any {
				return "x:writes a list that is in neither index"
			}
		case "rnext":
			switch {
			case b[i] == 'E' || b[i] == 'C' || b[i] == 'V' && over(st, i):
				b[i] = 'V'
			case b[i] == 'V':
				return "x:loses a number of the " + names[i] + " index"
			default:
				return "x:reads a list of the " + names[i] + " index that is not the one being written"
			}
		case "wnumber":
			if b[2] != 'o' {
				return "x:writes a number outside of a list"
			}
			v, which := e.Args[1], -1
			for i := range rd {
				if b[i] == 'V' && v == idOf(st, i) {
					which = i
				}
			}
			if which < 0 {
				return "x:writes a number that is not the next of a list"
			}
			j := 1 - which
			o := idOf(st, j)
			if !st.Implies(eng.Not(eng.EqInt(v, eng.Int(-1)))) && !st.Implies(eng.Le(eng.Int(0), v)) && !m.unsignedLess(st, v, o) {
				return "x:writes the number at the end of a list"
			}
			switch {
			case b[j] == 'G' || b[j] == 'D':
			case b[j] == 'V' && (over(st, j) || st.Implies(eng.Lt(v, o)) || m.unsignedLess(st, v, o)):
			default:
				return "x:writes a number although the next of the " + names[j] + " index may be smaller"
			}
			b[which] = 'C'
		case "radvance":
			switch {
			case b[i] == 'V' && over(st, i):
				b[i] = 'D'
			case st.Implies(eng.EqInt(triOf(st, i), end)):
			default:
				return "x:leaves a list of the " + names[i] + " index before its end"
			}
		case "wend":
			if b[2] != 'o' {
				return "x:ends a list that was not started"
			}
			b[2] = 'c'
			for i := range rd {
				switch {
				case b[i] == 'G' || b[i] == 'D':
				case b[i] == 'V' && over(st, i):
				case b[i] == 'E' && st.Implies(eng.EqInt(triOf(st, i), end)):
					b[i] = 'Z'
				default:
					return "x:ends a list although that of the " + names[i] + " index has more"
				}
			}
		}
		return string(b)
	}
	r := c.Analyze(m.f, &eng.Config{
		Opaque: func(f *ssa.Function) bool {
			switch recvNamed(f) {
			case "postMapReader":
				return rrole[f.Name()] != ""
			case "postDataWriter":
				return wrole[f.Name()] != ""
			}
			return m.opaque(f)
		},
		Model: func(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
			if on, what := role(e); on == "r" {
				x := e.Args[0]
				t, id := fieldAddr(x, tri), fieldAddr(x, m.idF)
				switch what {
				case "init", "advance":
					v := eng.Mk("opaque", "trigram@"+lbl, types.Typ[types.Uint32])
					old := eng.Int(0)
					if what == "advance" {
						old = s.Load(t, types.Typ[types.Uint32])
					}
					s.Assume(eng.Lt(old, v)) // lists are in order
					s.Set(t, v)
					s.Set(id, eng.Mk("opaque", "first@"+lbl, types.Typ[types.Int]))
				case "next":
					v := eng.Mk("opaque", "number@"+lbl, types.Typ[types.Int])
					s.Set(id, v)
					s.Assume(eng.Le(eng.Int(-1), v))
					return eng.Not(eng.EqInt(v, eng.Int(-1))), true
				}
				return e.Res, true
			}
			if fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), m.pathT) {
				return e.Res, true
			}
			return e.Res, true
		},
		Interest: func(e *eng.Event) bool { _, what := role(e); return what != "" },
		Auto:     auto, Join: 8, Entries: 8,
	}, params(m.f)...)
	ends := 0
	for _, t := range r.Terms {
		switch {
		case strings.HasPrefix(t.St.Auto, "x:"):
			c.Viol("merge-lists", "order", m.f.Pos(), "Merge %s", t.St.Auto[2:])
		case t.Kind == "return":
			ends++
			c.Check(t.St.Auto == "ZZc", "merge-lists", "complete", m.f.Pos(), "Merge ends before all lists of both indexes are written (%s)", t.St.Auto)
		case strings.HasPrefix(t.St.Auto, "--"):
		default:
			ok := false
			if rd[1] != nil {
				for _, x := range unsigned(idOf(t.St, 0)) {
					for _, y := range unsigned(idOf(t.St, 1)) {
						ok = ok || t.St.Implies(eng.EqInt(x, y)) // no two ranges have the same new numbers
					}
				}
			}
			c.Check(ok, "merge-lists", "fails", m.f.Pos(), "Merge fails on sound lists (%s)", t.St.Auto)
		}
	}
	c.Check(ends > 0, "merge-lists", "ends", m.f.Pos(), "Merge never ends")
	for _, k := range []string{"rinit", "rnext", "radvance", "wstart", "wnumber", "wend"} {
		c.Check(good[k] > 0, "merge-lists", "step "+k, m.f.Pos(), "Merge does not read and write posting lists in steps that are known (%s)", k)
	}
	c.Note("posting merge: %v", good)
}

// unsignedLess reports whether a is known to be less than b as an unsigned
// number, so that a is not -1 and b is greater or -1.
func (m *mergeRules) unsignedLess(st *eng.State, a, b *eng.Term) bool {
	for i, x := range unsigned(a) {
		for j, y := range unsigned(b) {
			if (i > 0 || j > 0) && st.Implies(eng.Lt(x, y)) {
				return true
			}
		}
	}
	return false
}

// unsigned gives a number as it is and as an unsigned one.
func unsigned(t *eng.Term) []*eng.Term {
	return []*eng.Term{t, eng.Mk("conv", "uint", types.Typ[types.Uint], t), eng.Mk("conv", "uint64", types.Typ[types.Uint64], t)}
}
