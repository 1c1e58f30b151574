package rules

import (
	"strings"

	"go/types"

	"verif/checker/eng"
)

// merged checks the list of roots: those of both indexes in order, without
// those that are under another.
func (g *merged) roots() {
	c := g.c
	pos := g.f.Pos()
	var w *eng.Term
	var rd [2][]*eng.Term
	for _, e := range g.r.Events {
		switch {
		case e.Kind != "call":
		case strings.HasSuffix(e.Name, idx+"NewPathWriter") && len(e.Args) == 4 && e.Args[1] == eng.Nil:
			c.Check(w == nil || w == e.Res, "merge-roots", "writer", pos, "Merge writes more than one list of roots")
			w = e.Res
		case isMethod(e.Name, "Index", "Roots"):
			for i := range rd {
				if e.Args[0] == g.ix[i] && !hasTerm(rd[i], e.Res) {
					rd[i] = append(rd[i], e.Res)
				}
			}
		}
	}
	if !c.Check(w != nil && len(rd[0]) > 0 && len(rd[1]) > 0, "merge-roots", "lists", pos, "Merge does not write the roots of both indexes") {
		return
	}
	// the readers that are used with the writer
	var src [2]*eng.Term
	var loops []*eng.Loop
	for _, l := range g.r.Loops {
		if !g.writesRoots(l, w) {
			continue
		}
		loops = append(loops, l)
		for i := range rd {
			for _, r := range rd[i] {
				if g.posPhi(l, r) != nil {
					c.Check(src[i] == nil || src[i] == r, "merge-roots", "source", pos, "Merge reads the roots of one index twice to write them")
					src[i] = r
				}
			}
		}
	}
	if !c.Check(src[0] != nil && src[1] != nil, "merge-roots", "sources", pos, "Merge does not write the roots of both indexes from two lists") {
		return
	}
	lasts := map[*eng.Term]bool{} // what holds the root written last
	for _, l := range loops {
		g.rootLoop(l, w, src, lasts)
	}
	// and nothing else
	for _, e := range g.r.Events {
		if e.Kind != "call" || len(e.Args) < 2 || e.Args[0] != w || !isMethod(e.Name, "PathWriter", "Write") && !isMethod(e.Name, "PathWriter", "Collect") {
			continue
		}
		in := false
		for _, l := range loops {
			in = in || e.St.Inside(l)
		}
		old := everFact(e.St.Facts, func(f *eng.Term) bool {
			return f.Any(func(x *eng.Term) bool {
				return x.Op == "ld" && x.Args[0].Op == "global" && x.Args[0].Aux == idx+"writeVersion" && e.St.Implies(eng.EqInt(x, eng.Int(1)))
			})
		})
		c.Check(in || old, "merge-roots", "nothing else", e.Instr.Pos(), "Merge writes a root that is of neither index")
	}
	// all of them
	n := 0
	for _, t := range g.r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		for i := range src {
			p := position(t.St, src[i])
			done := g.hasFact(t.St, eng.Not(eng.Mk("validof", "", types.Typ[types.Bool], src[i], p)))
			c.Check(done, "merge-roots", "all", pos, "Merge may not write all roots of the %s index", [2]string{"older", "newer"}[i])
		}
	}
	c.Check(n > 0, "merge-roots", "end", pos, "Merge never ends")
}

func hasTerm(ts []*eng.Term, t *eng.Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (g *merged) writesRoots(l *eng.Loop, w *eng.Term) bool {
	return g.posPhi(l, w) != nil
}

// notAfter reports whether the path p is known not to come after q.
func (g *merged) notAfter(st *eng.State, p, q *eng.Term) bool {
	for _, f := range st.Facts {
		if f.Op != "le" {
			continue
		}
		as := eng.Atoms(f.Args[0])
		if len(as) != 1 || !isCall(as[0], "("+idx+"Path).Compare") || len(as[0].Args) != 2 {
			continue
		}
		a := as[0]
		x, y := g.str(a.Args[0]), g.str(a.Args[1])
		if x == p && y == q && (f == eng.Le(a, eng.Int(0)) || f == eng.Lt(a, eng.Int(0))) ||
			x == q && y == p && (f == eng.Le(eng.Int(0), a) || f == eng.Lt(eng.Int(0), a)) {
			return true
		}
	}
	return false
}

// under gives what a path is compared with to see if it is under it.
func (g *merged) under(st *eng.State, p *eng.Term) (is, not []*eng.Term) {
	for _, f := range st.Facts {
		t, neg := f, false
		if f.Op == "not" {
			t, neg = f.Args[0], true
		}
		if !isCall(t, "("+idx+"Path).HasPathPrefix") || len(t.Args) != 2 || g.str(t.Args[0]) != p {
			continue
		}
		if neg {
			not = append(not, g.str(t.Args[1]))
		} else {
			is = append(is, g.str(t.Args[1]))
		}
	}
	return
}

func (g *merged) rootLoop(l *eng.Loop, w *eng.Term, src [2]*eng.Term, lasts map[*eng.Term]bool) {
	c := g.c
	at := g.f.Pos()
	wp := g.posPhi(l, w)
	// variables that hold the last root written
	last := map[*eng.Term]*eng.Phi{}
	for _, p := range l.Phis {
		if p.Sym.Typ == nil || p.Init == nil {
			continue
		}
		v := p.Sym
		if types.Identical(v.Typ, g.pathT) {
			v = g.str(v)
		} else if b, ok := v.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			continue
		}
		last[v] = p
	}
	val := func(t *eng.Term) *eng.Term {
		if types.Identical(t.Typ, g.pathT) {
			return g.str(t)
		}
		return t
	}
	for v, p := range last {
		in := val(p.Init)
		if isCall(in, idx+"MakePath") && len(in.Args) == 1 {
			in = in.Args[0]
		}
		if in.Op == "fieldval" && isCall(in.Args[0], idx+"MakePath") {
			in = in.Args[0].Args[0]
		}
		s, ok := in.Aux, in.Op == "str"
		ok = ok && strings.HasPrefix(s, "\xFF") // a prefix of nothing
		ok = ok || lasts[in] || g.guarded(l, wp, v)
		for k, b := range l.Backs {
			if wp.Backs[k] == wp.Sym {
				ok = ok && p.Backs[k] == p.Sym
			} else {
				wr := g.wrote(b, l, w)
				ok = ok && wr != nil && val(p.Backs[k]) == wr
			}
		}
		if !ok {
			delete(last, v)
		} else {
			lasts[v] = true
		}
	}
	for k, b := range l.Backs {
		i, n := -1, 0
		for j := range src {
			p := g.posPhi(l, src[j])
			if p == nil || p.Backs[k] == p.Sym {
				continue
			}
			n++
			if p.Backs[k] == eng.AddK(p.Sym, 1) {
				i = j
			}
		}
		if !c.Check(n == 1 && i >= 0, "merge-roots", "one at a time", at, "Merge does not take exactly one root from one of the indexes at a time") {
			continue
		}
		name := [2]string{"older", "newer"}
		posOf := func(j int) *eng.Term {
			if p := g.posPhi(l, src[j]); p != nil {
				return p.Sym
			}
			return position(b, src[j])
		}
		root := func(j int) *eng.Term { return g.str(eng.Mk("pathof", "", g.pathT, src[j], posOf(j))) }
		valid := func(j int) *eng.Term {
			return eng.Mk("validof", "", types.Typ[types.Bool], src[j], posOf(j))
		}
		c.Check(g.hasFact(b, valid(i)), "merge-roots", "taken", at, "Merge takes a root of the %s index although it may have no more", name[i])
		first := g.hasFact(b, eng.Not(valid(1-i))) || g.notAfter(b, root(i), root(1-i))
		c.Check(first, "merge-roots", "order", at, "Merge takes a root of the %s index although that of the other may come before it", name[i])
		is, not := g.under(b, root(i))
		any := func(ts []*eng.Term) bool {
			for _, t := range ts {
				if last[t] != nil {
					return true
				}
			}
			return false
		}
		empty := b.Implies(eng.EqInt(wp.Sym, eng.Int(0)))
		switch wp.Backs[k] {
		case wp.Sym:
			c.Check(any(is), "merge-roots", "left out", at, "Merge leaves out a root that is not known to be under the last one written")
		case eng.AddK(wp.Sym, 1):
			c.Check(g.wrote(b, l, w) == root(i), "merge-roots", "written", at, "Merge does not write the root it took")
			c.Check(any(not) || empty, "merge-roots", "kept", at, "Merge writes a root that may be under the last one written")
		default:
			c.Viol("merge-roots", "times", at, "Merge writes a root more than once")
		}
	}
}

// guarded reports whether v is compared only when something was written.
func (g *merged) guarded(l *eng.Loop, wp *eng.Phi, v *eng.Term) bool {
	for _, b := range l.Backs {
		for _, f := range b.Facts {
			if f.Op == "not" {
				f = f.Args[0]
			}
			if isCall(f, "("+idx+"Path).HasPathPrefix") && g.str(f.Args[1]) == v && !b.Implies(eng.Lt(eng.Int(0), wp.Sym)) {
				return false
			}
		}
	}
	return true
}

// wrote is the path written in an iteration of l, if it is only one.
func (g *merged) wrote(st *eng.State, l *eng.Loop, w *eng.Term) *eng.Term {
	var out *eng.Term
	n := 0
	for _, e := range sinceLoop(st, l) {
		if e.Kind == "call" && e.Args[0] == w && isMethod(e.Name, "PathWriter", "Write") {
			out = g.str(e.Args[1])
			n++
		} else if e.Kind == "call" && e.Args[0] == w && isMethod(e.Name, "PathWriter", "Collect") {
			n += 2
		}
	}
	if n != 1 {
		return nil
	}
	return out
}

// fails checks that Merge gives up on names only if the indexes are broken.
func (g *merged) fails(outer *eng.Loop, roots *eng.Term) {
	c := g.c
	var pre *eng.Term
	for _, e := range g.r.Events {
		if e.Kind == "call" && isMethod(e.Name, "postMapReader", "init") {
			pre = e.Args[0]
		}
	}
	for _, t := range g.r.Terms {
		if t.Kind == "return" || pre == nil {
			continue
		}
		started := false
		var w *eng.Term
		for _, e := range t.St.Events(false) {
			started = started || e.Kind == "call" && isMethod(e.Name, "postMapReader", "init")
			if e.Kind == "call" && strings.HasSuffix(e.Name, idx+"NewPathWriter") && len(e.Args) == 4 && e.Args[1] != eng.Nil {
				w = e.Res
			}
		}
		if started {
			continue
		}
		st := t.St
		p := position(st, g.rd[1])
		over := g.hasFact(st, eng.Not(eng.Mk("validof", "", types.Typ[types.Bool], roots, position(st, roots))))
		root := g.str(eng.Mk("pathof", "", g.pathT, roots, position(st, roots)))
		ok := g.order(st, is(g.nameAt(1, p)), is(root)) < 0 || over && st.Implies(eng.Lt(p, g.num[1]))
		if !ok && w != nil {
			// the next range of neither list has the next number
			n := position(st, w)
			bad := map[*eng.Term]bool{}
			for _, l := range st.Passed() {
				if g.posPhi(l, w) == nil {
					continue
				}
				hs := g.heads(l)
				for _, q := range hs {
					first := eng.Mk("ld", "", types.Typ[types.Int], eng.FieldAddr(eng.Elem(q.list, eng.Int(0), types.NewPointer(g.idT)), g.ids, g.to))
					if st.Implies(eng.Le(eng.Len(q.list), eng.Int(0))) || st.Implies(eng.Not(eng.EqInt(first, n))) {
						bad[q.of] = true
					}
				}
				ok = len(hs) == 0 // by counters: which range is next is not known
			}
			ok = ok || len(bad) >= 2
		}
		if f := st.Facts; !ok && w != nil && len(f) > 0 {
			ok = f[len(f)-1].Any(func(x *eng.Term) bool { return isCall(x, "(*"+idx+"Buffer).Offset") })
		}
		c.Check(ok, "merge-names", "fails", g.f.Pos(), "Merge fails on sound indexes (under %v)", lastFacts(st, 5))
	}
}

// A head is the first range that is left of a list.
type head struct{ of, list *eng.Term }

// heads finds the lists of ranges that a loop goes through.
func (g *merged) heads(l *eng.Loop) (out []head) {
	isList := func(t *eng.Term) bool {
		if t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), g.idT)
	}
	for _, q := range l.Phis {
		if isList(q.Sym) {
			out = append(out, head{q.Init, q.Sym})
		}
	}
	return
}

// newest checks that cindex merges what it has just indexed as the newer one.
func (m *mergeRules) newest() {
	c := m.c
	r := c.cindexRun()
	if r == nil {
		return
	}
	n := 0
	for _, e := range r.Events {
		if e.Kind != "call" || e.Name != idx+"Merge" || len(e.Args) != 3 {
			continue
		}
		n++
		var made *eng.Term
		for _, p := range e.St.Events(false) {
			if p.Kind == "call" && p.Name == idx+"Create" {
				made = p.Args[0]
			}
		}
		c.Check(made != nil && e.Args[2] == made && e.Args[1] != made, "merge-newer", "cindex", e.Instr.Pos(), "cindex does not merge the index it has just written as the newer of the two")
		c.Check(e.Args[0] != e.Args[1] && e.Args[0] != e.Args[2], "merge-newer", "cindex target", e.Instr.Pos(), "cindex merges into one of the two indexes that are merged")
	}
	c.Check(n > 0, "merge-newer", "cindex merges", 0, "cindex never merges")
}
