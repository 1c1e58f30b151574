package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C14",
		Explanation: "Path-sensitive analysis of Merge with the readers and writers of names reduced to their positions: at every root of the newer index the names of the older one are passed up to the first that is not before the root and from there to the first behind everything under it (members of archives included), " +
			"those before are taken over, those under the root are not, and the newer index's names up to the same place are; behind the last root the rest of the older names follows; every range starts at the number of names taken over before it, is written as names exactly when its turn comes, and is handed to the reader of the lists of the same index. " +
			"The reader gives each number of an index the new number of the range that it is in and leaves out exactly those in no range (invariants over its fields); a typestate automaton over Merge requires every list of both indexes to be started together with that of the same trigram, read to its end, left once, its numbers written once in ascending order. " +
			"The roots written are those of both indexes in order, without those under the last one written. cindex passes the index it has just written as the newer.",
		Assumptions: []string{"names and lists are read and written as C10 and C12 say, and are in order", "paths are ordered as C13 says", "both indexes are sound: no name of the newer one lies outside its roots"},
		Run:         runMerge,
	})
}

type mergeRules struct {
	c          *Ctx
	f          *ssa.Function
	roles      map[string]string
	ixn        *types.Named
	ixs        *types.Struct
	pathT      types.Type
	pathS      *types.Struct
	ids        *types.Struct // a range
	idT        types.Type
	lo, hi, to int // its fields

	reader    *types.Struct // of an index to be merged
	mapF, idF string        // its ranges and number
	next      string        // gives the next number
}

func runMerge(c *Ctx) {
	m := &mergeRules{c: c}
	m.f = c.Func("index", "Merge")
	m.ixn, m.ixs = c.namedIn("Index")
	pn, ps := c.namedIn("Path")
	if m.f == nil || m.ixn == nil || pn == nil || len(m.f.Params) != 3 {
		return
	}
	m.pathT, m.pathS = pn, ps
	m.roles = c.indexRoles()
	m.idmap()
	if m.ids == nil {
		return
	}
	m.names()
	m.lists()
	m.newest()
	c.Min("merge-ids", 10)
	c.Min("merge-names", 20)
	c.Min("merge-roots", 10)
	c.Min("merge-lists", 5)
}

// ghost is the cell for the position of a reader or writer.
func ghost(r *eng.Term) *eng.Term {
	return eng.Mk("alloc", fmt.Sprintf("ghost%d", r.ID), types.NewPointer(types.Typ[types.Int]))
}

func position(s *eng.State, r *eng.Term) *eng.Term {
	return s.Load(ghost(r), types.Typ[types.Int])
}

func (m *mergeRules) opaque(f *ssa.Function) bool {
	if f.Parent() != nil || fnPkg(f) == nil || fnPkg(f).Path() != strings.TrimSuffix(idx, ".") {
		return false
	}
	switch recvNamed(f) {
	case "PathReader", "PathWriter":
		return f.Name() != "All"
	case "Path", "Buffer", "Index", "postDataWriter", "postMapReader":
		return true
	}
	return storageOpaque(f)
}

// model counts what readers and writers of paths have passed.
func (m *mergeRules) model(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
	if len(e.Args) == 0 {
		return e.Res, true
	}
	if recvNamed(fn) == "postMapReader" {
		return nil, false
	}
	w := e.Args[0]
	if recvNamed(fn) == "PathReader" {
		s.Assume(eng.Not(eng.Eq(w, eng.Nil, w.Typ))) // or its methods fail
	}
	pos := position(s, w)
	switch recvNamed(fn) + "." + fn.Name() {
	case "PathReader.Next":
		s.Set(ghost(w), eng.AddK(pos, 1))
		return eng.Mk("validof", "", types.Typ[types.Bool], w, eng.AddK(pos, 1)), true
	case "PathReader.Valid":
		return eng.Mk("validof", "", types.Typ[types.Bool], w, pos), true
	case "PathReader.Path":
		return eng.Mk("pathof", "", m.pathT, w, pos), true
	case "PathWriter.Write":
		s.Set(ghost(w), eng.AddK(pos, 1))
	case "PathWriter.Collect":
		n := eng.Mk("numof", "", types.Typ[types.Int], e.Args[1])
		if a := e.Args[1]; isCall(a, "(*"+idx+"Index).Names") && len(a.Args) == 3 {
			n = eng.Sub(a.Args[2], a.Args[1])
		}
		s.Set(ghost(w), eng.Add(pos, n))
	case "PathWriter.Count":
		return pos, true
	}
	return e.Res, true
}

// A merged is one analysis of Merge with what was found in it.
type merged struct {
	*mergeRules
	r      *eng.Run
	ix     [2]*eng.Term            // the indexes, older first
	rd     [2]*eng.Term            // readers of all their names
	num    [2]*eng.Term            // numbers of names
	hyp    map[*eng.Term]*eng.Term // names held in variables
	limits map[*eng.Term]*eng.Term // what ends a root's names
}

// names checks which names of the two indexes are taken over.
func (m *mergeRules) names() {
	c := m.c
	ps := params(m.f)
	r := c.Analyze(m.f, &eng.Config{Opaque: m.opaque, Model: m.model, KeepFacts: true, Join: 64, Entries: 64,
		Interest: func(e *eng.Event) bool { return true },
	}, ps...)
	g := &merged{mergeRules: m, r: r, hyp: map[*eng.Term]*eng.Term{}}
	for _, e := range r.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, idx+"Open") && len(e.Args) == 1 {
			for i := range g.ix {
				if e.Args[0] == ps[1+i] {
					g.ix[i] = e.Res
				}
			}
		}
	}
	if !c.Check(g.ix[0] != nil && g.ix[1] != nil, "merge-names", "indexes", m.f.Pos(), "Merge does not open both indexes") {
		return
	}
	for i := range g.ix {
		g.num[i] = initial(g.ix[i], m.ixs, m.roles["number of names"])
	}
	for _, e := range r.Events {
		if e.Kind == "call" && isMethod(e.Name, "Index", "NamesAt") && len(e.Args) == 3 {
			for i := range g.ix {
				if e.Args[0] == g.ix[i] && e.Args[1] == eng.Int(0) && (e.Args[2] == g.num[i] || e.Args[2] == eng.Int(-1)) {
					g.rd[i] = e.Res
				}
			}
		}
	}
	if !c.Check(g.rd[0] != nil && g.rd[1] != nil, "merge-names", "readers", m.f.Pos(), "Merge does not go through all the names of both indexes") {
		return
	}
	g.held()
	g.ranges()
	// with the states at every loop joined
	g.r = c.Analyze(m.f, &eng.Config{Opaque: m.opaque, Model: m.model, KeepFacts: true, Join: 64, Entries: 4,
		Interest: func(e *eng.Event) bool { return true },
	}, ps...)
	g.roots()
}

// sameInt reports whether two numbers are the same, given the equalities the
// state knows.
func sameInt(st *eng.State, a, b *eng.Term) bool {
	if a == b {
		return true
	}
	m := map[*eng.Term]*eng.Term{}
	for _, f := range st.Facts {
		if f.Op != "eq0" {
			continue
		}
		d := f.Args[0]
		if len(m) > 0 {
			d = eng.Subst(d, m)
		}
		as := eng.Atoms(d)
		if len(as) == 0 {
			continue
		}
		// solve for the atom
		x := as[len(as)-1]
		if r := eng.Add(d, x); !r.Contains(x) { // -x + r = 0
			m[x] = r
		} else if r := eng.Sub(d, x); !r.Contains(x) { // x + r = 0
			m[x] = eng.MulK(r, -1)
		} else {
			continue
		}
		one := map[*eng.Term]*eng.Term{x: m[x]}
		for y, t := range m {
			if y != x {
				m[y] = eng.Subst(t, one)
			}
		}
	}
	d := eng.Subst(eng.Sub(a, b), m)
	return d == eng.Int(0) || st.Implies(eng.EqInt(d, eng.Int(0)))
}

func (g *merged) nameAt(i int, pos *eng.Term) *eng.Term {
	return g.str(eng.Mk("pathof", "", g.pathT, g.rd[i], pos))
}

// str is a path's string.
func (g *merged) str(p *eng.Term) *eng.Term { return eng.FieldVal(p, g.pathS, 0) }

// held finds the variables that hold the name a reader is at.
func (g *merged) held() {
	type cand struct {
		l   *eng.Loop
		p   *eng.Phi
		sym *eng.Term
		i   int
		pos *eng.Phi
	}
	var cs []*cand
	val := func(t *eng.Term) *eng.Term {
		if types.Identical(t.Typ, g.pathT) {
			return g.str(t)
		}
		return t
	}
	for j, n := len(g.r.Loops)-1, 0; j >= 0; j-- {
		if j == len(g.r.Loops)-1 {
			n = len(cs)
		}
		l := g.r.Loops[j]
		for _, p := range l.Phis {
			if p.Sym.Typ == nil || p.Init == nil || g.hyp[val(p.Sym)] != nil {
				continue
			}
			if b, ok := p.Sym.Typ.Underlying().(*types.Basic); !types.Identical(p.Sym.Typ, g.pathT) && (!ok || b.Info()&types.IsString == 0) {
				continue
			}
			in := eng.Subst(val(p.Init), g.hyp)
			for i := range g.rd {
				if !in.Contains(g.rd[i]) {
					continue
				}
				pos := g.posPhi(l, g.rd[i])
				if pos == nil { // where it was all the time
					v := position(l.Entry, g.rd[i])
					pos = &eng.Phi{Sym: v, Init: v}
					for range l.Backs {
						pos.Backs = append(pos.Backs, v)
					}
				}
				{
					c := &cand{l, p, val(p.Sym), i, pos}
					cs = append(cs, c)
					g.hyp[c.sym] = g.nameAt(i, pos.Sym)
					break
				}
			}
		}
		if j == 0 && len(cs) > n {
			j = len(g.r.Loops) // what starts as one of those just found
		}
	}
	for again := true; again; {
		again = false
		for _, c := range cs {
			if g.hyp[c.sym] == nil {
				continue
			}
			ok := g.sameName(c.l.Entry, val(c.p.Init), c.i, c.pos.Init)
			for k, b := range c.l.Backs {
				ok = ok && g.sameName(b, val(c.p.Backs[k]), c.i, c.pos.Backs[k])
			}
			if !ok {
				delete(g.hyp, c.sym)
				again = true
			}
		}
	}
}

// sameName reports whether t is the name at pos of reader i.
func (g *merged) sameName(st *eng.State, t *eng.Term, i int, pos *eng.Term) bool {
	t = eng.Subst(t, g.hyp)
	if t == g.nameAt(i, pos) {
		return true
	}
	if t.Op != "fieldval" || t.Args[0].Op != "pathof" || t.Args[0].Args[0] != g.rd[i] {
		return false
	}
	return sameInt(st, t.Args[0].Args[1], pos)
}

func (g *merged) posPhi(l *eng.Loop, r *eng.Term) *eng.Phi {
	for _, p := range l.Phis {
		if p.Addr == ghost(r) {
			return p
		}
	}
	return nil
}

// order finds what a state knows of the order of x and y: x < y (-1), x >= y
// (1) or nothing (0).
func (g *merged) order(st *eng.State, x func(t *eng.Term) bool, y func(t *eng.Term) bool) int {
	for _, f := range st.Facts {
		if f.Op != "le" {
			continue
		}
		as := eng.Atoms(f.Args[0])
		if len(as) != 1 || !isCall(as[0], "("+idx+"Path).Compare") || len(as[0].Args) != 2 {
			continue
		}
		p, q := eng.Subst(g.str(as[0].Args[0]), g.hyp), eng.Subst(g.str(as[0].Args[1]), g.hyp)
		a := as[0]
		switch {
		case x(p) && y(q):
			if f == eng.Lt(a, eng.Int(0)) {
				return -1
			}
			if f == eng.Le(eng.Int(0), a) || f == eng.Lt(eng.Int(0), a) {
				return 1
			}
		case x(q) && y(p):
			if f == eng.Lt(eng.Int(0), a) {
				return -1
			}
			if f == eng.Le(a, eng.Int(0)) || f == eng.Lt(a, eng.Int(0)) {
				return 1
			}
		}
	}
	return 0
}

func is(t *eng.Term) func(*eng.Term) bool { return func(u *eng.Term) bool { return u == t } }

// limitOf is what the names under a root are smaller than.
func (g *merged) limitOf(root *eng.Term) func(*eng.Term) bool {
	return func(t *eng.Term) bool {
		if t.Op == "fieldval" && len(t.Args) == 1 && isCall(t.Args[0], idx+"MakePath") {
			t = t.Args[0].Args[0]
		}
		if t.Op != "cat" || len(t.Args) != 2 || t.Args[1] != eng.Str("\x02") {
			return false
		}
		d := t.Args[0]
		return isCall(d, "("+idx+"Path).trimSep") && g.str(d.Args[0]) == root
	}
}

// scan follows the reader i through an iteration for a root: up to the first
// name that is not before the root, and from there to the first behind it.
func (g *merged) scan(st *eng.State, outer *eng.Loop, i int, from, root *eng.Term) (start, end *eng.Term, ok bool) {
	items, ok := st.PathSince(outer)
	if !ok {
		return nil, nil, false
	}
	cur := from
	start, end = from, from
	below, under := false, false
	for _, it := range items {
		if it.Loop == nil {
			continue
		}
		p := g.posPhi(it.Loop, g.rd[i])
		if p == nil {
			continue
		}
		if !sameInt(it.Loop.Entry, p.Init, cur) {
			return nil, nil, false
		}
		is1, is2 := true, true
		for k, b := range it.Loop.Backs {
			if p.Backs[k] != eng.AddK(p.Sym, 1) {
				return nil, nil, false
			}
			n := is(g.nameAt(i, p.Sym))
			is1 = is1 && g.order(b, n, is(root)) < 0
			is2 = is2 && g.order(b, n, g.limitOf(root)) < 0
		}
		cur = p.Sym
		switch {
		case is1 && !below && !under:
			below = true
			start, end = cur, cur
		case is2 && !under:
			under = true
			end = cur
		default:
			return nil, nil, false
		}
	}
	if !sameInt(st, position(st, g.rd[i]), cur) {
		return nil, nil, false
	}
	// complete?
	done := func(pos *eng.Term, t func(*eng.Term) bool) bool {
		return st.Implies(eng.Le(g.num[i], pos)) || g.hasFact(st, eng.Not(eng.Mk("validof", "", types.Typ[types.Bool], g.rd[i], pos))) || g.order(st, is(g.nameAt(i, pos)), t) > 0
	}
	if i == 0 && !done(start, is(root)) || !done(end, g.limitOf(root)) {
		return nil, nil, false
	}
	return start, end, true
}

func (g *merged) hasFact(st *eng.State, f *eng.Term) bool {
	for _, x := range st.Facts {
		if x == f {
			return true
		}
	}
	return false
}

// grown takes the ranges appended to a list off it.
func grown(t *eng.Term) (base *eng.Term, added []*eng.Term) {
	for t.Op == "append" && t.Aux == "elems" {
		added = append(append([]*eng.Term(nil), t.Args[1:]...), added...)
		t = t.Args[0]
	}
	return t, added
}

// A want is a range that must be in the list next, if it is not empty.
type wantRange struct {
	list   int
	lo, hi *eng.Term
	what   string
}

// match checks the ranges added to the two lists on a path and gives the
// number of names taken over with them.
func (g *merged) match(st *eng.State, cons string, added [2][]*eng.Term, n *eng.Term, want []wantRange) (*eng.Term, bool) {
	c := g.c
	var at [2]int
	good := true
	for _, w := range want {
		if st.Implies(eng.Le(w.hi, w.lo)) && (at[w.list] >= len(added[w.list]) || !g.isRange(st, added[w.list][at[w.list]], w, n)) {
			continue
		}
		ok := at[w.list] < len(added[w.list]) && g.isRange(st, added[w.list][at[w.list]], w, n)
		good = c.Check(ok, "merge-names", cons+" "+w.what, g.f.Pos(), "the names of the %s index %s are not taken over under the next new numbers", [2]string{"older", "newer"}[w.list], w.what) && good
		if ok {
			at[w.list]++
			n = eng.Add(n, eng.Sub(w.hi, w.lo))
		}
	}
	for i := range added {
		good = c.Check(at[i] == len(added[i]), "merge-names", cons+" others", g.f.Pos(), "other names of the %s index are taken over", [2]string{"older", "newer"}[i]) && good
	}
	return n, good
}

func (g *merged) isRange(st *eng.State, t *eng.Term, w wantRange, n *eng.Term) bool {
	v := func(i int) *eng.Term { return eng.FieldVal(t, g.ids, i) }
	eq := func(a, b *eng.Term) bool { return sameInt(st, a, b) }
	return eq(v(g.lo), w.lo) && eq(v(g.hi), w.hi) && eq(v(g.to), n)
}

// ranges checks the ranges of names that are taken over.
func (g *merged) ranges() {
	c := g.c
	var outer *eng.Loop
	var roots *eng.Term
	for _, l := range g.r.Loops {
		for _, e := range g.r.Events {
			if e.Kind != "call" || !isMethod(e.Name, "Index", "Roots") || e.Args[0] != g.ix[1] || g.posPhi(l, e.Res) == nil {
				continue
			}
			for _, p := range l.Phis {
				if s, ok := p.Sym.Typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), g.idT) {
					for _, b := range p.Backs {
						if _, add := grown(b); len(add) > 0 {
							outer, roots = l, e.Res
						}
					}
				}
			}
		}
	}
	if !c.Check(outer != nil, "merge-names", "roots", g.f.Pos(), "Merge does not go through the roots of the newer index") {
		return
	}
	// the numbers given out, from where a range gets its first
	var count *eng.Phi
	for _, p := range outer.Phis {
		if p.Init == eng.Int(0) && types.Identical(p.Sym.Typ, types.Typ[types.Int]) {
			for _, q := range outer.Phis {
				for _, b := range q.Backs {
					if _, add := grown(b); len(add) > 0 && eng.FieldVal(add[0], g.ids, g.to) == p.Sym {
						count = p
					}
				}
			}
		}
	}
	if !c.Check(count != nil, "merge-names", "numbers", g.f.Pos(), "the names taken over are not numbered from 0") {
		return
	}
	lists := [2]*eng.Phi{}
	for _, e := range g.r.Events {
		if e.Kind == "call" && isMethod(e.Name, "postMapReader", "init") && len(e.Args) == 3 {
			for i := range g.ix {
				if b, _ := grown(e.Args[2]); e.Args[1] == g.ix[i] && outer.Phi(b) != nil {
					lists[i] = outer.Phi(b)
				}
			}
		}
	}
	if !c.Check(lists[0] != nil && lists[1] != nil && lists[0] != lists[1], "merge-names", "lists", g.f.Pos(), "the posting lists of the two indexes are not mapped by the ranges of their names") {
		return
	}
	rp := g.posPhi(outer, roots)
	var p0 [2]*eng.Term
	for i := range p0 {
		p := g.posPhi(outer, g.rd[i])
		if !c.Check(p != nil && p.Init == eng.Int(0), "merge-names", "positions", g.f.Pos(), "Merge does not pass through the names as it goes through the roots") {
			return
		}
		p0[i] = p.Sym
	}
	root := g.str(eng.Mk("pathof", "", g.pathT, roots, rp.Sym))
	// one root
	iter := func(st *eng.State, cons string) (want []wantRange, ok bool) {
		var s, e [2]*eng.Term
		ok = true
		for i := range p0 {
			var k bool
			s[i], e[i], k = g.scan(st, outer, i, p0[i], root)
			ok = c.Check(k, "merge-names", fmt.Sprintf("%s scan %d", cons, i+1), g.f.Pos(), "the names of the %s index at a root are not passed up to the first that is not before the root and then up to the first behind all under it", [2]string{"older", "newer"}[i]) && ok
		}
		if !ok {
			return nil, false
		}
		return []wantRange{{0, p0[0], s[0], "before a root"}, {1, p0[1], e[1], "under a root"}}, true
	}
	for k, b := range outer.Backs {
		want, ok := iter(b, "root")
		c.Check(rp.Backs[k] == eng.AddK(rp.Sym, 1), "merge-names", "roots", g.f.Pos(), "Merge does not go from root to root")
		if !ok {
			continue
		}
		var added [2][]*eng.Term
		for i := range lists {
			base, add := grown(lists[i].Backs[k])
			c.Check(base == lists[i].Sym, "merge-names", "root kept", g.f.Pos(), "the ranges found before are lost at a root")
			added[i] = add
		}
		n, ok := g.match(b, "root", added, count.Sym, want)
		if ok {
			got := count.Backs[k]
			c.Check(sameInt(b, got, n), "merge-names", "root numbers", g.f.Pos(), "after a root the next new number is not the number of names taken over")
		}
	}
	// all of them
	seen := 0
	for _, e := range g.r.Events {
		if e.Kind != "call" || !isMethod(e.Name, "postMapReader", "init") || len(e.Args) != 3 {
			continue
		}
		st := e.St
		var used [2]*eng.Term
		for _, o := range append(st.Events(false), e) {
			if o.Kind == "call" && isMethod(o.Name, "postMapReader", "init") && len(o.Args) == 3 {
				for i := range g.ix {
					if o.Args[1] == g.ix[i] {
						used[i] = o.Args[2]
					}
				}
			}
		}
		if used[0] == nil || used[1] == nil {
			continue // the first of the two
		}
		seen++
		var want []wantRange
		n, from := eng.Int(0), [2]*eng.Term{eng.Int(0), eng.Int(0)}
		_, entered := st.PathSince(outer)
		if entered {
			n, from = count.Sym, p0
			if !sameInt(st, position(st, roots), rp.Sym) {
				w, ok := iter(st, "last root")
				if !ok {
					continue
				}
				want = w
				from = [2]*eng.Term{position(st, g.rd[0]), position(st, g.rd[1])}
			}
		}
		last := position(st, roots)
		c.Check(g.hasFact(st, eng.Not(eng.Mk("validof", "", types.Typ[types.Bool], roots, last))), "merge-names", "all roots", g.f.Pos(), "Merge does not go through all the roots of the newer index")
		want = append(want, wantRange{0, from[0], g.num[0], "behind the last root"})
		c.Check(st.Implies(eng.Le(g.num[1], from[1])), "merge-names", "all names", g.f.Pos(), "Merge may leave out names of the newer index that are under none of its roots")
		var added [2][]*eng.Term
		for i := range used {
			base, add := grown(used[i])
			want := eng.Nil
			if entered {
				want = lists[i].Sym
			}
			c.Check(base == want, "merge-names", "all kept", g.f.Pos(), "the ranges found at the roots are lost afterwards")
			added[i] = add
		}
		n, ok := g.match(st, "all", added, n, want)
		if !ok {
			continue
		}
		g.written(st, n, used)
	}
	g.fails(outer, roots)
	c.Check(seen > 0, "merge-names", "all", g.f.Pos(), "the posting lists of the two indexes are not read")
}

// written checks that the names of the ranges have been written when the
// posting lists are merged.
func (g *merged) written(st *eng.State, n *eng.Term, maps [2]*eng.Term) {
	c := g.c
	var w *eng.Term
	for _, e := range st.Events(false) {
		if e.Kind == "call" && strings.HasSuffix(e.Name, idx+"NewPathWriter") && len(e.Args) == 4 && e.Args[1] != eng.Nil {
			w = e.Res
		}
	}
	if !c.Check(w != nil, "merge-names", "written", g.f.Pos(), "Merge writes no names") {
		return
	}
	// the loop that writes them
	var l *eng.Loop
	for _, x := range st.Passed() {
		if g.posPhi(x, w) != nil {
			c.Check(l == nil, "merge-names", "written once", g.f.Pos(), "Merge writes names in two loops")
			l = x
		}
	}
	pos := position(st, w)
	var heads [2]*eng.Phi
	empty := true
	if l != nil {
		for _, p := range l.Phis {
			for i := range maps {
				if p.Init == maps[i] {
					heads[i] = p
				}
			}
		}
	}
	for i := range maps {
		v := maps[i]
		if heads[i] != nil {
			v = heads[i].Sym
		}
		empty = empty && st.Implies(eng.Le(eng.Len(v), eng.Int(0)))
	}
	ok := sameInt(st, pos, n) || l != nil && empty || l == nil && empty && pos == eng.Int(0)
	c.Check(ok, "merge-names", "written all", g.f.Pos(), "Merge does not write all the names that are taken over")
	if l == nil {
		return
	}
	pp := g.posPhi(l, w)
	c.Check(pp.Init == eng.Int(0), "merge-names", "written first", g.f.Pos(), "Merge writes other names before those taken over")
	for k, b := range l.Backs {
		var did *eng.Event
		num := 0
		for _, e := range sinceLoop(b, l) {
			if e.Kind == "call" && (isMethod(e.Name, "PathWriter", "Collect") || isMethod(e.Name, "PathWriter", "Write")) && e.Args[0] == w {
				did = e
				num++
			}
		}
		ok := false
		if num == 1 && isMethod(did.Name, "PathWriter", "Collect") {
			a := did.Args[1]
			if isCall(a, "(*"+idx+"Index).Names") && len(a.Args) == 3 {
				for i := range maps {
					r := g.rangeOf(a.Args[1], g.lo)
					if a.Args[0] != g.ix[i] || r == nil || g.rangeOf(a.Args[2], g.hi) != r {
						continue
					}
					to := eng.Mk("ld", "", types.Typ[types.Int], eng.FieldAddr(r, g.ids, g.to))
					ok = g.nextRange(l, k, heads, maps, i, r) && sameInt(b, to, pp.Sym)
				}
			}
		}
		c.Check(ok, "merge-names", "written in order", g.f.Pos(), "Merge does not write the names of the next range of one of the lists exactly when its first new number is the next")
	}
}

// rangeOf gives the range that t is the field f of.
func (g *merged) rangeOf(t *eng.Term, f int) *eng.Term {
	if t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Aux == g.ids.Field(f).Name() {
		return t.Args[0].Args[0]
	}
	return nil
}

// nextRange reports whether r is the next range of list i, which an iteration
// of l takes off it, leaving the other list alone.
func (g *merged) nextRange(l *eng.Loop, k int, heads [2]*eng.Phi, maps [2]*eng.Term, i int, r *eng.Term) bool {
	if r.Op != "elem" {
		return false
	}
	o := heads[1-i]
	if o != nil && o.Backs[k] != o.Sym {
		return false
	}
	if h := heads[i]; h != nil {
		// the list without its first
		return r.Args[0] == h.Sym && r.Args[1] == eng.Int(0) && cutFront(h.Backs[k], h.Sym, eng.Int(1))
	}
	// a counter
	if r.Args[0] != maps[i] {
		return false
	}
	p := l.Phi(r.Args[1])
	if p == nil || p.Init != eng.Int(0) || p.Backs[k] != eng.AddK(p.Sym, 1) {
		return false
	}
	for _, q := range l.Phis {
		// the other list's counter
		if q != p && q.Init == eng.Int(0) && q.Backs[k] == eng.AddK(q.Sym, 1) && g.counts(l, q, maps[1-i]) {
			return false
		}
	}
	return true
}

// counts reports whether q is the place in the list of ranges.
func (g *merged) counts(l *eng.Loop, q *eng.Phi, list *eng.Term) bool {
	for _, b := range l.Backs {
		for _, f := range b.Facts {
			if f.Any(func(x *eng.Term) bool { return x.Op == "elem" && x.Args[0] == list && x.Args[1] == q.Sym }) {
				return true
			}
		}
	}
	return false
}

// idmap checks how the numbers of an index are mapped to new ones.
func (m *mergeRules) idmap() {
	c := m.c
	rn, rs := c.namedIn("postMapReader")
	if rs == nil {
		return
	}
	m.reader = rs
	for i := 0; i < rs.NumFields(); i++ {
		if s, ok := rs.Field(i).Type().Underlying().(*types.Slice); ok {
			if st, ok := s.Elem().Underlying().(*types.Struct); ok && st.NumFields() == 3 {
				m.ids, m.idT, m.mapF = st, s.Elem(), rs.Field(i).Name()
			}
		}
	}
	var next *ssa.Function
	for _, f := range c.P.Funcs() {
		if f.Parent() == nil && recvNamed(f) == "postMapReader" && len(f.Params) == 1 && f.Signature.Results().Len() == 1 &&
			types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) && does(f, "deltaReader", "next") {
			next = f
		}
	}
	if !c.Check(next != nil && m.ids != nil, "merge-ids", "reader", 0, "the reader of an index to be merged (%v) has no map of ranges or no method that gives the next number", rn) {
		m.ids = nil
		return
	}
	m.next = next.Name()
	cons := fnLabel(next)
	rd := params(next)[0]
	r := c.Analyze(next, &eng.Config{Opaque: func(g *ssa.Function) bool {
		return recvNamed(g) == "deltaReader"
	}, Model: keep, KeepFacts: true, Join: 64, Entries: 16}, rd)
	isNext := func(e *eng.Event) bool { return e.Kind == "call" && isMethod(e.Name, "deltaReader", "next") }
	reads := func(h []*eng.Hist) (d *eng.Term, n int) {
		for _, x := range h {
			if x.Ev != nil && isNext(x.Ev) {
				d = x.Ev.Res
				n++
			}
		}
		return
	}
	var outer *eng.Loop
	for _, l := range r.Loops {
		for _, b := range l.Backs {
			if h, ok := b.PathSince(l); ok {
				if _, n := reads(h); n > 0 {
					outer = l
				}
			}
		}
	}
	if !c.Check(outer != nil, "merge-ids", cons+" loop", next.Pos(), "numbers that are not taken over are not passed over") {
		m.ids = nil
		return
	}
	at := func(f string) *eng.Term { // value at the start of a round
		for _, p := range outer.Phis {
			if p.Addr == fieldAddr(rd, f) {
				return p.Sym
			}
		}
		return initial(rd, rs, f)
	}
	// roles of the fields
	oldF, cntF := "", ""
	for _, b := range outer.Backs {
		h, _ := b.PathSince(outer)
		d, _ := reads(h)
		if d == nil || corrupted(b) {
			continue
		}
		for i := 0; i < rs.NumFields(); i++ {
			if !types.Identical(rs.Field(i).Type(), types.Typ[types.Int]) {
				continue
			}
			n := rs.Field(i).Name()
			switch v := final(b, rd, rs, n); v {
			case eng.Add(at(n), d):
				oldF = n
			case eng.AddK(at(n), -1):
				cntF = n
			}
		}
	}
	if !c.Check(oldF != "" && cntF != "", "merge-ids", cons+" step", next.Pos(), "passing over a number does not count it and add its difference") {
		m.ids = nil
		return
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || t.Rets[0] != eng.True || corrupted(t.St) {
			continue
		}
		for i := 0; i < rs.NumFields(); i++ {
			n := rs.Field(i).Name()
			v := final(t.St, rd, rs, n)
			if n == oldF || !types.Identical(rs.Field(i).Type(), types.Typ[types.Int]) {
				continue
			}
			v = eng.Sub(v, final(t.St, rd, rs, oldF))
			as := eng.Atoms(v)
			if len(as) != 2 {
				continue
			}
			for j := range as {
				if v == eng.Sub(as[j], as[1-j]) {
					a, b := m.fieldOf(as[j]), m.fieldOf(as[1-j])
					if a >= 0 && b >= 0 && a != b {
						m.to, m.lo, m.hi, m.idF = a, b, 3-a-b, n
					}
				}
			}
		}
	}
	if !c.Check(m.idF != "", "merge-ids", cons+" number", next.Pos(), "the new number is not the first new number of a range plus the distance from the range's first number") {
		m.ids = nil
		return
	}
	list := initial(rd, rs, m.mapF)
	fld := func(i *eng.Term, f int) *eng.Term {
		return eng.Mk("ld", "", types.Typ[types.Int], eng.FieldAddr(eng.Elem(list, i, types.NewPointer(m.idT)), m.ids, f))
	}
	// passed reports whether all ranges before i end before cur.
	var passed func(st *eng.State, i, cur *eng.Term, loops []*eng.Hist) bool
	idxF := ""
	passed = func(st *eng.State, i, cur *eng.Term, h []*eng.Hist) bool {
		for k := len(h) - 1; k >= 0; k-- {
			if h[k].Loop == nil {
				continue
			}
			for _, p := range h[k].Loop.Phis {
				if p.Sym != i {
					continue
				}
				for j, b := range h[k].Loop.Backs {
					if p.Backs[j] != eng.AddK(p.Sym, 1) || !b.Implies(eng.Le(fld(p.Sym, m.hi), cur)) {
						return false
					}
				}
				return passed(st, p.Init, cur, h[:k])
			}
		}
		if i == eng.Int(0) {
			return true
		}
		for n := 0; n < rs.NumFields(); n++ {
			if f := rs.Field(n).Name(); at(f) == i && (idxF == "" || idxF == f) {
				idxF = f
				return true
			}
		}
		return false
	}
	kinds := map[string]int{}
	check := func(st *eng.State, ret *eng.Term) {
		h, ok := st.PathSince(outer)
		if !ok {
			c.Viol("merge-ids", cons+" round", next.Pos(), "a number is given without looking at the list")
			return
		}
		d, n := reads(h)
		c.Check(n <= 1, "merge-ids", cons+" round", next.Pos(), "more than one difference is read for a number")
		if n == 0 {
			ok := ret == eng.False && st.Implies(eng.Le(at(cntF), eng.Int(0)))
			c.Check(ok, "merge-ids", cons+" end", next.Pos(), "the list ends although it has more numbers")
			c.Check(final(st, rd, rs, m.idF) == eng.Int(-1), "merge-ids", cons+" end marked", next.Pos(), "at the end of the list the number is not -1")
			kinds["end"]++
			return
		}
		cur := eng.Add(at(oldF), d)
		c.Check(final(st, rd, rs, oldF) == cur, "merge-ids", cons+" number read", next.Pos(), "the number of the index is not the one before plus the difference")
		cnt := final(st, rd, rs, cntF)
		c.Check(st.Implies(eng.Lt(eng.Int(0), at(cntF))), "merge-ids", cons+" more", next.Pos(), "a number is read although the list may be over")
		// candidates for the range
		var is []*eng.Term
		seen := map[*eng.Term]bool{}
		add := func(t *eng.Term) {
			if t != nil && t.Typ != nil && types.Identical(t.Typ, types.Typ[types.Int]) && !seen[t] {
				seen[t] = true
				is = append(is, t)
			}
		}
		for _, x := range h {
			if x.Loop != nil {
				for _, p := range x.Loop.Phis {
					add(p.Sym)
				}
			}
		}
		for i := 0; i < rs.NumFields(); i++ {
			add(at(rs.Field(i).Name()))
		}
		add(eng.Int(0))
		if ret == eng.True {
			ok := false
			v := final(st, rd, rs, m.idF)
			for _, i := range is {
				ok = ok || v == eng.Sub(eng.Add(fld(i, m.to), cur), fld(i, m.lo)) && st.Implies(eng.Le(fld(i, m.lo), cur)) && st.Implies(eng.Lt(cur, fld(i, m.hi)))
			}
			c.Check(ok, "merge-ids", cons+" mapped", next.Pos(), "the new number %s is not that of the range the number is in (under %v)", v, lastFacts(st, 4))
			c.Check(cnt == eng.AddK(at(cntF), -1), "merge-ids", cons+" counted", next.Pos(), "a number is not counted once")
			kinds["mapped"]++
			return
		}
		ok = false
		for _, i := range is {
			behind := st.Implies(eng.Le(eng.Len(list), i))
			ok = ok || (behind || ret == nil && st.Implies(eng.Lt(cur, fld(i, m.lo)))) && passed(st, i, cur, h)
		}
		c.Check(ok, "merge-ids", cons+" left out", next.Pos(), "a number is left out although it may be in a range (under %v)", lastFacts(st, 4))
		if ret == nil {
			c.Check(cnt == eng.AddK(at(cntF), -1), "merge-ids", cons+" counted", next.Pos(), "a number is not counted once")
			kinds["left out"]++
		} else {
			c.Check(final(st, rd, rs, m.idF) == eng.Int(-1), "merge-ids", cons+" end marked", next.Pos(), "at the end of the list the number is not -1")
		}
	}
	for _, b := range outer.Backs {
		if !corrupted(b) {
			check(b, nil)
		}
	}
	for _, t := range r.Terms {
		if t.Kind == "return" && len(t.Rets) == 1 && !corrupted(t.St) {
			ret := t.Rets[0]
			if ret != eng.True && ret != eng.False {
				ret = t.St.Decide(ret)
			}
			if ret == nil {
				c.Viol("merge-ids", cons+" result", next.Pos(), "whether there is a number is %s", t.Rets[0])
				continue
			}
			check(t.St, ret)
		} else if t.Kind != "return" || corrupted(t.St) {
			d, _ := reads(t.St.Path(false))
			c.Check(d != nil && t.St.Implies(eng.Le(d, eng.Int(0))), "merge-ids", cons+" corrupt", next.Pos(), "an index is reported as corrupt although its list can be read")
		}
	}
	c.Check(kinds["end"] > 0 && kinds["mapped"] > 0 && kinds["left out"] > 0, "merge-ids", cons+" cases", next.Pos(), "numbers are not mapped, left out and ended: %v", kinds)
	m.starts(rs, oldF, idxF)
}

// fieldOf gives the number of the field of a range that t is.
func (m *mergeRules) fieldOf(t *eng.Term) int {
	if t.Op != "ld" || t.Args[0].Op != "field" || t.Args[0].Args[0].Op != "elem" {
		return -1
	}
	return fieldIndex(m.ids, t.Args[0].Aux)
}

// starts checks that every list starts before the first number and range.
func (m *mergeRules) starts(rs *types.Struct, oldF, idxF string) {
	c := m.c
	n := 0
	for _, f := range c.P.Funcs() {
		if f.Parent() != nil || recvNamed(f) != "postMapReader" || !callsMethod(f, "deltaReader", "init") {
			continue
		}
		ps := params(f)
		r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool {
			return recvNamed(g) == "deltaReader" || recvNamed(g) == "Index" && hasResultType(g, "[]byte")
		}, Model: keep, KeepFacts: true, Join: 64}, ps...)
		for _, t := range r.Terms {
			if t.Kind != "return" || corrupted(t.St) {
				continue
			}
			started := false
			for _, e := range t.St.Events(false) {
				started = started || e.Kind == "call" && isMethod(e.Name, "deltaReader", "init")
			}
			if !started {
				continue
			}
			n++
			ok := final(t.St, ps[0], rs, oldF) == eng.Int(-1) && (idxF == "" || final(t.St, ps[0], rs, idxF) == eng.Int(0))
			c.Check(ok, "merge-ids", fnLabel(f)+" start", f.Pos(), "a list does not start with -1 as the number before the first, at the first range")
		}
	}
	c.Check(n > 0, "merge-ids", "start", 0, "the lists of an index to be merged are never started")
}
