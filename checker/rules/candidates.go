package rules

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const (
	idxPkg    = load.Module + "/index."
	ixM       = "(*" + load.Module + "/index.Index)."
	openIdx   = idxPkg + "Open"
	nameOf    = ixM + "Name"
	postQuery = ixM + "PostingQuery"
	reQuery   = idxPkg + "RegexpQuery"
	openFile  = "os.Open"
	openZip   = "archive/zip.OpenReader"
	openEntry = "(*archive/zip.File).Open"
	zipMark   = ".zip\x01"
)

func init() {
	register(&Rule{
		ID: "C22",
		Explanation: "Path-sensitive analysis of csearch and of csweb's search page (helpers inlined; the index reader, the engine and the matcher abstract): the page compiles the query it was given, and no path ends before the search unless the query is empty, a pattern does not compile or the index has no candidate; every path through an iteration of the loop over the candidate files must ask the index for the " +
			"name of the next candidate and search the file of that name under that name exactly once, unless the path itself shows that the file name was ruled out by the name pattern or that the file could not be opened; the loop ends only after the last candidate " +
			"or when the engine reports its limit; the list it runs over is the index's answer to the query made from the very pattern the engine searches for (or to the query for all files, exactly when -brute is given), narrowed only by the name pattern.",
		Assumptions: []string{"the index's answer is a superset of the matching files (C15, C17)", "package os"},
		Run:         runCandidates,
	})
	register(&Rule{
		ID: "C27",
		Explanation: "Writer: every path through the loop that indexes the entries of a zip archive adds the opened entry under archive name, separator, entry name, over all entries in an order that only a stable sort determines, and skips an entry only when its name equals " +
			"that of the entry before it or it cannot be opened. Readers (csearch and csweb): at every lookup of a zip candidate the key is what follows the separator and the map belongs to the archive named before it — an inductive invariant over the search loop relates the cached archive name, reader and map — " +
			"and the map holds, for each name, the first entry of that name among all entries of the archive.",
		Assumptions: []string{"archive/zip and the slices sorting functions do what they say"},
		Run:         runZip,
	})
}

// A searchRun is one command's way from the query to the searched files.
type searchRun struct {
	rel  string
	root *ssa.Function
	r    *eng.Run
	grep *eng.Term
	all  *eng.Term // the value of index.QAll
	ls   []*eng.Loop
	fill map[*eng.Term][]*eng.Loop
}

// searchRoots lists the functions that search candidates.
func (c *Ctx) searchRuns() []*searchRun {
	var out []*searchRun
	add := func(rel string, root *ssa.Function) {
		interesting := func(n string) bool {
			return isSearch(n) || n == compile || n == openIdx || n == nameOf || n == postQuery || n == reQuery || n == openFile || n == openZip || n == openEntry || n == zipClose || n == reMatchString ||
				n == "flag.Parse" || n == idxPkg+"File"
		}
		r := c.Analyze(root, &eng.Config{
			Join: 200, Entries: 64, MaxStates: 2000, KeepFacts: true,
			Opaque: func(f *ssa.Function) bool { return fnPkg(f) != nil && !strings.HasSuffix(fnPkg(f).Path(), rel) },
			Target: func(in ssa.Instruction, n string) bool {
				switch in.(type) {
				case *ssa.MapUpdate, *ssa.Lookup:
					return true
				}
				return interesting(n)
			},
			Interest: func(e *eng.Event) bool {
				return e.Kind == "call" && interesting(e.Name) || e.Kind == "mapupdate" || e.Kind == "lookup"
			},
		})
		sr := &searchRun{rel: rel, root: root, r: r}
		for _, e := range r.Events {
			if isSearch(e.Name) {
				sr.grep = e.Args[0]
			}
		}
		if sr.grep != nil {
			out = append(out, sr)
		}
	}
	if f := c.Func("cmd/csearch", "main"); f != nil {
		add("cmd/csearch", f)
	}
	for _, h := range c.handlers() {
		add("cmd/csweb", h)
	}
	return out
}

const reMatchString = "(*" + load.Module + "/regexp.Regexp).MatchString"

// loops lists the loops in which files are searched.
func (s *searchRun) loops() []*eng.Loop {
	if s.ls != nil {
		return s.ls
	}
	var out []*eng.Loop
	for _, l := range s.r.Loops {
		found := false
		for _, b := range l.Backs {
			evs, ok := b.EventsSince(l)
			if !ok {
				continue
			}
			for _, e := range evs {
				if isSearch(e.Name) {
					found = true
				}
			}
		}
		if found {
			out = append(out, l)
		}
	}
	s.ls = out
	return out
}

// isName reports whether t is the name of the file id, as a string.
func isName(t *eng.Term) (id *eng.Term, ix *eng.Term, ok bool) {
	switch {
	case isCall(t, "("+load.Module+"/index.Path).String") || t.Op == "fieldval":
		t = t.Args[0]
	case isCall(t, load.Module+"/index.Path).String"):
		t = t.Args[0]
	}
	if isCall(t, nameOf) {
		return t.Args[1], t.Args[0], true
	}
	return nil, nil, false
}

func runCandidates(c *Ctx) {
	runs := c.searchRuns()
	rels := map[string]bool{}
	for _, s := range runs {
		s.all = c.constOf("index", "QAll")
		ls := s.loops()
		cons := s.rel + ":" + fnLabel(s.root)
		c.Check(len(ls) > 0, "search-loop", cons, s.root.Pos(), "no loop over the candidates found")
		for _, l := range ls {
			rels[s.rel] = true
			c.candidateLoop(s, l, cons)
		}
		// files are searched only there
		for _, e := range s.r.Events {
			if !isSearch(e.Name) {
				continue
			}
			in := false
			for _, l := range ls {
				if _, ok := s.eventState(e).EventsSince(l); ok {
					in = true
				}
			}
			c.Check(in, "search-in-loop", cons, e.Instr.Pos(), "%s searches outside the loop over the candidates", s.rel)
			c.Check(e.Args[0] == s.grep, "one-engine", cons, e.Instr.Pos(), "more than one engine is used")
		}
	}
	for _, s := range runs {
		c.searchEnds(s)
	}
	c.Check(rels["cmd/csearch"], "commands", "cmd/csearch", 0, "no search found in csearch")
	c.Check(rels["cmd/csweb"], "commands", "cmd/csweb", 0, "no search found in csweb")
	c.Min("asked", 1)
	c.Min("not-asked", 1)
	c.Min("searched", 2)
	c.Min("unopened", 2)
	c.Min("list", 2)
	c.Min("narrowed", 2)
}

// formValue reports whether t is the form value of the given name.
func formValue(t *eng.Term, name string) bool {
	return (isCall(t, "(*net/http.Request).FormValue") || isCall(t, "(*net/http.Request).PostFormValue")) && len(t.Args) > 1 && t.Args[1] == eng.Str(name)
}

// searchEnds decides that the search page searches for what it is asked, and
// that a search is not ended before it has begun unless there is nothing to
// search for or a pattern is not valid.
func (c *Ctx) searchEnds(s *searchRun) {
	cons := s.rel + ":" + fnLabel(s.root)
	ls := map[*eng.Loop]bool{}
	for _, l := range s.loops() {
		ls[l] = true
	}
	failed := func(st *eng.State) bool {
		for _, e := range st.Events(false) {
			if e.Name == compile && st.Implies(eng.Not(eng.Eq(e.Result(1), eng.Nil, nil))) {
				return true
			}
		}
		return false
	}
	for _, t := range s.r.Terms {
		if t.Kind == "panic" || t.Kind == "fatal" && t.Ev != nil && (t.Ev.Name != "os.Exit" || t.Ev.Args[0].IsInt() && t.Ev.Args[0].K > 1) {
			continue
		}
		passed := false
		for _, l := range t.St.Passed() {
			passed = passed || ls[l]
		}
		for l := range ls {
			passed = passed || t.St.Inside(l)
		}
		if passed {
			continue
		}
		empty := false
		for _, f := range t.St.Facts {
			f.Walk(func(x *eng.Term) bool {
				if formValue(x, "q") && t.St.Implies(eng.Le(eng.Len(x), eng.Int(0))) {
					empty = true
				}
				// no candidates
				if isCall(x, postQuery) && t.St.Implies(eng.Le(eng.Len(x), eng.Int(0))) {
					empty = true
				}
				return !empty
			})
		}
		c.Check(empty || failed(t.St), "not-asked", cons, s.root.Pos(), "%s can end without searching although it is given a valid pattern", s.rel)
	}
	if s.rel == "cmd/csearch" {
		c.Check(true, "not-asked", cons+" decided", s.root.Pos(), "")
		return // the pattern is decided by C20
	}
	for _, e := range s.r.Events {
		if !isSearch(e.Name) {
			continue
		}
		re := grepField(e.St, e.Args[0], "Regexp")
		if !c.Check(isResult(re, compile, "0"), "asked", cons+" compiled", e.Instr.Pos(), "the pattern searched for is %s, not a compiled one", re) {
			continue
		}
		flags, rest, other := patternParts(re.Args[0].Args[0])
		c.Check(other == "" && rest != nil && formValue(rest, "q"), "asked", cons, e.Instr.Pos(), "%s does not search for the pattern it is asked for", s.rel)
		c.Check(strings.Trim(flags, "m") == "" && flags != "", "asked", cons+" flags", e.Instr.Pos(), "%s compiles the pattern with the flags %q, not the ones for lines", s.rel, flags)
		c.Check(e.St.Implies(eng.Eq(eng.Extract(re.Args[0], 1, nil), eng.Nil, nil)), "asked", cons+" valid", e.Instr.Pos(), "the search goes on although compiling the pattern failed")
	}
}

func (s *searchRun) eventState(e *eng.Event) *eng.State { return e.St }

// constOf returns the integer constant pkg.name as a term.
func (c *Ctx) constOf(pkg, name string) *eng.Term {
	sp := c.P.SPkg[pkg]
	if sp == nil {
		return nil
	}
	k, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok || k.Value.Value.Kind() != constant.Int {
		c.Viol("anchor", pkg+"."+name, 0, "constant %s.%s not found", pkg, name)
		return nil
	}
	v, _ := constant.Int64Val(k.Value.Value)
	return eng.Int(v)
}

// candidateLoop decides one loop over the candidates.
func (c *Ctx) candidateLoop(s *searchRun, l *eng.Loop, cons string) {
	var seq, idx *eng.Term // the candidate is seq[idx]
	var idxPhi *eng.Phi
	step := func(evs []*eng.Event) (name, id, ix *eng.Term) {
		for _, e := range evs {
			if e.Name == nameOf {
				if name != nil {
					return nil, nil, nil
				}
				name, ix, id = e.Res, e.Args[0], e.Args[1]
			}
		}
		return
	}
	for bi, b := range l.Backs {
		evs, _ := b.EventsSince(l)
		nm, id, ix := step(evs)
		if !c.Check(nm != nil, "candidate-name", cons, l.Pos, "a path around the loop over the candidates does not ask for the name of one candidate") {
			continue
		}
		if !c.Check(id.Op == "ld" && id.Args[0].Op == "elem", "candidate", cons, l.Pos, "the file looked at is %s, not a candidate of the list", id) {
			continue
		}
		q, x := id.Args[0].Args[0], id.Args[0].Args[1]
		if seq != nil && (q != seq || x != idx) {
			c.Check(false, "candidate", cons+" same", l.Pos, "paths take their candidates from different places")
			continue
		}
		seq, idx = q, x
		for _, p := range l.Phis {
			k, ok := eng.DiffConst(idx, p.Sym)
			if !ok {
				continue
			}
			idxPhi = p
			c.Check(p.Init.IsInt() && p.Init.K+k == 0, "list", cons+" first", l.Pos, "the candidates before number %s are not searched", eng.AddK(p.Init, k))
			c.Check(p.Backs[bi] == eng.AddK(p.Sym, 1), "list", cons+" next", l.Pos, "after candidate %s comes %s", idx, eng.AddK(p.Backs[bi], k))
		}
		if !c.Check(idxPhi != nil, "list", cons+" index", l.Pos, "cannot tell the order in which the candidates are searched") {
			continue
		}
		c.listOf(s, l, b, seq, ix, nm, evs, cons)
		c.iterationOf(s, l, b, evs, nm, cons)
	}
	if seq == nil || idxPhi == nil {
		return
	}
	done := func(st *eng.State) bool {
		if st.Implies(eng.Le(eng.Len(seq), idx)) || st.Implies(eng.False) {
			return true
		}
		lim := grepField(st, s.grep, "Limited")
		return lim != nil && (st.Implies(lim) || everFact(st.Facts, func(f *eng.Term) bool {
			return f.Op == "ld" && f.Args[0] == fieldAddr(s.grep, "Limited")
		}))
	}
	for _, x := range l.Exits {
		c.Check(done(x), "all-candidates", cons, l.Pos, "%s can stop searching before the last candidate", s.rel)
	}
	for _, t := range s.r.Terms {
		if t.Kind == "panic" || t.Kind == "fatal" && t.Ev != nil && t.Ev.Name != "os.Exit" {
			continue
		}
		if t.St.Inside(l) {
			c.Check(done(t.St), "all-candidates", cons+" return", l.Pos, "%s can end before the last candidate", s.rel)
		}
	}
}

// excluded finds whether the path matched the name against the name pattern:
// the pattern and whether it matched.
func excluded(st *eng.State, evs []*eng.Event, isNm func(*eng.Term) bool) (fre *eng.Term, out, in bool) {
	for _, e := range evs {
		if e.Name == reMatchString && isNm(e.Args[1]) {
			fre = e.Args[0]
			return fre, st.Implies(eng.Lt(e.Res, eng.Int(0))), st.Implies(eng.Le(eng.Int(0), e.Res))
		}
	}
	return nil, false, false
}

// listOf checks where the list of candidates comes from.
func (c *Ctx) listOf(s *searchRun, l *eng.Loop, b *eng.State, seq, ix, nm *eng.Term, evs []*eng.Event, cons string) {
	narrowed := false
	var fre *eng.Term
	base := seq
	for n := 0; ; n++ {
		p := s.r.PhiOf(base)
		if p == nil || n > 2 {
			break
		}
		// the result of the loop that narrows the list
		fl := s.loopOf(p)
		if fl == nil {
			break
		}
		var from *eng.Term
		for i, v := range p.Backs {
			fb := fl.Backs[i]
			fevs, _ := fb.EventsSince(fl)
			var id *eng.Term
			for _, e := range fevs {
				if e.Name == nameOf {
					c.Check(e.Args[0] == ix, "narrowed", cons+" index", fl.Pos, "the name pattern is matched with names of another index")
					id = e.Args[1]
				}
			}
			if !c.Check(id != nil && id.Op == "ld" && id.Args[0].Op == "elem", "narrowed", cons+" name", fl.Pos, "a path of the loop that narrows the candidates does not look at a candidate's name") {
				return
			}
			f, out, in := excluded(fb, fevs, func(t *eng.Term) bool { i, x, ok := isName(t); return ok && i == id && x == ix })
			switch {
			case v == p.Sym:
				c.Check(out, "narrowed", cons+" dropped", fl.Pos, "a candidate is dropped although the name pattern was not seen to miss its name")
			case v.Op == "append" && v.Args[0] == p.Sym && appended(v) != nil && appended(v).Op == "ld" && appended(v).Args[0] == id.Args[0]:
				c.Check(in, "narrowed", cons+" kept", fl.Pos, "a candidate is kept although the name pattern was not seen to match its name")
			default:
				c.Check(false, "narrowed", cons+" other", fl.Pos, "the narrowed list becomes %s", v)
			}
			if f != nil {
				fre = f
			}
			from = id.Args[0].Args[0]
			c.wholeScan(fl, i, from, id.Args[0].Args[1], "narrowed", cons)
		}
		c.Check(eng.Len(p.Init) == eng.Int(0), "narrowed", cons+" start", fl.Pos, "the narrowed list starts as %s", p.Init)
		if len(p.Backs) == 0 && eng.Len(p.Init) == eng.Int(0) {
			return // no candidates here
		}
		narrowed = true
		base = from
	}
	// one index, one query
	if !c.Check(isCall(base, postQuery), "list", cons+" source", l.Pos, "the candidates are %s, not the index's answer to a query", base) {
		return
	}
	c.Check(base.Args[0] == ix && isCall(ix, openIdx), "list", cons+" index", l.Pos, "names are looked up in %s, the query asked %s", ix, base.Args[0])
	q := base.Args[1]
	re := grepField(b, s.grep, "Regexp")
	switch {
	case isCall(q, reQuery):
		arg := q.Args[0]
		c.Check(re != nil && arg.Op == "ld" && arg.Args[0] == fieldAddr(re, "Syntax"), "list", cons+" query", l.Pos, "the index is asked for %s, the engine searches for %s", arg, re)
		if s.rel == "cmd/csearch" {
			c.Check(!everFact(b.Facts, func(f *eng.Term) bool { return flagLoad(c, f, "brute") }), "list", cons+" not brute", l.Pos, "-brute does not make all files candidates")
		}
	default:
		op := fieldAddr(q, "Op")
		v := (*eng.Term)(nil)
		if op != nil {
			v = b.Load(op, types.Typ[types.Int])
		}
		c.Check(s.all != nil && v == s.all, "list", cons+" all", l.Pos, "the index is asked for %s", q)
		c.Check(everFact(b.Facts, func(f *eng.Term) bool { return flagLoad(c, f, "brute") }), "list", cons+" brute", l.Pos, "all files are searched without -brute")
	}
	// the name pattern, when given, decides
	if f, _, _ := excluded(b, evs, func(t *eng.Term) bool { i, x, ok := isName(t); return ok && x == ix && i == nm.Args[1] }); f != nil {
		fre, narrowed = f, true
	}
	if narrowed {
		ok := isResult(fre, compile, "0") && c.namePattern(fre.Args[0].Args[0])
		c.Check(ok, "narrowed", cons+" pattern", l.Pos, "candidates are narrowed with %s, not the name pattern", fre)
		return
	}
	c.Check(c.noPattern(b), "narrowed", cons+" none", l.Pos, "candidates are searched without regard to the name pattern")
}

// noPattern reports whether the path knows that there is no name pattern.
func (c *Ctx) noPattern(st *eng.State) bool {
	ok := false
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if c.namePattern(t) && st.Implies(eng.Le(eng.Len(t), eng.Int(0))) {
				ok = true
			}
			// impossible: compiling it succeeded with no result
			if isResult(t, compile, "0") && c.namePattern(t.Args[0].Args[0]) && st.Implies(eng.Eq(t, eng.Nil, nil)) &&
				st.Implies(eng.Eq(eng.Extract(t.Args[0], 1, nil), eng.Nil, nil)) && c.compileResult() {
				ok = true
			}
			return true
		})
	}
	return ok
}

// compileResult reports whether compiling returns a pattern when it returns
// no error.
func (c *Ctx) compileResult() bool {
	if c.seen["compiled"] {
		return c.seen["compiled ok"]
	}
	c.seen["compiled"] = true
	f := c.Func("regexp", "Compile")
	if f == nil {
		return false
	}
	r := c.Analyze(f, &eng.Config{Opaque: func(h *ssa.Function) bool {
		rs := h.Signature.Results()
		return rs.Len() != 2 || !types.Identical(rs.At(0).Type(), f.Signature.Results().At(0).Type())
	}})
	ok := len(r.Terms) > 0
	for _, t := range r.Terms {
		if t.Kind == "return" && !t.St.Implies(eng.Not(eng.Eq(t.Rets[0], eng.Nil, nil))) && !t.St.Implies(eng.Not(eng.Eq(t.Rets[1], eng.Nil, nil))) {
			ok = false
		}
	}
	c.Check(ok, "compile-result", "regexp.Compile", f.Pos(), "compiling a pattern can return neither a pattern nor an error")
	c.seen["compiled ok"] = ok
	return ok
}

// namePattern reports whether t is the user's pattern for file names.
func (c *Ctx) namePattern(t *eng.Term) bool {
	if flagLoad(c, t, "f") {
		return true
	}
	return formValue(t, "f")
}

// appended returns the single element appended by v.
func appended(v *eng.Term) *eng.Term {
	if v.Op == "append" && v.Aux == "elems" && len(v.Args) == 2 {
		return v.Args[1]
	}
	return nil
}

// loopOf returns the loop p belongs to.
func (s *searchRun) loopOf(p *eng.Phi) *eng.Loop {
	for _, l := range s.r.Loops {
		for _, q := range l.Phis {
			if q == p {
				return l
			}
		}
	}
	return nil
}

// zipCut reports whether the path knows where the separator is in nm, and
// whether it is absent.
func zipIndex(st *eng.State, isNm func(*eng.Term) bool) (i *eng.Term, absent bool) {
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if isCall(t, "strings.Index") && isNm(t.Args[0]) && t.Args[1] == eng.Str(zipMark) {
				i = t
			}
			return true
		})
	}
	return i, i != nil && st.Implies(eng.Lt(i, eng.Int(0)))
}

// iterationOf checks what one path does with its candidate.
func (c *Ctx) iterationOf(s *searchRun, l *eng.Loop, b *eng.State, evs []*eng.Event, nm *eng.Term, cons string) {
	isNm := func(t *eng.Term) bool {
		i, x, ok := isName(t)
		return ok && i == nm.Args[1] && x == nm.Args[0]
	}
	var search, open, entry, look *eng.Event
	n := 0
	for _, e := range evs {
		switch {
		case isSearch(e.Name):
			search = e
			n++
		case e.Name == openFile && isNm(e.Args[0]):
			open = e
		case e.Name == openEntry:
			entry = e
		case e.Kind == "lookup" && isZipMap(e.Args[0]) && zipKey(b, e.Args[1], isNm):
			look = e
		}
	}
	if n > 1 {
		c.Check(false, "searched", cons+" twice", search.Instr.Pos(), "a candidate is searched twice")
		return
	}
	failed := func(e *eng.Event) bool { return b.Implies(eng.Not(eng.Eq(e.Result(1), eng.Nil, nil))) }
	works := func(e *eng.Event) bool { return b.Implies(eng.Eq(e.Result(1), eng.Nil, nil)) }
	if search != nil {
		pos := search.Instr.Pos()
		if search.Name == grepT+"File" {
			c.Check(false, "searched", cons+" File", pos, "cannot tell what is searched")
			return
		}
		c.Check(isNm(search.Args[2]), "searched-name", cons, pos, "a candidate's matches are shown under the name %s", search.Args[2])
		rd := unwrap(search.Args[1])
		switch {
		case open != nil && rd == unwrap(open.Result(0)):
			c.Check(works(open), "searched", cons+" file", pos, "a file is searched although it could not be opened")
		case entry != nil && rd == unwrap(entry.Result(0)):
			c.Check(works(entry) && look != nil && sameLookup(look, entry.Args[0]), "searched", cons+" zip", pos, "what is searched in an archive is not the entry looked up by the candidate's name")
			c.Check(open != nil && failed(open), "searched", cons+" zip only", pos, "an archive is looked at although a file of the name may exist")
		case isCall(rd, "strings.NewReader") && rd.Args[0] == eng.Str("\n"):
			la := fieldAddr(s.grep, "L")
			onlyNames := everFact(b.Facts, func(f *eng.Term) bool { return isLoadOf(f, la) })
			c.Check(onlyNames && c.emptySearch(s, b), "searched", cons+" list", pos, "a candidate is not opened although its contents matter")
		default:
			c.Check(false, "searched", cons+" other", pos, "what is searched is %s, not the candidate's file", rd)
		}
		return
	}
	// not searched: ruled out or not to be opened
	if _, out, _ := excluded(b, evs, isNm); out {
		c.Check(true, "unopened", cons+" name", l.Pos, "")
		return
	}
	if !c.Check(open != nil && failed(open), "unopened", cons+" not tried", l.Pos, "%s can pass over a candidate that it has not failed to open", s.rel) {
		return
	}
	_, absent := zipIndex(b, isNm)
	missing := look != nil && (b.Implies(eng.Eq(lookVal(look), eng.Nil, nil)) || lookOK(look) != nil && b.Implies(eng.Not(lookOK(look))))
	unread := entry != nil && look != nil && sameLookup(look, entry.Args[0]) && failed(entry)
	noZip := false
	for _, e := range evs {
		// the archive itself cannot be opened
		if e.Name == openZip && failed(e) && zipName(b, e.Args[0], isNm) {
			noZip = true
		}
	}
	c.Check(absent || missing || unread || noZip, "unopened", cons+" zip", l.Pos, "%s can pass over a candidate inside an archive without having looked for it there", s.rel)
}

// emptySearch reports whether the path knows the pattern to be empty.
func (c *Ctx) emptySearch(s *searchRun, st *eng.State) bool {
	re := grepField(st, s.grep, "Regexp")
	if !isResult(re, compile, "0") {
		return false
	}
	arg := re.Args[0].Args[0]
	rest := arg
	if arg.Op == "cat" && arg.Args[0].Op == "str" && len(arg.Args) == 2 {
		rest = arg.Args[1]
	}
	if st.Implies(eng.Eq(rest, eng.Str(""), nil)) || st.Implies(eng.Le(eng.Len(rest), eng.Int(0))) {
		return true
	}
	// the whole pattern is only flags
	for _, f := range st.Facts {
		if f.Op == "eq" && (f.Args[0] == arg && flagsOnly(f.Args[1]) || f.Args[1] == arg && flagsOnly(f.Args[0])) {
			return true
		}
	}
	return false
}

func flagsOnly(t *eng.Term) bool {
	if t.Op != "str" {
		return false
	}
	s := t.Aux
	for {
		m := flagGroup.FindString(s)
		if m == "" {
			return s == ""
		}
		s = s[len(m):]
	}
}

func isZipMap(t *eng.Term) bool {
	if t == eng.Nil {
		return true
	}
	if t.Typ == nil {
		return false
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	return ok && strings.HasSuffix(types.TypeString(m.Elem(), nil), "*archive/zip.File")
}

func lookVal(e *eng.Event) *eng.Term {
	if e.Res != nil && e.Res.Op == "tuple" {
		return e.Res.Args[0]
	}
	return e.Res
}

func lookOK(e *eng.Event) *eng.Term {
	if e.Res != nil && e.Res.Op == "tuple" {
		return e.Res.Args[1]
	}
	return nil
}

func sameLookup(e *eng.Event, t *eng.Term) bool { return lookVal(e) == t }

// zipKey reports whether t is the part of the name after the separator.
func zipKey(st *eng.State, t *eng.Term, isNm func(*eng.Term) bool) bool {
	if t.Op != "slice" || !isNm(t.Args[0]) {
		return false
	}
	i, _ := zipIndex(st, isNm)
	return i != nil && t.Args[1] == eng.AddK(i, int64(len(zipMark))) && t.Args[2] == eng.Len(t.Args[0])
}

// zipName reports whether t is the name of the archive.
func zipName(st *eng.State, t *eng.Term, isNm func(*eng.Term) bool) bool {
	i, _ := zipIndex(st, isNm)
	if i == nil {
		return false
	}
	if t.Op == "slice" && isNm(t.Args[0]) {
		return t.Args[1] == eng.Int(0) && t.Args[2] == eng.AddK(i, 4)
	}
	if t.Op == "cat" && len(t.Args) == 2 && t.Args[1] == eng.Str(".zip") {
		u := t.Args[0]
		return u.Op == "slice" && isNm(u.Args[0]) && u.Args[1] == eng.Int(0) && u.Args[2] == i
	}
	return false
}

func runZip(c *Ctx) {
	c.zipWriter()
	rels := map[string]bool{}
	for _, s := range c.searchRuns() {
		for _, l := range s.loops() {
			if c.zipLoop(s, l, s.rel+":"+fnLabel(s.root)) {
				rels[s.rel] = true
			}
		}
	}
	c.Check(rels["cmd/csearch"], "commands", "cmd/csearch", 0, "csearch does not look for entries of archives")
	c.Check(rels["cmd/csweb"], "commands", "cmd/csweb", 0, "csweb does not look for entries of archives")
	c.Min("zip-map", 2)
	c.Min("zip-cache", 2)
	c.Min("zip-first", 2)
	c.Min("zip-entry", 1)
}

// zipLoop decides the archive lookups of one search loop.
func (c *Ctx) zipLoop(s *searchRun, l *eng.Loop, cons string) bool {
	n := 0
	phiOf := func(t *eng.Term) *eng.Phi {
		for _, p := range l.Phis {
			if p.Sym == t {
				return p
			}
		}
		return nil
	}
	type pair struct{ file, m *eng.Phi }
	pairs := map[pair]bool{}
	type rm struct{ r, m *eng.Phi }
	rms := map[rm]bool{}
	// phis of the type of the results of zip.OpenReader
	var readers []*eng.Phi
	for _, p := range l.Phis {
		if p.Sym.Typ != nil && strings.HasSuffix(p.Sym.Typ.String(), "*archive/zip.ReadCloser") {
			readers = append(readers, p)
		}
	}
	// valid reports whether m is the entries of the archive of the current
	// name.
	valid := func(b *eng.State, evs []*eng.Event, m *eng.Term, isNm func(*eng.Term) bool) string {
		var e *eng.Event
		for _, x := range evs {
			if x.Name == openZip {
				if e != nil {
					return "the archive is opened twice"
				}
				e = x
			}
		}
		if p := phiOf(m); p != nil {
			for _, f := range l.Phis {
				if f.Sym.Typ != nil && types.Identical(f.Sym.Typ.Underlying(), types.Typ[types.String]) {
					for _, x := range b.Facts {
						if x.Op == "eq" && (x.Args[0] == f.Sym && zipName(b, x.Args[1], isNm) || x.Args[1] == f.Sym && zipName(b, x.Args[0], isNm)) {
							pairs[pair{f, p}] = true
							return ""
						}
					}
				}
			}
			// known to be empty
			empty := b.Implies(eng.Eq(p.Sym, eng.Nil, nil))
			for _, r := range readers {
				if !empty && b.Implies(eng.Eq(r.Sym, eng.Nil, nil)) {
					rms[rm{r, p}] = true
					empty = true
				}
			}
			if !empty {
				return "the entries are those of an archive that may be another"
			}
			m = eng.Nil
		}
		if e == nil || !zipName(b, e.Args[0], isNm) {
			return "the archive of the name is not opened"
		}
		failed := b.Implies(eng.Not(eng.Eq(e.Result(1), eng.Nil, nil))) || b.Implies(eng.Eq(e.Result(0), eng.Nil, nil))
		if m == eng.Nil {
			if !failed {
				return "the archive is opened and its entries are not taken"
			}
			return ""
		}
		if m.Op != "makemap" {
			return "the entries are " + m.String()
		}
		return c.filled(s, b, m, e.Result(0), cons)
	}
	for bi, b := range l.Backs {
		evs, _ := b.EventsSince(l)
		var nm *eng.Term
		for _, e := range evs {
			if e.Name == nameOf {
				nm = e.Res
			}
		}
		if nm == nil {
			continue
		}
		isNm := func(t *eng.Term) bool {
			i, x, ok := isName(t)
			return ok && i == nm.Args[1] && x == nm.Args[0]
		}
		_ = bi
		closed := map[*eng.Term]bool{}
		for _, e := range evs {
			switch {
			case e.Name == zipClose:
				closed[e.Args[0]] = true
			case e.Kind == "lookup" && isZipMap(e.Args[0]) && !c.inFill(s, e):
				n++
				c.Check(zipKey(b, e.Args[1], isNm), "zip-key", cons, e.Instr.Pos(), "the entry looked up is %s, not what follows the separator in the candidate's name", e.Args[1])
				why := valid(b, evs, e.Args[0], isNm)
				c.Check(why == "", "zip-map", cons, e.Instr.Pos(), "%s: %s", s.rel, why)
			case e.Name == openEntry:
				open := true
				for _, x := range evs {
					if x.Name == openZip && closed[x.Result(0)] {
						open = false
					}
				}
				c.Check(open, "zip-open", cons, e.Instr.Pos(), "an entry is opened after its archive was closed")
			}
		}
	}
	// the cached archive's name, reader and entries belong together
	back := func(bi int) (b *eng.State, evs []*eng.Event, isNm func(*eng.Term) bool) {
		b = l.Backs[bi]
		evs, _ = b.EventsSince(l)
		isNm = func(t *eng.Term) bool {
			i, x, ok := isName(t)
			for _, e := range evs {
				if ok && e.Name == nameOf && e.Args[0] == x && e.Args[1] == i {
					return true
				}
			}
			return false
		}
		return
	}
	for done := map[pair]bool{}; len(done) < len(pairs); {
		for pr := range pairs {
			if done[pr] {
				continue
			}
			done[pr] = true
			c.Check(pr.file.Init.Op == "str" && !strings.HasSuffix(pr.file.Init.Aux, ".zip") || pr.file.Init.Op == "str" && pr.m.Init == eng.Nil, "zip-cache", cons+" start", l.Pos, "before the first archive the cache holds %s for %s", pr.m.Init, pr.file.Init)
			for i := range l.Backs {
				b, evs, isNm := back(i)
				f, m := pr.file.Backs[i], pr.m.Backs[i]
				closed := false
				for _, e := range evs {
					if e.Name == zipClose {
						closed = true
						for _, r := range readers {
							if e.Args[0] == r.Sym {
								c.Check(m != pr.m.Sym || b.Implies(eng.Eq(r.Sym, eng.Nil, nil)), "zip-cache", cons+" closed", e.Instr.Pos(), "the entries of an archive are kept after it was closed")
							}
						}
						for _, x := range evs {
							if x.Name == openZip && x.Result(0) == e.Args[0] {
								c.Check(m.Op != "makemap", "zip-cache", cons+" closed", e.Instr.Pos(), "the entries of an archive are kept after it was closed")
							}
						}
					}
				}
				_ = closed
				switch {
				case f == pr.file.Sym && m == pr.m.Sym:
					c.Check(true, "zip-cache", cons+" kept", l.Pos, "")
				case zipName(b, f, isNm):
					why := valid(b, evs, m, isNm)
					c.Check(why == "", "zip-cache", cons+" new", l.Pos, "the cache for the new archive: %s", why)
				case f.Op == "str" && !strings.HasSuffix(f.Aux, ".zip"):
					c.Check(true, "zip-cache", cons+" reset", l.Pos, "")
				default:
					c.Check(false, "zip-cache", cons+" other", l.Pos, "the cache can hold the entries %s under the name %s", m, f)
				}
			}
		}
	}
	for x := range rms {
		c.Check(x.r.Init == eng.Nil && x.m.Init == eng.Nil || x.r.Init != eng.Nil && x.m.Init == eng.Nil, "zip-cache", cons+" none", l.Pos, "entries are cached for no archive")
		for i, b := range l.Backs {
			r, m := x.r.Backs[i], x.m.Backs[i]
			ok := m == eng.Nil || b.Implies(eng.Not(eng.Eq(r, eng.Nil, nil))) || r == x.r.Sym && m == x.m.Sym || m == x.m.Sym && b.Implies(eng.Eq(x.r.Sym, eng.Nil, nil))
			c.Check(ok, "zip-cache", cons+" none", l.Pos, "the entries of an earlier archive can be kept for one that cannot be opened")
		}
	}
	return n > 0
}

const zipClose = "(*archive/zip.ReadCloser).Close"

// fillLoops lists the loops that store in m.
func (s *searchRun) fillLoops(m *eng.Term) []*eng.Loop {
	if s.fill == nil {
		s.fill = map[*eng.Term][]*eng.Loop{}
	}
	out, ok := s.fill[m]
	if ok {
		return out
	}
	defer func() { s.fill[m] = out }()
	for _, l := range s.r.Loops {
		for _, b := range l.Backs {
			evs, ok := b.EventsSince(l)
			found := false
			for _, e := range evs {
				if ok && e.Kind == "mapupdate" && e.Args[0] == m {
					found = true
				}
			}
			if found && !s.outer(l) {
				out = append(out, l)
				break
			}
		}
	}
	return out
}

// outer reports whether l is a loop in which candidates are searched.
func (s *searchRun) outer(l *eng.Loop) bool {
	for _, x := range s.loops() {
		if x == l {
			return true
		}
	}
	return false
}

// inFill reports whether lookup e happens while a map is filled.
func (c *Ctx) inFill(s *searchRun, e *eng.Event) bool {
	for _, l := range s.fillLoops(e.Args[0]) {
		for _, b := range l.Backs {
			evs, _ := b.EventsSince(l)
			for _, x := range evs {
				if x.Instr == e.Instr {
					return true
				}
			}
		}
	}
	return false
}

// filled reports whether m holds the first entry of every name of the archive
// read by zr.
func (c *Ctx) filled(s *searchRun, b *eng.State, m, zr *eng.Term, cons string) string {
	n := 0
	for _, l := range s.fillLoops(m) {
		passed := false
		for _, p := range b.Passed() {
			passed = passed || p == l
		}
		if !passed {
			continue
		}
		n++
		for bi, fb := range l.Backs {
			evs, _ := fb.EventsSince(l)
			var up *eng.Event
			var key *eng.Term
			for _, e := range evs {
				if e.Kind == "mapupdate" && e.Args[0] == m {
					if up != nil {
						return "an entry is stored twice"
					}
					up = e
					key = e.Args[1]
				}
				if e.Kind == "lookup" && e.Args[0] == m && key == nil {
					key = e.Args[1]
				}
			}
			if key == nil {
				return "an entry of the archive is left out"
			}
			// the key is the name of an entry of this archive
			if key.Op != "ld" || key.Args[0].Op != "field" || key.Args[0].Aux != "Name" {
				return "entries are stored under " + key.String()
			}
			ent := key.Args[0].Args[0]
			for ent.Op == "field" {
				ent = ent.Args[0]
			}
			if ent.Op != "ld" || ent.Args[0].Op != "elem" {
				return "entries are stored under the name of " + ent.String()
			}
			seq := ent.Args[0].Args[0]
			if src := seq; src.Op != "ld" || src.Args[0].Op != "field" || src.Args[0].Aux != "File" || eng.Root(src.Args[0]) != zr {
				return "the entries are those of " + seq.String()
			}
			c.wholeScan(l, bi, seq, ent.Args[0].Args[1], "zip-first", cons)
			var absent, present bool
			for _, e := range evs {
				if e.Kind != "lookup" || e.Args[0] != m || e.Args[1] != key {
					continue
				}
				v, ok := lookVal(e), lookOK(e)
				absent = absent || fb.Implies(eng.Eq(v, eng.Nil, nil)) || ok != nil && fb.Implies(eng.Not(ok))
				present = present || fb.Implies(eng.Not(eng.Eq(v, eng.Nil, nil))) || ok != nil && fb.Implies(ok)
			}
			if up == nil {
				c.Check(present, "zip-first", cons+" left out", l.Pos, "an entry is left out although none of its name was stored")
				continue
			}
			c.Check(up.Args[2] == ent, "zip-first", cons+" value", l.Pos, "the entry stored under the name of %s is %s", ent, up.Args[2])
			c.Check(absent, "zip-first", cons+" first", l.Pos, "of entries with one name the last is kept, the index has the first")
		}
	}
	if n != 1 {
		return "the map of the entries is not filled by one loop"
	}
	return ""
}

// zipWriter decides how the entries of an archive are indexed.
func (c *Ctx) zipWriter() {
	root := c.Func("index", "IndexWriter.Add")
	if root == nil {
		return
	}
	fs := c.deepest(root, readName, pathWr)
	if !c.Check(len(fs) == 1, "anchor", "index:(*IndexWriter).Add", root.Pos(), "found %d functions that read a file and record its name", len(fs)) {
		return
	}
	add := fullName(fs[0])
	isSort := func(n string) bool {
		return strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "sort.S") || n == "slices.Reverse"
	}
	compare := "(" + load.Module + "/index.Path).Compare"
	interest := func(n string) bool {
		return n == add || n == openEntry || isSort(n) || n == "archive/zip.NewReader" || n == compare
	}
	r := c.Analyze(root, &eng.Config{
		Join: 100, Entries: 32, MaxStates: 1000, KeepFacts: true,
		Opaque:   func(f *ssa.Function) bool { return f == fs[0] || fullName(f) == compare || f.Name() == "isValidName" },
		Target:   targetNames(interest),
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && interest(e.Name) },
	})
	cons := "index:(*IndexWriter).Add"
	hasSuffix := func(st *eng.State, name *eng.Term) (suf string) {
		for _, f := range st.Facts {
			if isCall(f, "strings.HasSuffix") && f.Args[0] == name && f.Args[1].Op == "str" {
				suf = f.Args[1].Aux
			}
		}
		return
	}
	nameP, readP := r.Params[1], r.Params[2]
	loops := map[*eng.Loop]bool{}
	for _, l := range r.Loops {
		for bi, b := range l.Backs {
			evs, ok := b.EventsSince(l)
			if !ok {
				continue
			}
			var opened, added *eng.Event
			n := 0
			for _, e := range evs {
				switch e.Name {
				case openEntry:
					opened = e
				case add:
					added = e
					n++
				}
			}
			if opened == nil {
				continue
			}
			loops[l] = true
			ent := opened.Args[0]
			if !c.Check(ent.Op == "ld" && ent.Args[0].Op == "elem", "zip-entry", cons+" entry", opened.Instr.Pos(), "the entry opened is %s", ent) {
				continue
			}
			c.wholeScan(l, bi, ent.Args[0].Args[0], ent.Args[0].Args[1], "zip-entry", cons)
			if added == nil {
				c.Check(b.Implies(eng.Not(eng.Eq(opened.Result(1), eng.Nil, nil))), "zip-entry", cons+" left out", opened.Instr.Pos(), "an entry that was opened is not indexed")
				continue
			}
			c.Check(n == 1, "zip-entry", cons+" once", added.Instr.Pos(), "an entry is indexed twice")
			c.Check(b.Implies(eng.Eq(opened.Result(1), eng.Nil, nil)) && unwrap(added.Args[2]) == unwrap(opened.Result(0)), "zip-entry", cons+" contents", added.Instr.Pos(), "what is indexed for an entry is %s", added.Args[2])
			nm := added.Args[1]
			ok = nm.Op == "cat" && len(nm.Args) == 3 && nm.Args[0] == nameP && nm.Args[1].Op == "str" && isEntryName(nm.Args[2], ent) && hasSuffix(b, nameP)+nm.Args[1].Aux == zipMark
			c.Check(ok, "zip-entry", cons+" name", added.Instr.Pos(), "an entry is indexed under %s", nm)
			// the first of its name
			first := b.Implies(eng.Le(ent.Args[0].Args[1], eng.Int(0)))
			for _, e := range evs {
				if e.Name == compare && e.Res != nil && b.Implies(eng.Not(eng.EqInt(e.Res, eng.Int(0)))) {
					x, y := pathEntry(e.Args[0]), pathEntry(e.Args[1])
					first = first || consecutive(l, bi, x, y) || consecutive(l, bi, y, x)
				}
			}
			for _, f := range b.Facts {
				if f.Op == "not" && f.Args[0].Op == "eq" {
					x, y := entryOfName(f.Args[0].Args[0]), entryOfName(f.Args[0].Args[1])
					first = first || consecutive(l, bi, x, y) || consecutive(l, bi, y, x)
				}
				if f.Op == "eq" { // none before it
					for _, p := range l.Phis {
						first = first || f.Args[0] == p.Sym && f.Args[1] == p.Init || f.Args[1] == p.Sym && f.Args[0] == p.Init
					}
				}
			}
			c.Check(first, "zip-first", cons+" repeated", added.Instr.Pos(), "an entry is indexed although it may have the name of the one before it")
			c.sortedEntries(r, b, l, ent.Args[0].Args[0], compare, cons)
		}
	}
	c.Check(len(loops) > 0, "zip-entry", cons+" loop", root.Pos(), "no loop indexes the entries of an archive")
	// paths around the loop without opening: duplicates only
	for l := range loops {
		for bi, b := range l.Backs {
			evs, _ := b.EventsSince(l)
			opened := false
			var cmp *eng.Event
			for _, e := range evs {
				opened = opened || e.Name == openEntry
				if e.Name == compare {
					cmp = e
				}
			}
			if opened {
				continue
			}
			ok := false
			if cmp != nil && b.Implies(eng.EqInt(cmp.Res, eng.Int(0))) {
				x, y := pathEntry(cmp.Args[0]), pathEntry(cmp.Args[1])
				ok = consecutive(l, bi, x, y) || consecutive(l, bi, y, x)
			}
			for _, f := range b.Facts {
				if f.Op == "eq" {
					x, y := entryOfName(f.Args[0]), entryOfName(f.Args[1])
					ok = ok || consecutive(l, bi, x, y) || consecutive(l, bi, y, x)
				}
			}
			c.Check(ok, "zip-entry", cons+" skipped", l.Pos, "an entry is skipped although it does not have the name of the one before it")
		}
	}
	// everything else is indexed as the file it is
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		viaZip := false
		for _, l := range t.St.Passed() {
			viaZip = viaZip || loops[l]
		}
		n := 0
		for _, e := range t.St.Events(false) {
			if e.Name != add || viaZip {
				continue
			}
			n++
			c.Check(e.Args[1] == nameP && e.Args[2] == readP, "plain-file", cons, e.Instr.Pos(), "a file is indexed as %s with the contents of %s", e.Args[1], e.Args[2])
		}
		if !viaZip && n == 0 {
			c.Check(!t.St.Implies(eng.Eq(t.Rets[0], eng.Nil, nil)), "plain-file", cons+" dropped", root.Pos(), "a file can be left out of the index without an error")
		}
	}
	c.Min("plain-file", 1)
}

// isEntryName reports whether t is the name of the zip entry ent.
func isEntryName(t, ent *eng.Term) bool { return entryOfName(t) == ent && ent != nil }

// entryOfName returns the zip entry whose name t is.
func entryOfName(t *eng.Term) *eng.Term {
	if t.Op != "ld" || t.Args[0].Op != "field" || t.Args[0].Aux != "Name" {
		return nil
	}
	e := t.Args[0].Args[0]
	for e.Op == "field" {
		e = e.Args[0]
	}
	return e
}

// pathEntry returns the zip entry of whose name t is the Path.
func pathEntry(t *eng.Term) *eng.Term {
	if t.Op == "struct" && len(t.Args) == 1 {
		return entryOfName(t.Args[0])
	}
	return nil
}

// consecutive reports whether x is the element of the current iteration and y
// the one before it.
func consecutive(l *eng.Loop, bi int, x, y *eng.Term) bool {
	if x == nil || y == nil || x.Op != "ld" || y.Op != "ld" || x.Args[0].Op != "elem" || y.Args[0].Op != "elem" {
		// the one before it may be carried along
		if x != nil && y != nil && x.Op == "ld" && x.Args[0].Op == "elem" {
			for _, p := range l.Phis {
				if p.Sym == y && p.Backs[bi] == x {
					return true
				}
			}
		}
		return false
	}
	a, b := x.Args[0], y.Args[0]
	if a.Args[0] != b.Args[0] {
		return false
	}
	k, ok := eng.DiffConst(a.Args[1], b.Args[1])
	if !ok || k != 1 {
		return false
	}
	for _, p := range l.Phis {
		if d, ok := eng.DiffConst(a.Args[1], p.Sym); ok {
			return p.Init.IsInt() && p.Init.K+d == 0 && p.Backs[bi] == eng.AddK(p.Sym, 1)
		}
	}
	return false
}

// sortedEntries checks that the entries in seq were sorted by name, those
// with equal names left in the order of the archive.
func (c *Ctx) sortedEntries(r *eng.Run, b *eng.State, l *eng.Loop, seq *eng.Term, compare, cons string) {
	n := 0
	for _, e := range b.Events(false) {
		if !strings.HasPrefix(e.Name, "slices.Sort") && !strings.HasPrefix(e.Name, "sort.S") && e.Name != "slices.Reverse" {
			continue
		}
		if unwrap(e.Args[0]) != seq {
			continue
		}
		n++
		stable := strings.HasPrefix(e.Name, "slices.SortStableFunc") || e.Name == "sort.SliceStable" || e.Name == "sort.Stable"
		c.Check(stable, "zip-first", cons+" sort", e.Instr.Pos(), "the order of entries with one name is lost by %s: the index may hold any of them", e.Name)
		if len(e.Args) < 2 {
			continue
		}
		f := unwrap(e.Args[1])
		if f.Op != "closure" && f.Op != "func" {
			continue
		}
		for _, cb := range r.Loops {
			if len(cb.Phis) > 0 || !cb.Callback {
				continue
			}
			for _, x := range cb.Backs {
				evs, _ := x.EventsSince(cb)
				for _, k := range evs {
					if k.Name == compare {
						p, q := pathEntry(k.Args[0]), pathEntry(k.Args[1])
						c.Check(p != nil && q != nil && p.Op == "sym" && q.Op == "sym" && p != q && strings.Contains(p.Aux, ".0@") && strings.Contains(q.Aux, ".1@"), "zip-entry", cons+" order", e.Instr.Pos(), "entries are sorted by comparing %s with %s", k.Args[0], k.Args[1])
					}
				}
			}
		}
	}
	src := seq
	for isCall(src, "slices.Clone") || isCall(src, "slices.SortedStableFunc") || src.Op == "append" || src.Op == "slice" {
		if src.Op == "append" {
			src = src.Args[len(src.Args)-1]
			continue
		}
		src = src.Args[0]
	}
	c.Check(src.Op == "ld" && src.Args[0].Op == "field" && src.Args[0].Aux == "File", "zip-entry", cons+" all", l.Pos, "the entries indexed are %s, not those of the archive", src)
	c.Check(n <= 1, "zip-entry", cons+" sorts", l.Pos, "entries are sorted %d times", n)
}
