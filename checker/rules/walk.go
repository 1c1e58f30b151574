package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const (
	ixwM      = "(*" + load.Module + "/index.IndexWriter)."
	walkTree  = "path/filepath.Walk"
	walkDir   = "path/filepath.WalkDir"
	absPath   = "path/filepath.Abs"
	rootsOf   = ixM + "Roots"
	pathsAll  = "(*" + load.Module + "/index.PathReader).All"
	cmpPath   = "(" + load.Module + "/index.Path).Compare"
	inPath    = "(" + load.Module + "/index.Path).HasPathPrefix"
	pathStr   = "(" + load.Module + "/index.Path).String"
	makePath  = idxPkg + "MakePath"
	createIdx = idxPkg + "Create"
)

func isWalk(n string) bool { return n == walkTree || n == walkDir }

func init() {
	register(&Rule{
		ID: "C21",
		Explanation: "Path-sensitive analysis of cindex with the function it hands to the directory walk: every path through one call of that function must, for each combination of file information, error and name, either add the path exactly once (regular file, no error, name neither hidden nor temporary), " +
			"skip the subtree (hidden or temporary directory), or do nothing for a reason the path itself shows; it must never use missing file information, never end the walk or the command, and log each error it is given or gets from indexing the file.",
		Assumptions: []string{"package path/filepath walks the whole tree and passes nil information only with an error"},
		Run:         runWalk,
	})
	register(&Rule{
		ID: "C26",
		Explanation: "Path-sensitive analysis of cindex (index package abstract): on every path that indexes, the recorded roots are either all roots of the existing index (no arguments) or the absolute forms of all arguments that have one, sorted with the index's own order and without those inside the one before; " +
			"each recorded root is walked exactly once, before the flush, into the index they are recorded in; -list prints each recorded root once and nothing else happens.",
		Assumptions: []string{"package slices, filepath and flag do what they say", "sorted order puts the paths inside a directory directly after it (C13)"},
		Run:         runRoots,
	})
}

// cindexRun analyses cindex with the index package abstract.
func (c *Ctx) cindexRun() *eng.Run {
	main := c.Func("cmd/cindex", "main")
	if main == nil {
		return nil
	}
	interesting := func(n string) bool {
		return isWalk(n) || strings.Contains(n, load.Module+"/index.") || n == absPath || strings.HasPrefix(n, "flag.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "sort.") ||
			strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "(io/fs.") || strings.HasPrefix(n, "(*os.File)") || n == "os.Exit"
	}
	return c.Analyze(main, &eng.Config{
		Join: 300, Entries: 64, MaxStates: 3000, KeepFacts: true,
		Opaque: func(f *ssa.Function) bool {
			return fnPkg(f) != nil && !strings.HasSuffix(fnPkg(f).Path(), "cmd/cindex")
		},
		Target: func(in ssa.Instruction, n string) bool { return interesting(n) },
		Interest: func(e *eng.Event) bool {
			return e.Kind == "call" && interesting(e.Name) || e.Kind == "return" || e.Kind == "index" || e.Name == "dynamic"
		},
		Indexes: true,
	})
}

// baseName reports whether t is the last element of path.
func baseName(t, path, info *eng.Term) bool {
	switch {
	case t.Op == "extract" && t.Aux == "1" && isCall(t.Args[0], "path/filepath.Split"):
		return t.Args[0].Args[0] == path
	case isCall(t, "path/filepath.Base"):
		return t.Args[0] == path
	case t.Op == "call" && hasSuffixAny(t.Aux, "(io/fs.FileInfo).Name", "(io/fs.DirEntry).Name"):
		return t.Args[0] == info
	}
	return false
}

var (
	hiddenFirst = []int64{'.', '#', '~'}
	hiddenLast  = int64('~')
)

// hiddenness finds what the path knows about the last element of the name.
func hiddenness(st *eng.State, path, info *eng.Term) (hidden, visible bool) {
	names := map[*eng.Term]bool{}
	chars := map[*eng.Term]bool{}
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if baseName(t, path, info) {
				names[t] = true
			}
			if t.Op == "stridx" && baseName(t.Args[0], path, info) {
				chars[t] = true
			}
			return true
		})
	}
	first := map[int64]bool{}
	last := false
	for t := range chars {
		n := t.Args[0]
		isFirst, isLast := t.Args[1] == eng.Int(0), t.Args[1] == eng.AddK(eng.Len(n), -1)
		if isFirst {
			for _, k := range hiddenFirst {
				if st.Implies(eng.EqInt(t, eng.Int(k))) {
					hidden = true
				}
				if st.Implies(eng.Not(eng.EqInt(t, eng.Int(k)))) {
					first[k] = true
				}
			}
		}
		if isLast || isFirst && st.Implies(eng.EqInt(eng.Len(n), eng.Int(1))) {
			if st.Implies(eng.EqInt(t, eng.Int(hiddenLast))) {
				hidden = true
			}
			if st.Implies(eng.Not(eng.EqInt(t, eng.Int(hiddenLast)))) {
				last = true
			}
		}
	}
	for n := range names {
		if st.Implies(eng.EqInt(eng.Len(n), eng.Int(0))) {
			visible = true
		}
	}
	if last && first['.'] && first['#'] && first['~'] {
		visible = true
	}
	return hidden, visible
}

// factOf reports whether the path knows a fact for which is holds, and its
// truth value.
func factOf(st *eng.State, is func(*eng.Term) bool) (yes, no bool) {
	for _, f := range st.Facts {
		if f.Op == "not" {
			if is(f.Args[0]) {
				no = true
			}
		} else if is(f) {
			yes = true
		}
	}
	return
}

func fromInfo(t, info *eng.Term, method string) bool {
	if t == nil || t.Op != "call" || len(t.Args) == 0 {
		return false
	}
	return hasSuffixAny(strings.SplitN(t.Aux, "@", 2)[0], "(io/fs.FileInfo)."+method, "(io/fs.DirEntry)."+method) && t.Args[0] == info
}

func modeOf(t, info *eng.Term) bool {
	return fromInfo(t, info, "Mode") || fromInfo(t, info, "Type") || (t.Op == "conv" && modeOf(t.Args[0], info))
}

func isDirFact(t, info *eng.Term) bool {
	return fromInfo(t, info, "IsDir") || isCall(t, "(io/fs.FileMode).IsDir") && modeOf(t.Args[0], info)
}

// regular reports whether the path knows that the file is (is not) regular.
func (c *Ctx) regular(st *eng.State, info *eng.Term) (yes, no bool) {
	yes, no = factOf(st, func(t *eng.Term) bool {
		return isCall(t, "(io/fs.FileMode).IsRegular") && modeOf(t.Args[0], info)
	})
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if t.Op == "and" && len(t.Args) == 2 && modeOf(t.Args[0], info) && t.Args[1] == eng.Int(0x8f280000) {
				yes = yes || st.Implies(eng.EqInt(t, eng.Int(0)))
				no = no || st.Implies(eng.Not(eng.EqInt(t, eng.Int(0))))
			}
			return true
		})
	}
	// a directory is not a regular file
	if d, _ := factOf(st, func(t *eng.Term) bool { return isDirFact(t, info) }); d {
		no = true
	}
	return
}

func isSkipDir(t *eng.Term) bool {
	t = unwrap(t)
	return t != nil && t.Op == "ld" && t.Args[0].Op == "global" && hasSuffixAny(t.Args[0].Aux, "path/filepath.SkipDir", "io/fs.SkipDir")
}

func runWalk(c *Ctx) {
	r := c.cindexRun()
	if r == nil {
		return
	}
	c.namesRefused()
	const cons = "cindex:visit"
	done := map[*eng.Loop]bool{}
	for _, e := range r.Events {
		if !isWalk(e.Name) {
			continue
		}
		cl := e.Orig.Callback
		if !c.Check(cl != nil && len(cl.Params) == 3, "visitor", cons, posOf(e), "cannot tell what is called for each file") {
			continue
		}
		if done[cl] {
			continue
		}
		done[cl] = true
		for _, b := range cl.Backs {
			c.visit(b, cl, cons)
		}
		for _, t := range r.Terms {
			if t.Kind == "return" {
				continue
			}
			c.Check(!t.St.Inside(cl), "keeps-going", cons+" "+t.Kind, cl.Pos, "what is found during the walk can end the command")
		}
	}
	// the file information is only used where there is one
	for _, e := range r.Events {
		for cl := range done {
			if !e.St.Inside(cl) {
				continue
			}
			switch {
			case len(e.Args) > 0 && e.Args[0] == cl.Params[1] && (strings.HasPrefix(e.Name, "(io/fs.FileInfo).") || strings.HasPrefix(e.Name, "(io/fs.DirEntry).")):
				c.Check(e.St.Implies(eng.Not(isNilTerm(cl.Params[1]))) || e.St.Implies(eng.False), "info-present", cons+" "+e.Name, posOf(e), "%s can be called although there is no file information: %s", e.Name, "the walk passes none when it could not look at the file")
			case e.Kind == "index":
				x, i := e.Args[0], e.Args[1]
				if isCall(x, "path/filepath.Base") && (i == eng.Int(0) || i == eng.AddK(eng.Len(x), -1)) {
					break // never empty
				}
				if x.Any(func(t *eng.Term) bool { return t == cl.Params[0] }) || i.Any(func(t *eng.Term) bool { return t == cl.Params[0] }) {
					c.Check(e.St.Implies(eng.Le(eng.Int(0), i)) && e.St.Implies(eng.Lt(i, eng.Len(x))) || e.St.Implies(eng.False), "in-bounds", cons, posOf(e), "byte %s of the name %s may not exist", i, x)
				}
			}
		}
	}
	c.Min("visitor", 1)
	for _, rule := range []string{"added", "hidden-skipped", "hidden-file", "reported", "skipped-why", "info-present"} {
		c.Min(rule, 1)
	}
}

// visit decides one path through the call for one file.
func (c *Ctx) visit(b *eng.State, cl *eng.Loop, cons string) {
	if b.Implies(eng.False) {
		return
	}
	path, info, werr := cl.Params[0], cl.Params[1], cl.Params[2]
	evs, _ := b.EventsSince(cl)
	var ret *eng.Term
	var add []*eng.Event
	for _, e := range evs {
		switch {
		case e.Kind == "return" && e.Fn == cl.Fn:
			ret = unwrap(e.Args[0])
		case e.Name == ixwM+"AddFile" || e.Name == ixwM+"Add":
			add = append(add, e)
		}
	}
	if !c.Check(ret != nil, "visitor", cons+" result", cl.Pos, "no result found on a path") {
		return
	}
	hidden, visible := hiddenness(b, path, info)
	noInfo, hasInfo := b.Implies(isNilTerm(info)), b.Implies(eng.Not(isNilTerm(info)))
	noErr, isErr := b.Implies(isNilTerm(werr)), b.Implies(eng.Not(isNilTerm(werr)))
	dir, notDir := factOf(b, func(t *eng.Term) bool { return isDirFact(t, info) })
	reg, notReg := c.regular(b, info)
	logged := func(err *eng.Term) bool {
		for _, e := range evs {
			if !strings.HasPrefix(e.Name, "log.Print") {
				continue
			}
			for _, a := range e.Args {
				if a == err || a.Contains(err) {
					return true
				}
				if vs, ok := varArgs(b, a); ok {
					for _, v := range vs {
						if unwrap(v) == err || v.Contains(err) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if len(add) > 0 {
		e := add[0]
		c.Check(len(add) == 1, "added", cons+" once", posOf(e), "a file is added %d times", len(add))
		c.Check(e.Args[1] == path, "added", cons+" name", posOf(e), "the file found at %s is added as %s", path, e.Args[1])
		c.Check(visible, "added", cons+" visible", posOf(e), "a file is added although its name was not seen to be neither hidden nor temporary")
		c.Check(noErr, "added", cons+" error", posOf(e), "a file is added although the walk may have reported an error for it")
		c.Check(hasInfo && reg, "added", cons+" regular", posOf(e), "a file is added although it was not seen to be a regular file")
		c.Check(ret == eng.Nil, "keeps-going", cons+" after adding", posOf(e), "after adding a file the walk is told %s", ret)
		if e.Name == ixwM+"Add" {
			f := unwrap(e.Args[2])
			c.Check(f.Op == "extract" && isCall(f.Args[0], openFile) && f.Args[0].Args[0] == path, "added", cons+" content", posOf(e), "the content added is %s, not the file's", f)
		}
		ok := b.Implies(isNilTerm(e.Res)) || b.Implies(eng.Not(isNilTerm(e.Res))) && logged(e.Res)
		if !b.Implies(isNilTerm(e.Res)) {
			c.Check(ok, "reported", cons+" indexing error", posOf(e), "a file can fail to be indexed without a message")
		}
		return
	}
	switch {
	case isSkipDir(ret):
		c.Check(hidden && dir && hasInfo, "hidden-skipped", cons+" subtree", cl.Pos, "a subtree can be skipped although it was not seen to be a hidden or temporary directory")
	case ret == eng.Nil:
		switch {
		case hidden:
			c.Check(noInfo || notDir || reg, "hidden-file", cons, cl.Pos, "what is inside a hidden or temporary directory can be indexed")
		case isErr:
			c.Check(logged(werr), "reported", cons+" walk error", cl.Pos, "an error the walk reports can go without a message")
		default:
			c.Check(noInfo || notReg, "skipped-why", cons, cl.Pos, "a file can be left out of the index although it may be regular and neither hidden nor temporary")
		}
	default:
		c.Check(false, "keeps-going", cons+" result", cl.Pos, "the walk is told %s", ret)
	}
}

// pathVal resolves a path value to the element of a list it was read from.
func pathVal(t *eng.Term) (seq, idx *eng.Term, ok bool) {
	for t != nil {
		switch {
		case t.Op == "struct" && len(t.Args) == 1:
			t = t.Args[0]
		case isCall(t, pathStr), isCall(t, makePath), t.Op == "fieldval" && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Args[0].Op == "elem":
			return t.Args[0].Args[0].Args[0], t.Args[0].Args[0].Args[1], true
		case t.Op == "ld" && t.Args[0].Op == "elem":
			return t.Args[0].Args[0], t.Args[0].Args[1], true
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// madeFrom strips the conversion of a string to a path.
func madeFrom(t *eng.Term) *eng.Term {
	for t != nil && (t.Op == "struct" && len(t.Args) == 1 || isCall(t, makePath) || isCall(t, pathStr) || t.Op == "fieldval" && len(t.Args) == 1) {
		t = t.Args[0]
	}
	return t
}

func indexFile(t *eng.Term) bool { return isCall(t, idxPkg+"File") }

// allRoots reports whether t iterates over the roots of the existing index.
func allRoots(t *eng.Term) bool {
	if !isCall(t, pathsAll) {
		return false
	}
	t = t.Args[0]
	return isCall(t, rootsOf) && isCall(t.Args[0], openIdx) && indexFile(t.Args[0].Args[0])
}

// hostOf returns the call during which the callback loop runs.
func hostOf(r *eng.Run, l *eng.Loop) *eng.Event {
	for _, e := range r.Events {
		if e.Orig != nil && e.Orig.Callback == l {
			return e
		}
	}
	return nil
}

func phiLoop(r *eng.Run, p *eng.Phi) *eng.Loop {
	for _, l := range r.Loops {
		for _, q := range l.Phis {
			if q == p {
				return l
			}
		}
	}
	return nil
}

// argless reports whether the path knows that there are (no) arguments.
func argless(st *eng.State) (none, some bool) {
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			n := t
			if isCall(t, "flag.Args") {
				n = eng.Len(t)
			} else if !isCall(t, "flag.NArg") {
				return true
			}
			none = none || st.Implies(eng.EqInt(n, eng.Int(0)))
			some = some || st.Implies(eng.Not(eng.EqInt(n, eng.Int(0)))) || st.Implies(eng.Lt(eng.Int(0), n))
			return true
		})
	}
	return
}

func runRoots(c *Ctx) {
	r := c.cindexRun()
	if r == nil {
		return
	}
	const cons = "cindex:main"
	// the recorded roots
	for _, e := range r.Events {
		if e.Name != ixwM+"AddRoots" {
			continue
		}
		c.Check(isCall(e.Args[0], createIdx), "recorded", cons+" index", posOf(e), "roots are recorded in %s, not in the index being created", e.Args[0])
		c.rootsValue(r, e.St, e.Args[1], cons)
	}
	// the walks
	walks := map[*eng.Loop]bool{}
	for _, l := range r.Loops {
		for _, b := range l.Backs {
			evs, ok := b.EventsSince(l)
			if !ok || l.Callback {
				continue
			}
			for _, e := range evs {
				if isWalk(e.Name) {
					walks[l] = true
				}
			}
		}
	}
	for l := range walks {
		for bi, b := range l.Backs {
			evs, _ := b.EventsSince(l)
			var seq, idx *eng.Term
			n := 0
			for _, e := range evs {
				if !isWalk(e.Name) {
					continue
				}
				n++
				var ok bool
				seq, idx, ok = pathVal(e.Args[0])
				c.Check(ok, "walked", cons+" root", posOf(e), "the walk starts at %s, not at a recorded root", e.Args[0])
				if cl := e.Callback; cl != nil {
					for _, cb := range cl.Backs {
						cevs, _ := cb.EventsSince(cl)
						for _, x := range cevs {
							if x.Name == ixwM+"AddFile" || x.Name == ixwM+"Add" {
								c.Check(isCall(x.Args[0], createIdx), "walked", cons+" index", posOf(x), "files are added to %s", x.Args[0])
							}
						}
					}
				}
			}
			if !c.Check(n == 1 && seq != nil, "walked", cons+" each", l.Pos, "a recorded root is walked %d times", n) {
				continue
			}
			c.wholeScan(l, bi, seq, idx, "walked", cons)
			k := 0
			for _, e := range b.Events(false) {
				if e.Name == ixwM+"AddRoots" {
					k++
					c.Check(e.Args[1] == seq, "walked", cons+" same", posOf(e), "the roots recorded are %s, those walked %s", e.Args[1], seq)
				}
			}
			c.Check(k == 1, "recorded", cons+" once", l.Pos, "the roots are recorded %d times before the walk", k)
		}
	}
	for _, e := range r.Events {
		if isWalk(e.Name) {
			in := false
			for l := range walks {
				in = in || e.St.Inside(l)
			}
			c.Check(in, "walked", cons+" loop", posOf(e), "a walk outside the loop over the roots")
		}
		if e.Name != ixwM+"Flush" {
			continue
		}
		passed := false
		for _, p := range e.St.Passed() {
			passed = passed || walks[p] && !e.St.Inside(p)
		}
		c.Check(passed, "flushed-after", cons, posOf(e), "the index can be flushed before the roots are walked")
		k := 0
		for _, x := range e.St.Events(false) {
			if x.Name == ixwM+"AddRoots" {
				k++
				c.Check(x.Args[0] == e.Args[0], "recorded", cons+" same index", posOf(e), "roots are recorded in another index than the one flushed")
			}
		}
		c.Check(k == 1, "recorded", cons+" at flush", posOf(e), "the roots are recorded %d times", k)
	}
	c.listing(r, cons)
	c.keptRoots()
	c.Min("flushed-after", 1)
	for rule, n := range map[string]int{"recorded": 3, "walked": 5, "existing": 2, "absolute": 4, "nested": 4, "sorted": 1, "listed": 2} {
		c.Min(rule, n)
	}
}

// rootsValue checks one value of the recorded roots.
func (c *Ctx) rootsValue(r *eng.Run, st *eng.State, v *eng.Term, cons string) {
	none, some := argless(st)
	if js := r.JoinSources(v); len(js) > 0 {
		for _, j := range js {
			c.rootsValue(r, st, j, cons)
		}
		return
	}
	// all at once
	if isCall(v, "slices.Collect") {
		c.Check(allRoots(v.Args[0]) && none, "existing", cons, 0, "the roots recorded are those of %s", v.Args[0])
		return
	}
	p := r.PhiOf(v)
	if !c.Check(p != nil, "recorded", cons+" value", 0, "the roots recorded are %s", v) {
		return
	}
	l := phiLoop(r, p)
	if l.Callback {
		h := hostOf(r, l)
		c.Check(h != nil && len(h.Args) > 0 && allRoots(h.Args[0]), "existing", cons+" from", l.Pos, "without arguments, the roots recorded are not those of the existing index")
		c.Check(none, "existing", cons+" when", l.Pos, "the roots of the existing index can be recorded although there are arguments")
		c.Check(eng.Len(p.Init) == eng.Int(0), "existing", cons+" start", l.Pos, "the roots start as %s", p.Init)
		for i, b := range p.Backs {
			ok := b.Op == "append" && b.Args[0] == p.Sym && len(l.Params) == 1 && madeFrom(appended(b)) != nil && madeFrom(appended(b)) == madeFrom(l.Params[0])
			c.Check(ok, "existing", cons+" each", l.Pos, "a root of the existing index is not recorded: %s", b)
			c.goesOn(l, i, "existing", cons)
		}
		return
	}
	c.Check(some, "nested", cons+" when", l.Pos, "the arguments can be taken although there may be none")
	// without the roots inside others
	var src *eng.Term
	for bi, b := range l.Backs {
		val := p.Backs[bi]
		list := p.Sym
		last := func(t *eng.Term) bool {
			q, i, ok := pathVal(t)
			return ok && q == list && i == eng.AddK(eng.Len(list), -1)
		}
		var elem, idx *eng.Term
		var inside, outside bool
		for _, f := range b.Facts {
			g, neg := f, false
			if f.Op == "not" {
				g, neg = f.Args[0], true
			}
			if !isCall(g, inPath) || !last(g.Args[1]) {
				continue
			}
			q, i, ok := pathVal(g.Args[0])
			if !ok {
				continue
			}
			elem, idx = q, i
			inside, outside = inside || !neg, outside || neg
		}
		switch {
		case val == p.Sym:
			c.Check(inside, "nested", cons+" dropped", l.Pos, "a root can be left out although it is not inside the recorded root before it")
		case val.Op == "append" && val.Args[0] == p.Sym && appended(val) != nil:
			q, i, ok := pathVal(appended(val))
			if !c.Check(ok && (elem == nil || elem == q && idx == i), "nested", cons+" kept", l.Pos, "the root recorded is %s", appended(val)) {
				return
			}
			elem, idx = q, i
			c.Check(outside || b.Implies(eng.EqInt(eng.Len(p.Sym), eng.Int(0))), "nested", cons+" kept why", l.Pos, "a root can be recorded although it is inside the recorded root before it")
		default:
			c.Check(false, "nested", cons+" value", l.Pos, "the roots become %s", val)
			return
		}
		if src != nil && src != elem {
			c.Check(false, "nested", cons+" source", l.Pos, "roots come from %s and %s", src, elem)
		}
		if !c.Check(elem != nil, "nested", cons+" element", l.Pos, "cannot tell which root is left out") {
			return
		}
		src = elem
		c.wholeScan(l, bi, elem, idx, "nested", cons)
	}
	c.Check(eng.Len(p.Init) == eng.Int(0), "nested", cons+" start", l.Pos, "the roots start as %s", p.Init)
	if src == nil {
		return
	}
	// sorted
	sorted := 0
	for _, e := range l.Entry.Events(false) {
		if len(e.Args) == 0 || unwrap(e.Args[0]) != src {
			continue
		}
		switch {
		case strings.HasPrefix(e.Name, "slices.SortFunc") || strings.HasPrefix(e.Name, "slices.SortStableFunc"):
			ok := false
			f := unwrap(e.Args[1])
			if f.Op == "func" && strings.HasPrefix(f.Aux, cmpPath) {
				ok = true
			} else if cb := e.Callback; cb != nil && len(cb.Params) == 2 {
				ok = len(cb.Backs) > 0
				for _, b := range cb.Backs {
					evs, _ := b.EventsSince(cb)
					var ret *eng.Term
					for _, x := range evs {
						if x.Kind == "return" && x.Fn == cb.Fn {
							ret = x.Args[0]
						}
					}
					ok = ok && isCall(ret, cmpPath) && madeFrom(ret.Args[0]) == madeFrom(cb.Params[0]) && madeFrom(ret.Args[1]) == madeFrom(cb.Params[1])
				}
			}
			c.Check(ok, "sorted", cons+" order", posOf(e), "the roots are not sorted in the order of the index")
			sorted++
		case strings.HasPrefix(e.Name, "slices.") && e.Name != "slices.Clip" && e.Name != "slices.Grow", strings.HasPrefix(e.Name, "sort."):
			c.Check(false, "sorted", cons+" other", posOf(e), "the roots are rearranged by %s", e.Name)
		}
	}
	c.Check(sorted == 1, "sorted", cons, l.Pos, "the roots are sorted %d times before those inside others are dropped", sorted)
	// the absolute arguments
	ap := r.PhiOf(src)
	if !c.Check(ap != nil, "absolute", cons+" value", l.Pos, "the roots to record are %s", src) {
		return
	}
	al := phiLoop(r, ap)
	c.Check(eng.Len(ap.Init) == eng.Int(0), "absolute", cons+" start", al.Pos, "the roots start as %s", ap.Init)
	for bi, b := range al.Backs {
		evs, _ := b.EventsSince(al)
		var abs *eng.Event
		for _, e := range evs {
			if e.Name == absPath {
				abs = e
			}
		}
		if !c.Check(abs != nil, "absolute", cons+" made", al.Pos, "an argument is recorded or dropped without its absolute path") {
			continue
		}
		a := abs.Args[0]
		if c.Check(a.Op == "ld" && a.Args[0].Op == "elem" && isCall(a.Args[0].Args[0], "flag.Args"), "absolute", cons+" argument", posOf(abs), "the path made absolute is %s, not an argument", a) {
			c.wholeScan(al, bi, a.Args[0].Args[0], a.Args[0].Args[1], "absolute", cons)
		}
		val := ap.Backs[bi]
		switch {
		case val == ap.Sym:
			c.Check(b.Implies(eng.Not(isNilTerm(abs.Result(1)))), "absolute", cons+" dropped", al.Pos, "an argument can be dropped although it has an absolute path")
		case val.Op == "append" && val.Args[0] == ap.Sym && appended(val) != nil:
			x := madeFrom(appended(val))
			c.Check(x == abs.Result(0), "absolute", cons+" kept", al.Pos, "the root recorded is %s, not the argument's absolute path", x)
		default:
			c.Check(false, "absolute", cons+" other", al.Pos, "the roots become %s", val)
		}
	}
}

// goesOn checks that the callback of back edge i asks for the next element.
func (c *Ctx) goesOn(l *eng.Loop, i int, rule, cons string) {
	evs, _ := l.Backs[i].EventsSince(l)
	ok := false
	for _, e := range evs {
		if e.Kind == "return" && e.Fn == l.Fn {
			ok = len(e.Args) == 1 && (e.Args[0] == eng.True || l.Backs[i].Implies(e.Args[0]))
		}
	}
	c.Check(ok, rule, cons+" next", l.Pos, "the iteration can stop before the last root")
}

// listing checks what -list does.
func (c *Ctx) listing(r *eng.Run, cons string) {
	isList := func(st *eng.State) (yes, no bool) {
		return factOf(st, func(t *eng.Term) bool { return flagLoad(c, t, "list") })
	}
	n := 0
	for _, t := range r.Terms {
		yes, no := isList(t.St)
		if !c.Check(yes != no || t.Kind != "return" || t.St.Implies(eng.False), "listed", cons+" asked", 0, "cindex can finish without having looked at -list") || !yes || t.Kind != "return" {
			continue
		}
		// exactly one pass over all the roots
		passes := 0
		for _, l := range t.St.Passed() {
			h := hostOf(r, l)
			if !l.Callback || h == nil || len(h.Args) == 0 || !allRoots(h.Args[0]) {
				continue
			}
			passes++
			for i, b := range l.Backs {
				evs, _ := b.EventsSince(l)
				k := 0
				for _, e := range evs {
					if strings.HasPrefix(e.Name, "fmt.") {
						k++
						c.Check(c.printsLine(b, e, madeFrom(l.Params[0])), "listed", cons+" line", posOf(e), "a root is not printed as one line")
					}
				}
				c.Check(k == 1, "listed", cons+" each", l.Pos, "a root is printed %d times", k)
				c.goesOn(l, i, "listed", cons)
			}
		}
		if passes > 0 {
			n++
		}
		c.Check(passes == 1, "listed", cons+" all", 0, "-list looks at the roots %d times", passes)
		for _, e := range t.St.Events(false) {
			c.Check(e.Name != createIdx && e.Name != idxPkg+"Merge", "listed", cons+" only", posOf(e), "-list also calls %s", e.Name)
		}
	}
	for _, e := range r.Events {
		if e.Name == createIdx || e.Name == idxPkg+"Merge" {
			_, no := isList(e.St)
			c.Check(no, "listed", cons+" not indexing", posOf(e), "an index can be created although -list may have been given")
		}
	}
	c.Check(n > 0, "listed", cons+" found", 0, "no path prints the roots")
}

// printsLine reports whether e prints p and a newline.
func (c *Ctx) printsLine(st *eng.State, e *eng.Event, p *eng.Term) bool {
	args := e.Args
	if len(args) == 0 {
		return false
	}
	vs, ok := varArgs(st, args[len(args)-1])
	if !ok {
		return false
	}
	isP := func(t *eng.Term) bool { return madeFrom(unwrap(t)) == p }
	switch e.Name {
	case "fmt.Printf":
		return (args[0] == eng.Str("%s\n") || args[0] == eng.Str("%v\n")) && len(vs) == 1 && isP(vs[0])
	case "fmt.Println":
		return len(vs) == 1 && isP(vs[0])
	}
	return false
}

// keptRoots checks that the roots given to the writer are all kept.
func (c *Ctx) keptRoots() {
	f := c.Func("index", "IndexWriter.AddRoots")
	if f == nil {
		return
	}
	r := c.Analyze(f, &eng.Config{})
	for _, t := range r.Terms {
		ok := false
		for _, a := range t.St.HeapKeys() {
			if a.Op != "field" || a.Args[0] != r.Params[0] {
				continue
			}
			v := t.St.HeapAt(a)
			old := v
			if v.Op == "append" {
				old = v.Args[0]
			}
			ok = ok || v.Op == "append" && v.Aux != "elems" && len(v.Args) == 2 && isLoadOf(old, a) && v.Args[1] == r.Params[1]
		}
		c.Check(ok, "kept", "IndexWriter.AddRoots", f.Pos(), "the writer does not keep all the roots it is given after those it has")
	}
	c.Min("kept", 1)
}
