package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C30",
		Explanation: "Path-sensitive analysis of cgrep's main function and of the engine's methods that search a file and a stream. cgrep: on every path around the loop over the command line exactly one search is made, of the argument the loop is at; " +
			"the loop starts at the argument after the pattern, goes up by one and is left only after the last; on every path to the end of the program either that loop was passed and there is known to be more than one argument, or standard input was searched once and there is known to be exactly one. " +
			"Engine: on every path on which a file could not be opened, or the last read failed with an error other than the ends of input, a message that holds the error (and for a read the name) is written to the engine's error output; on the others nothing is written there.",
		Assumptions: []string{"package os, flag and io.ReadFull", "an error of os.Open names the file"},
		Run:         runGiven,
	})
}

func runGiven(c *Ctx) {
	c.givenArgs()
	c.openReported()
	for _, i := range []int{0, 3, 5} {
		for _, v := range []bool{false, true} {
			if g := c.grepMode(grepModes[i], v); g != nil {
				c.readReported(g)
			}
		}
	}
	c.Min("argument", 1)
	c.Min("all-arguments", 3)
	c.Min("input", 2)
	c.Min("reported", 3)
}

// argOf returns the number of the command-line argument t is (after the
// flags).
func argOf(t *eng.Term) (idx *eng.Term, ok bool) {
	if isCall(t, "flag.Arg") {
		return t.Args[0], true
	}
	if t.Op == "ld" && t.Args[0].Op == "elem" {
		a, i := t.Args[0].Args[0], t.Args[0].Args[1]
		for a.Op == "slice" {
			i = eng.Add(i, a.Args[1])
			a = a.Args[0]
		}
		if isCall(a, "flag.Args") {
			return i, true
		}
	}
	return nil, false
}

// shifted returns the variable that holds the arguments left, if t is the
// first of them, and the number of the first one it holds at first.
func shifted(r *eng.Run, t *eng.Term) (*eng.Phi, int64) {
	if t.Op != "ld" || t.Args[0].Op != "elem" || t.Args[0].Args[1] != eng.Int(0) {
		return nil, 0
	}
	p := r.PhiOf(t.Args[0].Args[0])
	if p == nil {
		return nil, 0
	}
	k := int64(0)
	for v := p.Init; ; v = v.Args[0] {
		if isCall(v, "flag.Args") {
			return p, k
		}
		if v.Op != "slice" || !v.Args[1].IsInt() {
			return nil, 0
		}
		k += v.Args[1].K
	}
}

// argCount lists the terms for the number of arguments that st speaks of.
func argCount(st *eng.State) (out []*eng.Term) {
	seen := map[*eng.Term]bool{}
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			n := t
			if isCall(t, "flag.Args") {
				n = eng.Len(t)
			}
			if (isCall(t, "flag.Args") || isCall(t, "flag.NArg")) && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
			return true
		})
	}
	return out
}

// argsKnown reports whether st knows the number of arguments to satisfy ok.
func argsKnown(st *eng.State, ok func(n *eng.Term) *eng.Term) bool {
	for _, n := range argCount(st) {
		if st.Implies(ok(n)) {
			return true
		}
	}
	return false
}

// searchesOf lists what is searched by the events: names of files searched
// under their own name, and readers.
func searchesOf(evs []*eng.Event, st *eng.State) (files, readers []*eng.Term, bad string) {
	opens := map[*eng.Term]*eng.Event{}
	for _, e := range evs {
		switch {
		case e.Name == openFile:
			opens[unwrap(e.Result(0))] = e
			if st.Implies(eng.Not(eng.Eq(e.Result(1), eng.Nil, nil))) {
				// reported or not: that is decided elsewhere for the engine
				files = append(files, e.Args[0])
			}
		case e.Name == grepT+"File":
			files = append(files, e.Args[1])
		case e.Name == grepT+"Reader":
			rd := unwrap(e.Args[1])
			if o := opens[rd]; o != nil {
				if o.Args[0] != e.Args[2] {
					bad = "a file is searched under another name"
				}
				if !st.Implies(eng.Eq(o.Result(1), eng.Nil, nil)) {
					bad = "a file is searched although it could not be opened"
				}
				files = append(files, o.Args[0])
				continue
			}
			readers = append(readers, rd)
		}
	}
	return
}

func isStdin(t *eng.Term) bool {
	return t.Op == "ld" && t.Args[0].Op == "global" && t.Args[0].Aux == "os.Stdin"
}

func (c *Ctx) givenArgs() {
	const rel = "cmd/cgrep"
	main := c.Func(rel, "main")
	if main == nil {
		return
	}
	interesting := func(n string) bool { return isSearch(n) || n == openFile || strings.HasPrefix(n, "flag.") }
	r := c.Analyze(main, &eng.Config{
		Join: 150, Entries: 64, MaxStates: 1000, KeepFacts: true,
		Opaque:   func(f *ssa.Function) bool { return fnPkg(f) != nil && !strings.HasSuffix(fnPkg(f).Path(), rel) },
		Target:   targetNames(interesting),
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && interesting(e.Name) },
	})
	cons := rel + ":main"
	loops := map[*eng.Loop]bool{}
	for _, l := range r.Loops {
		search := false
		for _, b := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
			evs, ok := b.EventsSince(l)
			for _, e := range evs {
				search = search || ok && isSearch(e.Name)
			}
		}
		if !search {
			continue
		}
		loops[l] = true
		var idx *eng.Term
		var phi *eng.Phi
		for bi, b := range l.Backs {
			evs, _ := b.EventsSince(l)
			files, readers, bad := searchesOf(evs, b)
			c.Check(bad == "", "argument", cons+" name", l.Pos, "%s", bad)
			if !c.Check(len(files) == 1 && len(readers) == 0, "argument", cons, l.Pos, "a path around the loop over the arguments makes %d searches of files and %d of streams", len(files), len(readers)) {
				continue
			}
			if p, k := shifted(r, files[0]); p != nil {
				idx, phi = p.Sym, p
				c.Check(k == 1, "all-arguments", cons+" first", l.Pos, "the first argument searched is number %d, not the one after the pattern", k)
				v := p.Backs[bi]
				c.Check(v.Op == "slice" && v.Args[0] == p.Sym && v.Args[1] == eng.Int(1) && v.Args[2] == eng.Len(p.Sym), "all-arguments", cons+" next", l.Pos, "the arguments left become %s", v)
				continue
			}
			i, ok := argOf(files[0])
			if !c.Check(ok, "argument", cons+" which", l.Pos, "what is searched is %s, not an argument", files[0]) {
				continue
			}
			if idx != nil && i != idx {
				c.Check(false, "argument", cons+" same", l.Pos, "paths search different arguments")
				continue
			}
			idx = i
			for _, p := range l.Phis {
				k, ok := eng.DiffConst(idx, p.Sym)
				if !ok {
					continue
				}
				phi = p
				c.Check(eng.AddK(p.Init, k) == eng.Int(1), "all-arguments", cons+" first", l.Pos, "the first argument searched is number %s, not the one after the pattern", eng.AddK(p.Init, k))
				c.Check(p.Backs[bi] == eng.AddK(p.Sym, 1), "all-arguments", cons+" next", l.Pos, "after argument %s comes %s", idx, eng.AddK(p.Backs[bi], k))
			}
			c.Check(phi != nil, "all-arguments", cons+" order", l.Pos, "cannot tell the order in which the arguments are searched")
		}
		if idx == nil {
			continue
		}
		done := func(st *eng.State) bool {
			if !isNumeric(idx.Typ) && phi != nil && phi.Sym == idx {
				return st.Implies(eng.Le(eng.Len(idx), eng.Int(0)))
			}
			return st.Implies(eng.False) || argsKnown(st, func(n *eng.Term) *eng.Term { return eng.Le(n, idx) })
		}
		for _, x := range l.Exits {
			c.Check(done(x), "all-arguments", cons+" last", l.Pos, "the search can stop before the last argument")
		}
		for _, t := range r.Terms {
			if t.Kind != "panic" && t.St.Inside(l) {
				c.Check(done(t.St), "all-arguments", cons+" return", l.Pos, "the program can end before the last argument is searched")
			}
		}
	}
	c.Check(len(loops) > 0, "all-arguments", cons+" loop", main.Pos(), "no loop over the arguments found")
	for _, t := range r.Terms {
		if t.Kind != "return" && !(t.Kind == "fatal" && t.Ev != nil && t.Ev.Name == "os.Exit" && t.Ev.Args[0].IsInt() && t.Ev.Args[0].K < 2) {
			continue
		}
		passed := false
		for _, l := range t.St.Passed() {
			passed = passed || loops[l]
		}
		n := 0
		for _, e := range t.St.Events(false) {
			if e.Name == grepT+"Reader" && isStdin(unwrap(e.Args[1])) {
				n++
			}
		}
		one := argsKnown(t.St, func(n *eng.Term) *eng.Term { return eng.EqInt(n, eng.Int(1)) })
		more := argsKnown(t.St, func(n *eng.Term) *eng.Term { return eng.Not(eng.EqInt(n, eng.Int(1))) })
		switch {
		case n > 0:
			c.Check(n == 1 && one, "input", cons+" stdin", main.Pos(), "standard input is searched although files are named, or more than once")
		default:
			c.Check(passed && more, "input", cons+" files", main.Pos(), "the program can end without having searched the files named, or standard input if none is")
		}
	}
}

// toStderr reports whether e writes to the engine's error output, and what.
func toStderr(e *eng.Event, g *eng.Term) bool {
	if !grepOut(e.Name) {
		return false
	}
	w := unwrap(e.Args[0])
	return w.Op == "ld" && w.Args[0] == fieldAddr(g, "Stderr")
}

// says reports whether the message of e has x in it.
func says(r *eng.Run, e *eng.Event, x *eng.Term) bool {
	has := func(t *eng.Term) bool { return t.Any(func(y *eng.Term) bool { return y == x }) }
	st := e.St
	for _, o := range r.Events {
		if o.Orig == e {
			st = o.St
		}
	}
	if st == nil {
		return false
	}
	var in func(t *eng.Term, depth int) bool
	in = func(t *eng.Term, depth int) bool {
		if has(t) {
			return true
		}
		if vs, ok := varArgs(st, t); ok {
			for _, v := range vs {
				if depth < 3 && in(v, depth+1) {
					return true
				}
			}
			return false
		}
		// a message made before
		found := false
		t.Walk(func(y *eng.Term) bool {
			if depth < 3 && (isCall(y, "fmt.Sprintf") || isCall(y, "fmt.Sprint") || isCall(y, "fmt.Sprintln")) {
				for _, z := range y.Args {
					found = found || in(z, depth+1)
				}
			}
			return !found
		})
		return found
	}
	for _, a := range e.Args[1:] {
		if in(a, 0) {
			return true
		}
	}
	return false
}

// openReported decides that a file that cannot be opened is reported.
func (c *Ctx) openReported() {
	fn := c.Func("regexp", "Grep.File")
	if fn == nil {
		return
	}
	want := func(n string) bool { return isSearch(n) || n == openFile || grepOut(n) }
	r := c.Analyze(fn, &eng.Config{
		KeepFacts: true,
		Opaque:    func(f *ssa.Function) bool { return isSearch(fullName(f)) },
		Target:    targetNames(want),
		Interest:  func(e *eng.Event) bool { return e.Kind == "call" && want(e.Name) },
	})
	cons := fnLabel(fn)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		var op *eng.Event
		var rep []*eng.Event
		for _, e := range t.St.Events(false) {
			switch {
			case e.Name == openFile:
				op = e
			case toStderr(e, r.Params[0]):
				rep = append(rep, e)
			}
		}
		if !c.Check(op != nil, "reported", cons+" opened", fn.Pos(), "a path does not open the file") {
			continue
		}
		if t.St.Implies(eng.Eq(op.Result(1), eng.Nil, nil)) {
			c.Check(len(rep) == 0, "reported", cons+" spurious", posOf(op), "an error is reported although the file was opened")
			continue
		}
		c.Check(len(rep) == 1 && says(r, rep[0], op.Result(1)), "reported", cons+" open", posOf(op), "a file that cannot be opened is not reported, once and with the error")
	}
}

var inputEnds = []string{"io.EOF", "io.ErrUnexpectedEOF"}

// endsKnown reports whether st knows err to be one of the ends of input, and
// whether it knows it to be none of them.
func endsKnown(st *eng.State, err *eng.Term) (is, not bool) {
	not = true
	for _, name := range inputEnds {
		no := false
		for _, f := range st.Facts {
			neg := f.Op == "not"
			if neg {
				f = f.Args[0]
			}
			end := func(t *eng.Term) bool { return t.Op == "ld" && t.Args[0].Op == "global" && t.Args[0].Aux == name }
			if !(f.Op == "eq" && (f.Args[0] == err && end(f.Args[1]) || f.Args[1] == err && end(f.Args[0])) || isCall(f, "errors.Is") && f.Args[0] == err && end(f.Args[1])) {
				continue
			}
			if neg {
				no = true
			} else {
				is = true
			}
		}
		not = not && no
	}
	return is, not
}

// readReported decides that a read that fails is reported.
func (c *Ctx) readReported(g *grepRun) {
	cons := fnLabel(g.fn)
	n := 0
	for _, t := range g.r.Terms {
		if t.Kind != "return" {
			continue
		}
		if lim := grepField(t.St, g.g, "Limited"); lim != nil && t.St.Implies(lim) {
			continue
		}
		var rd *eng.Event
		var rep []*eng.Event
		for _, e := range t.St.Events(false) {
			switch {
			case isRead(e.Name):
				rd = e
				rep = nil
			case toStderr(e, g.g):
				rep = append(rep, e)
			}
		}
		if !c.Check(rd != nil, "reported", cons+" read", g.fn.Pos(), "a path ends without reading") {
			continue
		}
		n++
		err := rd.Result(1)
		is, not := endsKnown(t.St, err)
		if len(rep) > 0 {
			c.Check(not, "reported", cons+" spurious", posOf(rd), "an error is reported although the read may have reached the end of the input")
		}
		if is {
			c.Check(len(rep) == 0, "reported", cons+" end", posOf(rd), "reaching the end of the input is reported as an error")
			continue
		}
		c.Check(!t.St.Implies(eng.Eq(err, eng.Nil, nil)), "reported", cons+" whole", posOf(rd), "the search ends although the last read filled the buffer")
		c.Check(len(rep) == 1 && says(g.r, rep[0], err) && says(g.r, rep[0], g.name), "reported", cons+" failed", posOf(rd), "a read that fails is not reported, once, with the name and the error")
	}
	c.Check(n >= 2, "reported", cons+" ends "+g.label, g.fn.Pos(), "fewer ways to the end of the search than expected")
}
