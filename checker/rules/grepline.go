package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const reMatch = "(*" + load.Module + "/regexp.Regexp).Match"

func init() {
	register(&Rule{
		ID: "C19",
		Explanation: "Loop-transition analysis of the search engine's reader, once per output mode (flag values fixed, pattern matcher abstract): the loop that asks for matches and the loop that reads are found by what they call. On every path through an iteration it is decided, by symbolic linear arithmetic over positions in the buffer, that " +
			"the matcher is given exactly the bytes not yet dealt with, that the result is taken for a line exactly when it is one, that the next position is just after that line, that the text printed is that line, once, preceded by what the mode asks for, that the number printed is one more than the newlines passed, " +
			"and, between reads, that no byte is dropped or seen twice, that the line number accounts for what is left behind, that only the first question is about the beginning of the text and only the ones after the last read about its end. With -v the lines asked about are the lines of the buffer, one at a time, and a line is selected exactly when the matcher finds nothing in it.",
		Assumptions: []string{"the matcher returns the end of the first matching line, or -1 (decided by C18)", "package bytes, io.ReadFull and fmt", "lines are at most as long as the buffer; the lines of context shown around a match are not decided beyond the matching line itself"},
		Run:         runGrepLines,
	})
}

// A grepMode is one combination of flags.
type grepMode struct {
	name string
	set  map[string]int64
}

var grepModes = []grepMode{
	{"plain", nil},
	{"-h", map[string]int64{"H": 1}},
	{"-n", map[string]int64{"N": 1}},
	{"-n -h", map[string]int64{"N": 1, "H": 1}},
	{"-l", map[string]int64{"L": 1}},
	{"-c", map[string]int64{"C": 1}},
	{"-A 2 -B 1", map[string]int64{"PreContext": 1, "PostContext": 2}},
	{"html", map[string]int64{"HTML": 1}},
	{"html -l", map[string]int64{"HTML": 1, "L": 1}},
	{"html -c", map[string]int64{"HTML": 1, "C": 1}},
}

// A grepRun is the analysis of the reader in one mode.
type grepRun struct {
	c        *Ctx
	mode     grepMode
	r        *eng.Run
	g        *eng.Term
	name     *eng.Term
	fn       *ssa.Function
	inner    []*eng.Loop // loops whose iterations ask the matcher
	quiet    bool        // only the match flag is of interest
	label    string
	outer    []*eng.Loop
	inverted bool
	lineLo   *eng.Term
	at       map[*eng.Event]*eng.State
	numBases []numUse
}

func isRead(n string) bool {
	return n == "io.ReadFull" || n == "(io.Reader).Read" || n == "io.ReadAtLeast" || n == "io.ReadAll"
}

func grepOut(n string) bool {
	switch n {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString", "(io.Writer).Write", "(io.StringWriter).WriteString":
		return true
	}
	return false
}

func (c *Ctx) grepMode(m grepMode, v bool) *grepRun {
	fn := c.Func("regexp", "Grep.Reader")
	if fn == nil {
		return nil
	}
	g := eng.SymOf("g", fn.Params[0].Type())
	want := func(n string) bool { return n == reMatch || isRead(n) || grepOut(n) || n == "copy" }
	cfg := &eng.Config{
		Join: 400, Entries: 32, MaxStates: 3000, KeepFacts: true,
		Opaque: func(f *ssa.Function) bool { return fullName(f) == reMatch || c.countsNewlines(f) || c.suffixLen(f) },
		Target: func(in ssa.Instruction, n string) bool { return n == reMatch || isRead(n) || grepOut(n) },
		Interest: func(e *eng.Event) bool {
			return e.Kind == "copy" || e.Kind == "call" && want(e.Name) || e.Kind == "store" && strings.HasSuffix(e.Name, "regexp.Grep.Match")
		},
		Stores: func(a *eng.Term) bool { return a == fieldAddr(g, "Match") },
	}
	st := g.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	cfg.Init = func(s *eng.State) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			a := eng.FieldAddr(g, st, i)
			k := m.set[f.Name()]
			switch f.Name() {
			case "V":
				s.Set(a, eng.Bool(v))
			case "L", "C", "N", "H", "HTML":
				s.Set(a, eng.Bool(k != 0))
			case "PreContext", "PostContext":
				s.Set(a, eng.Int(k))
			}
		}
	}
	r := c.Analyze(fn, cfg, g)
	gr := &grepRun{c: c, mode: m, r: r, g: g, fn: fn, label: m.name}
	gr.name = r.Params[2]
	for _, l := range r.Loops {
		for _, b := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
			evs, _ := b.EventsSince(l)
			for _, e := range evs {
				if e.Name == reMatch {
					gr.inner = append(gr.inner, l)
				}
			}
			if len(gr.inner) > 0 && gr.inner[len(gr.inner)-1] == l {
				break
			}
		}
	}
	return gr
}

func inModule(f *ssa.Function) bool { return fnPkg(f) != nil && inModulePkg(fnPkg(f)) }

var helperKind = map[*ssa.Function]string{}

func (c *Ctx) helper(f *ssa.Function) string {
	if k, ok := helperKind[f]; ok {
		return k
	}
	helperKind[f] = ""
	k := ""
	switch sig := f.Signature; {
	case sig.Recv() != nil || !inModule(f) || len(f.Blocks) == 0 || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != "int" ||
		sig.Params().Len() == 0 || sig.Params().At(0).Type().String() != "[]byte":
	case sig.Params().Len() == 1:
		if c.isCounter(f) {
			k = "count"
		}
	case sig.Params().Len() == 2 && sig.Params().At(1).Type().String() == "int":
		if c.isSuffix(f) || (&ctxRun{c: c}).lines(f, true) == "" {
			k = "suffix"
		}
	}
	helperKind[f] = k
	return k
}

// countsNewlines reports whether f returns the number of newlines in its
// only argument.
func (c *Ctx) countsNewlines(f *ssa.Function) bool { return c.helper(f) == "count" }

// suffixLen reports whether f returns the length of a suffix of its first
// argument that begins at its start or after a newline.
func (c *Ctx) suffixLen(f *ssa.Function) bool { return c.helper(f) == "suffix" }

// chunk is a range of bytes of base.
type chunk struct{ base, lo, hi *eng.Term }

func chunkOf(t *eng.Term) chunk {
	t = stripConv(t)
	if t.Op == "slice" {
		return chunk{t.Args[0], t.Args[1], t.Args[2]}
	}
	return chunk{t, eng.Int(0), eng.Len(t)}
}

func (a chunk) eq(b chunk) bool { return a.base == b.base && same(a.lo, b.lo) && same(a.hi, b.hi) }

func same(a, b *eng.Term) bool {
	k, ok := eng.DiffConst(a, b)
	return a == b || ok && k == 0
}

// isNL reports whether t is the newline, as a byte or as a sequence.
func (c *Ctx) isNL(t *eng.Term) bool {
	t = stripConv(t)
	switch t.Op {
	case "int":
		return t.K == '\n'
	case "str":
		return t.Aux == "\n"
	case "ld":
		return t.Args[0].Op == "global" && c.newlineGlobal(t.Args[0].Aux)
	}
	return false
}

// newlineGlobal reports whether the global is a []byte or string that holds
// a newline and is written by the initialiser only.
func (c *Ctx) newlineGlobal(aux string) bool {
	g := graphOf(c.P)
	ss := g.storesOfGlobal(aux)
	if len(ss) != 1 {
		return false
	}
	switch v := ss[0].Val.(type) {
	case *ssa.Const:
		return constStr(v) == "\n"
	case *ssa.Convert:
		return constStr(v.X) == "\n"
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return false
		}
		at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() != 1 {
			return false
		}
		n := 0
		good := true
		for _, u := range *a.Referrers() {
			ia, ok := u.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, uu := range *ia.Referrers() {
				st, ok := uu.(*ssa.Store)
				if !ok {
					good = false
					continue
				}
				k, ok := st.Val.(*ssa.Const)
				n++
				if !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != '\n' {
					good = false
				}
			}
		}
		return good && n == 1
	}
	return false
}

// nlIndex recognises the index of the first or last newline of a chunk.
func (c *Ctx) nlIndex(t *eng.Term) (ch chunk, last, ok bool) {
	if t.Op != "call" || len(t.Args) < 2 {
		return
	}
	for _, n := range []string{"bytes.IndexByte", "bytes.Index", "bytes.LastIndex", "bytes.LastIndexByte", "bytes.IndexRune"} {
		if isCall(t, n) && c.isNL(t.Args[1]) {
			return chunkOf(t.Args[0]), strings.Contains(n, "Last"), true
		}
	}
	return
}

// isCounter decides whether f counts newlines.
func (c *Ctx) isCounter(f *ssa.Function) bool {
	b := eng.SymOf("b", f.Params[0].Type())
	r := c.Analyze(f, &eng.Config{Join: 200, MaxStates: 500}, b)
	if r.Over || len(r.Terms) == 0 {
		return false
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return false
		}
		v := t.Rets[0]
		if isCall(v, "bytes.Count") && len(v.Args) >= 2 && v.Args[0] == b && c.isNL(v.Args[1]) {
			continue
		}
		// the number of newlines passed by a loop that passes them all
		p := r.PhiOf(v)
		if p == nil || p.Init != eng.Int(0) {
			return false
		}
		l := r.LoopOf(v)
		if l == nil || !c.counterLoop(r, l, p, b) {
			return false
		}
	}
	return true
}

func (c *Ctx) counterLoop(r *eng.Run, l *eng.Loop, p *eng.Phi, b *eng.Term) bool {
	init, _ := loopSubst(l, -1)
	// one newline at a time
	idxOf := func(st *eng.State) (idx *eng.Term, ch chunk) {
		for _, f := range st.Facts {
			f.Walk(func(t *eng.Term) bool {
				if cc, last, ok := c.nlIndex(t); ok && !last && idx == nil {
					idx, ch = t, cc
				}
				return true
			})
		}
		return
	}
	ok := len(l.Backs) > 0
	for i, st := range l.Backs {
		next, _ := loopSubst(l, i)
		idx, ch := idxOf(st)
		if idx != nil {
			// the search begins at the start, and again after each newline
			st0 := eng.Subst(eng.Slice(ch.base, ch.lo, ch.hi, nil, b.Typ), init)
			st1 := chunkOf(eng.Subst(eng.Slice(ch.base, ch.lo, ch.hi, nil, b.Typ), next))
			if !chunkOf(st0).eq(chunkOf(b)) || !st.Implies(eng.Le(eng.Int(0), idx)) ||
				st1.base != ch.base || !same(st1.lo, eng.AddK(eng.Add(ch.lo, idx), 1)) || !same(st1.hi, ch.hi) || !same(p.Backs[i], eng.AddK(p.Sym, 1)) {
				ok = false
			}
			continue
		}
		// one byte at a time
		at := byteFact(st, b)
		if at == nil || !same(eng.Subst(at, init), eng.Int(0)) || !same(eng.Subst(at, next), eng.AddK(at, 1)) {
			return false
		}
		ld := loadOf(st, b, at)
		switch {
		case ld == nil:
			ok = false
		case st.Implies(eng.EqInt(ld, eng.Int('\n'))):
			ok = ok && same(p.Backs[i], eng.AddK(p.Sym, 1))
		case st.Implies(eng.Not(eng.EqInt(ld, eng.Int('\n')))):
			ok = ok && same(p.Backs[i], p.Sym)
		default:
			ok = false
		}
	}
	for _, st := range l.Exits {
		idx, _ := idxOf(st)
		if idx != nil {
			ok = ok && st.Implies(eng.Lt(idx, eng.Int(0)))
			continue
		}
		done := false
		for _, q := range l.Phis {
			if q.Sym.Typ != nil && isNumeric(q.Sym.Typ) && (st.Implies(eng.Le(eng.Len(b), q.Sym)) || st.Implies(eng.Le(eng.Len(b), eng.AddK(q.Sym, 1)))) {
				done = true
			}
		}
		ok = ok && done
	}
	return ok
}

// loopSubst maps the loop's phis to their values after back edge i, or at
// the entry if i < 0.
func loopSubst(l *eng.Loop, i int) (map[*eng.Term]*eng.Term, bool) {
	m := map[*eng.Term]*eng.Term{}
	for _, p := range l.Phis {
		if i < 0 {
			m[p.Sym] = p.Init
		} else if i < len(p.Backs) {
			m[p.Sym] = p.Backs[i]
		}
	}
	return m, true
}

// byteAt returns the index of the byte of b the facts speak of.
func byteFact(st *eng.State, b *eng.Term) (at *eng.Term) {
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if t.Op == "ld" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == b {
				at = t.Args[0].Args[1]
			}
			return true
		})
	}
	return
}

// loadOf returns the load of b[at] in the facts.
func loadOf(st *eng.State, b, at *eng.Term) (ld *eng.Term) {
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if t.Op == "ld" && t.Args[0].Op == "elem" && t.Args[0].Args[0] == b && same(t.Args[0].Args[1], at) {
				ld = t
			}
			return true
		})
	}
	return
}

// isSuffix decides whether f's result is the length of its argument or what
// is left of it after a newline.
func (c *Ctx) isSuffix(f *ssa.Function) bool {
	b := eng.SymOf("b", f.Params[0].Type())
	r := c.Analyze(f, &eng.Config{Join: 200, MaxStates: 500}, b)
	if r.Over || len(r.Terms) == 0 {
		return false
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return false
		}
		for _, v := range leaves(r, t.Rets[0]) {
			if !c.lineBoundary(eng.Sub(eng.Len(b), v), b, eng.Len(b), true) {
				return false
			}
		}
	}
	return true
}

// lineBoundary reports whether position p of b[:n] is its end (or, if start,
// its start), or the start of a line.
func (c *Ctx) lineBoundary(p, b, n *eng.Term, start bool) bool {
	if same(p, n) && !start || start && same(p, eng.Int(0)) {
		return true
	}
	for _, a := range eng.Atoms(p) {
		if ch, _, ok := c.nlIndex(a); ok && ch.base == b && same(p, eng.AddK(eng.Add(ch.lo, a), 1)) {
			return true
		}
		if a.Op == "call" && len(a.Args) >= 2 && c.suffixName(a.Aux) {
			ch := chunkOf(a.Args[0])
			if ch.base == b && same(ch.lo, eng.Int(0)) && same(p, eng.Sub(ch.hi, a)) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) helperNamed(aux, kind string) bool {
	for f, k := range helperKind {
		if k == kind && (fullName(f) == aux || strings.HasPrefix(aux, fullName(f)+"@")) {
			return true
		}
	}
	return false
}

func (c *Ctx) suffixName(aux string) bool { return c.helperNamed(aux, "suffix") }

// nlCount recognises the number of newlines in a chunk.
func (c *Ctx) nlCount(t *eng.Term) (ch chunk, ok bool) {
	if t.Op != "call" || len(t.Args) == 0 {
		return
	}
	if isCall(t, "bytes.Count") && len(t.Args) >= 2 && c.isNL(t.Args[1]) || c.helperNamed(t.Aux, "count") {
		return chunkOf(t.Args[0]), true
	}
	return
}

// lastByte decides whether the byte before position hi of base is a newline:
// 1 yes, 0 no, -1 unknown.
func (c *Ctx) lastByte(st *eng.State, base, lo, hi *eng.Term) int {
	if st.Implies(eng.Le(hi, lo)) {
		return 0
	}
	if ld := loadOf(st, base, eng.AddK(hi, -1)); ld != nil {
		if st.Implies(eng.EqInt(ld, eng.Int('\n'))) {
			return 1
		}
		if st.Implies(eng.Not(eng.EqInt(ld, eng.Int('\n')))) {
			return 0
		}
	}
	for _, f := range st.Facts {
		neg := f.Op == "not"
		if neg {
			f = f.Args[0]
		}
		if isCall(f, "bytes.HasSuffix") && len(f.Args) >= 2 && c.isNL(f.Args[1]) {
			if ch := chunkOf(f.Args[0]); ch.base == base && same(ch.hi, hi) {
				if neg {
					return 0
				}
				return 1
			}
		}
	}
	return -1
}

// pieces splits what the events write to g.Stdout into literal strings and
// values.
func (g *grepRun) pieces(st *eng.State, evs []*eng.Event) (out []*eng.Term, ok bool) {
	add := func(t *eng.Term) {
		if t.Op == "str" {
			if t.Aux == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" {
				out[n-1] = eng.Str(out[n-1].Aux + t.Aux)
				return
			}
		}
		out = append(out, t)
	}
	var piece func(t *eng.Term)
	piece = func(t *eng.Term) {
		t = stripConv(unwrap(t))
		switch {
		case t.Op == "convstr":
			piece(t.Args[0])
		case t.Op == "cat":
			for _, a := range t.Args {
				piece(a)
			}
		case isCall(t, "html.EscapeString"):
			a := t.Args[0]
			if a.Op == "cat" || a.Op == "str" || a.Op == "convstr" {
				piece(a)
			} else {
				add(a)
			}
		case isCall(t, "strings.ReplaceAll") || isCall(t, "strconv.Itoa"):
			piece(t.Args[0])
		default:
			add(t)
		}
	}
	ok = true
	for _, e := range evs {
		if e.Kind != "call" || !grepOut(e.Name) {
			continue
		}
		if w := unwrap(e.Args[0]); w == nil || !strings.HasSuffix(w.String(), ".Stdout") {
			continue
		}
		switch e.Name {
		case "fmt.Fprintf":
			va, k := varArgs(g.stateAt(e, st), e.Args[2])
			if !k || e.Args[1].Op != "str" {
				return nil, false
			}
			f := e.Args[1].Aux
			for len(f) > 0 {
				i := strings.IndexByte(f, '%')
				if i < 0 {
					add(eng.Str(f))
					break
				}
				add(eng.Str(f[:i]))
				if i+1 >= len(f) {
					return nil, false
				}
				switch f[i+1] {
				case '%':
					add(eng.Str("%"))
				case 's', 'd', 'v':
					if len(va) == 0 {
						return nil, false
					}
					piece(va[0])
					va = va[1:]
				default:
					return nil, false
				}
				f = f[i+2:]
			}
			if len(va) > 0 {
				return nil, false
			}
		case "fmt.Fprint", "fmt.Fprintln":
			va, k := varArgs(g.stateAt(e, st), e.Args[1])
			if !k || e.Name == "fmt.Fprintln" && len(va) != 1 {
				return nil, false
			}
			for _, a := range va {
				piece(a)
			}
			if e.Name == "fmt.Fprintln" {
				add(eng.Str("\n"))
			}
		default:
			piece(e.Args[1])
		}
	}
	return out, true
}

func showPieces(ps []*eng.Term) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.String())
	}
	return strings.Join(ss, " | ")
}

func posOf(e *eng.Event) token.Pos {
	if e == nil || e.Instr == nil {
		return token.NoPos
	}
	return e.Instr.Pos()
}

func runGrepLines(c *Ctx) {
	for _, m := range grepModes {
		if g := c.grepMode(m, false); g != nil {
			g.check()
		}
	}
	for _, m := range []int{0, 2, 4, 5} {
		if g := c.grepMode(grepModes[m], true); g != nil {
			g.label = "-v " + g.label
			g.inverted = true
			g.check()
		}
	}
	c.grepFile()
	c.Min("question", 14)
	c.Min("selected", 20)
	c.Min("next-position", 12)
	c.Min("limit", 10)
	c.Min("file", 1)
	c.Min("printed", 20)
	c.Min("between-reads", 8)
	c.Min("begin-text", 20)
	c.Min("end-text", 20)
}

// A question is the range of bytes the matcher is asked about.
type question struct {
	ev     *eng.Event
	ch     chunk
	bt, et *eng.Term
}

func (g *grepRun) question(evs []*eng.Event) (q *question, n int) {
	for _, e := range evs {
		if e.Kind == "call" && e.Name == reMatch && len(e.Args) >= 4 {
			q = &question{ev: e, ch: chunkOf(e.Args[1]), bt: e.Args[2], et: e.Args[3]}
			n++
		}
	}
	return
}

func (g *grepRun) fail(rule, cons string, ev *eng.Event, format string, args ...any) {
	g.c.Check(false, rule, g.label+": "+cons, posOf(ev), format, args...)
}

func (g *grepRun) ok(rule string) { g.c.Check(true, rule, g.label, 0, "") }

func isAccept(e *eng.Event) bool {
	return e.Kind == "store" && strings.HasSuffix(e.Name, "regexp.Grep.Match")
}

func accepts(evs []*eng.Event) bool {
	for _, e := range evs {
		if isAccept(e) {
			return true
		}
	}
	return false
}

// check decides the mode's obligations.
func (g *grepRun) check() {
	if g.r.Over {
		g.fail("analysis", "budget", nil, "the reader could not be analysed completely")
		return
	}
	// The loops whose iterations select lines, and the one that reads.
	var sel []*eng.Loop
	for _, l := range g.r.Loops {
		acc := false
		for _, st := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
			if evs, _ := st.EventsSince(l); accepts(evs) {
				acc = true
			}
		}
		reads := false
		for _, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			for _, e := range evs {
				reads = reads || isRead(e.Name)
			}
		}
		if reads {
			g.outer = append(g.outer, l)
		} else if acc || g.asks(l) {
			sel = append(sel, l)
		}
	}
	if len(sel) == 0 || len(g.outer) == 0 {
		g.fail("analysis", "loops", nil, "the loops that read and that search were not found")
		return
	}
	for _, l := range sel {
		if g.inverted {
			g.invertedLoop(l)
		} else {
			g.searchLoop(l)
		}
	}
	if !g.quiet {
		for _, l := range sel {
			in := false
			for _, x := range sel {
				in = in || inside(l, x)
			}
			if !in {
				g.ends(l)
			}
		}
		for _, l := range g.outer {
			g.readLoop(l)
		}
	}
	for _, t := range g.r.Terms {
		done := false
		for _, l := range sel {
			if evs, ok := t.St.EventsSince(l); ok && accepts(evs) && !done {
				done = true
				q, _ := g.question(evs)
				var at *eng.Event
				if q != nil {
					at = q.ev
				}
				g.leaves(t.St, evs, at)
			}
		}
		if !done {
			g.terminal(t)
		}
	}
}

func (g *grepRun) asks(l *eng.Loop) bool {
	for _, st := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
		evs, _ := st.EventsSince(l)
		if q, _ := g.question(evs); q != nil {
			return true
		}
	}
	return false
}

// searchLoop decides one pass over what is in the buffer.
func (g *grepRun) searchLoop(l *eng.Loop) {
	for i, st := range l.Backs {
		g.iteration(l, i, st)
	}
	for _, st := range l.Exits {
		g.iteration(l, -1, st)
	}
}

// sub maps t to its value after back edge i.
func sub(l *eng.Loop, i int, t *eng.Term) *eng.Term {
	m, _ := loopSubst(l, i)
	return eng.Subst(t, m)
}

// iteration decides one path through an iteration that ends by going around
// again (i >= 0) or leaves.
func (g *grepRun) iteration(l *eng.Loop, i int, st *eng.State) {
	evs, _ := st.EventsSince(l)
	q, n := g.question(evs)
	if q == nil {
		if i >= 0 {
			g.fail("question", "around again", nil, "a path around the search loop does not ask the matcher")
			return
		}
		// left because nothing remains
		g.emptyExit(l, st)
		return
	}
	if n > 1 {
		g.fail("question", "twice", q.ev, "the matcher is asked twice in one iteration")
		return
	}
	g.ok("question")
	m := q.ev.Res
	ch := q.ch
	if m == nil {
		g.fail("question", "result", q.ev, "the matcher's result is not used")
		return
	}
	acc := accepts(evs)
	neg := st.Implies(eng.Lt(m, eng.Int(0)))
	atEnd := st.Implies(eng.EqInt(eng.Add(ch.lo, m), ch.hi))
	notEnd := st.Implies(eng.Not(eng.EqInt(eng.Add(ch.lo, m), ch.hi))) || st.Implies(eng.Lt(eng.Add(ch.lo, m), ch.hi))
	lb := g.c.lastByte(st, ch.base, ch.lo, ch.hi)
	if !acc {
		if i >= 0 {
			g.fail("selected", "skips", q.ev, "a path goes around the search loop without selecting the line found")
			return
		}
		if !g.c.Check(neg || atEnd && lb == 1, "selected", g.label+": not selected", posOf(q.ev), "the search is given up although the matcher may have found a line (neither no match nor the empty string after the last newline)") {
			return
		}
		g.silent(st, evs, "nothing found")
		return
	}
	if !g.c.Check(st.Implies(eng.Le(eng.Int(0), m)), "selected", g.label+": no match", posOf(q.ev), "a line is selected although the matcher may have found none") {
		return
	}
	if !g.c.Check(notEnd || lb == 0, "selected", g.label+": empty tail", posOf(q.ev), "a line is selected although the match may be the empty string after the last newline") {
		return
	}
	if g.quiet {
		return
	}
	// begin-text
	if i >= 0 {
		g.c.Check(sub(l, i, q.bt) == eng.False, "begin-text", g.label+": next", posOf(q.ev), "a question after the first may be taken to be about the beginning of the text")
		g.c.Check(sub(l, i, q.et) == q.et, "end-text", g.label+": next", posOf(q.ev), "whether a question is about the end of the text changes during the search")
		g.selectedLine(l, i, st, evs, q.ev, ch, m, chunkOf(sub(l, i, q.ev.Args[1])))
	}
	// what a path that leaves does is decided where it ends
}

// silent checks that nothing is written.
func (g *grepRun) silent(st *eng.State, evs []*eng.Event, what string) {
	if g.quiet {
		return
	}
	ps, ok := g.pieces(st, evs)
	g.c.Check(ok && len(ps) == 0, "printed", g.label+": "+what, 0, "%s, but something is printed: %s", what, showPieces(ps))
}

// leaves decides a path that selects a line and leaves the loop: the limit is
// reached, or only names are wanted.
func (g *grepRun) leaves(st *eng.State, evs []*eng.Event, at *eng.Event) {
	if g.quiet {
		return
	}
	limited := st.Load(fieldAddr(g.g, "Limited"), types.Typ[types.Bool]) == eng.True
	if limited {
		lim, n, _ := g.limit(st)
		g.c.Check(st.Implies(eng.Lt(eng.Int(0), lim)) && st.Implies(eng.Le(lim, n)), "limit", g.label+": stops", posOf(at), "the search stops as limited although there is no limit or it has not been reached (limit %s, lines so far %s)", lim, n)
		g.silent(st, evs, "the limit is reached")
		return
	}
	if g.mode.set["L"] == 0 {
		g.fail("selected", "leaves", at, "a path leaves the search after selecting a line, short of the limit: the rest of the text is not searched")
		return
	}
	g.checkName(st, evs)
}

func (g *grepRun) checkName(st *eng.State, evs []*eng.Event) {
	ps, ok := g.pieces(st, evs)
	good := ok && len(ps) == 2 && ps[0] == g.name && ps[1] == eng.Str("\n")
	if g.mode.set["HTML"] != 0 {
		n := 0
		for _, p := range ps {
			if p == g.name {
				n++
			} else if p.Op != "str" {
				n = -9
			}
		}
		good = ok && n == 2 && len(ps) > 0 && ps[len(ps)-1].Op == "str" && strings.HasSuffix(ps[len(ps)-1].Aux, "\n")
	}
	g.c.Check(good, "printed", g.label+": name", 0, "instead of the file's name and a newline this is printed: %s", showPieces(ps))
}

// selectedLine decides what is done with the line that the matcher found to
// end at position m of ch, when the next question is about next.
func (g *grepRun) selectedLine(l *eng.Loop, i int, st *eng.State, evs []*eng.Event, at *eng.Event, ch chunk, m *eng.Term, next chunk) {
	c := g.c
	if g.mode.set["L"] != 0 {
		g.fail("printed", "goes on", at, "the search goes on after the first line when only names are wanted")
		return
	}
	end := next.lo
	after := eng.AddK(eng.Add(ch.lo, m), 1)
	good := next.base == ch.base && same(next.hi, ch.hi) &&
		(same(end, after) && st.Implies(eng.Le(after, ch.hi)) || same(end, ch.hi) && st.Implies(eng.Le(ch.hi, after)))
	if next.base == ch.base && end.Op == "min" {
		good = true
		for _, a := range end.Args {
			good = good && (same(a, after) || same(a, ch.hi))
		}
	}
	if !c.Check(good, "next-position", g.label+": next", posOf(at), "after a line that ends at %s, the next question is about %s[%s:%s]: lines are skipped or seen twice", after, next.base, next.lo, next.hi) {
		return
	}
	g.printed(l, i, st, evs, at, ch, m, end)
}

// isLineStart reports whether p is the start of the line that contains
// position m of ch.
func (g *grepRun) isLineStart(p *eng.Term, ch chunk, m *eng.Term) bool {
	if g.lineLo != nil && same(p, g.lineLo) {
		return true
	}
	for _, a := range eng.Atoms(p) {
		if cc, last, ok := g.c.nlIndex(a); ok && last && cc.base == ch.base && same(cc.lo, ch.lo) && same(cc.hi, eng.Add(ch.lo, m)) &&
			same(p, eng.AddK(eng.Add(ch.lo, a), 1)) {
			return true
		}
	}
	return false
}

// limit returns the limit, and the number of lines selected at st.
func (g *grepRun) limit(st *eng.State) (lim, n, addr *eng.Term) {
	addr = fieldAddr(g.g, "Matches")
	return st.Load(fieldAddr(g.g, "Limit"), types.Typ[types.Int]), st.Load(addr, types.Typ[types.Int]), addr
}

// counted decides that a line selected counts towards the limit, and was
// within it.
func (g *grepRun) counted(l *eng.Loop, i int, st *eng.State, at *eng.Event) {
	lim, n, addr := g.limit(st)
	var p *eng.Phi
	for _, q := range l.Phis {
		if q.Addr == addr {
			p = q
		}
	}
	ok := p != nil && same(n, eng.AddK(p.Sym, 1)) && (st.Implies(eng.Le(lim, eng.Int(0))) || st.Implies(eng.Lt(p.Sym, lim)))
	g.c.Check(ok, "limit", g.label+": counted", posOf(at), "a line is selected that is not counted, or is beyond the limit (limit %s, lines so far %s)", lim, n)
}

// printed decides the output for a selected line.
func (g *grepRun) printed(l *eng.Loop, i int, st *eng.State, evs []*eng.Event, at *eng.Event, ch chunk, m, end *eng.Term) {
	c := g.c
	g.counted(l, i, st, at)
	ps, ok := g.pieces(st, evs)
	if !c.Check(ok, "printed", g.label+": unknown", posOf(at), "what is printed for a line could not be determined") {
		return
	}
	if g.mode.set["C"] != 0 {
		c.Check(len(ps) == 0, "printed", g.label+": count", posOf(at), "lines are printed although only their number is wanted: %s", showPieces(ps))
		// one more line in some counter
		n := 0
		for _, p := range l.Phis {
			if p.Addr == nil && isNumeric(p.Sym.Typ) && same(p.Backs[i], eng.AddK(p.Sym, 1)) {
				n++
			}
		}
		c.Check(n >= 1, "printed", g.label+": counted", posOf(at), "a selected line is not counted")
		return
	}
	shown := showPieces(ps)
	html := g.mode.set["HTML"] != 0
	context := g.mode.set["PreContext"] != 0
	var num *eng.Term
	take := func(f func(t *eng.Term) bool) bool {
		if len(ps) > 0 && f(ps[0]) {
			ps = ps[1:]
			return true
		}
		return false
	}
	lit := func(s string) bool {
		if s == "" {
			return true
		}
		if len(ps) == 0 || ps[0].Op != "str" || !strings.HasPrefix(ps[0].Aux, s) {
			return false
		}
		if r := ps[0].Aux[len(s):]; r == "" {
			ps = ps[1:]
		} else {
			ps = append([]*eng.Term{eng.Str(r)}, ps[1:]...)
		}
		return true
	}
	isNum := func(t *eng.Term) bool {
		if t.Op == "str" || !isNumeric(t.Typ) {
			return false
		}
		if num != nil && num != t {
			return false
		}
		num = t
		return true
	}
	lineLo := ch.lo
	isLine := func(t *eng.Term) bool {
		cc := chunkOf(t)
		lineLo = cc.lo
		return cc.base == ch.base && (same(cc.hi, end) || same(smaller(st, cc.hi), end)) && g.isLineStart(cc.lo, ch, m)
	}
	good := true
	if html && !context {
		// a link, which names the file and the number, then the line
		k := 0
		for k < len(ps) && !isLine(ps[k]) {
			if ps[k].Op != "str" && isNumeric(ps[k].Typ) {
				good = good && isNum(ps[k])
			}
			k++
		}
		good = good && num != nil
		ps = ps[k:]
	} else {
		if g.mode.set["H"] == 0 {
			good = good && take(func(t *eng.Term) bool { return t == g.name }) && lit(":")
		}
		if g.mode.set["N"] != 0 || context {
			good = good && take(isNum) && lit(":")
		}
	}
	if context {
		good = good && lit("\n")
	} else {
		good = good && take(isLine)
		switch c.lastByte(st, ch.base, lineLo, end) {
		case 1:
			good = good && len(ps) == 0
		case 0:
			good = good && lit("\n") && len(ps) == 0
		default:
			good = false
		}
	}
	c.Check(good, "printed", g.label+": line", posOf(at), "for the line selected, this is printed: %s", shown)
	if num != nil && good {
		g.number(l, i, at, num, ch, m)
	}
}

// numBase splits a line number into the part that does not count newlines of
// the chunk, and checks the counted part.
func (g *grepRun) numBase(num *eng.Term, ok func(ch chunk) bool) (*eng.Term, bool) {
	base := num
	n := 0
	for _, a := range eng.Atoms(num) {
		if cc, k := g.c.nlCount(a); k {
			if !ok(cc) || n > 0 {
				return num, false
			}
			n++
			base = eng.Sub(base, a)
		}
	}
	return base, n == 1
}

func (g *grepRun) number(l *eng.Loop, i int, at *eng.Event, num *eng.Term, ch chunk, m *eng.Term) {
	c := g.c
	base, ok := g.numBase(num, func(cc chunk) bool {
		return cc.base == ch.base && same(cc.lo, ch.lo) && (same(cc.hi, eng.Add(ch.lo, m)) || g.isLineStart(cc.hi, ch, m))
	})
	if !c.Check(ok, "line-number", g.label+": skipped lines", posOf(at), "the number printed, %s, does not count the newlines between the last position and the line", num) {
		return
	}
	if !c.Check(same(sub(l, i, base), eng.AddK(num, 1)), "line-number", g.label+": next", posOf(at), "after line %s the count goes on from %s, not from the next line", num, sub(l, i, base)) {
		return
	}
	g.numBases = append(g.numBases, numUse{l, base, at, ch})
}

type numUse struct {
	l    *eng.Loop
	base *eng.Term
	at   *eng.Event
	ch   chunk
}

// emptyExit decides the way out of the search loop that asks nothing: there
// is nothing left to ask about.
func (g *grepRun) emptyExit(l *eng.Loop, st *eng.State) {
	// what would have been asked
	q := g.asked(l)
	if q == nil {
		return
	}
	g.c.Check(st.Implies(eng.Le(q.ch.hi, q.ch.lo)), "selected", g.label+": leaves early", posOf(q.ev), "the search stops although bytes from %s to %s remain", q.ch.lo, q.ch.hi)
}

// readLoop decides what happens between two passes.
func (g *grepRun) readLoop(l *eng.Loop) {
	c := g.c
	for i, st := range l.Backs {
		evs, _ := st.EventsSince(l)
		var rd *eng.Event
		for _, e := range evs {
			if isRead(e.Name) {
				if rd != nil {
					g.fail("between-reads", "reads twice", e, "the buffer is filled twice before it is searched")
					return
				}
				rd = e
			}
		}
		if rd == nil {
			g.fail("between-reads", "no read", nil, "a path around the outer loop does not read")
			return
		}
		// the pass
		var in *eng.Loop
		for _, p := range st.Passed() {
			if g.asks(p) && p != l && (in == nil || !inside(p, in)) {
				in = p
			}
		}
		g.betweenReads(l, i, st, evs, rd, in)
	}
	for _, st := range l.Exits {
		evs, _ := st.EventsSince(l)
		var rd *eng.Event
		for _, e := range evs {
			if isRead(e.Name) {
				rd = e
			}
		}
		if accepts(evs) {
			continue // decided as a way out of the search
		}
		c.Check(rd != nil && st.Implies(eng.Not(isNilTerm(rd.Result(1)))), "between-reads", g.label+": stops", posOf(rd), "reading stops although the reader has not reported an error or the end")
	}
}

func isNilTerm(t *eng.Term) *eng.Term { return eng.Eq(t, eng.Nil, types.Typ[types.UntypedNil]) }

func (g *grepRun) betweenReads(l *eng.Loop, i int, st *eng.State, evs []*eng.Event, rd *eng.Event, in *eng.Loop) {
	c := g.c
	n, err := rd.Result(0), rd.Result(1)
	dst := chunkOf(rd.Args[1])
	b := dst.base
	full := eng.Add(dst.lo, n) // the buffer holds b[:full]
	c.Check(same(dst.lo, eng.Len(b)) && same(dst.hi, eng.Cap(b)) && unwrap(rd.Args[0]) == g.r.Params[1], "between-reads", g.label+": fills", posOf(rd), "what is read does not go to the free part of the buffer, after what it holds: %s[%s:%s]", b, dst.lo, dst.hi)
	c.Check(st.Implies(isNilTerm(err)), "between-reads", g.label+": goes on", posOf(rd), "reading goes on after the reader has reported an error or the end")
	if in == nil {
		g.fail("between-reads", "no search", rd, "what was read is not searched")
		return
	}
	q := g.asked(in)
	if q == nil {
		g.fail("analysis", "question", rd, "what the matcher is asked about after a read could not be determined")
		return
	}
	if es, k := st.EventsSince(in); k && accepts(es) {
		g.fail("selected", "leaves", q.ev, "the search of what was read is left after a line was selected")
	}
	ent := q.ch.sub(in, -1)
	// the slide
	var cp *eng.Event
	for _, e := range evs {
		if e.Kind == "copy" {
			cp = e
		}
	}
	if cp == nil {
		g.fail("between-reads", "keeps", rd, "what has not been searched is not kept")
		return
	}
	to, from := chunkOf(cp.Args[0]), chunkOf(cp.Args[1])
	lo := sub(l, i, ent.lo)
	if c.Check(to.base == b && from.base == b && same(to.lo, eng.Int(0)) && same(from.hi, full), "between-reads", g.label+": keeps", posOf(cp), "%s[%s:%s] is kept instead of the end of what was read", from.base, from.lo, from.hi) {
		c.Check(same(eng.Add(from.lo, lo), ent.hi), "between-reads", g.label+": position", posOf(cp), "the search goes on at %s of what is kept from %s on, but it had come to %s: bytes are skipped or searched twice", lo, from.lo, ent.hi)
	}
	nb := chunkOf(sub(l, i, b))
	c.Check(nb.base == b && same(nb.lo, eng.Int(0)) && (isCopyOf(nb.hi, cp) || same(nb.hi, eng.Sub(full, from.lo))), "between-reads", g.label+": length", posOf(cp), "the buffer's new length is not that of what is kept: %s[%s:%s]", nb.base, nb.lo, nb.hi)
	// begin-text: not after a question
	asked := in != nil
	bt := sub(l, i, sub(in, -1, q.bt))
	es, _ := st.EventsSince(l)
	if qq, _ := g.question(es); qq != nil {
		c.Check(bt == eng.False, "begin-text", g.label+": later", posOf(rd), "a question after the first may be taken to be about the beginning of the text")
	} else if asked {
		ok := bt == eng.False || bt == sub(in, -1, q.bt) || g.r.PhiOf(bt) != nil && bt == q.bt
		c.Check(ok, "begin-text", g.label+": kept", posOf(rd), "whether the beginning of the text is still to be asked about changes without a question")
	}
	// numbers
	for _, u := range g.numBases {
		if u.l != in {
			continue
		}
		e := sub(in, -1, u.base)
		got := sub(l, i, e)
		okc := false
		base, k := g.numBase(got, func(cc chunk) bool {
			return cc.base == b && same(cc.hi, ent.hi) && same(cc.lo, u.ch.lo)
		})
		if k && same(base, u.base) {
			okc = true
		}
		c.Check(okc, "line-number", g.label+": between reads", posOf(rd), "between reads the line number becomes %s: the newlines from the last position to the end of what was searched are not counted once", got)
		break
	}
	for _, u := range g.numBases {
		if u.l != in {
			continue
		}
		e := sub(in, -1, u.base)
		first := sub(l, -1, e)
		c.Check(same(first, eng.Int(1)), "line-number", g.label+": first", posOf(rd), "the first line's number is %s", first)
		break
	}
}

func isCopyOf(t *eng.Term, cp *eng.Event) bool {
	return cp.Res != nil && t == cp.Res || t.Op == "copyn"
}

// sub maps the range to what it is after back edge i of l.
func (a chunk) sub(l *eng.Loop, i int) chunk {
	return chunk{sub(l, i, a.base), sub(l, i, a.lo), sub(l, i, a.hi)}
}

// asked returns what the matcher is asked about in an iteration of l, as it
// stands when the iteration begins.
func (g *grepRun) asked(l *eng.Loop) (q *question) {
	ll := l
	if g.inverted {
		ll = g.lineLoop(l)
	}
	if ll == nil {
		return nil
	}
	for _, s := range append(append([]*eng.State{}, ll.Backs...), ll.Exits...) {
		es, _ := s.EventsSince(ll)
		qq, _ := g.question(es)
		if qq == nil {
			continue
		}
		if g.inverted {
			ln := g.line(s, qq)
			if ln == nil {
				continue
			}
			qq.ch.hi = ln.all
			if ll != l {
				qq.ch = qq.ch.sub(ll, -1)
				qq.bt = sub(ll, -1, qq.bt)
			}
		}
		q = qq
	}
	return q
}

// inside reports whether b is entered in an iteration of a.
func inside(b, a *eng.Loop) bool {
	_, ok := b.Entry.EventsSince(a)
	return ok && a != b
}

// lineLoop returns the innermost loop in l that asks the matcher.
func (g *grepRun) lineLoop(l *eng.Loop) *eng.Loop {
	for changed := true; changed; {
		changed = false
		for _, x := range g.r.Loops {
			if g.asks(x) && inside(x, l) {
				l, changed = x, true
				break
			}
		}
	}
	if !g.asks(l) {
		return nil
	}
	return l
}

// ends decides the first questions after a read: where the search ends, and
// whether it is about the ends of the text.
func (g *grepRun) ends(in *eng.Loop) {
	c := g.c
	q := g.asked(in)
	if q == nil || in.Entry == nil {
		g.fail("analysis", "question", nil, "what the matcher is asked about could not be determined")
		return
	}
	var rd *eng.Event
	for _, e := range in.Entry.Events(false) {
		if isRead(e.Name) {
			rd = e
		}
	}
	if rd == nil {
		g.fail("between-reads", "no read", q.ev, "the matcher is asked before anything is read")
		return
	}
	ent := q.ch.sub(in, -1)
	dst := chunkOf(rd.Args[1])
	full := eng.Add(dst.lo, rd.Result(0))
	noErr := in.Entry.Implies(isNilTerm(rd.Result(1)))
	isErr := in.Entry.Implies(eng.Not(isNilTerm(rd.Result(1))))
	if !c.Check(noErr || isErr, "end-text", g.label+": entry", posOf(q.ev), "whether the read failed is not known when the matcher is asked") {
		return
	}
	if isErr {
		c.Check(ent.base == dst.base && same(ent.hi, full), "between-reads", g.label+": all", posOf(q.ev), "after the last read the search ends at %s, not at the end of what was read", ent.hi)
	} else {
		c.Check(ent.base == dst.base && c.lineBoundary(ent.hi, dst.base, full, false), "between-reads", g.label+": up to", posOf(q.ev), "the search after a read ends at %s[%s], which is neither the end of what was read nor the start of a line", ent.base, ent.hi)
	}
	if !g.inverted {
		et := g.settled(sub(in, -1, q.et))
		c.Check(et == eng.Bool(isErr), "end-text", g.label+": read", posOf(q.ev), "whether the matcher is asked about the end of the text is %s, when the reader's error being non-nil is %v", et, isErr)
	}
	// the first of all
	bt := sub(in, -1, q.bt)
	lo, b := ent.lo, dst.base
	for _, l := range g.outer {
		if inside(in, l) {
			bt, lo, b = sub(l, -1, bt), sub(l, -1, lo), sub(l, -1, b)
			lim := chunkOf(b)
			c.Check(same(lim.lo, eng.Int(0)) && same(lim.hi, eng.Int(0)), "between-reads", g.label+": first read", posOf(rd), "the first read does not go to the start of the buffer: it is taken to hold [%s:%s]", lim.lo, lim.hi)
		}
	}
	c.Check(bt == eng.True, "begin-text", g.label+": first", posOf(q.ev), "the first question is not about the beginning of the text: %s", bt)
	c.Check(same(lo, eng.Int(0)), "between-reads", g.label+": first position", posOf(q.ev), "the first search begins at %s", lo)
}

// settled resolves phis that never change.
func (g *grepRun) settled(t *eng.Term) *eng.Term {
	for {
		p := g.r.PhiOf(t)
		if p == nil {
			return t
		}
		for _, b := range p.Backs {
			if b != t {
				return t
			}
		}
		t = p.Init
	}
}

// A line is the line that a question is about.
type line struct {
	end *eng.Term // without its newline
	all *eng.Term // end of what is searched
}

// line decides whether the question is about one line of the buffer.
func (g *grepRun) line(st *eng.State, q *question) *line {
	var idx *eng.Term
	var ch chunk
	for _, f := range st.Facts {
		f.Walk(func(t *eng.Term) bool {
			if cc, last, ok := g.c.nlIndex(t); ok && !last && cc.base == q.ch.base && same(cc.lo, q.ch.lo) {
				idx, ch = t, cc
			}
			return true
		})
	}
	if idx == nil {
		return nil
	}
	switch {
	case st.Implies(eng.Le(eng.Int(0), idx)):
		end := eng.Add(ch.lo, idx)
		if same(q.ch.hi, eng.AddK(end, 1)) || same(q.ch.hi, end) {
			return &line{end, ch.hi}
		}
	case st.Implies(eng.Lt(idx, eng.Int(0))):
		if same(q.ch.hi, ch.hi) {
			return &line{ch.hi, ch.hi}
		}
	}
	return nil
}

// position after the line
func (ln *line) next(st *eng.State) *eng.Term {
	if ln.end == ln.all {
		return ln.end
	}
	return eng.AddK(ln.end, 1)
}

// invertedLoop decides the search for lines in which the matcher finds
// nothing.
func (g *grepRun) invertedLoop(l *eng.Loop) {
	c := g.c
	ll := g.lineLoop(l)
	if ll == nil {
		return
	}
	check := func(i int, st *eng.State) {
		evs, _ := st.EventsSince(l)
		if ll != l {
			// the line loop decides which lines are passed over; here, what
			// is done with the one it stops at
			lastLL := ll
			for _, p := range st.Passed() {
				if g.asks(p) && inside(p, l) {
					lastLL = p
				}
			}
			es, on := st.EventsSince(lastLL)
			q, _ := g.question(es)
			if !on || q == nil {
				c.Check(!accepts(evs) && i < 0, "selected", g.label+": none left", 0, "a line is selected, or the search goes on, although no line is left")
				if i < 0 && on {
					g.silent(st, evs, "no line is left")
				}
				return
			}
			g.inverse(l, lastLL, i, st, evs, q)
			return
		}
		q, n := g.question(evs)
		if q == nil {
			if i >= 0 {
				g.fail("question", "around again", nil, "a path around the search loop does not ask the matcher")
			} else {
				g.emptyExit(l, st)
			}
			return
		}
		if n > 1 || q.ev.Res == nil {
			g.fail("question", "twice", q.ev, "the matcher is asked twice in one iteration")
			return
		}
		g.ok("question")
		ln := g.line(st, q)
		if !c.Check(ln != nil, "question", g.label+": one line", posOf(q.ev), "the matcher is not asked about exactly one line, %s[%s:%s]", q.ch.base, q.ch.lo, q.ch.hi) {
			return
		}
		m := q.ev.Res
		end := ln.end
		if !g.quiet {
			// end of text
			var rd *eng.Event
			for _, e := range st.Events(false) {
				if isRead(e.Name) {
					rd = e
				}
			}
			if rd != nil {
				isErr := st.Implies(eng.Not(isNilTerm(rd.Result(1))))
				noErr := st.Implies(isNilTerm(rd.Result(1)))
				lastLine := st.Implies(eng.Le(ln.all, ln.next(st)))
				notLast := st.Implies(eng.Lt(ln.next(st), ln.all)) || st.Implies(eng.Not(eng.EqInt(ln.next(st), ln.all)))
				et := g.settled(q.et)
				good := false
				switch v := st.Decide(et); {
				case v == eng.True:
					good = isErr && lastLine
				case v == eng.False:
					good = noErr || notLast
				default:
					good = isErr && et == eng.EqInt(ln.next(st), ln.all)
				}
				c.Check(good, "end-text", g.label, posOf(q.ev), "whether the matcher is asked about the end of the text does not agree with the line being the last of what was read last")
			}
		}
		found := st.Implies(eng.Le(eng.Int(0), m)) && st.Implies(eng.Le(eng.Add(q.ch.lo, m), end))
		missed := st.Implies(eng.Lt(m, eng.Int(0))) || st.Implies(eng.Lt(end, eng.Add(q.ch.lo, m)))
		if i >= 0 && !accepts(evs) {
			c.Check(found, "selected", g.label+": passed over", posOf(q.ev), "a line is passed over although the matcher may have found nothing in it")
			c.Check(same(sub(l, i, q.ch.lo), ln.next(st)), "next-position", g.label+": passed over", posOf(q.ev), "after a line that ends at %s the next one is taken to begin at %s", ln.end, sub(l, i, q.ch.lo))
			c.Check(sub(l, i, q.bt) == eng.False, "begin-text", g.label+": next", posOf(q.ev), "a question after the first may be taken to be about the beginning of the text")
			return
		}
		c.Check(missed, "selected", g.label+": stops at", posOf(q.ev), "a line is selected although the matcher may have found something in it")
		if accepts(evs) {
			g.inverse(l, l, i, st, evs, q)
		}
	}
	for i, st := range l.Backs {
		check(i, st)
	}
	for _, st := range l.Exits {
		check(-1, st)
	}
}

// inverse decides what an iteration of l does with the line of q, in which
// the matcher found nothing.
func (g *grepRun) inverse(l, ll *eng.Loop, i int, st *eng.State, evs []*eng.Event, q *question) {
	c := g.c
	ln := g.line(st, q)
	if !c.Check(ln != nil, "question", g.label+": one line", posOf(q.ev), "the matcher is not asked about exactly one line, %s[%s:%s]", q.ch.base, q.ch.lo, q.ch.hi) {
		return
	}
	if !accepts(evs) {
		// no newline was found in the rest, yet it ends with one?
		if ln.end == ln.all && c.lastByte(st, q.ch.base, q.ch.lo, ln.all) == 1 && st.Implies(eng.Lt(q.ch.lo, ln.all)) {
			return
		}
		g.fail("selected", "not selected", q.ev, "a line in which the matcher found nothing is not selected")
		return
	}
	if i < 0 || g.quiet {
		return
	}
	if g.mode.set["L"] != 0 {
		g.fail("printed", "goes on", q.ev, "the search goes on after the first line when only names are wanted")
		return
	}
	from := g.asked(l)
	if from == nil {
		return
	}
	next := from.ch.sub(l, i)
	next.lo = smaller(st, next.lo)
	if !c.Check(next.base == q.ch.base && same(next.lo, ln.next(st)), "next-position", g.label+": next", posOf(q.ev), "after a line that ends at %s, the next question is about %s[%s:%s]: lines are skipped or seen twice", ln.end, next.base, next.lo, next.hi) {
		return
	}
	c.Check(sub(l, i, from.bt) == eng.False, "begin-text", g.label+": next", posOf(q.ev), "a question after the first may be taken to be about the beginning of the text")
	ch := chunk{q.ch.base, from.ch.lo, ln.all}
	g.lineLo = q.ch.lo
	g.printed(l, i, st, evs, q.ev, ch, eng.Sub(ln.end, ch.lo), ln.next(st))
	g.lineLo = nil
}

// terminal decides the end of the reader.
func (g *grepRun) terminal(t *eng.Terminal) {
	c := g.c
	if t.Kind != "return" || g.quiet || g.mode.set["C"] == 0 {
		return
	}
	evs := t.St.Events(false)
	if st := t.St; st.Load(fieldAddr(g.g, "Limited"), types.Typ[types.Bool]) == eng.True {
		return
	}
	var tail []*eng.Event
	for k := len(evs) - 1; k >= 0; k-- {
		if isRead(evs[k].Name) {
			tail = evs[k+1:]
			break
		}
	}
	ps, ok := g.pieces(t.St, tail)
	var cnt *eng.Term
	for _, p := range ps {
		if p.Op != "str" && p != g.name && isNumeric(p.Typ) {
			cnt = p
		}
	}
	if !ok {
		g.fail("printed", "count", nil, "what is printed at the end could not be determined")
		return
	}
	if cnt == nil {
		// nothing was counted
		zero := len(ps) == 0
		done := false
		for _, f := range t.St.Facts {
			for _, a := range eng.Atoms(atomArg(f)) {
				if p := g.r.PhiOf(a); p != nil && g.isCount(a, map[*eng.Term]bool{}) && t.St.Implies(eng.Le(a, eng.Int(0))) {
					done = true
				}
			}
		}
		c.Check(zero && done, "printed", g.label+": no count", 0, "no count is printed although lines may have been selected (or something else is printed: %s)", showPieces(ps))
		return
	}
	good := g.isCount(cnt, map[*eng.Term]bool{})
	if g.mode.set["HTML"] == 0 {
		good = good && len(ps) == 4 && ps[0] == g.name && ps[1] == eng.Str(": ") && ps[2] == cnt && ps[3] == eng.Str("\n")
	}
	c.Check(good, "printed", g.label+": count", 0, "instead of the name and the number of lines selected this is printed: %s", showPieces(ps))
}

func atomArg(f *eng.Term) *eng.Term {
	if f.Op == "not" {
		f = f.Args[0]
	}
	if f.Op == "le" || f.Op == "eq0" {
		return f.Args[0]
	}
	return f
}

// isCount reports whether t counts selected lines: it is zero at first, one
// more after each iteration that selects a line, and else unchanged.
func (g *grepRun) isCount(t *eng.Term, seen map[*eng.Term]bool) bool {
	if t == eng.Int(0) {
		return true
	}
	p := g.r.PhiOf(t)
	if p == nil {
		return false
	}
	if seen[t] {
		return true
	}
	seen[t] = true
	if !g.isCount(p.Init, seen) {
		return false
	}
	l := g.r.LoopOf(t)
	for i, b := range p.Backs {
		evs, _ := l.Backs[i].EventsSince(l)
		inner := false
		for _, e := range evs {
			inner = inner || isRead(e.Name)
		}
		if !inner && accepts(evs) {
			if !same(b, eng.AddK(t, 1)) {
				return false
			}
			continue
		}
		if b != t && !g.isCount(b, seen) {
			return false
		}
	}
	return true
}

// smaller resolves a minimum that st decides.
func smaller(st *eng.State, t *eng.Term) *eng.Term {
	if t.Op == "min" && len(t.Args) == 2 {
		a, b := t.Args[0], t.Args[1]
		if st.Implies(eng.Le(a, b)) {
			return a
		}
		if st.Implies(eng.Le(b, a)) {
			return b
		}
	}
	return t
}

// stateAt returns the state in which e, an event of st's path, occurred.
func (g *grepRun) stateAt(e *eng.Event, st *eng.State) *eng.State {
	if g.at == nil {
		g.at = map[*eng.Event]*eng.State{}
		for _, x := range g.r.Events {
			g.at[x.Orig] = x.St
		}
	}
	if s := g.at[e]; s != nil {
		return s
	}
	return st
}

// grepFile decides that a file's contents are searched under its own name.
func (c *Ctx) grepFile() {
	fn := c.Func("regexp", "Grep.File")
	if fn == nil {
		return
	}
	r := c.Analyze(fn, &eng.Config{
		Opaque:   func(f *ssa.Function) bool { return isSearch(fullName(f)) },
		Target:   targetNames(func(n string) bool { return isSearch(n) || n == "os.Open" }),
		Interest: func(e *eng.Event) bool { return e.Kind == "call" && (isSearch(e.Name) || e.Name == "os.Open") },
	})
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		var op, rd *eng.Event
		for _, e := range t.St.Events(false) {
			if e.Name == "os.Open" {
				op = e
			} else {
				rd = e
			}
		}
		if op == nil {
			c.Check(false, "file", fnLabel(fn), fn.Pos(), "the file is not opened")
			continue
		}
		if t.St.Implies(eng.Not(isNilTerm(op.Result(1)))) {
			c.Check(rd == nil, "file", fnLabel(fn)+": not opened", posOf(op), "something is searched although the file could not be opened")
			continue
		}
		c.Check(rd != nil && op.Args[0] == r.Params[1] && unwrap(rd.Args[1]) == op.Result(0) && rd.Args[2] == r.Params[1], "file", fnLabel(fn)+": searched", posOf(op), "an opened file is not searched under its own name")
	}
}

// matchFlag decides that the match flag is set exactly when a line is
// selected.
func (c *Ctx) matchFlag() {
	for _, v := range []bool{false, true} {
		if g := c.grepMode(grepModes[0], v); g != nil {
			g.inverted, g.quiet = v, true
			if v {
				g.label = "-v"
			}
			g.check()
		}
	}
}
