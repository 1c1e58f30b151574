package rules

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C29",
		Explanation: "The lines shown around a selected line, from three sides. (1) The functions that find n lines at the end or at the start of a range of bytes are decided by induction over their loop: after s rounds the position is just before the s-th newline from the end (after the s-th from the start), what is returned after n rounds is the start of a line, and the whole range only when no newline is left. " +
			"(2) In the function that gathers context, with those abstract, every path gives the range of n lines before the selected line and of m lines after it, split at newlines, an empty last piece left out and nothing else; every piece, and the selected line, has only blanks and line ends cut from its end, the common beginning is taken over the selected line and every piece, after the cut, and exactly that beginning is cut from each. " +
			"(3) In the reader, with the numbers of lines symbolic, each selected line's context is asked for with the lines wanted, the whole buffer and the line's own bounds, and what is printed is every line before, the selected line with its mark, every line after, once and in order; as long as more can be read the search stops far enough before the end of the buffer to have the lines after a match, and keeps the lines before what comes next, unless the buffer has no room.",
		Assumptions: []string{"package bytes; io.ReadFull", "the numbers of lines asked for are not negative", "which lines are selected, their number and the heading printed before each group are decided by C19, escaping by C02"},
		Run:         runContext,
	})
}

const blanks = " \t\r\n"

var bytesType = types.NewSlice(types.Typ[types.Byte])

func isBytes(t types.Type) bool { return t.String() == "[]byte" }

func isLines(t types.Type) bool { return t.String() == "[][]byte" }

func sigIs(f *ssa.Function, res string, params ...string) bool {
	sig := f.Signature
	if sig.Recv() != nil || len(f.Blocks) == 0 || !inModule(f) || sig.Results().Len() != 1 || sig.Results().At(0).Type().String() != res || sig.Params().Len() != len(params) || len(f.Params) != len(params) {
		return false
	}
	for i, p := range params {
		if sig.Params().At(i).Type().String() != p {
			return false
		}
	}
	return true
}

// A ctxRun decides the lines shown around a selected line.
type ctxRun struct {
	c      *Ctx
	gather *ssa.Function
	kinds  map[string]string // function's name -> suffix, prefix, chomp, cut, update
	swap   map[string]bool   // the line comes second
	seen   map[*ssa.Function]bool
}

func runContext(c *Ctx) {
	fn := c.Func("regexp", "Grep.Reader")
	if fn == nil {
		return
	}
	x := &ctxRun{c: c, kinds: map[string]string{}, swap: map[string]bool{}, seen: map[*ssa.Function]bool{}}
	// the function that gathers: it gives two lists of lines and a line
	for _, f := range reachable(fn) {
		res := f.Signature.Results()
		lists, lines := 0, 0
		for i := 0; i < res.Len(); i++ {
			if isLines(res.At(i).Type()) {
				lists++
			} else if isBytes(res.At(i).Type()) {
				lines++
			}
		}
		if lists == 2 && lines == 1 && res.Len() == 3 {
			x.gather = f
		}
	}
	if x.gather == nil {
		c.Check(false, "analysis", "gather", fn.Pos(), "the function that gathers the lines around a match was not found")
		return
	}
	for _, f := range append(reachable(x.gather), reachable(fn)...) {
		x.classify(f)
	}
	x.reader(fn)
	c.Min("helper", 5)
	c.Min("window", 2)
	c.Min("pieces", 2)
	c.Min("trimmed", 3)
	c.Min("indent", 3)
	c.Min("asked", 5)
	c.Min("shown", 3)
	c.Min("held-back", 1)
	c.Min("kept", 1)
}

// reachable lists the module's functions called from f, itself included.
func reachable(f *ssa.Function) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !inModule(f) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					walk(call.Common().StaticCallee())
				}
			}
		}
	}
	walk(f)
	return
}

func (x *ctxRun) small(f *ssa.Function) bool {
	return sigIs(f, "int", "[]byte", "int") || sigIs(f, "[]byte", "[]byte") || sigIs(f, "[]byte", "[]byte", "[]byte")
}

func (x *ctxRun) classify(f *ssa.Function) {
	if x.seen[f] || !x.small(f) {
		return
	}
	x.seen[f] = true
	name := fullName(f)
	kind, why := "", ""
	switch {
	case sigIs(f, "int", "[]byte", "int"):
		for _, last := range []bool{true, false} {
			if w := x.lines(f, last); w == "" {
				kind = map[bool]string{true: "suffix", false: "prefix"}[last]
			} else if why == "" || strings.Contains(w, "rounds") {
				why = w
			}
		}
		if kind == "" {
			why = "it gives neither the start of the last n lines nor the end of the first n: " + why
		}
	case sigIs(f, "[]byte", "[]byte"):
		kind = "chomp"
		if w := x.chomp(f); w != "" {
			kind, why = "", "it does not cut just blanks and line ends from the end: "+w
		}
	default:
		for _, sw := range []bool{false, true} {
			if x.cut(f, sw) {
				kind = "cut"
				x.swap[name] = sw
			} else if w := x.update(f, sw); w == "" && kind == "" {
				kind = "update"
				x.swap[name] = sw
			} else if kind == "" {
				why = w
			}
		}
		if kind == "" {
			why = "it neither cuts a beginning nor finds the beginning two lines share: " + why
		}
	}
	x.kinds[name] = kind
	x.c.Check(kind != "", "helper", f.Name(), f.Pos(), "%s: %s", f.Name(), why)
}

func (x *ctxRun) is(t *eng.Term, kind string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	for n, k := range x.kinds {
		if k == kind && (t.Aux == n || strings.HasPrefix(t.Aux, n+"@")) {
			return true
		}
	}
	return false
}

// lineArg returns the line and the beginning given to a cut or an update.
func (x *ctxRun) lineArg(t *eng.Term) (line, prefix *eng.Term) {
	sw := false
	for n, s := range x.swap {
		if t.Aux == n || strings.HasPrefix(t.Aux, n+"@") {
			sw = s
		}
	}
	if sw {
		return t.Args[1], t.Args[0]
	}
	return t.Args[0], t.Args[1]
}

// lines decides whether f(b, n) is the length of the last n lines of b that
// end in a newline with what follows them (last), or of its first n lines.
func (x *ctxRun) lines(f *ssa.Function, last bool) string {
	c := x.c
	b, n := eng.SymOf("b", f.Params[0].Type()), eng.SymOf("n", f.Params[1].Type())
	r := c.Analyze(f, &eng.Config{Join: 200, MaxStates: 500, KeepFacts: true, Init: func(s *eng.State) { s.Assume(eng.Le(eng.Int(0), n)) }}, b, n)
	if r.Over || len(r.Terms) == 0 || len(r.Loops) == 0 {
		return "not analysed"
	}
	// after some rounds: the position, what is left to look at, the rounds,
	// and how many more than n there can be
	type pos struct {
		at, rest, steps *eng.Term
		most            int64
	}
	// left is what remains at a position
	left := func(ch chunk, at, rest *eng.Term) bool {
		if rest != nil {
			return ch.base == rest && same(ch.lo, eng.Int(0)) && same(ch.hi, eng.Len(rest))
		}
		if last {
			return ch.base == b && same(ch.lo, eng.Int(0)) && same(ch.hi, at)
		}
		return ch.base == b && same(ch.lo, at) && same(ch.hi, eng.Len(b))
	}
	start := pos{at: eng.Int(0), steps: eng.Int(0)}
	if last {
		start.at = eng.Len(b)
	}
	ps := []pos{start}
	for _, l := range r.Loops {
		var at, rest, next, steps *eng.Term
		for _, p := range l.Phis {
			if p.Addr != nil || len(p.Backs) != len(l.Backs) || len(l.Backs) == 0 {
				continue
			}
			if isBytes(p.Sym.Typ) && p.Init == b && !last {
				ok := true
				for i, st := range l.Backs {
					to := chunkOf(p.Backs[i])
					found := false
					for _, a := range eng.Atoms(to.lo) {
						ch, la, k := c.nlIndex(a)
						found = found || k && !la && ch.base == p.Sym && same(ch.lo, eng.Int(0)) && same(ch.hi, eng.Len(p.Sym)) && st.Implies(eng.Le(eng.Int(0), a)) && same(to.lo, eng.AddK(a, 1))
					}
					ok = ok && found && to.base == p.Sym && same(to.hi, eng.Len(p.Sym))
				}
				if ok {
					at, rest = eng.Sub(eng.Len(b), eng.Len(p.Sym)), p.Sym
				}
				continue
			}
			if !isNumeric(p.Sym.Typ) {
				continue
			}
			up, down, moves := true, true, true
			for i, st := range l.Backs {
				up = up && same(p.Backs[i], eng.AddK(p.Sym, 1))
				down = down && same(p.Backs[i], eng.AddK(p.Sym, -1))
				found := false
				for _, a := range eng.Atoms(p.Backs[i]) {
					ch, la, ok := c.nlIndex(a)
					if !ok || la != last || !left(ch, p.Sym, nil) || !st.Implies(eng.Le(eng.Int(0), a)) {
						continue
					}
					found = found || last && same(p.Backs[i], a) || !last && same(p.Backs[i], eng.AddK(eng.Add(p.Sym, a), 1))
				}
				moves = moves && found && p.Backs[i] == p.Backs[0]
			}
			switch {
			case moves && same(p.Init, start.at):
				at, next = p.Sym, p.Backs[0]
			case up && !moves:
				steps = eng.Sub(p.Sym, p.Init)
			case down && !moves:
				steps = eng.Sub(p.Init, p.Sym)
			}
		}
		if at == nil || steps == nil {
			continue
		}
		q := pos{at: at, rest: rest, steps: steps, most: 2}
		for _, m := range []int64{1, 0, -1} {
			good := l.Entry.Implies(eng.Le(eng.Int(0), eng.AddK(n, m)))
			for _, st := range l.Backs {
				good = good && st.Implies(eng.Le(eng.AddK(steps, 1), eng.AddK(n, m)))
			}
			if good {
				q.most = m
			}
		}
		if q.most > 1 {
			return "more rounds than lines asked for"
		}
		ps = append(ps, q)
		if next != nil {
			ps = append(ps, pos{at: next, steps: eng.AddK(steps, 1), most: q.most + 1})
		}
	}
	if len(ps) == 1 {
		return "no loop that goes from one newline to the next and counts the rounds"
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return "a path that does not return"
		}
		st, v := t.St, t.Rets[0]
		p := v
		if last {
			p = eng.Sub(eng.Len(b), v)
		}
		good := false
		for _, q := range ps {
			// the next newline, if it was looked for
			var idx *eng.Term
			for _, fa := range st.Facts {
				fa.Walk(func(a *eng.Term) bool {
					if ch, la, ok := c.nlIndex(a); ok && la == last && left(ch, q.at, q.rest) {
						idx = a
					}
					return true
				})
			}
			none := idx != nil && st.Implies(eng.Lt(idx, eng.Int(0)))
			atMost := func(k int64) bool { return q.most <= k || st.Implies(eng.Le(q.steps, eng.AddK(n, k))) }
			atLeast := func(k int64) bool { return st.Implies(eng.Le(eng.AddK(n, k), q.steps)) }
			whole := eng.Int(0)
			if !last {
				whole = eng.Len(b)
			}
			if none && same(p, whole) && atMost(0) {
				good = true // all there is
			}
			if last {
				good = good || idx != nil && st.Implies(eng.Le(eng.Int(0), idx)) && same(p, eng.AddK(idx, 1)) && atMost(0) && atLeast(0)
				good = good || same(p, eng.AddK(q.at, 1)) && q.steps != eng.Int(0) && atMost(1) && atLeast(1)
			} else {
				good = good || same(p, q.at) && atMost(0) && atLeast(0)
			}
		}
		if !good {
			return "it returns " + v.String() + " after a number of rounds that is not that of the lines asked for, or with newlines left"
		}
	}
	return ""
}

// knownByte reports whether the byte is known to be one of set.
func knownByte(st *eng.State, ld *eng.Term, set string) bool {
	for i := 0; i < len(set); i++ {
		if st.Implies(eng.EqInt(ld, eng.Int(int64(set[i])))) {
			return true
		}
	}
	return false
}

func within(s, set string) bool { return strings.Trim(s, set) == "" }

// chomp decides whether f(s) is s without blanks and line ends at its end.
func (x *ctxRun) chomp(f *ssa.Function) string {
	s := eng.SymOf("s", f.Params[0].Type())
	r := x.c.Analyze(f, &eng.Config{Join: 200, MaxStates: 500, KeepFacts: true}, s)
	if r.Over || len(r.Terms) == 0 {
		return "not analysed"
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return "a path that does not return"
		}
		v := stripConv(t.Rets[0])
		if isCall(v, "bytes.TrimRight") && len(v.Args) >= 2 && v.Args[0] == s && v.Args[1].Op == "str" && within(v.Args[1].Aux, blanks) && strings.Contains(v.Args[1].Aux, "\n") {
			continue
		}
		if w := x.cutsEnd(r, t.St, s, v); w != "" {
			return w
		}
	}
	return ""
}

// cutsEnd decides that v is s up to a position that a loop has moved there
// from the end, over blanks and line ends only, and that no newline is left.
func (x *ctxRun) cutsEnd(r *eng.Run, st *eng.State, s, v *eng.Term) string {
	clean := func(base, hi *eng.Term) bool {
		ld := loadOf(st, base, eng.AddK(hi, -1))
		return st.Implies(eng.Le(hi, eng.Int(0))) || ld != nil && st.Implies(eng.Not(eng.EqInt(ld, eng.Int('\n'))))
	}
	ch := chunkOf(v)
	if p := r.PhiOf(ch.base); p != nil && p.Init == s {
		// s itself shrinks
		l := r.LoopOf(ch.base)
		for i, bs := range l.Backs {
			to := chunkOf(p.Backs[i])
			ld := loadOf(bs, p.Sym, eng.AddK(eng.Len(p.Sym), -1))
			if to.base != p.Sym || !same(to.lo, eng.Int(0)) || !same(to.hi, eng.AddK(eng.Len(p.Sym), -1)) || ld == nil || !knownByte(bs, ld, blanks) {
				return "a byte is cut that may be neither blank nor a line end"
			}
		}
		if !same(ch.lo, eng.Int(0)) || !same(ch.hi, eng.Len(p.Sym)) {
			return "it returns " + v.String()
		}
		if !clean(p.Sym, ch.hi) {
			return "a newline may be left at the end"
		}
		return ""
	}
	if ch.base != s || !same(ch.lo, eng.Int(0)) {
		return "it returns " + v.String()
	}
	if !clean(s, ch.hi) {
		return "a newline may be left at the end"
	}
	if same(ch.hi, eng.Len(s)) {
		return ""
	}
	why := "where it cuts is not found from the end: " + ch.hi.String()
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Addr != nil || !isNumeric(p.Sym.Typ) || len(l.Backs) == 0 {
				continue
			}
			at := eng.Add(p.Sym, eng.Sub(eng.Len(s), p.Init))
			if !same(ch.hi, at) && !(same(ch.hi, eng.Int(0)) && st.Implies(eng.Le(at, eng.Int(0)))) {
				continue
			}
			good := true
			for i, bs := range l.Backs {
				ld := loadOf(bs, s, eng.AddK(at, -1))
				good = good && same(p.Backs[i], eng.AddK(p.Sym, -1)) && ld != nil && knownByte(bs, ld, blanks)
			}
			if good {
				return ""
			}
			why = "a byte is cut that may be neither blank nor a line end"
		}
	}
	return why
}

func (x *ctxRun) two(f *ssa.Function, swap bool) (line, prefix *eng.Term, r *eng.Run) {
	a, b := eng.SymOf("a", f.Params[0].Type()), eng.SymOf("b", f.Params[1].Type())
	r = x.c.Analyze(f, &eng.Config{Join: 200, MaxStates: 500, KeepFacts: true}, a, b)
	if swap {
		return b, a, r
	}
	return a, b, r
}

// cut decides whether f takes the prefix off the line, or all of a line that
// is shorter.
func (x *ctxRun) cut(f *ssa.Function, swap bool) bool {
	line, prefix, r := x.two(f, swap)
	if r.Over || len(r.Terms) == 0 || len(r.Loops) > 0 {
		return false
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return false
		}
		for _, v := range leaves(r, t.Rets[0]) {
			v = stripConv(v)
			ch := chunkOf(v)
			switch {
			case isCall(v, "bytes.TrimPrefix") && v.Args[0] == line && v.Args[1] == prefix:
			case ch.base == line && same(ch.lo, eng.Len(prefix)) && same(ch.hi, eng.Len(line)):
			case t.St.Implies(eng.Le(eng.Len(line), eng.Len(prefix))) && (v == eng.Nil || v.Op == "nil" || ch.base == line && same(ch.lo, ch.hi)):
			default:
				return false
			}
		}
	}
	return true
}

// update decides whether f takes the blanks a line begins with, or what the
// line and the given beginning share, but all of that if nothing of the line
// is left.
func (x *ctxRun) update(f *ssa.Function, swap bool) string {
	line, prefix, r := x.two(f, swap)
	if r.Over || len(r.Terms) == 0 {
		return "not analysed"
	}
	none := isNilTerm(prefix)
	// common lists the positions up to which both are the same
	var common []*eng.Term
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Addr != nil || p.Init.Op != "int" || len(l.Backs) == 0 {
				continue
			}
			at := eng.AddK(p.Sym, -p.Init.K)
			good := true
			for i, st := range l.Backs {
				a, b := loadOf(st, line, at), loadOf(st, prefix, at)
				good = good && a != nil && b != nil && same(p.Backs[i], eng.AddK(p.Sym, 1)) && st.Implies(eng.EqInt(a, b))
			}
			if good {
				common = append(common, at)
			}
		}
	}
	shared := func(t *eng.Term) bool {
		for _, a := range common {
			if same(t, a) {
				return true
			}
		}
		return false
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			return "a path that does not return"
		}
		st := t.St
		v := stripConv(t.Rets[0])
		ch := chunkOf(v)
		if !same(ch.lo, eng.Int(0)) {
			return "it returns " + v.String()
		}
		switch {
		case ch.base == line:
			if !st.Implies(none) {
				return "the beginning found so far is given up for that of another line"
			}
			good := false
			for _, a := range eng.Atoms(ch.hi) {
				if a.Op == "len" && isCall(a.Args[0], "bytes.TrimLeft") && a.Args[0].Args[0] == line && a.Args[0].Args[1].Op == "str" && within(a.Args[0].Args[1].Aux, " \t") && same(ch.hi, eng.Sub(eng.Len(line), a)) {
					good = true
				}
			}
			p, l := r.PhiOf(ch.hi), r.LoopOf(ch.hi)
			if p != nil && l != nil && same(p.Init, eng.Int(0)) {
				good = true
				for i, s := range l.Backs {
					ld := loadOf(s, line, p.Sym)
					good = good && ld != nil && same(p.Backs[i], eng.AddK(p.Sym, 1)) && knownByte(s, ld, " \t")
				}
			}
			if !good {
				return "the beginning of the first line is not just blanks"
			}
		case ch.base == prefix && !same(ch.hi, eng.Len(prefix)):
			if !shared(ch.hi) {
				return "what is returned is not the bytes both begin with"
			}
		case ch.base == prefix:
			good := false
			for _, a := range common {
				good = good || st.Implies(eng.Le(eng.Len(line), a)) || st.Implies(eng.Le(eng.Len(prefix), a))
			}
			if !good {
				return "the beginning found so far is kept although the line may not begin with it"
			}
		default:
			return "it returns " + v.String()
		}
	}
	return ""
}

// A covered loop visits the elements of a list one after the other.
func (x *ctxRun) visits(l *eng.Loop) (list, idx *eng.Term) {
	for _, p := range l.Phis {
		if p.Addr != nil || !isNumeric(p.Sym.Typ) || len(l.Backs) == 0 {
			continue
		}
		good := true
		for i := range l.Backs {
			good = good && same(p.Backs[i], eng.AddK(p.Sym, 1))
		}
		if !good || p.Init.Op != "int" || p.Init.K != 0 && p.Init.K != -1 {
			continue
		}
		at := eng.AddK(p.Sym, -p.Init.K)
		// the list: what the loop ends with
		var base *eng.Term
		for _, st := range append(append([]*eng.State{}, l.Backs...), l.Exits...) {
			for _, f := range st.Facts {
				f.Walk(func(t *eng.Term) bool {
					if t.Op == "len" && t.Args[0].Typ != nil && isLines(t.Args[0].Typ) && base == nil {
						for _, k := range []int64{0, 1} {
							n := eng.AddK(t, -k)
							in, out := true, true
							for _, st := range l.Backs {
								in = in && st.Implies(eng.Lt(at, n))
							}
							for _, st := range l.Exits {
								out = out && st.Implies(eng.Le(n, at))
							}
							if in && out {
								if base = t.Args[0]; k == 1 {
									base = eng.Slice(t.Args[0], eng.Int(0), n, nil, t.Args[0].Typ)
								}
								break
							}
						}
					}
					return true
				})
			}
		}
		if base != nil {
			return base, at
		}
	}
	return nil, nil
}

func lineAt(t *eng.Term) (base, idx *eng.Term) {
	if t != nil && t.Op == "ld" {
		t = t.Args[0]
	}
	if t != nil && t.Op == "elem" {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// gathered decides the function that gathers the lines. The roles say which
// parameter is what.
func (x *ctxRun) gathered(roles map[string]int) {
	c, f := x.c, x.gather
	par := make([]*eng.Term, len(f.Params))
	for i, p := range f.Params {
		par[i] = eng.SymOf(p.Name()+"#", p.Type())
	}
	buf, ls, le, nb, na := par[roles["buf"]], par[roles["start"]], par[roles["end"]], par[roles["before"]], par[roles["after"]]
	cfg := &eng.Config{
		Join: 200, MaxStates: 2000, Entries: 16, KeepFacts: true,
		Opaque:   func(g *ssa.Function) bool { return g != f && x.small(g) },
		Interest: func(e *eng.Event) bool { return e.Kind == "store" },
		Stores:   func(a *eng.Term) bool { return a.Op == "elem" },
		Init: func(s *eng.State) {
			s.Assume(eng.Le(eng.Int(0), ls))
			s.Assume(eng.Le(ls, le))
			s.Assume(eng.Le(le, eng.Len(buf)))
			s.Assume(eng.Le(eng.Int(0), nb))
			s.Assume(eng.Le(eng.Int(0), na))
		},
	}
	r := c.Analyze(f, cfg, par...)
	if r.Over || len(r.Terms) == 0 {
		c.Check(false, "analysis", "gather", f.Pos(), "%s could not be analysed completely", f.Name())
		return
	}
	fail := func(rule, cons, format string, args ...any) { c.Check(false, rule, cons, f.Pos(), format, args...) }
	split := func(v *eng.Term) (X *eng.Term, dropped, ok bool) {
		X = v
		if v.Op == "slice" {
			if X = v.Args[0]; !same(v.Args[1], eng.Int(0)) || !same(v.Args[2], eng.AddK(eng.Len(X), -1)) {
				return nil, false, false
			}
			dropped = true
		}
		return X, dropped, (isCall(X, "bytes.Split") || isCall(X, "bytes.SplitAfter")) && len(X.Args) >= 2 && c.isNL(X.Args[1])
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 3 {
			fail("analysis", "ends", "%s has a path that does not return", f.Name())
			continue
		}
		st := t.St
		var ln *eng.Term
		lists := map[string]*eng.Term{} // before, after -> what is split
		for i, v := range t.Rets {
			if !isLines(f.Signature.Results().At(i).Type()) {
				ln = v
				continue
			}
			role := []string{"before", "after"}[map[bool]int{true: 0, false: 1}[i == roles["ret-before"]]]
			X, dropped, ok := split(v)
			if !ok {
				fail("pieces", role, "the lines %s the match are %s, not a range of the buffer split at its newlines", role, v)
				continue
			}
			lists[role] = X
			// the window
			ch := chunkOf(X.Args[0])
			good := ch.base == buf
			k := 0
			for _, p := range append(eng.Atoms(ch.lo), eng.Atoms(ch.hi)...) {
				if role == "before" && x.is(p, "suffix") {
					cc := chunkOf(p.Args[0])
					if cc.base == buf && same(cc.lo, eng.Int(0)) && same(cc.hi, ls) && p.Args[1] == nb && same(ch.lo, eng.Sub(ls, p)) && same(ch.hi, ls) {
						k++
					}
				}
				if role == "after" && x.is(p, "prefix") {
					cc := chunkOf(p.Args[0])
					if cc.base == buf && same(cc.lo, le) && same(cc.hi, eng.Len(buf)) && p.Args[1] == na && same(ch.lo, le) && same(ch.hi, eng.Add(le, p)) {
						k++
					}
				}
			}
			c.Check(good && k > 0, "window", role, f.Pos(), "the lines %s the match are taken from %s[%s:%s], which is not as many as asked for, next to it", role, ch.base, ch.lo, ch.hi)
			// the last piece
			lastEmpty, lastFull := false, false
			for _, fa := range st.Facts {
				fa.Walk(func(a *eng.Term) bool {
					if a.Op == "len" {
						if b, ix := lineAt(a.Args[0]); a.Args[0].Op == "ld" && b == X && same(ix, eng.AddK(eng.Len(X), -1)) {
							lastEmpty = lastEmpty || st.Implies(eng.EqInt(a, eng.Int(0)))
							lastFull = lastFull || st.Implies(eng.Lt(eng.Int(0), a))
						}
					}
					return true
				})
			}
			c.Check(dropped && lastEmpty || !dropped && lastFull, "pieces", role, f.Pos(), "of the lines %s the match the last is left out although it may not be empty, or an empty piece after the last newline is shown", role)
		}
		if ln == nil || !x.is(ln, "cut") {
			fail("indent", "match", "the beginning all lines share is not taken off the selected line: %s", ln)
			continue
		}
		lnArg, pre := x.lineArg(ln)
		lch := chunk{}
		if x.is(lnArg, "chomp") {
			lch = chunkOf(lnArg.Args[0])
		}
		if !c.Check(lch.base == buf && same(lch.lo, ls) && same(lch.hi, le), "trimmed", "match", f.Pos(), "the selected line is shown as %s, not as its own text without blanks at the end", lnArg) {
			continue
		}
		// the loops passed, in order
		chomped, cut := map[*eng.Term]int{}, map[*eng.Term]int{}
		folded := map[*eng.Phi]int{}
		foldList := map[*eng.Phi]*eng.Term{}
		full := func(l *eng.Loop) (X, idx *eng.Term) {
			list, at := x.visits(l)
			if list == nil {
				return nil, nil
			}
			X, _, ok := split(list)
			if !ok {
				return nil, nil
			}
			// as much of it as is returned
			for i, v := range t.Rets {
				if isLines(f.Signature.Results().At(i).Type()) && (v == list || same(eng.Len(v), eng.Len(list)) && (v == X || v.Op == "slice" && v.Args[0] == X)) {
					return X, at
				}
			}
			return nil, nil
		}
		for n, h := range st.Path(false) {
			if h.Ev != nil && h.Ev.Kind == "store" {
				if b, _ := lineAt(h.Ev.Args[0]); b != nil && isLines(b.Typ) {
					fail("trimmed", "stored", "a line is replaced outside the loops over all lines: %s", h.Ev.Args[0])
				}
			}
			l := h.Loop
			if l == nil {
				continue
			}
			X, idx := full(l)
			for i, bs := range l.Backs {
				evs, _ := bs.EventsSince(l)
				for _, e := range evs {
					if e.Kind != "store" {
						continue
					}
					b, ix := lineAt(e.Args[0])
					if b == nil || b.Typ == nil || !isLines(b.Typ) {
						continue
					}
					if b.Op == "slice" && same(b.Args[1], eng.Int(0)) {
						b = b.Args[0]
					}
					v := e.Args[1]
					if X == nil || b != X || !same(ix, idx) {
						fail("trimmed", "all", "a loop changes lines, but not each of them: %s", e.Args[0])
						continue
					}
					if x.is(v, "cut") {
						a, p := x.lineArg(v)
						if x.is(a, "chomp") {
							chomped[X] = n + 1
							a = a.Args[0]
						}
						ab, ai := lineAt(a)
						if ab != nil && ab.Op == "slice" && same(ab.Args[1], eng.Int(0)) {
							ab = ab.Args[0]
						}
						if ab == X && same(ai, idx) && p == pre {
							cut[X] = n + 1
							continue
						}
						fail("indent", "cut", "a line becomes %s, not itself without the beginning all lines share", v)
						continue
					}
					if x.is(v, "chomp") {
						ab, ai := lineAt(v.Args[0])
						if ab != nil && ab.Op == "slice" && same(ab.Args[1], eng.Int(0)) {
							ab = ab.Args[0]
						}
						if ab == X && same(ai, idx) {
							chomped[X] = n + 1
							continue
						}
					}
					fail("trimmed", "store", "a line becomes %s, not itself without blanks at its end", v)
				}
				for _, p := range l.Phis {
					if p.Addr != nil || i >= len(p.Backs) || !x.is(p.Backs[i], "update") || X == nil {
						continue
					}
					a, q := x.lineArg(p.Backs[i])
					fused := false
					if x.is(a, "chomp") {
						a, fused = a.Args[0], true
					}
					ab, ai := lineAt(a)
					if ab != nil && ab.Op == "slice" && same(ab.Args[1], eng.Int(0)) {
						ab = ab.Args[0]
					}
					if q != p.Sym || ab != X || !same(ai, idx) {
						continue
					}
					if !fused && (chomped[X] == 0 || cut[X] != 0) {
						fail("indent", "before trimming", "the beginning lines share is looked for before the blanks at their ends are cut: a blank line would count")
						continue
					}
					folded[p] = n + 1
					foldList[p] = X
				}
			}
		}
		// the beginning all share
		covered := map[string]bool{}
		for v, k := pre, 0; k < 20; k++ {
			if p := r.PhiOf(v); p != nil {
				if folded[p] == 0 {
					covered["?"+p.Name] = true
					break
				}
				for role, X := range lists {
					if foldList[p] == X {
						covered[role] = true
						if at := cut[X]; at != 0 && at <= folded[p] {
							covered["?cut early"] = true
						}
					}
				}
				v = p.Init
				continue
			}
			if x.is(v, "update") {
				a, q := x.lineArg(v)
				if a != lnArg {
					covered["?"+a.String()] = true
				} else {
					covered["match"] = true
				}
				v = q
				continue
			}
			if v == eng.Nil || v.Op == "nil" {
				covered["nil"] = true
			}
			break
		}
		bad := ""
		for k := range covered {
			if strings.HasPrefix(k, "?") {
				bad = k[1:]
			}
		}
		for _, role := range []string{"match", "before", "after"} {
			c.Check(bad == "" && covered["nil"] && covered[role], "indent", role+": counts", f.Pos(), "the beginning cut off every line is not found from all of the %s lines shown %s", role, bad)
		}
		for role, X := range lists {
			c.Check(chomped[X] > 0, "trimmed", role, f.Pos(), "the blanks at the end of each line %s the match are not cut", role)
			c.Check(cut[X] > 0, "indent", role, f.Pos(), "the beginning all lines share is not taken off each line %s the match", role)
		}
	}
}

// reader decides what the reader asks for and prints, and what it keeps of
// the text for the lines around matches.
func (x *ctxRun) reader(fn *ssa.Function) {
	c := x.c
	gname := fullName(x.gather)
	pre, post := eng.SymOf("pre", types.Typ[types.Int]), eng.SymOf("post", types.Typ[types.Int])
	g := eng.SymOf("g", fn.Params[0].Type())
	st0 := g.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	isGather := func(e *eng.Event) bool { return e.Kind == "call" && e.Name == gname }
	cfg := &eng.Config{
		Join: 400, Entries: 32, MaxStates: 3000, KeepFacts: true,
		Opaque: func(f *ssa.Function) bool {
			return f == x.gather || fullName(f) == reMatch || c.countsNewlines(f) || c.suffixLen(f)
		},
		Target: func(in ssa.Instruction, n string) bool {
			return n == reMatch || n == gname || isRead(n) || grepOut(n)
		},
		Interest: func(e *eng.Event) bool {
			return e.Kind == "copy" || e.Kind == "call" && (e.Name == reMatch || e.Name == gname || isRead(e.Name) || grepOut(e.Name)) || isAccept(e)
		},
		Stores: func(a *eng.Term) bool { return a == fieldAddr(g, "Match") },
	}
	cfg.Init = func(s *eng.State) {
		for i := 0; i < st0.NumFields(); i++ {
			f := st0.Field(i)
			a := eng.FieldAddr(g, st0, i)
			switch f.Name() {
			case "V", "L", "C", "N", "H", "HTML":
				s.Set(a, eng.False)
			case "PreContext":
				s.Set(a, pre)
			case "PostContext":
				s.Set(a, post)
			}
		}
		s.Assume(eng.Le(eng.Int(0), pre))
		s.Assume(eng.Le(eng.Int(0), post))
		s.Assume(eng.Lt(eng.Int(0), eng.Add(pre, post)))
	}
	r := c.Analyze(fn, cfg, g)
	gr := &grepRun{c: c, r: r, g: g, fn: fn, label: "context"}
	gr.name = r.Params[2]
	if r.Over {
		c.Check(false, "analysis", "reader", fn.Pos(), "the reader could not be analysed completely")
		return
	}
	var roles map[string]int
	for _, l := range r.Loops {
		if !gr.asks(l) {
			continue
		}
		reads := false
		for _, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			for _, e := range evs {
				reads = reads || isRead(e.Name)
			}
		}
		if reads {
			continue
		}
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			q, _ := gr.question(evs)
			if q == nil || q.ev.Res == nil || !accepts(evs) {
				continue // decided by C19
			}
			var ev *eng.Event
			n := 0
			for _, e := range evs {
				if isGather(e) {
					ev = e
					n++
				}
			}
			if !c.Check(n == 1, "asked", "once", posOf(q.ev), "for a selected line the lines around it are gathered %d times", n) {
				continue
			}
			rl := x.roles(gr, l, i, st, q, ev, pre, post)
			if rl == nil {
				continue
			}
			x.shown(gr, l, st, ev, rl)
			if rl["ret-before"] >= 0 && roles == nil {
				roles = rl
			}
		}
	}
	if roles != nil {
		x.gathered(roles)
	}
	x.buffer(gr, pre, post)
}

func (x *ctxRun) roles(g *grepRun, l *eng.Loop, i int, st *eng.State, q *question, ev *eng.Event, pre, post *eng.Term) map[string]int {
	c := x.c
	next := chunkOf(sub(l, i, q.ev.Args[1]))
	rl := map[string]int{}
	shown := ""
	for k, a := range ev.Args {
		if k >= len(x.gather.Params) {
			break
		}
		shown += " " + a.String()
		switch {
		case isBytes(x.gather.Params[k].Type()):
			ch := chunkOf(a)
			if rd := lastRead(st); rd != nil && ch.base == q.ch.base && same(ch.lo, eng.Int(0)) && same(ch.hi, eng.Add(chunkOf(rd.Args[1]).lo, rd.Result(0))) {
				rl["buf"] = k
			}
		case a == pre:
			rl["before"] = k
		case a == post:
			rl["after"] = k
		case g.isLineStart(a, q.ch, q.ev.Res):
			rl["start"] = k
		case same(a, next.lo) || next.lo.Op != "min" && same(smaller(st, a), next.lo):
			rl["end"] = k
		}
	}
	for _, w := range []string{"before", "after", "buf", "start", "end"} {
		if _, ok := rl[w]; !ok || len(rl) != 5 {
			c.Check(false, "asked", w, posOf(ev), "the lines around a match are not those around the selected line, as many as asked for, in the whole buffer: what is given is%s", shown)
			return nil
		}
		c.Check(true, "asked", w, posOf(ev), "")
	}
	return rl
}

// shown decides what is printed of the lines gathered.
func (x *ctxRun) shown(g *grepRun, l *eng.Loop, st *eng.State, ev *eng.Event, rl map[string]int) {
	c := x.c
	path, _ := st.PathSince(l)
	type part struct {
		mark string
		ret  int
	}
	var parts []part
	retOf := func(t *eng.Term) int {
		for i := 0; i < 3; i++ {
			if t == eng.Extract(ev.Res, i, nil) {
				return i
			}
		}
		return -1
	}
	var run []*eng.Event
	bad := ""
	flush := func() {
		if len(run) == 0 {
			return
		}
		ps, ok := g.pieces(st, run)
		run = nil
		if !ok {
			bad = "what is printed could not be determined"
			return
		}
		// the match, perhaps after the heading
		for k, p := range ps {
			if p.Op == "str" {
				continue
			}
			if i := retOf(p); i >= 0 {
				mark := ""
				if k > 0 && ps[k-1].Op == "str" {
					mark = ps[k-1].Aux[strings.LastIndexByte(ps[k-1].Aux, '\n')+1:]
				}
				if k+1 >= len(ps) || ps[k+1].Op != "str" || !strings.HasPrefix(ps[k+1].Aux, "\n") || isLines(x.gather.Signature.Results().At(i).Type()) {
					bad = "a line is not ended: " + showPieces(ps)
				}
				parts = append(parts, part{mark, i})
			}
		}
	}
	for _, h := range path {
		if h.Ev != nil {
			if h.Ev.Kind == "call" && grepOut(h.Ev.Name) {
				run = append(run, h.Ev)
			}
		}
		if h.Loop == nil {
			continue
		}
		prints, silent := false, false
		var got []*eng.Term
		for _, bs := range h.Loop.Backs {
			es, _ := bs.EventsSince(h.Loop)
			ps, ok := g.pieces(bs, es)
			if ok && len(ps) == 0 {
				silent = true
				continue
			}
			prints = true
			if !ok || len(ps) != 3 || ps[0].Op != "str" || ps[2] != eng.Str("\n") || strings.Contains(ps[0].Aux, "\n") || len(got) > 0 && (got[0] != ps[0] || got[1] != ps[1]) {
				bad = "in a loop this is printed: " + showPieces(ps)
			}
			got = ps
		}
		if !prints {
			continue
		}
		if silent {
			bad = "a loop does not print some of the lines gathered"
		}
		flush()
		if bad != "" {
			break
		}
		base, ix := lineAt(got[1])
		list, at := x.visits(h.Loop)
		if base == nil || list != base || !same(at, ix) || retOf(base) < 0 {
			bad = "a loop does not print each of the lines gathered: " + showPieces(got)
			break
		}
		parts = append(parts, part{got[0].Aux, retOf(base)})
	}
	flush()
	if !c.Check(bad == "", "shown", "printed", posOf(ev), "%s", bad) {
		rl["ret-before"] = -1
		return
	}
	lines := func(i int) bool { return isLines(x.gather.Signature.Results().At(i).Type()) }
	good := len(parts) == 3 && lines(parts[0].ret) && !lines(parts[1].ret) && lines(parts[2].ret) && parts[0].ret != parts[2].ret
	c.Check(good, "shown", "order", posOf(ev), "what is printed is not the lines before, the selected line and the lines after, each once: %v", parts)
	if !good {
		rl["ret-before"] = -1
		return
	}
	c.Check(parts[0].mark == parts[2].mark && parts[1].mark != parts[0].mark, "shown", "mark", posOf(ev), "the selected line is not told from the lines around it: %q %q %q", parts[0].mark, parts[1].mark, parts[2].mark)
	rl["ret-before"] = parts[0].ret
}

func lastRead(st *eng.State) (rd *eng.Event) {
	for _, e := range st.Events(false) {
		if isRead(e.Name) && len(e.Args) >= 2 {
			rd = e
		}
	}
	return
}

// buffer decides what is held back for the lines after a match, and kept for
// those before one.
func (x *ctxRun) buffer(g *grepRun, pre, post *eng.Term) {
	for _, l := range g.r.Loops {
		var inner *eng.Loop
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			var rd, cp *eng.Event
			for _, e := range evs {
				if isRead(e.Name) {
					rd = e
				}
				if e.Kind == "copy" {
					cp = e
				}
			}
			if rd == nil {
				continue
			}
			inner = nil
			for _, p := range st.Passed() {
				if g.asks(p) && p != l && (inner == nil || !inside(p, inner)) {
					inner = p
				}
			}
			if inner == nil || cp == nil {
				continue // decided by C19
			}
			q := g.asked(inner)
			if q == nil {
				continue
			}
			dst := chunkOf(rd.Args[1])
			b, n := dst.base, rd.Result(0)
			full := eng.Add(dst.lo, n)
			end := q.ch.sub(inner, -1).hi
			pos := posOf(rd)
			x.lengths(g, st, b, full, end, post, pos, "held-back", "the lines after a match may lie beyond what has been read: the search goes on to %s of the %s bytes read")
			from := chunkOf(cp.Args[1])
			x.lengths(g, st, b, end, from.lo, pre, posOf(cp), "kept", "the lines before the next match may be gone: what is kept begins at %s although the search has come to %s")
			_ = i
		}
	}
}

// lengths decides that b[p:all] holds n whole lines and what follows them,
// unless b[:all] has no more.
func (x *ctxRun) lengths(g *grepRun, st *eng.State, b, all, p, n *eng.Term, pos token.Pos, rule, format string) {
	c := x.c
	good := false
	suffix := func(a *eng.Term) bool {
		if !x.is(a, "suffix") {
			return false
		}
		ch := chunkOf(a.Args[0])
		full := same(ch.hi, all) || ch.base != b && false
		return ch.base == b && same(ch.lo, eng.Int(0)) && full && st.Implies(eng.Le(n, a.Args[1]))
	}
	for _, a := range eng.Atoms(p) {
		if suffix(a) && same(p, eng.Sub(all, a)) {
			good = true
		}
	}
	if !good && same(p, all) {
		for _, f := range st.Facts {
			f.Walk(func(a *eng.Term) bool {
				if suffix(a) && st.Implies(eng.Le(all, a)) {
					good = true
				}
				return true
			})
		}
	}
	c.Check(good, rule, rule, pos, format, p, all)
}
