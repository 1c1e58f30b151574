package rules

import (
	"go/types"

	"verif/checker/eng"
)

// pairOK is the definition of the filter: c1 c2 may be adjacent bytes of
// valid UTF-8 text (the first byte of a file follows an ASCII byte).
func pairOK(c1, c2 int) bool {
	switch {
	case c1 < 0x80:
		return c2 < 0x80 || 0xc0 <= c2 && c2 < 0xf8
	case c1 < 0xc0:
		return c2 < 0xf8
	case c1 < 0xf8:
		return 0x80 <= c2 && c2 < 0xc0
	}
	return false
}

type pairSet [256][256]bool

// evalLit evaluates a literal under an assignment of its atoms; known is
// false if it depends on anything else.
func evalLit(f *eng.Term, val func(*eng.Term) (int64, bool)) (res, known bool) {
	switch f.Op {
	case "not":
		r, k := evalLit(f.Args[0], val)
		return !r, k
	case "true", "false":
		return f == eng.True, true
	case "le", "eq0":
		d := f.Args[0]
		sum := d.K
		for i, a := range eng.Atoms(d) {
			v, ok := val(a)
			if !ok && a.Op == "conv" {
				v, ok = evalNum(a, val)
			}
			if !ok {
				return true, false
			}
			co := int64(1)
			if d.Op == "lin" {
				co = d.Coef[i]
			} else {
				sum = 0
			}
			sum += co * v
		}
		if f.Op == "le" {
			return sum <= 0, true
		}
		return sum == 0, true
	}
	return true, false
}

// pairs computes the (previous byte, byte) pairs that the facts at s admit.
// joint is false if some fact about them could not be evaluated.
func (a *addLoop) pairs(s *addStep) (ps *pairSet, joint bool) {
	ps = &pairSet{}
	kind := func(t *eng.Term) int { // 1 byte, 2 previous byte, 0 neither
		if !isNumeric(t.Typ) {
			return 0
		}
		bs := bitsOf(nil, t, 32)
		for i := 8; i < 32; i++ {
			if !bs[i].isConst(0) {
				return 0
			}
		}
		cur := true
		for i := 0; i < 8; i++ {
			if bs[i].leaf != s.b || bs[i].idx != i {
				cur = false
			}
		}
		if cur {
			return 1
		}
		if a.history(bs[:8], 1) {
			return 2
		}
		return 0
	}
	kinds := map[*eng.Term]int{}
	var one, two, both []*eng.Term
	for _, f := range s.st.Facts {
		uses := map[int]bool{}
		other := false
		lit := f
		if lit.Op == "not" {
			lit = lit.Args[0]
		}
		if lit.Op != "le" && lit.Op != "eq0" {
			continue
		}
		for _, t := range eng.Atoms(lit.Args[0]) {
			if _, ok := kinds[t]; !ok {
				kinds[t] = kind(t)
			}
			if kinds[t] == 0 {
				other = true
			}
			uses[kinds[t]] = true
		}
		switch {
		case other:
			// not a condition on the bytes alone: ignored, which only
			// enlarges the set
		case uses[1] && uses[2]:
			both = append(both, f)
		case uses[1]:
			one = append(one, f)
		case uses[2]:
			two = append(two, f)
		}
	}
	test := func(fs []*eng.Term, p, b int64) bool {
		for _, f := range fs {
			r, k := evalLit(f, func(t *eng.Term) (int64, bool) {
				switch kinds[t] {
				case 1:
					return b, true
				case 2:
					return p, true
				}
				return 0, false
			})
			if k && !r {
				return false
			}
		}
		return true
	}
	var okB, okP [256]bool
	for v := 0; v < 256; v++ {
		okB[v] = test(one, 0, int64(v))
		okP[v] = test(two, int64(v), 0)
	}
	for p := 0; p < 256; p++ {
		for b := 0; b < 256; b++ {
			ps[p][b] = okP[p] && okB[b] && (len(both) == 0 || test(both, int64(p), int64(b)))
		}
	}
	return ps, true
}

// lineLens returns the phis that count the bytes since the last newline.
func (a *addLoop) lineLens() []*eng.Phi {
	var out []*eng.Phi
	for _, p := range a.loop.Phis {
		if !isNumeric(p.Sym.Typ) || !startsAt(a.run, p.Init, 0) {
			continue
		}
		ok, reset := true, false
		for _, s := range a.steps {
			v := p.Backs[s.back]
			if s.b == nil {
				ok = ok && v == p.Sym
				continue
			}
			nl := eng.EqInt(s.b, eng.Int('\n'))
			switch {
			case s.st.Implies(nl):
				ok = ok && v == eng.Int(0)
				reset = true
			case s.st.Implies(eng.Not(nl)):
				ok = ok && v == eng.AddK(p.Sym, 1)
			default:
				ok = false
			}
		}
		if ok && reset {
			out = append(out, p)
		}
	}
	return out
}

const (
	maxLen      = 1 << 30
	maxLine     = 2000
	maxTrigrams = 20000
)

func runTextFilter(c *Ctx) {
	loops := c.analyzeAdd()
	c.Check(len(loops) >= 1, "byte-loops", "index:(*IndexWriter).Add", 0, "no loop that consumes the bytes of a file was found")
	for _, a := range loops {
		l := a.loop
		cons := fnLabel(l.Fn)
		ctrs, lines := a.counters(), a.lineLens()
		if !c.Check(len(ctrs) > 0, "byte-counter", cons, l.Pos, "nothing in the loop counts the bytes consumed") {
			continue
		}
		if !c.Check(len(lines) > 0, "line-counter", cons, l.Pos, "nothing in the loop counts the bytes since the last newline") {
			continue
		}
		var union pairSet
		for _, s := range a.steps {
			if s.b == nil {
				continue
			}
			ps, _ := a.pairs(s)
			badP, badB, n := -1, -1, 0
			nul := false
			for p := 0; p < 256; p++ {
				for b := 0; b < 256; b++ {
					if !ps[p][b] {
						continue
					}
					union[p][b] = true
					n++
					if !pairOK(p, b) {
						badP, badB = p, b
					}
					nul = nul || b == 0
				}
			}
			c.Check(badP < 0, "valid-pairs", cons, l.Pos, "a file is kept although it contains byte %#02x followed by %#02x, which no UTF-8 text does", badP, badB)
			c.Check(!nul, "no-nul", cons, l.Pos, "a file is kept although it contains a NUL byte")
			lim, lin := false, false
			for _, n := range ctrs {
				lim = lim || s.st.Implies(eng.Le(eng.AddK(n.Sym, 1), eng.Int(maxLen)))
			}
			for _, n := range lines {
				lin = lin || s.st.Implies(eng.Le(eng.AddK(n.Sym, 1), eng.Int(maxLine)))
			}
			c.Check(lim, "file-length", cons, l.Pos, "a file can be kept although it is longer than 2^30 bytes")
			c.Check(lin, "line-length", cons, l.Pos, "a file can be kept although it has a line longer than 2000 bytes")
		}
		missing := ""
		for p := 0; p < 256; p++ {
			for b := 1; b < 256; b++ {
				if pairOK(p, b) && !union[p][b] && missing == "" {
					missing = string([]rune{rune(p)}) // reported as numbers below
					c.Check(false, "pairs-kept", cons, l.Pos, "a file is given up because of byte %#02x followed by %#02x, which occurs in valid UTF-8", p, b)
				}
			}
		}
		if missing == "" {
			c.Check(true, "pairs-kept", cons, l.Pos, "")
		}
		// every exit after consuming a byte has a reason
		for _, x := range a.exits {
			if x.b == nil && x.read == nil {
				// the chunk is used up: an inner loop ends
				continue
			}
			if x.read != nil && x.st.Implies(eng.EqInt(x.read.Result(0), eng.Int(0))) {
				continue // end of file or error: see below
			}
			ps, _ := a.pairs(x)
			bad := true
			for p := 0; p < 256 && bad; p++ {
				for b := 0; b < 256; b++ {
					if ps[p][b] && pairOK(p, b) && b != 0 {
						bad = false
						break
					}
				}
			}
			reason := bad
			for _, n := range ctrs {
				reason = reason || x.st.Implies(eng.Lt(eng.Int(maxLen), eng.AddK(n.Sym, 1)))
			}
			for _, n := range lines {
				reason = reason || x.st.Implies(eng.Lt(eng.Int(maxLine), eng.AddK(n.Sym, 1)))
			}
			if !reason && x.b != nil && x.st.Implies(eng.Le(eng.Len(x.buf), x.idx)) {
				continue // leaves an inner loop at the end of the chunk
			}
			c.Check(reason, "given-up-with-reason", cons, l.Pos, "reading a file can stop at a byte without any of the reasons NUL, invalid UTF-8, length or line length")
		}
	}
	if len(loops) == 0 {
		return
	}
	r := loops[0].run
	small := func(st *eng.State, want bool) bool {
		for _, f := range st.Facts {
			found := false
			f.Walk(func(t *eng.Term) bool {
				if isCall(t, setM("Len")) || t.Op == "len" && isCall(t.Args[0], setM("Dense")) {
					found = true
					lit := eng.Le(t, eng.Int(maxTrigrams))
					if !want {
						lit = eng.Not(lit)
					}
					if !st.Implies(lit) {
						found = false
					}
				}
				return true
			})
			if found {
				return true
			}
		}
		return false
	}
	for _, e := range r.Events {
		if e.Name == pathWr {
			c.Check(small(e.St, true), "trigram-limit", fnLabel(e.Fn), e.Instr.Pos(), "a file can be recorded although it has more than 20000 distinct trigrams")
		}
	}
	nRec, nNot := 0, 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		cons := fnLabel(r.Fn)
		recorded := false
		var last *eng.Event
		for _, e := range t.St.Events(false) {
			switch e.Name {
			case pathWr:
				recorded = true
			case readName:
				last = e
			}
		}
		errv := t.Rets[len(t.Rets)-1]
		if recorded {
			nRec++
			c.Check(errv == eng.Nil, "recorded-no-error", cons, r.Fn.Pos(), "indexing a file returns an error after recording it")
			continue
		}
		nNot++
		for _, e := range t.St.Events(false) {
			if e.Kind == "store" {
				c.Check(scratch(e.Args[0]), "no-trace", cons+":"+e.Args[0].Aux, e.Instr.Pos(), "a file that is not recorded leaves a trace in %s", e.Args[0])
			}
		}
		if last != nil && t.St.Implies(eng.EqInt(last.Result(0), eng.Int(0))) {
			// the file was read completely, or the read failed
			e1 := last.Result(1)
			isEOF := false
			for _, f := range t.St.Facts {
				if f.Op == "eq" && (f.Args[0] == e1 || f.Args[1] == e1) && f.Any(func(x *eng.Term) bool { return x.Op == "global" && x.Aux == "io.EOF" }) {
					isEOF = true
				}
			}
			if isEOF {
				c.Check(small(t.St, false) && errv == eng.Nil, "given-up-with-reason", cons+" after reading", r.Fn.Pos(), "a file that was read completely is not recorded although it need not have more than 20000 trigrams")
			} else {
				c.Check(errv != eng.Nil && (eng.NonNil(errv) || t.St.Implies(eng.Not(eng.Eq(errv, eng.Nil, errv.Typ))) || isCall(errv, "fmt.Errorf")), "read-error", cons, r.Fn.Pos(), "a read error is not returned")
			}
		} else {
			c.Check(errv == eng.Nil, "no-error", cons, r.Fn.Pos(), "giving up a file that is not text returns an error")
		}
	}
	c.Check(nRec > 0 && nNot > 1, "outcomes", fnLabel(r.Fn), r.Fn.Pos(), "found %d outcomes that record the file and %d that do not", nRec, nNot)
	for _, rule := range []string{"valid-pairs", "no-nul", "file-length", "line-length", "pairs-kept", "given-up-with-reason", "trigram-limit", "read-error"} {
		c.Min(rule, 1)
	}
}

// scratch reports whether a is a field of the writer that only serves the
// file being read: a byte slice or the set of trigrams.
func scratch(a *eng.Term) bool {
	for a.Op == "elem" {
		a = a.Args[0]
		if a.Op == "ld" {
			a = a.Args[0]
		}
	}
	if a.Op != "field" {
		return false
	}
	p, ok := a.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := types.TypeString(p.Elem(), nil)
	return s == "[]byte" || s == "[]uint8" || s == "*"+setPkg+".Set" || s == "[32]byte" || s == "bool"
}
