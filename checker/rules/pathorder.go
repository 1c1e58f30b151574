package rules

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C13",
		Explanation: "Comparison: the loop over two paths is summarised by its transitions; for every path through an iteration the set of byte pairs that its conditions admit is computed exactly over all 65,536 pairs and compared with the order (separator below every other byte): the loop goes on exactly for pairs that rank equal, by one byte at a time from byte 0, returns a value of the right sign otherwise, and after the shorter path's last byte returns the sign of the length difference. " +
			"Prefix test: every path's conditions are evaluated over the finite set of byte classes (separator, other) and prefix relations and must yield the definition. Both are decided for the slash and, in a second program loaded for Windows, for the backslash too.",
		Assumptions: []string{"strings.HasPrefix and the comparison of strings do what they say", "names contain no NUL byte"},
		Run:         runPathOrder,
	})
}

// evalCond evaluates a literal under an assignment of its atoms.
func evalCond(f *eng.Term, num func(*eng.Term) (int64, bool), truth func(*eng.Term) (bool, bool)) (res, known bool) {
	switch {
	case f == eng.True:
		return true, true
	case f == eng.False:
		return false, true
	case f.Op == "not":
		r, k := evalCond(f.Args[0], num, truth)
		return !r, k
	case f.Op == "le", f.Op == "eq0":
		return evalLit(f, num)
	}
	return truth(f)
}

// onOtherOS decides the same property on the program loaded for goos, in a
// process of its own (terms refer to the types of one program).
func (c *Ctx) onOtherOS(goos string) {
	if os.Getenv("VCHK_GOOS") != "" {
		return
	}
	dir, err := os.MkdirTemp("", "vchk")
	if err != nil {
		c.Viol("undecided", goos, 0, "no scratch directory: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	exe, _ := os.Executable()
	cmd := exec.Command(exe, c.Prop, c.Tier)
	cmd.Env = append(os.Environ(), "VCHK_GOOS="+goos, "VERIF_DIR="+dir, "VERIF_REPO="+c.Repo)
	out, err := cmd.Output()
	ok := err == nil && strings.HasPrefix(string(out), "ok ")
	msg := strings.TrimSpace(string(out))
	if i := strings.Index(msg, "\n"); i > 0 {
		msg = msg[:i]
	}
	if i := strings.Index(msg, " rule="); i > 0 {
		msg = msg[i+1:]
	}
	c.Check(ok, "other-platform", "GOOS="+goos, 0, "on %s: %s", goos, msg)
}

func pathSeps() map[byte]bool {
	m := map[byte]bool{'/': true}
	if os.Getenv("VCHK_GOOS") == "windows" {
		m['\\'] = true
	}
	return m
}

func runPathOrder(c *Ctx) {
	seps := pathSeps()
	if f := c.Func("index", "Path.Compare"); f != nil {
		c.compareOrder(f, seps)
	}
	if f := c.Func("index", "Path.HasPathPrefix"); f != nil {
		c.pathPrefix(f, seps)
	}
	c.onOtherOS("windows")
	c.Min("order", 4)
	c.Min("prefix", 1)
}

// byteAt recognises s[i].
func byteAt(t, s *eng.Term) (*eng.Term, bool) {
	if t.Op == "stridx" && t.Args[0] == s {
		return t.Args[1], true
	}
	return nil, false
}

func (c *Ctx) compareOrder(f *ssa.Function, seps map[byte]bool) {
	r := c.Analyze(f, &eng.Config{KeepFacts: true})
	cons := fnLabel(f)
	if len(r.Params) != 2 || len(r.Loops) != 1 {
		c.Check(false, "order", cons, f.Pos(), "the comparison of two paths has %d loops, expected one", len(r.Loops))
		return
	}
	l := r.Loops[0]
	str := func(p *eng.Term) *eng.Term {
		// the string in the path, as it appears in the code
		var s *eng.Term
		see := func(t *eng.Term) bool {
			if t.Op == "stridx" && t.Args[0].Any(func(x *eng.Term) bool { return x == p }) {
				s = t.Args[0]
			}
			return true
		}
		for _, st := range append(append([]*eng.State(nil), l.Backs...), l.Exits...) {
			for _, f := range st.Facts {
				f.Walk(see)
			}
		}
		return s
	}
	// parameters are structs: their terms are built from symbols of their own
	ps, qs := str(r.Params[0]), str(r.Params[1])
	if r.Params[0].Op == "struct" {
		ps, qs = r.Params[0].Args[0], r.Params[1].Args[0]
	}
	if !c.Check(ps != nil && qs != nil && ps != qs, "order", cons, f.Pos(), "the bytes of the two paths are not compared") {
		return
	}
	// the cursor
	var cur *eng.Phi
	for _, p := range l.Phis {
		if p.Init != eng.Int(0) || !isNumeric(p.Sym.Typ) {
			continue
		}
		ok := true
		for _, b := range p.Backs {
			ok = ok && b == eng.AddK(p.Sym, 1)
		}
		if ok {
			cur = p
		}
	}
	if !c.Check(cur != nil, "order", cons+" cursor", l.Pos, "no cursor runs over the bytes one by one from the first") {
		return
	}
	rank := func(b int) int {
		if seps[byte(b)] {
			return 0
		}
		return b
	}
	sign := func(x int64) int {
		switch {
		case x < 0:
			return -1
		case x > 0:
			return 1
		}
		return 0
	}
	num := func(a, b int) func(*eng.Term) (int64, bool) {
		return func(t *eng.Term) (int64, bool) {
			if i, ok := byteAt(t, ps); ok && i == cur.Sym {
				return int64(a), true
			}
			if i, ok := byteAt(t, qs); ok && i == cur.Sym {
				return int64(b), true
			}
			return 0, false
		}
	}
	noTruth := func(*eng.Term) (bool, bool) { return true, false }
	admits := func(st *eng.State, a, b int) bool {
		for _, f := range st.Facts {
			if v, k := evalCond(f, num(a, b), noTruth); k && !v {
				return false
			}
		}
		return true
	}
	usesBytes := func(st *eng.State) bool {
		for _, f := range st.Facts {
			if f.Any(func(t *eng.Term) bool { return t.Op == "stridx" }) {
				return true
			}
		}
		return false
	}
	atEnd := func(st *eng.State) bool {
		for _, i := range []*eng.Term{cur.Sym, eng.AddK(cur.Sym, 1)} {
			if i != cur.Sym && !usesBytes(st) {
				continue
			}
			for _, n := range []*eng.Term{eng.Len(ps), eng.Len(qs)} {
				if st.Implies(eng.Le(n, i)) {
					return true
				}
			}
			for _, f := range st.Facts {
				for _, a := range eng.Atoms(f.Args[0]) {
					if isMin(a, eng.Len(ps), eng.Len(qs)) && st.Implies(eng.Le(a, i)) {
						return true
					}
				}
			}
		}
		return false
	}
	// going on: exactly the pairs that rank equal
	var cont [256][256]bool
	mark := func(st *eng.State) {
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				if !cont[a][b] && admits(st, a, b) {
					cont[a][b] = true
				}
			}
		}
	}
	for _, b := range l.Backs {
		mark(b)
	}
	for _, x := range l.Exits {
		if atEnd(x) && usesBytes(x) {
			mark(x)
		}
	}
	bad := ""
	for a := 0; a < 256 && bad == ""; a++ {
		for b := 0; b < 256; b++ {
			if cont[a][b] && rank(a) != rank(b) {
				bad = fmt.Sprintf("bytes %q and %q rank differently but are treated as equal", rune(a), rune(b))
				break
			}
			if !cont[a][b] && rank(a) == rank(b) {
				bad = fmt.Sprintf("bytes %q and %q rank equal but end the comparison", rune(a), rune(b))
				break
			}
		}
	}
	c.Check(bad == "", "order", cons+" equal bytes", l.Pos, "%s", bad)
	// the bytes examined are those within both paths
	for _, x := range l.Exits {
		if !atEnd(x) && !usesBytes(x) {
			c.Check(false, "order", cons+" end", l.Pos, "the comparison can stop before the end of the shorter path")
		}
	}
	nByte, nLen := 0, 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		ret := t.Rets[0]
		// which kind of return: bytes that differ, or the end of a path
		diff := false
		for _, f := range t.St.Facts {
			if f.Any(func(x *eng.Term) bool { i, ok := byteAt(x, ps); return ok && i == cur.Sym }) {
				diff = true
			}
		}
		if diff && !atEnd(t.St) {
			nByte++
			bad := ""
			for a := 0; a < 256 && bad == ""; a++ {
				for b := 0; b < 256; b++ {
					if !admits(t.St, a, b) {
						continue
					}
					v, ok := evalNum(ret, num(a, b))
					if !ok {
						bad = fmt.Sprintf("the result %s cannot be evaluated", ret)
						break
					}
					if sign(v) != sign(int64(rank(a)-rank(b))) {
						bad = fmt.Sprintf("comparing bytes %q and %q gives a result of sign %d", rune(a), rune(b), sign(v))
						break
					}
				}
			}
			c.Check(bad == "", "order", cons+" different bytes", f.Pos(), "%s", bad)
			continue
		}
		nLen++
		d := eng.Sub(eng.Len(ps), eng.Len(qs))
		ok := ret == d || eng.Sub(ret, d) == eng.Int(0) || isCall(ret, "cmp.Compare") && ret.Args[0] == eng.Len(ps) && ret.Args[1] == eng.Len(qs)
		if ret.Op == "int" {
			switch sign(ret.K) {
			case -1:
				ok = t.St.Implies(eng.Lt(eng.Len(ps), eng.Len(qs)))
			case 1:
				ok = t.St.Implies(eng.Lt(eng.Len(qs), eng.Len(ps)))
			default:
				ok = t.St.Implies(eng.EqInt(eng.Len(ps), eng.Len(qs)))
			}
		}
		c.Check(ok, "order", cons+" lengths", f.Pos(), "when one path is a prefix of the other the result is %s, not the sign of the length difference", ret)
	}
	c.Check(nByte > 0 && nLen > 0, "order", cons+" results", f.Pos(), "found %d results for different bytes and %d for prefixes", nByte, nLen)
}

// isMin recognises min(a, b).
func isMin(t, a, b *eng.Term) bool {
	return t != nil && t.Op == "min" && len(t.Args) == 2 && (t.Args[0] == a && t.Args[1] == b || t.Args[0] == b && t.Args[1] == a)
}

// truncTo is v in the integer type t.
func truncTo(v int64, t types.Type) int64 {
	w, signed := eng.Width(t)
	if w >= 64 {
		return v
	}
	v &= 1<<uint(w) - 1
	if signed && v>>uint(w-1) != 0 {
		v -= 1 << uint(w)
	}
	return v
}

// evalNum evaluates a linear term.
func evalNum(t *eng.Term, num func(*eng.Term) (int64, bool)) (int64, bool) {
	if t.Op == "int" {
		return t.K, true
	}
	if t.Op == "conv" {
		v, ok := evalNum(t.Args[0], num)
		return truncTo(v, t.Typ), ok
	}
	if t.Op != "lin" {
		return num(t)
	}
	sum := t.K
	for i, a := range t.Args {
		v, ok := evalNum(a, num)
		if !ok {
			return 0, false
		}
		sum += t.Coef[i] * v
	}
	return sum, true
}

func (c *Ctx) pathPrefix(f *ssa.Function, seps map[byte]bool) {
	r := c.Analyze(f, &eng.Config{KeepFacts: true})
	cons := fnLabel(f)
	if len(r.Params) != 2 {
		return
	}
	p, q := r.Params[0], r.Params[1]
	if p.Op == "struct" {
		p, q = p.Args[0], q.Args[0]
	}
	n := eng.Len(q)
	type world struct {
		hp, eq, short bool // q.s is a prefix of p.s; equal; p.s is q.s without its separator
		last, next    byte
	}
	letters := []byte{'/', '\\', 'x'}
	var worlds []world
	for _, last := range letters {
		worlds = append(worlds, world{false, false, false, last, 0}, world{true, true, false, last, 0})
		for _, next := range letters {
			worlds = append(worlds, world{true, false, false, last, next})
		}
	}
	bad := ""
	for _, w := range worlds {
		want := w.hp && (w.eq || seps[w.last] || seps[w.next])
		num := func(t *eng.Term) (int64, bool) {
			if i, ok := byteAt(t, q); ok && i == eng.AddK(n, -1) {
				return int64(w.last), true
			}
			if !w.hp || w.eq {
				if t == n {
					return 2, true
				}
				if t == eng.Len(p) && w.eq {
					return 2, true
				}
				if i, ok := byteAt(t, p); ok && w.hp && i == eng.AddK(n, -1) {
					return int64(w.last), true
				}
				return 0, false
			}
			if i, ok := byteAt(t, p); ok {
				switch i {
				case n:
					return int64(w.next), true
				case eng.AddK(n, -1):
					return int64(w.last), true
				}
			}
			switch t {
			case n:
				return 2, true
			case eng.Len(p):
				return 3, true
			}
			return 0, false
		}
		truth := func(t *eng.Term) (bool, bool) {
			switch {
			case isCall(t, "strings.HasPrefix") && t.Args[0] == p && t.Args[1] == q:
				return w.hp, true
			case isCall(t, "strings.HasPrefix") && t.Args[0] == p && t.Args[1].Op == "slice" && t.Args[1].Args[0] == q:
				if w.hp {
					return true, true
				}
			case t.Op == "eq" && (t.Args[0] == p && t.Args[1] == q || t.Args[0] == q && t.Args[1] == p):
				return w.eq, true
			}
			return true, false
		}
		found := false
		for _, t := range r.Terms {
			ok, unknown := true, false
			for _, f := range t.St.Facts {
				v, k := evalCond(f, num, truth)
				if !k {
					unknown = true
				} else if !v {
					ok = false
				}
			}
			if !ok {
				continue
			}
			if t.Kind != "return" {
				bad = "it can fail"
				continue
			}
			v, k := evalCond(t.Rets[0], num, truth)
			if !k || v != want {
				if unknown && !k {
					bad = fmt.Sprintf("the result %s cannot be decided", t.Rets[0])
				} else {
					bad = fmt.Sprintf("for prefix=%v equal=%v, parent ending in %q and the path continuing with %q the result is %s", w.hp, w.eq, w.last, w.next, t.Rets[0])
				}
			}
			found = true
		}
		if !found && bad == "" {
			bad = "no result for some paths"
		}
	}
	c.Check(bad == "", "prefix", cons, f.Pos(), "%s", bad)
}
