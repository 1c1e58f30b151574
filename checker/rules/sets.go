package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C17",
		Explanation: "Merging: every function the query evaluation combines lists with is decided to be the union, the intersection or the plain list by one inductive argument over its loops. Every element of a list (a cursor that moves on by one) and every id of the posting stream that is left behind on some path around a loop must be known to be smaller than the other side's next element, equal to it, or to face an exhausted other side; it must be emitted exactly once where the operation keeps it, and nothing else may be emitted; the loops end only when the sides are exhausted; a result that reuses the storage of a list never overtakes its cursor. " +
			"Restriction: the posting stream itself is decided the same way against the list it is restricted to. " +
			"Evaluation: for every path of the evaluation of a query, the value returned, and the invariant of the loops over the query's trigrams and subqueries, is the set the query's operator stands for, computed as a set expression; each trigram is packed from its three bytes in order, every trigram and subquery is visited, a list is left out or cut short only where the result is known to be empty, and lists that are overwritten in place are not shared.",
		Assumptions: []string{"posting lists are decoded as written (C12) and are strictly increasing (C11)"},
		Run:         runSets,
	})
}

const intSlice = "[]int"

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// methodOf reports whether fn is a method of the named type of package index.
func methodOf(fn *ssa.Function, typ string) bool {
	recv := fn.Signature.Recv()
	if recv == nil {
		return false
	}
	t := recv.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == typ && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == load.Module+"/index"
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// elemOf recognises the value of base[idx].
func elemOf(t *eng.Term) (base, idx *eng.Term, ok bool) {
	if t.Op == "ld" && t.Args[0].Op == "elem" {
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	}
	return nil, nil, false
}

// phiPlus splits t into a phi symbol and a constant.
func phiPlus(r *eng.Run, t *eng.Term) (*eng.Phi, int64, bool) {
	for _, a := range eng.Atoms(t) {
		if p := r.PhiOf(a); p != nil {
			if k, ok := eng.DiffConst(t, a); ok {
				return p, k, true
			}
		}
	}
	return nil, 0, false
}

// A merge decides one function that combines sorted sequences.
type merge struct {
	c      *Ctx
	r      *eng.Run
	cons   string
	or     bool
	bad    []string // what is wrong, in the order found
	pos    *eng.Loop
	bases  map[*eng.Term]bool // the lists (and what is left of them)
	srcOf  map[*eng.Term]*eng.Term
	offs   map[*eng.Term]int64 // cursor symbol -> position - symbol
	base   map[*eng.Term]*eng.Term
	sums   map[*eng.Term]*eng.Term // positions made of several cursors
	stream *eng.Term               // the posting reader
	field  string
	next   string
	prev   func(l *eng.Loop) bool
	inner  func(st *eng.State) []*eng.Term // ids of a stream read by the function itself
}

func (m *merge) fail(s string) {
	for _, b := range m.bad {
		if b == s {
			return
		}
	}
	m.bad = append(m.bad, s)
}

// learn finds the cursors.
func (m *merge) learn(lists []*eng.Term) {
	r := m.r
	m.bases = map[*eng.Term]bool{}
	m.srcOf = map[*eng.Term]*eng.Term{}
	m.offs = map[*eng.Term]int64{}
	m.base = map[*eng.Term]*eng.Term{}
	m.sums = map[*eng.Term]*eng.Term{}
	for _, l := range lists {
		m.bases[l] = true
		m.srcOf[l] = l
	}
	// what is left of a list
	for range 3 {
		for _, l := range r.Loops {
			for _, p := range l.Phis {
				if m.bases[p.Sym] || p.Sym.Typ == nil || !isIntSlice(p.Sym.Typ) {
					continue
				}
				b := p.Init
				if b.Op == "slice" {
					b = b.Args[0]
				}
				if !m.bases[b] {
					continue
				}
				ok := true
				for _, v := range p.Backs {
					if v.Op == "append" {
						ok = false
					}
				}
				if ok {
					m.bases[p.Sym] = true
					m.srcOf[p.Sym] = m.srcOf[b]
				}
			}
		}
	}
	see := func(t *eng.Term) bool {
		b, i, ok := elemOf(t)
		if !ok || !m.bases[b] {
			return true
		}
		ps, _, ok := phiSum(r, i)
		if !ok {
			return true
		}
		for _, p := range ps {
			root := p
			for {
				q, _, ok := phiPlus(r, root.Init)
				if !ok {
					break
				}
				root = q
			}
			if root.Init.IsInt() {
				for q := p; ; {
					m.offs[q.Sym] = -root.Init.K
					m.base[q.Sym] = b
					q2, _, ok := phiPlus(r, q.Init)
					if !ok {
						break
					}
					q = q2
				}
			}
		}
		if len(ps) > 1 {
			m.sums[i] = b
		}
		return true
	}
	states := func(f func(st *eng.State)) {
		for _, l := range r.Loops {
			for _, st := range l.Backs {
				f(st)
			}
			for _, st := range l.Exits {
				f(st)
			}
			for _, p := range l.Phis {
				for _, b := range p.Backs {
					b.Walk(see)
				}
			}
		}
		for _, t := range r.Terms {
			f(t.St)
		}
	}
	states(func(st *eng.State) {
		for _, f := range st.Facts {
			f.Walk(see)
		}
	})
	// a loop may lack facts about an inner cursor of the same family
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if q, _, ok := phiPlus(r, p.Init); ok && m.base[q.Sym] != nil && m.base[p.Sym] == nil && isNumeric(p.Sym.Typ) {
				m.offs[p.Sym] = m.offs[q.Sym]
				m.base[p.Sym] = m.base[q.Sym]
			}
		}
	}
}

// isHead reports whether idx is a position not behind the next element of b.
func (m *merge) isHead(b, idx *eng.Term) bool {
	if idx.IsInt() {
		return idx.K == 0 && m.r.PhiOf(b) != nil
	}
	ps, k, ok := phiSum(m.r, idx)
	if !ok {
		return false
	}
	for _, p := range ps {
		if m.base[p.Sym] != b {
			return false
		}
		k -= m.offs[p.Sym]
	}
	return k == 0
}

// phiSum splits t into phi symbols and a constant.
func phiSum(r *eng.Run, t *eng.Term) (ps []*eng.Phi, k int64, ok bool) {
	rest := t
	for _, a := range eng.Atoms(t) {
		p := r.PhiOf(a)
		if p == nil {
			return nil, 0, false
		}
		ps = append(ps, p)
		rest = eng.Sub(rest, a)
	}
	return ps, rest.K, rest.IsInt() && len(ps) > 0
}

// heads lists the known next elements of the list (source) b.
func (m *merge) heads(src *eng.Term, st *eng.State, more []*eng.Term) (out []*eng.Term) {
	seen := map[*eng.Term]bool{}
	see := func(t *eng.Term) bool {
		if b, i, ok := elemOf(t); ok && m.srcOf[b] == src && m.isHead(b, i) && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, f := range st.Facts {
		f.Walk(see)
	}
	for _, t := range more {
		t.Walk(see)
	}
	return out
}

// listDone reports whether the list src has no elements left.
func (m *merge) listDone(src *eng.Term, st *eng.State) bool {
	if src == eng.Nil || st.Implies(eng.EqInt(eng.Len(src), eng.Int(0))) {
		return true
	}
	for b := range m.bases {
		if m.srcOf[b] != src {
			continue
		}
		if b != src && st.Implies(eng.Le(eng.Len(b), eng.Int(0))) {
			return true
		}
		for s, bb := range m.base {
			if bb == b && st.Implies(eng.Le(eng.Len(b), eng.AddK(s, m.offs[s]))) {
				return true
			}
		}
		for i, bb := range m.sums {
			if bb == b && m.isHead(b, i) && st.Implies(eng.Le(eng.Len(b), i)) {
				return true
			}
		}
		// the position is what is left of it
		for _, f := range st.Facts {
			done := false
			f.Walk(func(t *eng.Term) bool {
				if t.Op == "len" && t.Args[0] == b && b != src && st.Implies(eng.Le(t, eng.Int(0))) {
					done = true
				}
				return !done
			})
			if done {
				return true
			}
		}
	}
	return false
}

// streamSays reports whether the path knows that the last read of the stream
// found (did not find) an id.
func (m *merge) streamSays(st *eng.State) (yes, no bool) {
	for _, f := range st.Facts {
		t, neg := f, false
		if f.Op == "not" {
			t, neg = f.Args[0], true
		}
		all := true
		ls := leaves(m.r, t)
		for _, x := range ls {
			all = all && isCall(x, m.next)
		}
		if !all || len(ls) == 0 {
			continue
		}
		if neg {
			no = true
		} else {
			yes = true
		}
	}
	return
}

func (m *merge) ids(l *eng.Loop, st *eng.State) (out []*eng.Term) {
	if m.inner != nil {
		return m.inner(st)
	}
	if m.stream == nil {
		return nil
	}
	a := fieldAddr(m.stream, m.field)
	out = append(out, st.Load(a, types.Typ[types.Int]))
	for _, l := range m.r.Loops {
		if f := m.headID(l); f != nil && f != out[0] {
			out = append(out, f)
		}
	}
	return out
}

// headID returns the id that is there when a pass of the loop begins, if the
// loop reads another one.
func (m *merge) headID(l *eng.Loop) *eng.Term {
	a := fieldAddr(m.stream, m.field)
	var f *eng.Term
	for _, h := range l.Heads {
		v := h.Load(a, types.Typ[types.Int])
		if f != nil && f != v {
			return nil
		}
		f = v
	}
	return f
}

// against classifies leaving x (values xs) of side src behind: "lt" if
// it is smaller than what the other side has left, "eq" (and the partner) if
// the other side has it too, "ex" if the other side has nothing left.
func (m *merge) against(src *eng.Term, xs []*eng.Term, l *eng.Loop, st *eng.State, more []*eng.Term) (string, *eng.Term) {
	n := 0
	res := ""
	var partner *eng.Term
	side := func(ys []*eng.Term, done bool) {
		n++
		if done {
			res = "ex"
			return
		}
		for _, y := range ys {
			for _, x := range xs {
				if st.Implies(eng.EqInt(x, y)) {
					res, partner = "eq", y
					return
				}
			}
		}
		for _, y := range ys {
			for _, x := range xs {
				if st.Implies(eng.Lt(x, y)) {
					res = "lt"
					return
				}
			}
		}
	}
	for b := range m.bases {
		if m.srcOf[b] == b && b != src {
			side(m.heads(b, st, more), m.listDone(b, st))
		}
	}
	if src != nil && (m.stream != nil || m.inner != nil) {
		yes, no := true, false
		if m.inner == nil {
			yes, no = m.streamSays(st)
		}
		if no {
			side(nil, true)
		} else if yes {
			side(m.ids(l, st), false)
		} else {
			n++
		}
	}
	if n == 0 {
		return "ex", nil
	}
	return res, partner
}

type dropped struct {
	src *eng.Term
	xs  []*eng.Term // terms for the value
	idx *eng.Term
}

// elems lists the terms for b[idx] that the path mentions.
func (m *merge) elems(b, idx *eng.Term, st *eng.State, more []*eng.Term) (out []*eng.Term) {
	seen := map[*eng.Term]bool{}
	see := func(t *eng.Term) bool {
		if bb, i, ok := elemOf(t); ok && bb == b && i == idx && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, f := range st.Facts {
		f.Walk(see)
	}
	for _, t := range more {
		t.Walk(see)
	}
	return out
}

// upTo lists the elements of b before position e (an index term), back to
// the cursor stop (nil: the beginning).
func (m *merge) upTo(b, e *eng.Term, stop *eng.Phi, st *eng.State, more []*eng.Term) (out []dropped, ok bool) {
	for {
		var from *eng.Term
		var k int64
		var p *eng.Phi
		off := int64(0)
		if e.IsInt() {
			// positions count from 0
			if stop != nil {
				return nil, false
			}
			from, k = eng.Int(0), e.K
		} else {
			ps, d, isPhi := phiSum(m.r, e)
			if !isPhi {
				return nil, false
			}
			for _, q := range ps {
				if m.base[q.Sym] != b {
					return nil, false
				}
				off += m.offs[q.Sym]
				if p == nil || p == stop {
					p = q
				}
			}
			from, k = eng.AddK(e, off-d), d-off
		}
		if k < 0 || k > 4 {
			return nil, false
		}
		for j := int64(0); j < k; j++ {
			i := eng.AddK(from, j)
			out = append(out, dropped{m.srcOf[b], m.elems(b, i, st, more), i})
		}
		if p == nil || p == stop {
			return out, true
		}
		others := eng.Sub(eng.AddK(from, -off), p.Sym)
		if p.Init.IsInt() && stop != nil && others.IsInt() {
			return nil, false
		}
		e = eng.AddK(eng.Add(others, p.Init), off)
	}
}

// grow lists what is appended to the result on the way from sym to v.
func (m *merge) grow(v *eng.Term, stop *eng.Phi) (out []*eng.Term, ok bool) {
	for {
		if v == stop.Sym {
			return out, true
		}
		switch {
		case v.Op == "append" && v.Aux == "elems":
			out = append(append([]*eng.Term(nil), v.Args[1:]...), out...)
			v = v.Args[0]
		case m.r.PhiOf(v) != nil:
			p := m.r.PhiOf(v)
			if p.Init != stop.Sym {
				pre, ok := m.grow(p.Init, stop)
				if !ok || len(pre) > 0 {
					return nil, false
				}
				return out, true
			}
			v = p.Init
		default:
			return nil, false
		}
	}
}

func holdsOne(st *eng.State, xs []*eng.Term, y *eng.Term) bool {
	for _, x := range xs {
		if x == y || st.Implies(eng.EqInt(x, y)) {
			return true
		}
	}
	return false
}

// steps decides every path around every loop.
func (m *merge) steps(results map[*eng.Term]bool) {
	for _, l := range m.r.Loops {
		var res *eng.Phi
		for _, p := range l.Phis {
			if results[p.Sym] {
				if res != nil {
					m.fail("the result is kept in more than one place")
				}
				res = p
			}
		}
		pre := false // the stream is read ahead
		if m.next != "" {
			for _, e := range l.Entry.Events(false) {
				if e.Name == m.next {
					pre = true
				}
			}
		}
		for bi, st := range l.Backs {
			if stuck(l, bi) {
				m.fail("a path around a loop changes nothing: the loop does not end")
			}
			var emitted []*eng.Term
			if res != nil {
				var ok bool
				if emitted, ok = m.grow(res.Backs[bi], res); !ok {
					m.fail("the result does not grow by appending")
					continue
				}
			}
			var drops []dropped
			for _, p := range l.Phis {
				switch {
				case m.base[p.Sym] != nil:
					d, ok := m.upTo(m.base[p.Sym], eng.AddK(p.Backs[bi], m.offs[p.Sym]), p, st, emitted)
					if !ok {
						m.fail("the cursor " + p.Name + " does not move on step by step")
						continue
					}
					drops = append(drops, d...)
				case m.bases[p.Sym]:
					d, ok := m.cut(p.Backs[bi], p.Sym, st, emitted)
					if !ok {
						m.fail("the list is not shortened step by step")
						continue
					}
					drops = append(drops, d...)
				}
			}
			if m.inner != nil {
				// the id just read is left behind
				for _, f := range m.inner(st) {
					if f == nil {
						m.fail("the id read is not the one before plus the difference read")
						continue
					}
					drops = append(drops, dropped{nil, []*eng.Term{f}, nil})
				}
			}
			if m.stream != nil {
				evs, _ := st.EventsSince(l)
				n := 0
				for _, e := range evs {
					if e.Name == m.next {
						n++
					}
				}
				switch {
				case n > 1:
					m.fail("more than one id is read on a path around a loop")
				case n == 1 && !pre:
					f := st.Load(fieldAddr(m.stream, m.field), types.Typ[types.Int])
					if yes, _ := m.streamSays(st); !yes {
						m.fail("an id is used although none was found")
					}
					drops = append(drops, dropped{nil, []*eng.Term{f}, nil})
				case n == 1:
					f := m.headID(l)
					if f == nil {
						m.fail("cannot tell which id is left behind")
						continue
					}
					if yes, _ := m.streamSays(st); !yes {
						m.fail("an id is used although none was found")
					}
					drops = append(drops, dropped{nil, []*eng.Term{f}, nil})
				}
			}
			m.step(l, st, emitted, drops)
		}
	}
}

// stuck reports whether the bi'th path around the loop leaves everything as
// it was: nothing is called, and no variable has another value.
func stuck(l *eng.Loop, bi int) bool {
	evs, _ := l.Backs[bi].EventsSince(l)
	for _, e := range evs {
		if e.Kind == "call" || e.Kind == "store" {
			return false
		}
	}
	for _, p := range l.Phis {
		if p.Backs[bi] != p.Sym {
			return false
		}
	}
	return true
}

// cut lists the elements left out when v becomes what is left of the list.
func (m *merge) cut(v, sym *eng.Term, st *eng.State, more []*eng.Term) (out []dropped, ok bool) {
	for range 8 {
		if v == sym {
			return out, true
		}
		switch {
		case v.Op == "slice" && m.bases[v.Args[0]] && v.Args[2] == eng.Len(v.Args[0]):
			d, ok := m.upTo(v.Args[0], v.Args[1], nil, st, more)
			if !ok {
				return nil, false
			}
			out = append(out, d...)
			v = v.Args[0]
		case m.r.PhiOf(v) != nil && m.bases[v]:
			v = m.r.PhiOf(v).Init
		default:
			return nil, false
		}
	}
	return nil, false
}

// step decides one path around a loop.
func (m *merge) step(l *eng.Loop, st *eng.State, emitted []*eng.Term, drops []dropped) {
	used := make([]bool, len(emitted))
	take := func(xs []*eng.Term) int {
		n := 0
		for i, e := range emitted {
			if holdsOne(st, xs, e) {
				used[i] = true
				n++
			}
		}
		return n
	}
	listDrops := 0
	for _, d := range drops {
		if d.src != nil {
			listDrops++
		}
		how, partner := m.against(d.src, d.xs, l, st, emitted)
		what := "an element of the list"
		if d.src == nil {
			what = "an id of the posting list"
		}
		n := take(d.xs)
		switch {
		case how == "":
			m.fail(what + " is left behind although it may not be smaller than what the other side has left")
		case how == "eq":
			gone := false
			for _, o := range drops {
				if o.src != d.src && holdsOne(st, o.xs, partner) {
					gone = true
				}
			}
			// in a union the other side's one may stay and be taken later
			if n != 1 && !(m.or && n == 0 && !gone) {
				m.fail(what + " that both sides have is not taken exactly once")
			}
			if m.or && n > 0 && !gone {
				m.fail(what + " that both sides have is left on the other side")
			}
		case m.or && n != 1:
			m.fail(what + " is not taken exactly once")
		case !m.or && n > 0:
			m.fail(what + " is taken that the other side does not have")
		}
	}
	for i, e := range emitted {
		if used[i] {
			continue
		}
		// taken before it is left behind: both sides have it
		ok := false
		if !m.or {
			for b := range m.bases {
				if m.srcOf[b] != b {
					continue
				}
				for _, h := range m.heads(b, st, emitted) {
					if !holdsOne(st, []*eng.Term{h}, e) {
						continue
					}
					if how, _ := m.against(b, []*eng.Term{h}, l, st, emitted); how == "eq" {
						ok = true
					}
				}
			}
		}
		if !ok {
			m.fail("a value is taken that is not an element left behind at the same time")
		}
	}
	for i := 1; i < len(emitted); i++ {
		if !st.Implies(eng.Lt(emitted[i-1], emitted[i])) {
			m.fail("values may be taken out of order")
		}
	}
	if m.pos != nil && len(emitted) > listDrops {
		m.fail("the result overtakes the list whose storage it uses")
	}
}

// setOps are the operations a function may be.
const (
	opList = "list"
	opAnd  = "and"
	opOr   = "or"
)

// A setOp is a function that was decided to combine sorted lists.
type setOp struct {
	fn       *ssa.Function
	op       string
	args     []int // parameter indices of the lists
	trigram  int
	restrict int
	fresh    bool // the result never shares storage with a list
}

// usesReader reports whether fn has a posting reader of its own.
func usesReader(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				if n, ok := a.Type().(*types.Pointer).Elem().(*types.Named); ok && n.Obj().Name() == "postReader" {
					return true
				}
			}
		}
	}
	return false
}

// readerMethods resolves the methods of the posting reader.
func (c *Ctx) readerMethods() (next, start *ssa.Function) {
	used := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs() {
		if !usesReader(f) {
			continue
		}
		// helpers may call them, but not the reader's own methods
		work := []*ssa.Function{f}
		seen := map[*ssa.Function]bool{f: true}
		for len(work) > 0 {
			f := work[0]
			work = work[1:]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						g := ci.Common().StaticCallee()
						if g == nil || seen[g] || len(g.Blocks) == 0 {
							continue
						}
						seen[g] = true
						if methodOf(g, "postReader") {
							used[g] = true
						} else {
							work = append(work, g)
						}
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs() {
		if !used[f] {
			continue
		}
		if !methodOf(f, "postReader") || f.Synthetic != "" {
			continue
		}
		s := f.Signature
		switch {
		case s.Params().Len() == 0 && s.Results().Len() == 1 && isBool(s.Results().At(0).Type()):
			next = f
		case s.Params().Len() == 3 && s.Results().Len() == 0:
			start = f
		}
	}
	return
}

func runSets(c *Ctx) {
	next, start := c.readerMethods()
	if next == nil || start == nil {
		c.Viol("anchor", "index:postReader", 0, "the methods of the posting reader were not found")
		return
	}
	field := c.restricted(next, start)
	if field == "" {
		return
	}
	pq := c.Func("index", "Index.PostingQuery")
	if pq == nil {
		return
	}
	isPrim := func(f *ssa.Function) bool {
		res := f.Signature.Results()
		if res.Len() != 1 || !isIntSlice(res.At(0).Type()) {
			return false
		}
		if usesReader(f) {
			return true
		}
		// a merge of lists
		n := 0
		for _, p := range f.Params {
			if !isIntSlice(p.Type()) {
				return false
			}
			n++
		}
		return n == 2
	}
	ops := map[string]*setOp{}
	decide := func(f *ssa.Function) *setOp {
		o, ok := ops[f.String()]
		if !ok {
			o = c.setOpOf(f, next, start, field)
			ops[f.String()] = o
		}
		return o
	}
	// the evaluation is the function that calls itself on subqueries
	var eval *ssa.Function
	for _, f := range c.P.Funcs() {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != load.Module+"/index" || f.Signature.Results().Len() != 1 || !isIntSlice(f.Signature.Results().At(0).Type()) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f && eval == nil {
					eval = f
				}
			}
		}
	}
	if !c.Check(eval != nil, "evaluates", "index:evaluation", pq.Pos(), "no function evaluates queries recursively") {
		return
	}
	c.evaluation(eval, isPrim, decide)
	// the exported functions
	for _, n := range []string{"PostingQuery", "PostingList", "PostingAnd", "PostingOr"} {
		f := c.P.Func("index", "Index."+n)
		if f == nil {
			continue
		}
		r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return g == eval || isPrim(g) }})
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			v := t.Rets[0]
			ok := v.Op == "call"
			if ok {
				g := fnOfCall(r, v)
				ok = g != nil && v.Args[0] == r.Params[0] && v.Args[len(v.Args)-1] == eng.Nil
				if ok && n == "PostingQuery" {
					ok = g == eval && v.Args[1] == r.Params[1]
				} else if ok {
					o := decide(g)
					want := map[string]string{"PostingList": opList, "PostingAnd": opAnd, "PostingOr": opOr}[n]
					ok = o != nil && o.op == want && o.trigram > 0 && v.Args[o.trigram] == r.Params[len(r.Params)-1]
					if !ok {
						o = &setOp{}
					}
					for _, a := range o.args {
						ok = ok && v.Args[a] == r.Params[1]
					}
				}
			}
			c.Check(ok, "unrestricted", "Index."+n, f.Pos(), "%s does not return the unrestricted result of what it was given", n)
		}
	}
	c.Min("combined", 4)
	c.Min("unrestricted", 1)
	c.Min("value", 4)
}

// fnOfCall returns the function whose call t is the result of.
func fnOfCall(r *eng.Run, t *eng.Term) *ssa.Function {
	for _, e := range r.Events {
		if e.Kind == "call" && (e.Res == t) {
			if ci, ok := e.Instr.(ssa.CallInstruction); ok {
				return ci.Common().StaticCallee()
			}
		}
	}
	return nil
}

// setOpOf decides which operation f is.
func (c *Ctx) setOpOf(f, next, start *ssa.Function, field string) *setOp {
	cons := fnLabel(f)
	o := &setOp{fn: f, trigram: -1, restrict: -1}
	r := c.Analyze(f, &eng.Config{KeepFacts: true, Opaque: func(g *ssa.Function) bool { return g == next || g == start }})
	var lists []*eng.Term
	var reader *eng.Term
	for _, e := range r.Events {
		if e.Kind == "call" && e.Name == start.String() {
			if reader != nil && reader != e.Args[0] {
				c.Check(false, "combined", cons, f.Pos(), "%s reads more than one posting list", cons)
				return nil
			}
			reader = e.Args[0]
			for i, p := range r.Params {
				switch p {
				case e.Args[2]:
					o.trigram = i
				case e.Args[3]:
					o.restrict = i
				}
			}
			c.Check(o.trigram > 0 && o.restrict > 0 && e.Args[1] == r.Params[0], "combined", cons+" reader", e.Instr.Pos(), "%s does not read the posting list of the trigram it was given, restricted to the list it was given", cons)
		}
	}
	for i, p := range r.Params {
		if isIntSlice(f.Params[i].Type()) && i != o.restrict {
			lists = append(lists, p)
			o.args = append(o.args, i)
		}
	}
	kinds := []string{opAnd, opOr}
	if len(lists) == 0 {
		kinds = []string{opList}
	} else if reader == nil && len(lists) == 2 {
		kinds = []string{opOr, opAnd}
	}
	var first []string
	for _, k := range kinds {
		m := &merge{c: c, r: r, cons: cons, or: k != opAnd, stream: reader, field: field, next: next.String()}
		if reader == nil {
			m.next = ""
		}
		m.learn(lists)
		fresh := m.finish(lists)
		if len(m.bad) == 0 {
			o.op = k
			o.fresh = fresh
			c.Check(true, "combined", cons, f.Pos(), "")
			return o
		}
		// report what is wrong with the operation it is closest to
		if first == nil || len(m.bad) < len(first) {
			first = m.bad
		}
	}
	for _, b := range first {
		c.Check(false, "combined", cons, f.Pos(), "%s computes neither the union nor the intersection: %s", cons, b)
	}
	return nil
}

// finish decides the loops and the results.
func (m *merge) finish(lists []*eng.Term) (fresh bool) {
	r := m.r
	results := map[*eng.Term]bool{}
	roots := map[*eng.Term]bool{}
	var see func(v *eng.Term)
	see = func(v *eng.Term) {
		switch {
		case v.Op == "append":
			see(v.Args[0])
		case r.PhiOf(v) != nil && !m.bases[v]:
			if results[v] {
				return
			}
			results[v] = true
			p := r.PhiOf(v)
			see(p.Init)
			for _, b := range p.Backs {
				see(b)
			}
		default:
			roots[v] = true
		}
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind == "return" {
			see(t.Rets[0])
			n++
		}
	}
	if n == 0 {
		m.fail("it does not return")
	}
	fresh = true
	for v := range roots {
		switch {
		case v == eng.Nil, v.Op == "makeslice" && v.Args[0] == eng.Int(0):
		case v.Op == "slice" && m.bases[v.Args[0]] && m.srcOf[v.Args[0]] == v.Args[0] && v.Args[1] == eng.Int(0) && v.Args[2] == eng.Int(0):
			fresh = false
			if len(lists) == 0 {
				m.fail("the result uses storage that is still needed")
			}
			for _, l := range r.Loops {
				m.pos = l
			}
		default:
			if m.bases[v] && m.allowWhole(v) {
				continue
			}
			m.fail("the result does not start empty: " + v.String())
		}
	}
	m.steps(results)
	m.exits(results)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		m.ends(t)
	}
	return fresh
}

func (m *merge) allowWhole(v *eng.Term) bool { return false }

// ends decides one return.
func (m *merge) ends(t *eng.Terminal) {
	st, v := t.St, t.Rets[0]
	rest := map[*eng.Term]bool{}
	for v.Op == "append" {
		if v.Aux == "elems" {
			m.fail("values are added after the last loop")
			return
		}
		// the rest of a list
		tail := v.Args[1]
		ok := false
		if tail.Op == "slice" && m.bases[tail.Args[0]] && m.isHead(tail.Args[0], tail.Args[1]) && tail.Args[2] == eng.Len(tail.Args[0]) {
			rest[m.srcOf[tail.Args[0]]] = true
			ok = m.current(tail.Args[0], tail.Args[1])
		} else if m.bases[tail] && m.r.PhiOf(tail) != nil {
			rest[m.srcOf[tail]] = true
			ok = true
		}
		if !ok || !m.or {
			m.fail("what is added at the end is not the rest of a list")
			return
		}
		v = v.Args[0]
	}
	done, all := 0, 0
	for b := range m.bases {
		if m.srcOf[b] != b {
			continue
		}
		all++
		if m.listDone(b, st) {
			done++
		} else if rest[b] {
			done++
		}
	}
	if m.stream != nil {
		all++
		if _, no := m.streamSays(st); no {
			done++
		}
	}
	for b := range rest {
		if m.listDone(b, st) {
			continue
		}
		// the other side is exhausted
		for o := range m.bases {
			if m.srcOf[o] == o && o != b && !m.listDone(o, st) {
				m.fail("the rest of a list is added although the other has elements left")
			}
		}
		if m.stream != nil {
			if _, no := m.streamSays(st); !no {
				m.fail("the rest of a list is added although the posting list has ids left")
			}
		}
	}
	if m.or && done < all {
		m.fail("it ends although a side has elements left")
	}
	if !m.or && done == 0 {
		m.fail("it ends although both sides have elements left")
	}
}

// current reports whether idx is the outermost cursor of b, which stands at
// the first element not yet handled when all loops have ended.
func (m *merge) current(b, idx *eng.Term) bool {
	p, _, ok := phiPlus(m.r, idx)
	if !ok {
		return false
	}
	// no later loop may have moved on from p
	for _, l := range m.r.Loops {
		for _, q := range l.Phis {
			if q == p {
				continue
			}
			if o, _, ok := phiPlus(m.r, q.Init); ok && o == p && m.base[q.Sym] == b && m.r.LoopOf(p.Sym) != nil {
				// an inner loop starts at p: p's own loop takes its end over
				took := false
				for _, v := range p.Backs {
					if w, _, ok := phiPlus(m.r, v); ok && w == q {
						took = true
					}
				}
				if !took {
					return false
				}
			}
		}
	}
	return true
}

// exits decides the paths that leave a loop in the middle of a pass.
func (m *merge) exits(results map[*eng.Term]bool) {
	for _, l := range m.r.Loops {
		for _, st := range l.Exits {
			evs, ok := st.EventsSince(l)
			if !ok || m.stream == nil {
				continue
			}
			read := false
			for _, e := range evs {
				read = read || e.Name == m.next
			}
			if !read {
				continue
			}
			yes, no := m.streamSays(st)
			if no || !yes {
				continue
			}
			done := false
			for b := range m.bases {
				if m.srcOf[b] == b && m.listDone(b, st) {
					done = true
				}
			}
			if m.or || !done {
				m.fail("a loop is left although an id was just found")
			}
		}
		// nothing is taken between the loops
		for _, p := range l.Phis {
			if results[p.Sym] && p.Init.Op == "append" && m.r.PhiOf(p.Init.Args[0]) != nil {
				o := m.r.LoopOf(p.Init.Args[0])
				if !l.Entry.Inside(o) {
					m.fail("values are taken between the loops")
				}
			}
		}
	}
}

// restricted decides the posting stream against the list it is restricted to
// and returns the name of the field with the current id.
func (c *Ctx) restricted(next, start *ssa.Function) string {
	cons := fnLabel(next)
	delta := func(f *ssa.Function) bool {
		return methodOf(f, "deltaReader") || methodOf(f, "Index")
	}
	r := c.Analyze(next, &eng.Config{KeepFacts: true, Opaque: delta})
	recv := r.Params[0]
	sst := recv.Typ.(*types.Pointer).Elem().Underlying().(*types.Struct)
	at := func(i int) *eng.Term { return eng.FieldAddr(recv, sst, i) }
	isDelta := func(t *eng.Term) bool {
		return t.Op == "call" && len(t.Args) == 1 && t.Args[0].Op == "field" && t.Args[0].Args[0] == recv
	}
	// the id is the field to which what is read is added
	field, list, count := "", -1, -1
	var idAddr *eng.Term
	for i := 0; i < sst.NumFields(); i++ {
		a := at(i)
		if isIntSlice(sst.Field(i).Type()) {
			list = i
		}
		for _, l := range r.Loops {
			for _, p := range l.Phis {
				if p.Addr != a {
					continue
				}
				for _, v := range p.Backs {
					d := eng.Sub(v, p.Sym)
					if isDelta(d) {
						field, idAddr = sst.Field(i).Name(), a
					}
					if d == eng.Int(-1) {
						count = i
					}
				}
			}
		}
	}
	if field == "" {
		// without a loop: look at the results
		for _, t := range r.Terms {
			for i := 0; i < sst.NumFields(); i++ {
				v := t.St.Load(at(i), sst.Field(i).Type())
				for _, a := range eng.Atoms(v) {
					if isDelta(a) {
						field, idAddr = sst.Field(i).Name(), at(i)
					}
				}
			}
		}
	}
	if !c.Check(field != "" && list >= 0 && count >= 0, "restricted", cons+" id", next.Pos(), "%s does not add what it reads to the id of the file before it", cons) {
		return ""
	}
	listT := sst.Field(list).Type()
	src := eng.Mk("ld", "", listT, at(list))
	m := &merge{c: c, r: r, cons: cons}
	m.inner = func(st *eng.State) []*eng.Term {
		v := st.Load(idAddr, types.Typ[types.Int])
		// the id before, plus one delta
		n := 0
		var rest = v
		for _, a := range eng.Atoms(v) {
			if isDelta(a) {
				n++
				rest = eng.Sub(rest, a)
			}
		}
		p := r.PhiOf(rest)
		if n != 1 || !(rest == eng.Mk("ld", "", types.Typ[types.Int], idAddr) || p != nil && p.Addr == idAddr) {
			m.fail("what is read is not added to the id of the file before it")
			return []*eng.Term{eng.Sym("unknown id", types.Typ[types.Int])}
		}
		return []*eng.Term{v}
	}
	m.learn([]*eng.Term{src})
	unrestricted := func(st *eng.State) (no, yes bool) {
		for b := range m.bases {
			if st.Implies(eng.Eq(b, eng.Nil, nil)) {
				no = true
			}
			if st.Implies(eng.Not(eng.Eq(b, eng.Nil, nil))) {
				yes = true
			}
		}
		return
	}
	readsIn := func(st *eng.State, l *eng.Loop) int {
		var evs []*eng.Event
		if l != nil {
			evs, _ = st.EventsSince(l)
		} else {
			evs = st.Events(true)
		}
		n := 0
		for _, e := range evs {
			if e.Kind == "call" && isDelta(e.Res) && !st.Implies(eng.EqInt(e.Res, eng.Int(0))) {
				n++
			}
		}
		return n
	}
	for _, l := range r.Loops {
		for bi, st := range l.Backs {
			if stuck(l, bi) {
				m.fail("a path around a loop changes nothing: the loop does not end")
			}
			var drops []dropped
			reads := readsIn(st, l)
			for _, p := range l.Phis {
				var d []dropped
				ok := true
				switch {
				case m.base[p.Sym] != nil:
					d, ok = m.upTo(m.base[p.Sym], eng.AddK(p.Backs[bi], m.offs[p.Sym]), p, st, nil)
				case m.bases[p.Sym]:
					d, ok = m.cut(p.Backs[bi], p.Sym, st, nil)
				case p.Addr == at(count):
					ok = reads == 0 && p.Backs[bi] == p.Sym || reads == 1 && p.Backs[bi] == eng.AddK(p.Sym, -1)
				}
				if !ok {
					m.fail("a position does not move on step by step")
				}
				drops = append(drops, d...)
			}
			for _, p := range l.Phis {
				if p.Addr != idAddr {
					continue
				}
				for _, f := range m.inner(st) {
					if f == nil {
						m.fail("the id is not the one before plus the difference read")
						continue
					}
					if _, yes := unrestricted(st); !yes {
						m.fail("an id is passed over although nothing restricts the list")
					}
					drops = append(drops, dropped{nil, []*eng.Term{f}, nil})
				}
			}
			m.step(l, st, nil, drops)
		}
	}
	yes, no := 0, 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		switch t.Rets[0] {
		case eng.True:
			yes++
			f := m.inner(st)[0]
			if f == nil {
				m.fail("the id found is not the one before plus the difference read")
				continue
			}
			left := st.Load(at(list), listT)
			no, yes := unrestricted(st)
			if no {
				if !m.bases[left] {
					m.fail("the list it is restricted to changes")
				}
				continue
			}
			if !yes {
				m.fail("it is not known whether the list is restricted when an id is found")
			}
			// the id is in the list
			if how, _ := m.against(nil, []*eng.Term{f}, nil, st, nil); how != "eq" {
				m.fail("an id is found that the list it is restricted to may not have")
			}
			// what is left behind on the way
			base := left
			for base.Op == "slice" {
				base = base.Args[0]
			}
			d, ok := m.cut(left, m.outer(base), st, nil)
			if !ok {
				m.fail("the list it is restricted to is not shortened step by step")
			}
			for _, x := range d {
				if how, _ := m.against(x.src, x.xs, nil, st, nil); how != "eq" && how != "lt" {
					m.fail("an element of the list is left behind although it may not be smaller than the id")
				}
			}
		case eng.False:
			no++
			cnt := st.Load(at(count), sst.Field(count).Type())
			done := st.Implies(eng.Le(cnt, eng.Int(0)))
			for i := 0; i < sst.NumFields(); i++ {
				// not started: there is no list
				if n, ok := sst.Field(i).Type().(*types.Pointer); ok {
					_ = n
					v := eng.Mk("ld", "", sst.Field(i).Type(), at(i))
					done = done || st.Implies(eng.Eq(v, eng.Nil, nil))
				}
			}
			if _, restricted := unrestricted(st); restricted && m.listDone(src, st) {
				done = true
			}
			if !done {
				m.fail("it ends although ids are left")
			}
			if p, k, ok := phiPlus(r, cnt); ok && !st.Implies(eng.Le(cnt, eng.Int(0))) {
				n := 0
				evs, _ := st.EventsSince(r.LoopOf(p.Sym))
				for _, e := range evs {
					if e.Kind == "call" && e.Res != nil && isDelta(e.Res) {
						n++
					}
				}
				if int64(n) > -k {
					m.fail("a difference is read and not added to the id")
				}
			}
		default:
			m.fail("it cannot be told whether an id was found")
		}
	}
	if yes == 0 || no == 0 {
		m.fail("it never ends or never finds an id")
	}
	c.Check(len(m.bad) == 0, "restricted", cons, next.Pos(), "the posting list restricted to a list is not their intersection: %v", m.bad)

	// the stream starts with the list it was given
	rs := c.Analyze(start, &eng.Config{Opaque: delta})
	rp := rs.Params[0]
	for _, t := range rs.Terms {
		if t.Kind != "return" {
			continue
		}
		cnt := t.St.Load(eng.FieldAddr(rp, sst, count), sst.Field(count).Type())
		if cnt.Op == "ld" && cnt.Args[0] == eng.FieldAddr(rp, sst, count) {
			// not started: nothing was found
			c.Check(anyZero(t.St), "restricted", fnLabel(start)+" empty", start.Pos(), "%s leaves the reader unused although the trigram may have a posting list", fnLabel(start))
			continue
		}
		c.Check(t.St.Load(eng.FieldAddr(rp, sst, list), listT) == rs.Params[3], "restricted", fnLabel(start)+" list", start.Pos(), "the reader is not restricted to the list it was given")
		c.Check(t.St.Load(fieldAddr(rp, field), types.Typ[types.Int]) == eng.Int(-1), "restricted", fnLabel(start)+" first", start.Pos(), "the reader does not start before file 0")
	}
	return field
}

// anyZero reports whether the path knows the count found to be zero.
func anyZero(st *eng.State) bool {
	for _, f := range st.Facts {
		zero := false
		f.Walk(func(t *eng.Term) bool {
			if t.Op == "extract" && st.Implies(eng.Le(t, eng.Int(0))) {
				zero = true
			}
			return !zero
		})
		if zero {
			return true
		}
	}
	return false
}

// outer returns the list at the start of the pass of the loop b belongs to.
func (m *merge) outer(b *eng.Term) *eng.Term { return b }

// A setExpr is a conjunction or disjunction of atoms; an atom is the list so
// far ("L"), the restriction ("R"), or the set of a trigram or subquery (the
// term it was read from).
type setExpr struct {
	or    bool
	atoms map[string]*eng.Term
	parts []*setExpr // of a disjunction
}

type evaluator struct {
	c        *Ctx
	r        *eng.Run
	fn       *ssa.Function
	q, rst   *eng.Term
	decide   func(*ssa.Function) *setOp
	why      string
	op       *eng.Term
	trig     *eng.Term // address of q.Trigram
	sub      *eng.Term
	restrict int
}

func conj(as map[string]*eng.Term, more ...*setExpr) *setExpr {
	x := &setExpr{atoms: map[string]*eng.Term{}}
	for k, v := range as {
		x.atoms[k] = v
	}
	for _, m := range more {
		if m == nil || m.or {
			return nil
		}
		for k, v := range m.atoms {
			x.atoms[k] = v
		}
	}
	return x
}

// item recognises an element of q.Trigram or q.Sub.
func (ev *evaluator) item(t *eng.Term) (kind string, idx *eng.Term, ok bool) {
	b, i, isElem := elemOf(t)
	if !isElem || b.Op != "ld" {
		return "", nil, false
	}
	switch b.Args[0] {
	case ev.trig:
		return "T", i, true
	case ev.sub:
		return "S", i, true
	}
	return "", nil, false
}

// packed recognises the number of a trigram.
func (ev *evaluator) packed(st *eng.State, t *eng.Term) *eng.Term {
	bs := bitsOf(st, t, 32)
	var str *eng.Term
	for i, b := range bs {
		if i >= 24 {
			if !b.isConst(0) {
				return nil
			}
			continue
		}
		if b.leaf == nil || b.leaf.Op != "stridx" || b.idx != i%8 || b.leaf.Args[1] != eng.Int(int64(2-i/8)) {
			return nil
		}
		if str == nil {
			str = b.leaf.Args[0]
		}
		if str != b.leaf.Args[0] {
			return nil
		}
	}
	return str
}

// limit evaluates the restriction passed to an operation.
func (ev *evaluator) limit(t *eng.Term, acc *eng.Term, st *eng.State) *setExpr {
	null := eng.Eq(t, eng.Nil, nil)
	switch {
	case t == eng.Nil || st.Implies(null):
		if t != ev.rst && t != eng.Nil && t != acc {
			ev.why = "a missing list is used as a restriction"
			return nil
		}
		return conj(nil)
	case t == ev.rst:
		return conj(map[string]*eng.Term{"R": t})
	case !st.Implies(eng.Not(null)) && !st.Implies(eng.Not(eng.EqInt(eng.Len(t), eng.Int(0)))) && !st.Implies(eng.Lt(eng.Int(0), eng.Len(t))):
		ev.why = "a list that may be missing is used as a restriction, which would lift it"
		return nil
	}
	return ev.eval(t, acc, st)
}

// eval evaluates a list.
func (ev *evaluator) eval(t, acc *eng.Term, st *eng.State) *setExpr {
	if t == acc {
		return conj(map[string]*eng.Term{"L": t})
	}
	if t == ev.rst && st.Implies(eng.Not(eng.Eq(t, eng.Nil, nil))) {
		return conj(map[string]*eng.Term{"R": t})
	}
	if t.Op != "call" {
		ev.why = "a list comes from elsewhere"
		return nil
	}
	f := fnOfCall(ev.r, t)
	if f == nil {
		ev.why = "a list comes from an unknown function"
		return nil
	}
	if f == ev.fn {
		k, _, ok := ev.item(t.Args[1])
		if !ok || k != "S" || t.Args[0] != ev.r.Params[0] {
			ev.why = "something other than a subquery is evaluated"
			return nil
		}
		return conj(map[string]*eng.Term{"S": t.Args[1]}, ev.limit(t.Args[ev.restrict], acc, st))
	}
	o := ev.decide(f)
	if o == nil {
		ev.why = "a list is computed by " + fnLabel(f) + ", which was not understood"
		return nil
	}
	var own *setExpr
	if o.trigram > 0 {
		str := ev.packed(st, t.Args[o.trigram])
		if str == nil {
			ev.why = "a trigram is not packed from its three bytes in order"
			return nil
		}
		k, _, ok := ev.item(str)
		if !ok || k != "T" || t.Args[0] != ev.r.Params[0] {
			ev.why = "something other than a trigram of the query is looked up"
			return nil
		}
		own = conj(map[string]*eng.Term{"T": str}, ev.limit(t.Args[o.restrict], acc, st))
		if own == nil {
			return nil
		}
	}
	var parts []*setExpr
	if own != nil {
		parts = append(parts, own)
	}
	for _, i := range o.args {
		a := t.Args[i]
		if o.op == opOr && st.Implies(eng.Eq(a, eng.Nil, nil)) {
			continue
		}
		x := ev.eval(a, acc, st)
		if x == nil {
			return nil
		}
		if !o.fresh && !ev.owned(a) {
			ev.why = "a list that is used elsewhere is overwritten in place"
			return nil
		}
		parts = append(parts, x)
	}
	if o.op == opOr {
		x := &setExpr{or: true}
		for _, p := range parts {
			if p.or {
				x.parts = append(x.parts, p.parts...)
			} else {
				x.parts = append(x.parts, p)
			}
		}
		return x
	}
	return conj(nil, parts...)
}

// owned reports whether the list is fresh storage of this evaluation.
func (ev *evaluator) owned(t *eng.Term) bool {
	if t == eng.Nil {
		return true
	}
	for _, v := range leaves(ev.r, t) {
		if v == eng.Nil {
			continue
		}
		if v.Op != "call" {
			return false
		}
		f := fnOfCall(ev.r, v)
		if f == nil || f == ev.fn {
			return false // the evaluation may return the restriction itself
		}
		if o := ev.decide(f); o == nil {
			return false
		}
	}
	return true
}

func (c *Ctx) evaluation(eval *ssa.Function, isPrim func(*ssa.Function) bool, decide func(*ssa.Function) *setOp) {
	cons := fnLabel(eval)
	// returns the list of the loop over all files, too
	r := c.Analyze(eval, &eng.Config{KeepFacts: true, Stores: func(a *eng.Term) bool { return a.Op == "elem" },
		Opaque: func(g *ssa.Function) bool { return g == eval || isPrim(g) }})
	if len(r.Params) < 3 {
		c.Check(false, "value", cons, eval.Pos(), "%s does not take a query and a restriction", cons)
		return
	}
	ev := &evaluator{c: c, r: r, fn: eval, q: r.Params[1], decide: decide}
	for i, p := range eval.Params {
		if isIntSlice(p.Type()) {
			ev.rst, ev.restrict = r.Params[i], i
		}
	}
	qst, ok := ev.q.Typ.Underlying().(*types.Pointer)
	if !ok || ev.rst == nil {
		c.Check(false, "value", cons, eval.Pos(), "%s does not take a query and a restriction", cons)
		return
	}
	s := qst.Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		a := eng.FieldAddr(ev.q, s, i)
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Basic:
			ev.op = eng.Mk("ld", "", s.Field(i).Type(), a)
		case *types.Slice:
			if _, isPtr := u.Elem().(*types.Pointer); isPtr {
				ev.sub = a
			} else {
				ev.trig = a
			}
		}
	}
	ops := map[string]*eng.Term{}
	for _, n := range []string{"QAll", "QNone", "QAnd", "QOr"} {
		ops[n] = c.constOf("index", n)
		if ops[n] == nil {
			return
		}
	}
	seen := map[string]bool{}
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		for _, n := range sortedKeys(ops) {
			if st.Implies(eng.Not(eng.EqInt(ev.op, ops[n]))) {
				continue
			}
			sure := st.Implies(eng.EqInt(ev.op, ops[n]))
			seen[n] = true
			ev.why = ""
			ok := false
			switch n {
			case "QNone":
				ok = t.Rets[0] == eng.Nil || st.Implies(eng.EqInt(eng.Len(t.Rets[0]), eng.Int(0)))
				ev.why = "it is not empty"
			case "QAll":
				ok = sure && ev.all(t)
			default:
				ok = sure && ev.combination(t, n == "QOr")
				if !sure {
					ev.why = "the operator is not examined"
				}
			}
			c.Check(ok, "value", cons+" "+n, eval.Pos(), "the value of a query with operator %s is not what the operator stands for: %s", n, ev.why)
		}
	}
	for n := range ops {
		c.Check(seen[n], "value", cons+" "+n, eval.Pos(), "queries with operator %s are not evaluated", n)
	}
}

// all decides the value of the query that everything matches.
func (ev *evaluator) all(t *eng.Terminal) bool {
	st, v := t.St, t.Rets[0]
	null := eng.Eq(ev.rst, eng.Nil, nil)
	if v == ev.rst {
		ev.why = "without a restriction it is not all files"
		return st.Implies(eng.Not(null))
	}
	if !st.Implies(null) {
		ev.why = "it is not the restriction"
		return false
	}
	n := eng.Mk("ld", "", types.Typ[types.Int], fieldAddr(ev.r.Params[0], "numName"))
	ev.why = "not every file is listed"
	index := func(l *eng.Loop, idx *eng.Term, bi int) bool {
		p, k, ok := phiPlus(ev.r, idx)
		return ok && l.Phi(p.Sym) == p && p.Init.IsInt() && p.Init.K+k == 0 && p.Backs[bi] == eng.AddK(p.Sym, 1)
	}
	ended := func(l *eng.Loop, idx *eng.Term) bool {
		for _, x := range l.Exits {
			if !x.Implies(eng.Le(n, idx)) {
				return false
			}
		}
		return len(l.Exits) > 0
	}
	for _, l := range st.Passed() {
		switch {
		case v.Op == "makeslice" && eng.Len(v) == n:
			ok := len(l.Backs) > 0
			for bi, b := range l.Backs {
				evs, _ := b.EventsSince(l)
				w := 0
				for _, e := range evs {
					if e.Kind != "store" {
						continue
					}
					a := e.Args[0]
					if a.Op == "elem" && a.Args[0] == v {
						w++
						ok = ok && a.Args[1] == e.Args[1] && index(l, a.Args[1], bi) && ended(l, a.Args[1])
					}
				}
				ok = ok && w == 1
			}
			if ok {
				return true
			}
		case l.Phi(v) != nil:
			p := l.Phi(v)
			ok := len(l.Backs) > 0 && (p.Init == eng.Nil || p.Init.Op == "makeslice" && p.Init.Args[0] == eng.Int(0))
			for bi := range l.Backs {
				x := p.Backs[bi]
				ok = ok && x.Op == "append" && x.Aux == "elems" && len(x.Args) == 2 && x.Args[0] == p.Sym && index(l, x.Args[1], bi) && ended(l, x.Args[1])
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// combination decides the value of an and or or query.
func (ev *evaluator) combination(t *eng.Terminal, or bool) bool {
	st, v := t.St, t.Rets[0]
	if !or {
		// cut short: the result is known to be empty
		if v == eng.Nil || st.Implies(eng.EqInt(eng.Len(v), eng.Int(0))) {
			for _, e := range st.Events(true) {
				if e.Kind == "call" && e.Res != nil && e.Res.Typ != nil && isIntSlice(e.Res.Typ) && st.Implies(eng.EqInt(eng.Len(e.Res), eng.Int(0))) {
					if ev.narrows(e.Res, st) {
						return true
					}
				}
			}
		}
	}
	done := map[string]bool{}
	for {
		if js := ev.r.JoinSources(v); len(js) > 0 {
			ev.why = "the list is not the one the loops compute"
			return false
		}
		p := ev.r.PhiOf(v)
		if p == nil {
			break
		}
		l := ev.r.LoopOf(v)
		kind, ok := ev.loop(l, p, or)
		if !ok {
			return false
		}
		if done[kind] {
			ev.why = "the query's parts are visited twice"
			return false
		}
		done[kind] = true
		v = p.Init
	}
	if v != eng.Nil && !(v == ev.rst && !or) {
		ev.why = "the list does not start empty"
		return false
	}
	for k, a := range map[string]*eng.Term{"T": ev.trig, "S": ev.sub} {
		if done[k] {
			continue
		}
		ln := eng.Len(eng.Mk("ld", "", a.Typ.Underlying().(*types.Pointer).Elem(), a))
		if !st.Implies(eng.Le(ln, eng.Int(0))) {
			ev.why = map[string]string{"T": "the trigrams are left out", "S": "the subqueries are left out"}[k]
			return false
		}
	}
	return true
}

// narrows reports whether v, computed on the path, contains the result of an
// and query.
func (ev *evaluator) narrows(v *eng.Term, st *eng.State) bool {
	for _, l := range ev.r.Loops {
		for _, p := range l.Phis {
			if p.Sym.Typ != nil && isIntSlice(p.Sym.Typ) {
				if x := ev.eval(v, p.Sym, st); x != nil && !x.or {
					return true
				}
			}
		}
	}
	x := ev.eval(v, nil, st)
	return x != nil && !x.or
}

// loop decides one loop over the query's trigrams or subqueries.
func (ev *evaluator) loop(l *eng.Loop, acc *eng.Phi, or bool) (kind string, ok bool) {
	var idx *eng.Term
	var list *eng.Term
	for bi, st := range l.Backs {
		v := acc.Backs[bi]
		null := st.Implies(eng.Eq(acc.Sym, eng.Nil, nil))
		some := st.Implies(eng.Not(eng.Eq(acc.Sym, eng.Nil, nil)))
		x := ev.eval(v, acc.Sym, st)
		if x == nil {
			return "", false
		}
		want := func(x *setExpr) *eng.Term { // the part that is new
			for _, k := range []string{"T", "S"} {
				if it := x.atoms[k]; it != nil {
					_, i, _ := ev.item(it)
					if kind != "" && kind != k || idx != nil && idx != i {
						return nil
					}
					kind, idx = k, i
					list = it.Args[0].Args[0]
					return it
				}
			}
			return nil
		}
		restricted := func(x *setExpr) bool {
			return x.atoms["R"] != nil || x.atoms["L"] != nil || st.Implies(eng.Eq(ev.rst, eng.Nil, nil)) || acc.Sym == ev.rst
		}
		if !or {
			if x.or {
				ev.why = "an and query is evaluated by a union"
				return "", false
			}
			if want(x) == nil {
				ev.why = "a trigram or subquery is skipped"
				return "", false
			}
			if x.atoms["L"] == nil && !null {
				ev.why = "the list so far is forgotten"
				return "", false
			}
			if !restricted(x) && !(null && ev.startsRestricted(acc)) {
				ev.why = "the restriction is forgotten"
				return "", false
			}
			for k := range x.atoms {
				if k != "L" && k != "R" && k != kind {
					ev.why = "more than one thing is required"
					return "", false
				}
			}
			// a missing list means that nothing was visited yet
			if !st.Implies(eng.Not(eng.EqInt(eng.Len(v), eng.Int(0)))) && !st.Implies(eng.Lt(eng.Int(0), eng.Len(v))) && !ev.present(v) {
				ev.why = "an empty list may be taken for one not computed yet"
				return "", false
			}
			_ = some
			continue
		}
		parts := x.parts
		if !x.or {
			parts = []*setExpr{x}
		}
		hasL, n := false, 0
		for _, y := range parts {
			if len(y.atoms) == 1 && y.atoms["L"] != nil {
				hasL = true
				continue
			}
			n++
			if y.atoms["L"] != nil || y.atoms["T"] != nil && y.atoms["S"] != nil {
				ev.why = "an or query is evaluated by an intersection"
				return "", false
			}
			if want(y) == nil {
				ev.why = "a trigram or subquery is skipped"
				return "", false
			}
			if !restricted(y) {
				ev.why = "the restriction is forgotten"
				return "", false
			}
		}
		if !hasL && !null {
			ev.why = "the list so far is forgotten"
			return "", false
		}
		if n != 1 {
			ev.why = "a trigram or subquery is skipped"
			return "", false
		}
	}
	if idx == nil {
		ev.why = "the list is computed by a loop that visits neither trigrams nor subqueries"
		return "", false
	}
	p, k, isPhi := phiPlus(ev.r, idx)
	if !isPhi || l.Phi(p.Sym) != p || !p.Init.IsInt() || p.Init.K+k != 0 {
		ev.why = "the first trigram or subquery is not visited"
		return "", false
	}
	for _, b := range p.Backs {
		if b != eng.AddK(p.Sym, 1) {
			ev.why = "not every trigram or subquery is visited"
			return "", false
		}
	}
	for _, x := range l.Exits {
		if x.Implies(eng.Le(eng.Len(list), idx)) {
			continue
		}
		empty := false
		if !or {
			for _, e := range x.Events(true) {
				if e.Kind == "call" && e.Res != nil && e.Res.Typ != nil && isIntSlice(e.Res.Typ) && x.Implies(eng.EqInt(eng.Len(e.Res), eng.Int(0))) && ev.narrows(e.Res, x) {
					empty = true
				}
			}
			if x.Implies(eng.EqInt(eng.Len(acc.Sym), eng.Int(0))) && x.Implies(eng.Not(eng.Eq(acc.Sym, eng.Nil, nil))) {
				empty = true
			}
		}
		if !empty {
			ev.why = "the visit of the query's parts is cut short"
			return "", false
		}
	}
	return kind, true
}

func (ev *evaluator) startsRestricted(acc *eng.Phi) bool {
	for _, v := range leaves(ev.r, acc.Sym) {
		if v == ev.rst {
			return true
		}
	}
	return false
}

// present reports whether v is never the nil slice.
func (ev *evaluator) present(v *eng.Term) bool {
	f := fnOfCall(ev.r, v)
	if f == nil {
		return false
	}
	if f == ev.fn {
		return false
	}
	o := ev.decide(f)
	if o == nil {
		return false
	}
	// the result starts from fresh storage or from a list that is present
	r := eng.Analyze(ev.c.P.SSA, f, &eng.Config{Module: load.Module})
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		w := t.Rets[0]
		for w.Op == "append" {
			w = w.Args[0]
		}
		for _, x := range leaves(r, w) {
			for x.Op == "append" {
				x = x.Args[0]
			}
			if r.PhiOf(x) != nil || x.Op == "makeslice" || x.Op == "slice" {
				continue
			}
			return false
		}
	}
	return true
}
