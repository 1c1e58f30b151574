package rules

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// primitives checks that the operations on sets are what the calculus takes
// them for.
func (c *Ctx) primitives(mk func(*eng.Run) *judge) {
	// union: both sets, whatever the order
	c.setPrim(mk, "stringSet.union", func(j *judge, st *eng.State, ret *eng.Term) string {
		for _, p := range j.r.Params[:2] {
			if !j.set(st, "E", ret, &lang{k: "set", t: p}) {
				return "the result need not contain every string of " + p.String()
			}
		}
		return ""
	})
	c.setPrim(mk, "stringSet.copy", func(j *judge, st *eng.State, ret *eng.Term) string {
		if !j.set(st, "E", ret, &lang{k: "set", t: j.r.Params[0]}) {
			return "the result need not contain every string"
		}
		if j.notFresh(ret) {
			return "the result shares the storage of the set"
		}
		return ""
	})
	c.setPrim(mk, "stringSet.cross", func(j *judge, st *eng.State, ret *eng.Term) string {
		x := ret
		for x.Op == "cleaned" {
			x = x.Args[0]
		}
		if !j.crossLoop(st, x, j.r.Params[0], j.r.Params[1]) {
			return "the result need not contain every string of the one followed by every string of the other"
		}
		if j.notFresh(ret) {
			return "the result shares the storage of a set"
		}
		return ""
	})
	c.setPrim(mk, "stringSet.minLen", func(j *judge, st *eng.State, ret *eng.Term) string {
		if !j.leastLen(st, ret, j.r.Params[0]) {
			return "the result " + ret.String() + " can be more than the length of some string"
		}
		return ""
	})
	c.cleaning(mk)
}

func (c *Ctx) setPrim(mk func(*eng.Run) *judge, name string, bad func(*judge, *eng.State, *eng.Term) string) {
	fn := c.Func("index", name)
	if fn == nil {
		return
	}
	r := c.coverRun(fn, nil)
	j := mk(r)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 {
			c.Check(false, "primitive", name, fn.Pos(), "%s can end in a %s", name, t.Kind)
			continue
		}
		n++
		j.n = 0
		why := bad(j, t.St, t.Rets[0])
		c.Check(why == "", "primitive", name, fn.Pos(), "%s: %s", name, why)
	}
	c.Check(n > 0, "primitive", name+" returns", fn.Pos(), "%s never returns", name)
	c.consumption(j, fn, name)
}

// notFresh reports whether the storage of t can be that of a parameter.
func (j *judge) notFresh(t *eng.Term) bool {
	for s := range j.storage(t, nil) {
		for _, p := range j.r.Params {
			if s == p {
				return true
			}
		}
	}
	return false
}

// storage lists the origins of the memory a set is kept in.
func (j *judge) storage(t *eng.Term, seen map[*eng.Term]bool) map[*eng.Term]bool {
	out := map[*eng.Term]bool{}
	if seen == nil {
		seen = map[*eng.Term]bool{}
	}
	if seen[t] || t == eng.Nil {
		return out
	}
	seen[t] = true
	add := func(m map[*eng.Term]bool) {
		for k := range m {
			out[k] = true
		}
	}
	switch t.Op {
	case "union", "cleaned", "append", "slice":
		add(j.storage(t.Args[0], seen))
		if len(out) == 0 && (t.Op == "union" || t.Op == "append") {
			out[t] = true // append to nothing
		}
		return out
	}
	if p := j.r.PhiOf(t); p != nil {
		add(j.storage(p.Init, seen))
		for _, b := range p.Backs {
			for k := range j.storage(b, seen) {
				if k != t && !(k.Op == "append" && k.Args[0] == t) {
					out[k] = true
				}
			}
		}
		if len(out) == 0 {
			out[t] = true
		}
		return out
	}
	out[t] = true
	return out
}

// crossLoop reports whether t holds x+y for all x of a and y of b.
func (j *judge) crossLoop(st *eng.State, t, a, b *eng.Term) bool {
	p := j.r.PhiOf(t)
	if p == nil {
		return false
	}
	l := j.r.LoopOf(t)
	for i, back := range p.Backs {
		q := j.r.PhiOf(back)
		if q == nil || q.Init != p.Sym {
			return false
		}
		in := j.r.LoopOf(back)
		good := false
		for _, o := range j.scansOf(l, inIteration(in)) {
			for _, n := range j.scansOf(in, inIteration(in)) {
				if o.first != 0 || n.first != 0 || !(o.seq == a && n.seq == b || o.seq == b && n.seq == a) {
					continue
				}
				if !st.Implies(eng.Le(eng.Len(o.seq), o.at)) || !l.Backs[i].Implies(eng.Le(eng.Len(n.seq), n.at)) {
					continue
				}
				at := map[*eng.Term]*eng.Term{o.seq: o.at, n.seq: n.at}
				all := len(in.Backs) > 0
				for k := range in.Backs {
					x, got := q.Backs[k], false
					for x != q.Sym && x.Op == "append" && x.Aux == "elems" {
						for _, e := range x.Args[1:] {
							if e.Op != "cat" || len(e.Args) != 2 {
								continue
							}
							b1, i1, ok1 := elemOf(e.Args[0])
							b2, i2, ok2 := elemOf(e.Args[1])
							if ok1 && ok2 && b1 == a && i1 == at[a] && b2 == b && i2 == at[b] {
								got = true
							}
						}
						x = x.Args[0]
					}
					all = all && got && x == q.Sym
				}
				good = good || all
			}
		}
		if !good {
			return false
		}
	}
	return len(p.Backs) > 0
}

// leastLen reports whether ret is at most the length of each string of s.
func (j *judge) leastLen(st *eng.State, ret, s *eng.Term) bool {
	if ret.IsInt() && ret.K <= 0 {
		return true
	}
	p := j.r.PhiOf(ret)
	if p == nil {
		return false
	}
	l := j.r.LoopOf(ret)
	et := s.Typ.Underlying().(*types.Slice).Elem()
	for _, ip := range l.Phis {
		if ip == p || ip.Sym.Typ == nil || !isNumeric(ip.Sym.Typ) || !ip.Init.IsInt() {
			continue
		}
		// the string looked at
		for k := int64(0); k <= 1; k++ {
			at := eng.AddK(ip.Sym, k)
			first := ip.Init.K + k
			if first > 1 || first == 1 && !st.Implies(eng.Le(p.Init, eng.Len(st.Load(eng.Elem(s, eng.Int(0), types.NewPointer(et)), et)))) {
				continue
			}
			if !st.Implies(eng.Le(eng.Len(s), at)) {
				continue
			}
			good := len(l.Backs) > 0
			for i, b := range l.Backs {
				cur := b.Load(eng.Elem(s, at, types.NewPointer(et)), et)
				if ip.Backs[i] != eng.AddK(ip.Sym, 1) || !b.Implies(eng.Le(p.Backs[i], eng.Len(cur))) || !b.Implies(eng.Le(p.Backs[i], p.Sym)) {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}

// cleaning checks that removing duplicates removes nothing else.
func (c *Ctx) cleaning(mk func(*eng.Run) *judge) {
	const name = "stringSet.clean"
	fn := c.Func("index", name)
	if fn == nil || len(fn.Params) == 0 {
		return
	}
	r := c.coverRun(fn, nil)
	j := mk(r)
	ptr := r.Params[0]
	typ := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
	old := eng.Mk("ld", "", typ, ptr)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			c.Check(false, "primitive", name, fn.Pos(), "%s can end in a %s", name, t.Kind)
			continue
		}
		n++
		j.n = 0
		c.Check(j.set(t.St, "E", t.St.Load(ptr, typ), &lang{k: "set", t: old}), "primitive", name, fn.Pos(), "%s: a string can be lost", name)
		for _, e := range t.St.Events(false) {
			if e.Kind != "call" {
				continue
			}
			c.Check(sortsOnly(c, e, ptr, old), "primitive", name+" calls "+e.Name, fn.Pos(), "%s calls %s, which need not keep the strings", name, e.Name)
		}
	}
	for _, l := range r.Loops {
		for _, b := range l.Backs {
			evs, _ := b.EventsSince(l)
			for _, e := range evs {
				if e.Kind == "call" && !e.Pure {
					c.Check(false, "primitive", name+" loop", l.Pos, "%s calls %s while it goes over the strings", name, e.Name)
				}
			}
		}
	}
	c.Check(n > 0, "primitive", name+" returns", fn.Pos(), "%s never returns", name)
}

// sortsOnly reports whether the call only puts the strings in another order.
func sortsOnly(c *Ctx, e *eng.Event, ptr, old *eng.Term) bool {
	switch e.Name {
	case "sort.Strings", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
		return unwrap(e.Args[0]) == old
	case "sort.Sort", "sort.Stable":
		x := e.Args[0]
		if x.Op != "iface" || x.Args[0] != ptr && x.Args[0] != old {
			return false
		}
		return c.sortInterface(x.Typ)
	}
	return e.Pure
}

// sortInterface checks that an implementation of sort.Interface over a slice
// has the length of the slice and exchanges two elements.
func (c *Ctx) sortInterface(t types.Type) bool {
	method := func(name string) *ssa.Function {
		ms := c.P.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return c.P.SSA.MethodValue(ms.At(i))
			}
		}
		return nil
	}
	swap, length := method("Swap"), method("Len")
	if swap == nil || length == nil || len(swap.Blocks) == 0 || len(length.Blocks) == 0 {
		return false
	}
	ok := true
	base := func(r *eng.Run) *eng.Term {
		x := r.Params[0]
		if p, isPtr := x.Typ.Underlying().(*types.Pointer); isPtr {
			return eng.Mk("ld", "", p.Elem(), x)
		}
		return x
	}
	r := c.Analyze(length, &eng.Config{})
	for _, tm := range r.Terms {
		ok = ok && tm.Kind == "return" && tm.Rets[0] == eng.Len(base(r))
	}
	r = c.Analyze(swap, &eng.Config{Stores: func(*eng.Term) bool { return true }})
	for _, tm := range r.Terms {
		b := base(r)
		sl, isSl := b.Typ.Underlying().(*types.Slice)
		if !isSl || tm.Kind != "return" {
			return false
		}
		et := sl.Elem()
		i, k := eng.Elem(b, r.Params[1], types.NewPointer(et)), eng.Elem(b, r.Params[2], types.NewPointer(et))
		vi, vk := eng.Mk("ld", "", et, i), eng.Mk("ld", "", et, k)
		n := map[*eng.Term]int{}
		for _, e := range tm.St.Events(false) {
			switch {
			case e.Pure:
			case e.Kind == "store" && (e.Args[0] == i && e.Args[1] == vk || e.Args[0] == k && e.Args[1] == vi):
				n[e.Args[0]]++
			default:
				return false
			}
		}
		ok = ok && n[i] == 1 && n[k] == 1
	}
	return ok && len(r.Terms) > 0
}

// addsTrigrams checks that adding the trigrams of a set to a query gives one
// that is satisfied by what satisfies the query and contains one of the set.
func (c *Ctx) addsTrigrams(mk func(*eng.Run) *judge) {
	const name = "Query.andTrigrams"
	fn := c.Func("index", name)
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	r := c.coverRun(fn, nil)
	j := mk(r)
	q, t := r.Params[0], r.Params[1]
	n := 0
	var sat func(st *eng.State, x *eng.Term) string
	sat = func(st *eng.State, x *eng.Term) string {
		switch {
		case x == q || j.isAll(st, x):
			return ""
		case x.Op == "qand":
			if w := sat(st, x.Args[0]); w != "" {
				return w
			}
			return sat(st, x.Args[1])
		case x.Op == "qor":
			if sat(st, x.Args[0]) == "" {
				return ""
			}
			return sat(st, x.Args[1])
		}
		return j.eachString(st, x, t)
	}
	for _, tm := range r.Terms {
		if tm.Kind != "return" {
			c.Check(false, "primitive", name, fn.Pos(), "%s can end in a %s", name, tm.Kind)
			continue
		}
		n++
		why := sat(tm.St, tm.Rets[0])
		c.Check(why == "", "primitive", name, fn.Pos(), "%s: %s", name, why)
	}
	c.Check(n > 0, "primitive", name+" returns", fn.Pos(), "%s never returns", name)
	c.consumption(j, fn, name)
}

// eachString decides that x is the disjunction, over all strings of t, of
// conjunctions of trigrams of the string; it says what is wrong.
func (j *judge) eachString(st *eng.State, x, t *eng.Term) string {
	p := j.r.PhiOf(x)
	if p == nil {
		return "the query " + x.String() + " need not hold for what contains one of the strings"
	}
	l := j.r.LoopOf(x)
	why := "the strings are not all visited"
	for _, sc := range j.scansOf(l, inIterationOf(j.r, l)) {
		if sc.seq != t || sc.first != 0 || !st.Implies(eng.Le(eng.Len(t), sc.at)) {
			continue
		}
		why = ""
		for i, b := range l.Backs {
			v, got := p.Backs[i], ""
			found := false
			for v != p.Sym && v.Op == "qor" {
				a := v.Args[1]
				if v.Args[1] == p.Sym || v.Args[1].Op == "qor" {
					a = v.Args[0]
					v = v.Args[1]
				} else {
					v = v.Args[0]
				}
				if w := j.ofString(b, l, a, t, sc.at); w == "" {
					found = true
				} else {
					got = w
				}
			}
			if v != p.Sym {
				return "what was gathered from the earlier strings is lost"
			}
			if !found {
				if got == "" {
					got = "a string is left out"
				}
				return got
			}
		}
		return why
	}
	return why
}

// inIterationOf also looks at what loops inside l deal with.
func inIterationOf(r *eng.Run, l *eng.Loop) []*eng.Term {
	ts := inIteration(l)
	for _, x := range r.Loops {
		if x != l {
			ts = append(ts, inIteration(x)...)
		}
	}
	return ts
}

// ofString decides that the query a (made in this iteration) is a nonempty
// conjunction of trigrams of t[at].
func (j *judge) ofString(st *eng.State, l *eng.Loop, a, t, at *eng.Term) string {
	if j.isAll(st, a) {
		return ""
	}
	if a.Op != "alloc" || j.queryOp(st, a) != "QAnd" {
		return "the trigrams of a string are not put together as a conjunction"
	}
	ld := func(f string) *eng.Term {
		fa := fieldAddr(a, f)
		return st.Load(fa, fa.Typ.(*types.Pointer).Elem())
	}
	if ld("Sub") != eng.Nil {
		return "the conjunction of the trigrams of a string has other parts"
	}
	set := ld("Trigram")
	for set.Op == "cleaned" || set.Op == "copyset" {
		set = set.Args[0]
	}
	isWin := func(e *eng.Term) (*eng.Term, bool) {
		if e.Op != "slice" {
			return nil, false
		}
		b, i, ok := elemOf(e.Args[0])
		d, ok2 := eng.DiffConst(e.Args[2], e.Args[1])
		return e.Args[0], ok && ok2 && d == 3 && b == t && i == at
	}
	p := j.r.PhiOf(set)
	if p == nil {
		return "the trigrams " + set.String() + " are not understood"
	}
	in := j.r.LoopOf(set)
	var str *eng.Term
	for _, b := range p.Backs {
		x, n := b, 0
		for x != p.Sym {
			if x.Op != "append" || x.Aux != "elems" {
				return "the trigrams " + b.String() + " are not understood"
			}
			for _, e := range x.Args[1:] {
				s, ok := isWin(e)
				if !ok {
					return "what is required of a string, " + e.String() + ", is not three bytes of it in a row"
				}
				str = s
				n++
			}
			x = x.Args[0]
		}
		if n == 0 {
			str = nil
			break
		}
	}
	if str == nil {
		return "a conjunction of no trigrams can be made"
	}
	// its own storage
	if p.Init != eng.Nil && !(eng.Len(p.Init) == eng.Int(0) && j.madeIn(l, p.Init)) {
		return "the trigrams of different strings are kept in the same storage"
	}
	// at least one
	for _, x := range in.Exits {
		contra := false
		for _, f := range x.Facts {
			first := map[*eng.Term]*eng.Term{}
			for _, ip := range in.Phis {
				first[ip.Sym] = ip.Init
			}
			g := eng.Subst(f, first)
			if st.Implies(eng.Not(g)) {
				contra = true
			}
			g = eng.Subst(g, map[*eng.Term]*eng.Term{eng.Len(str): eng.Mk("minLen", "", types.Typ[types.Int], t)})
			if g.Op == "le" && st.Implies(eng.Not(g)) && upperBound(f, eng.Len(str)) {
				contra = true
			}
		}
		if !contra {
			return "a string too short to have a trigram makes a conjunction of nothing"
		}
	}
	return ""
}

// upperBound reports whether the literal f (a sum <= 0) bounds n from above.
func upperBound(f, n *eng.Term) bool {
	if f.Op != "le" {
		return false
	}
	d := f.Args[0]
	if d == n {
		return true
	}
	for i, a := range d.Args {
		if d.Op == "lin" && a == n {
			return d.Coef[i] > 0
		}
	}
	return false
}

// madeIn reports whether the memory of t is allocated in each iteration of l.
func (j *judge) madeIn(l *eng.Loop, t *eng.Term) bool {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	if t.Op != "alloc" && t.Op != "makeslice" {
		return false
	}
	depth := strings.Count(l.Ctx, "/")
	parts := strings.Split(t.Aux, "/")
	if depth+1 >= len(parts) {
		return false
	}
	s := parts[depth+1]
	i := strings.Index(s, "#")
	if i < 0 {
		return false
	}
	s = s[i+1:]
	if k := strings.Index(s, "."); k >= 0 {
		s = s[:k]
	}
	n, err := strconv.Atoi(s)
	return err == nil && eng.BlockIn(l, n)
}

// consumption checks that the storage of a set or query that an operation
// reuses is not used again.
func (c *Ctx) consumption(j *judge, fn *ssa.Function, cons string) {
	for _, t := range j.r.Terms {
		if t.Kind != "return" {
			continue
		}
		vals := append([]*eng.Term(nil), t.Rets...)
		if len(t.Rets) == 0 && len(j.r.Params) > 0 {
			if pt, ok := j.r.Params[0].Typ.Underlying().(*types.Pointer); ok {
				vals = append(vals, t.St.Load(j.r.Params[0], pt.Elem()))
			}
		}
		c.Check(c.reused(j, t.St, t.St.Events(false), vals) == "", "storage", cons, fn.Pos(), "%s: %s", fn.Name(), c.reused(j, t.St, t.St.Events(false), vals))
	}
	for _, l := range j.r.Loops {
		for _, b := range l.Backs {
			evs, ok := b.EventsSince(l)
			if !ok {
				continue
			}
			why := c.reused(j, b, evs, nil)
			c.Check(why == "", "storage", cons, fn.Pos(), "%s: %s", fn.Name(), why)
		}
	}
}

// reused says which storage is used again after an operation that reuses it.
func (c *Ctx) reused(j *judge, st *eng.State, evs []*eng.Event, rets []*eng.Term) string {
	type used struct {
		set   *eng.Term // a set whose storage was overwritten
		query *eng.Term
		whole *eng.Term
		by    string
	}
	var gone []used
	derives := func(x, from *eng.Term) bool {
		return x.Any(func(y *eng.Term) bool {
			return (y.Op == "union" || y.Op == "cleaned") && y.Args[0] == from
		})
	}
	touch := func(x *eng.Term, what string) string {
		for _, g := range gone {
			if g.set == nil || derives(x, g.set) {
				continue
			}
			for s := range j.storage(g.set, nil) {
				if j.storage(x, nil)[s] {
					return what + " uses " + x.String() + ", whose storage " + g.by + " has reused"
				}
			}
		}
		return ""
	}
	touchQ := func(x *eng.Term, what string) string {
		for _, g := range gone {
			if g.query == x && x != nil {
				return what + " uses the query " + x.String() + ", which " + g.by + " has reused"
			}
		}
		return ""
	}
	constant := func(q *eng.Term) bool { return q.Op == "ld" && q.Args[0].Op == "global" }
	for _, e := range evs {
		if e.Kind != "call" || !coverPrims[e.Name] {
			continue
		}
		short := e.Name[strings.LastIndex(e.Name, ".")+1:]
		var sets, queries []*eng.Term
		var eats used
		eats.by = short
		a := e.Args
		switch short {
		case "union":
			sets, eats.set = a[:2], a[0]
			if sharesAny(j, a[0], a[1]) && a[0] != a[1] {
				return "union of two sets that share storage"
			}
		case "cross":
			sets = a[:2]
		case "copy", "minLen":
			sets = a[:1]
		case "and", "or":
			queries = a[:2]
		case "andTrigrams":
			queries, sets = a[:1], a[1:2]
		case "concat", "alternate":
			for _, g := range gone {
				for _, x := range a[:2] {
					if g.whole != nil && g.whole == j.collapse(x) {
						return short + " uses " + x.String() + " again"
					}
				}
			}
			if x, y := j.collapse(a[0]), j.collapse(a[1]); x == y {
				return short + " of a value and itself"
			}
			gone = append(gone, used{whole: j.collapse(a[0]), by: short}, used{whole: j.collapse(a[1]), by: short})
			continue
		default:
			continue
		}
		for _, x := range sets {
			if w := touch(x, short); w != "" {
				return w
			}
		}
		for _, q := range queries {
			if w := touchQ(q, short); w != "" {
				return w
			}
		}
		if eats.set != nil {
			gone = append(gone, eats)
		}
		for _, q := range queries {
			if !constant(q) {
				gone = append(gone, used{query: q, by: short})
			}
		}
	}
	for _, v := range rets {
		v = j.collapse(v)
		for v.Op == "simplified" {
			v = j.collapse(v.Args[0])
		}
		if v.Op != "struct" || len(v.Args) != j.sty.NumFields() {
			if w := touchQ(v, "the result"); w != "" {
				return w
			}
			continue
		}
		fs := []string{"exact", "prefix", "suffix"}
		for i, f := range fs {
			x := j.field(v, f)
			if w := touch(x, "the result"); w != "" {
				return w
			}
			for _, g := range fs[:i] {
				if y := j.field(v, g); sharesAny(j, x, y) {
					return "the " + f + " and " + g + " sets of the result share storage"
				}
			}
		}
		if w := touchQ(j.field(v, "match"), "the result"); w != "" {
			return w
		}
	}
	return ""
}

func sharesAny(j *judge, x, y *eng.Term) bool {
	m := j.storage(x, nil)
	for s := range j.storage(y, nil) {
		if m[s] {
			return true
		}
	}
	return false
}
