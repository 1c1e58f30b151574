package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C16",
		Explanation: "The meaning of a query is a propositional formula over its trigrams. " +
			"On every path of the functions that combine two queries, the formula of the result is decided equivalent to the conjunction (disjunction) of the formulas the operands had on entry, by exhausting the valuations of the list atoms (all of a list, some of a list) under the conditions of the path. " +
			"The loops that factor out common trigrams are decided to keep each trigram of a list in the list or among the common ones. " +
			"The tests of implication and of inclusion are decided never to say yes wrongly. " +
			"No store changes a query that is a constant (all, none), and no conjunction of nothing is made.",
		Assumptions: []string{"a query is used once: the operands of a combination are different and nothing else refers to them (decided for the users in C15)", "queries are finite: combination terminates"},
		Run:         runAlgebra,
	})
}

// A bexp is a propositional formula.
type bexp struct {
	op   byte // c, v, &, |, !
	v    int
	a, b *bexp
}

func bConst(x bool) *bexp {
	if x {
		return &bexp{op: 'c', v: 1}
	}
	return &bexp{op: 'c'}
}

func bAnd(a, b *bexp) *bexp {
	if a.op == 'c' {
		if a.v == 0 {
			return a
		}
		return b
	}
	return &bexp{op: '&', a: a, b: b}
}

func bOr(a, b *bexp) *bexp {
	if a.op == 'c' {
		if a.v == 1 {
			return a
		}
		return b
	}
	return &bexp{op: '|', a: a, b: b}
}

func bNot(a *bexp) *bexp { return &bexp{op: '!', a: a} }

func bImp(a, b *bexp) *bexp { return bOr(bNot(a), b) }

func bIff(a, b *bexp) *bexp { return bAnd(bImp(a, b), bImp(b, a)) }

// eval is 0, 1 or 2 (undecided).
func (e *bexp) eval(val []byte) byte {
	switch e.op {
	case 'c':
		return byte(e.v)
	case 'v':
		return val[e.v]
	case '!':
		x := e.a.eval(val)
		if x == 2 {
			return 2
		}
		return 1 - x
	case '&':
		x := e.a.eval(val)
		if x == 0 {
			return 0
		}
		y := e.b.eval(val)
		if y == 0 {
			return 0
		}
		if x == 1 && y == 1 {
			return 1
		}
		return 2
	}
	x := e.a.eval(val)
	if x == 1 {
		return 1
	}
	y := e.b.eval(val)
	if y == 1 {
		return 1
	}
	if x == 0 && y == 0 {
		return 0
	}
	return 2
}

// valid reports whether cons entail claim; n is the number of variables.
func valid(cons []*bexp, claim *bexp, n int) bool {
	val := make([]byte, n)
	for i := range val {
		val[i] = 2
	}
	var search func(i int) bool // true: a counterexample exists
	search = func(i int) bool {
		if claim.eval(val) == 1 {
			return false
		}
		for _, k := range cons {
			if k.eval(val) == 0 {
				return false
			}
		}
		if i == n {
			return true
		}
		for b := byte(0); b <= 1; b++ {
			val[i] = b
			if search(i + 1) {
				return true
			}
		}
		val[i] = 2
		return false
	}
	return !search(0)
}

type algebra struct {
	c     *Ctx
	qp    types.Type    // *Query
	qs    *types.Struct // Query
	ops   map[string]int64
	fns   map[*ssa.Function]string // combine3, and, or, imply, subset, union
	parts map[*eng.Term]partition  // a list split by the factoring loops
	r     *eng.Run
	idle  map[*eng.Term]*eng.Term // variables of loops that never iterate
}

// A partition says that the trigrams of a list are those of rest and common.
type partition struct{ rest, common *eng.Term }

func runAlgebra(c *Ctx) {
	named, qs := c.structOf("index", "Query")
	if qs == nil {
		c.Viol("anchor", "index.Query", 0, "type index.Query not found")
		return
	}
	a := &algebra{c: c, qs: qs, qp: types.NewPointer(named), ops: map[string]int64{}, fns: map[*ssa.Function]string{}}
	for _, n := range []string{"QAll", "QNone", "QAnd", "QOr"} {
		k := c.constOf("index", n)
		if k == nil || !k.IsInt() {
			c.Viol("anchor", "index."+n, 0, "constant index.%s not found", n)
			return
		}
		a.ops[n] = k.K
	}
	a.discover()
	eng.Distinct = func(x, y *eng.Term) bool {
		old := func(t *eng.Term) bool { return t.Op == "sym" || t.Op == "ld" || t.Op == "qop" }
		return old(x) && old(y)
	}
	defer func() { eng.Distinct = nil }()
	var fns []*ssa.Function
	for f := range a.fns {
		fns = append(fns, f)
	}
	sortFns(fns)
	n := map[string]int{}
	for _, f := range fns {
		n[a.fns[f]]++
		switch a.fns[f] {
		case "combine3":
			for _, op := range []string{"QAnd", "QOr"} {
				a.combine(f, op, eng.Int(a.ops[op]))
			}
		case "and":
			a.combine(f, "QAnd")
		case "or":
			a.combine(f, "QOr")
		case "imply":
			a.implication(f)
		case "subset":
			a.inclusion(f)
		}
	}
	if n["and"] == 0 || n["or"] == 0 {
		c.Viol("anchor", "combination", 0, "the functions that combine two queries were not found")
	}
	c.Min("equivalent", 2)
	c.Min("sound", 1)
}

// discover finds the functions by what they take and return.
func (a *algebra) discover() {
	isQ := func(t types.Type) bool { return types.Identical(t, a.qp) }
	isSet := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isString(s.Elem())
	}
	isBool := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsBoolean != 0
	}
	for _, f := range a.c.P.Funcs() {
		if f.Pkg == nil || f.Pkg != a.c.P.SPkg["index"] || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		var ps []types.Type
		for _, p := range f.Params {
			ps = append(ps, p.Type())
		}
		switch {
		case len(ps) == 2 && isQ(ps[0]) && isQ(ps[1]) && isQ(res.At(0).Type()) && f.Name() == "and":
			a.fns[f] = "and"
		case len(ps) == 2 && isQ(ps[0]) && isQ(ps[1]) && isQ(res.At(0).Type()) && f.Name() == "or":
			a.fns[f] = "or"
		case len(ps) == 3 && isQ(ps[0]) && isQ(ps[1]) && isQ(res.At(0).Type()) && isNumeric(ps[2]):
			a.fns[f] = "combine3"
		case len(ps) == 2 && (isSet(ps[0]) && isQ(ps[1]) || isQ(ps[0]) && isSet(ps[1])) && isBool(res.At(0).Type()):
			a.fns[f] = "imply"
		case len(ps) == 2 && isSet(ps[0]) && isSet(ps[1]) && isBool(res.At(0).Type()):
			a.fns[f] = "subset"
		case coverPrims[f.String()] && f.Name() == "union":
			a.fns[f] = "union"
		}
	}
}

func (a *algebra) field(ptr *eng.Term, name string) *eng.Term {
	for i := 0; i < a.qs.NumFields(); i++ {
		if a.qs.Field(i).Name() == name {
			return eng.FieldAddr(ptr, a.qs, i)
		}
	}
	return eng.Nil
}

// now is a field of a query as it is in st; before as it was on entry.
func (a *algebra) now(st *eng.State, ptr *eng.Term, name string) *eng.Term {
	f := a.field(ptr, name)
	return st.Load(f, f.Typ.(*types.Pointer).Elem())
}

func (a *algebra) before(ptr *eng.Term, name string) *eng.Term {
	f := a.field(ptr, name)
	return eng.Mk("ld", "", f.Typ.(*types.Pointer).Elem(), f)
}

// snap is the meaning of a query at a moment.
func (a *algebra) snap(st *eng.State, ptr *eng.Term) *eng.Term {
	if ptr.Op == "qop" || ptr.Op == "ld" && ptr.Args[0].Op == "global" {
		return ptr
	}
	return eng.Mk("snap", "", a.qp, a.now(st, ptr, "Op"), a.now(st, ptr, "Trigram"), a.now(st, ptr, "Sub"), ptr)
}

func (a *algebra) model(st *eng.State, ev *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
	args := ev.Args
	boolT := types.Typ[types.Bool]
	op := func(k *eng.Term) *eng.Term {
		x, y := a.snap(st, args[0]), a.snap(st, args[1])
		for _, p := range args[:2] {
			if p.Op == "ld" && p.Args[0].Op == "global" || p.Op == "qop" {
				continue
			}
			for _, f := range []string{"Op", "Trigram", "Sub"} {
				fa := a.field(p, f)
				st.Set(fa, eng.Mk("gone", lbl+f, fa.Typ.(*types.Pointer).Elem(), p))
			}
		}
		return eng.Mk("qop", lbl, a.qp, k, x, y)
	}
	switch a.fns[fn] {
	case "combine3":
		return op(args[2]), true
	case "and":
		return op(eng.Int(a.ops["QAnd"])), true
	case "or":
		return op(eng.Int(a.ops["QOr"])), true
	case "imply":
		t, q := args[0], args[1]
		if types.Identical(fn.Params[0].Type(), a.qp) {
			t, q = q, t
		}
		return eng.Mk("imply", "", boolT, t, a.snap(st, q)), true
	case "subset":
		return eng.Mk("subset", "", boolT, args[0], args[1]), true
	case "union":
		return eng.Mk("union", "", fn.Signature.Results().At(0).Type(), args[0], args[1]), true
	}
	return nil, false
}

func (a *algebra) run(fn *ssa.Function, args ...*eng.Term) {
	a.r = a.c.Analyze(fn, &eng.Config{
		Opaque:    func(f *ssa.Function) bool { return a.fns[f] != "" && f != fn },
		Model:     a.model,
		Stores:    func(ad *eng.Term) bool { return ad.Op == "elem" || ad.Op == "field" },
		KeepFacts: true,
		Join:      2000,
		Entries:   1000,
		MaxStates: 5000,
	}, args...)
	a.parts = map[*eng.Term]partition{}
	a.idle = map[*eng.Term]*eng.Term{}
	for _, l := range a.r.Loops {
		if len(l.Backs) == 0 {
			for _, p := range l.Phis {
				a.idle[p.Sym] = p.Init
			}
		}
	}
}

// norm replaces the variables of loops that never iterate by what they are
// initially.
func (a *algebra) norm(t *eng.Term) *eng.Term {
	for i := 0; i < 8; i++ {
		n := eng.Subst(t, a.idle)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// possible reports whether the facts of st do not contradict each other.
func (a *algebra) possible(st *eng.State) bool {
	for _, f := range st.Facts {
		if a.norm(f) == eng.False {
			return false
		}
	}
	return true
}

// A proof is one attempt to prove a claim about a state.
type proof struct {
	a      *algebra
	st     *eng.State
	assign map[*eng.Term]*eng.Term // operators
	need   *eng.Term
	vars   map[string]*bexp
	cons   []*bexp
	done   map[string]bool
	depth  int
}

// prove decides claim, for every consistent choice of the operators.
func (a *algebra) prove(st *eng.State, extra []*eng.Term, claim func(p *proof) *bexp) bool {
	budget := 4000
	var rec func(assign map[*eng.Term]*eng.Term) bool
	rec = func(assign map[*eng.Term]*eng.Term) bool {
		budget--
		if budget < 0 {
			return false
		}
		p := &proof{a: a, st: st, assign: assign, vars: map[string]*bexp{}, done: map[string]bool{}}
		e := claim(p)
		if p.need == nil {
			p.facts(append(append([]*eng.Term(nil), st.Facts...), extra...))
		}
		if p.need != nil {
			for _, n := range []string{"QAll", "QNone", "QAnd", "QOr"} {
				m := map[*eng.Term]*eng.Term{p.need: eng.Int(a.ops[n])}
				for k, v := range assign {
					m[k] = v
				}
				if a.consistent(st, m) && !rec(m) {
					return false
				}
			}
			return true
		}
		if len(p.vars) > 40 {
			return false
		}
		return valid(p.cons, e, len(p.vars))
	}
	return rec(map[*eng.Term]*eng.Term{})
}

func (a *algebra) consistent(st *eng.State, m map[*eng.Term]*eng.Term) bool {
	for _, f := range st.Facts {
		if eng.Subst(f, m) == eng.False {
			return false
		}
	}
	return true
}

func (p *proof) variable(kind string, t *eng.Term) *bexp {
	k := fmt.Sprintf("%s%d", kind, t.ID)
	if v := p.vars[k]; v != nil {
		return v
	}
	v := &bexp{op: 'v', v: len(p.vars)}
	p.vars[k] = v
	return v
}

func (p *proof) add(e *bexp) { p.cons = append(p.cons, e) }

// op returns the name of an operator.
func (p *proof) op(t *eng.Term) string {
	if k := p.assign[t]; k != nil {
		t = k
	}
	if t.IsInt() {
		for n, k := range p.a.ops {
			if k == t.K {
				return n
			}
		}
		return ""
	}
	if p.need == nil {
		p.need = t
	}
	return ""
}

// formula is the meaning of an operator applied to lists.
func (p *proof) formula(op, t, s *eng.Term) *bexp {
	switch p.op(op) {
	case "QAll":
		return bConst(true)
	case "QNone":
		return bConst(false)
	case "QAnd":
		return bAnd(p.list("A", t), p.list("A", s))
	case "QOr":
		return bOr(p.list("O", t), p.list("O", s))
	}
	return p.variable("F", op)
}

// query is the meaning of a query: on entry, or as it is now.
func (p *proof) query(q *eng.Term, entry bool) *bexp {
	a := p.a
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 40 { // a query that contains itself
		return p.variable("F", q)
	}
	switch {
	case q.Op == "qop":
		x, y := p.query(q.Args[1], false), p.query(q.Args[2], false)
		switch p.op(q.Args[0]) {
		case "QAnd":
			return bAnd(x, y)
		case "QOr":
			return bOr(x, y)
		}
		return p.variable("F", q)
	case q.Op == "snap":
		p.wellFormed(q.Args[3])
		return p.formula(q.Args[0], q.Args[1], q.Args[2])
	case q.Op == "ld" && q.Args[0].Op == "global":
		if op := a.c.globalOp(q.Args[0].Aux); op != nil {
			return p.formula(op, eng.Nil, eng.Nil)
		}
		return p.variable("F", q)
	}
	p.wellFormed(q)
	if entry {
		return p.formula(a.before(q, "Op"), a.before(q, "Trigram"), a.before(q, "Sub"))
	}
	return p.formula(a.now(p.st, q, "Op"), a.now(p.st, q, "Trigram"), a.now(p.st, q, "Sub"))
}

// wellFormed adds that, on entry, all and none have no operands.
func (p *proof) wellFormed(q *eng.Term) {
	if q.Op != "sym" && q.Op != "ld" {
		return
	}
	k := fmt.Sprintf("wf%d", q.ID)
	if p.done[k] {
		return
	}
	p.done[k] = true
	t, s := p.a.before(q, "Trigram"), p.a.before(q, "Sub")
	switch p.op(p.a.before(q, "Op")) {
	case "QAll", "QNone":
		p.add(p.none(t))
		p.add(p.none(s))
	}
	// an element of a list
	if b, _, ok := elemOf(q); ok {
		m := p.query(q, true)
		p.add(bImp(p.list("A", b), m))
		p.add(bImp(m, p.list("O", b)))
	}
}

// none: the list is empty.
func (p *proof) none(t *eng.Term) *bexp { return bAnd(p.list("A", t), bNot(p.list("O", t))) }

// list is the formula "all of t" (A) or "some of t" (O).
func (p *proof) list(k string, t *eng.Term) *bexp {
	rest := p.a.isRest(t)
	if _, ok := p.a.parts[t]; !ok && !rest {
		t = p.a.norm(t)
	}
	join := bAnd
	if k == "O" {
		join = bOr
	}
	empty := bConst(k == "A")
	if t == eng.Nil {
		return empty
	}
	if eng.Len(t) == eng.Int(0) {
		return empty
	}
	if pt, ok := p.a.parts[t]; ok {
		return join(p.list(k, pt.rest), p.list(k, pt.common))
	}
	if rest {
		return p.atom(k, t)
	}
	switch t.Op {
	case "cleaned", "copyset":
		return p.list(k, t.Args[0])
	case "union":
		return join(p.list(k, t.Args[0]), p.list(k, t.Args[1]))
	case "append":
		if t.Aux == "slice" {
			if len(t.Args) > 2 { // what is appended has changed
				break
			}
			return join(p.list(k, t.Args[0]), p.list(k, t.Args[1]))
		}
		e := p.list(k, t.Args[0])
		for _, x := range t.Args[1:] {
			e = join(e, p.element(x))
		}
		return e
	}
	if es, ok := varArgs(p.st, t); ok {
		e := empty
		for _, x := range es {
			e = join(p.element(x), e)
		}
		return e
	}
	return p.atom(k, t)
}

// isRest reports whether t is what is left of a list.
func (a *algebra) isRest(t *eng.Term) bool {
	for _, pt := range a.parts {
		if pt.rest == t {
			return true
		}
	}
	return false
}

// atom is the formula of a list of which nothing but the length is known.
func (p *proof) atom(k string, t *eng.Term) *bexp {
	all, some := p.variable("A", t), p.variable("O", t)
	key := fmt.Sprintf("len%d", t.ID)
	if !p.done[key] {
		p.done[key] = true
		n := eng.Len(t)
		switch {
		case p.st.Implies(eng.Le(n, eng.Int(0))):
			p.add(bAnd(all, bNot(some)))
		case p.st.Implies(eng.EqInt(n, eng.Int(1))):
			p.add(bIff(all, some))
			if sl, ok := t.Typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), p.a.qp) {
				e := eng.Mk("ld", "", sl.Elem(), eng.Elem(t, eng.Int(0), types.NewPointer(sl.Elem())))
				p.add(bIff(all, p.query(e, true)))
			}
		case p.st.Implies(eng.Le(eng.Int(1), n)):
			p.add(bImp(all, some))
		}
		if t.Op == "slice" {
			if b := t.Args[0]; !p.a.isRest(t) && b.Typ != nil {
				if _, ok := b.Typ.Underlying().(*types.Slice); ok {
					p.add(bImp(p.list("A", b), all))
					p.add(bImp(some, p.list("O", b)))
				}
			}
		}
	}
	if k == "A" {
		return all
	}
	return some
}

func (p *proof) element(e *eng.Term) *bexp {
	if e.Typ != nil && types.Identical(e.Typ, p.a.qp) {
		return p.query(e, false)
	}
	if b, i, ok := elemOf(e); ok && i == eng.Int(0) && p.st.Implies(eng.EqInt(eng.Len(b), eng.Int(1))) {
		return p.list("A", b)
	}
	v := p.variable("V", e)
	if b, _, ok := elemOf(e); ok && e.Op == "ld" {
		if key := fmt.Sprintf("el%d", e.ID); !p.done[key] {
			p.done[key] = true
			p.add(bImp(p.list("A", b), v))
			p.add(bImp(v, p.list("O", b)))
		}
	}
	return v
}

// facts adds what the tests on the path have found out.
func (p *proof) facts(fs []*eng.Term) {
	for _, f := range fs {
		switch f.Op {
		case "subset":
			p.add(bImp(p.list("A", f.Args[1]), p.list("A", f.Args[0])))
			p.add(bImp(p.list("O", f.Args[0]), p.list("O", f.Args[1])))
		case "imply":
			p.add(bImp(p.list("A", f.Args[0]), p.query(f.Args[1], false)))
		}
	}
	// for all elements of a list
	for _, l := range p.st.Passed() {
		flag := (*eng.Phi)(nil) // true only if it has been true all along
		for _, ph := range l.Phis {
			for _, f := range fs {
				if f == ph.Sym {
					flag = ph
				}
			}
		}
		var backs [][]*eng.Term
		for i, b := range l.Backs {
			bf := b.Facts
			if flag != nil && flag.Backs[i] == eng.False {
				continue
			}
			if flag != nil {
				was := flag.Backs[i] == flag.Sym
				for _, f := range bf {
					was = was || f == flag.Sym
				}
				if !was {
					flag, backs = nil, nil
					break
				}
				bf = append(append([]*eng.Term(nil), bf...), flag.Backs[i])
			}
			backs = append(backs, bf)
		}
		if flag != nil {
			p.facts([]*eng.Term{flag.Init})
		}
		for _, sc := range (&judge{r: p.a.r}).scansOf(l, inIteration(l)) {
			if sc.first != 0 || !p.st.Implies(eng.Le(eng.Len(sc.seq), sc.at)) {
				continue
			}
			var ts map[*eng.Term]bool
			for _, bf := range backs {
				got := map[*eng.Term]bool{}
				for _, f := range bf {
					if f.Op != "imply" || f.Args[1].Op != "snap" {
						continue
					}
					if bb, ii, ok := elemOf(f.Args[1].Args[3]); ok && bb == sc.seq && ii == sc.at {
						if ts == nil || ts[f.Args[0]] {
							got[f.Args[0]] = true
						}
					}
				}
				ts = got
			}
			var order []*eng.Term
			for t := range ts {
				order = append(order, t)
			}
			sort.Slice(order, func(i, k int) bool { return order[i].ID < order[k].ID })
			for _, t := range order {
				p.add(bImp(p.list("A", t), p.list("A", sc.seq)))
			}
		}
	}
}

// combine decides a function that combines two queries.
func (a *algebra) combine(fn *ssa.Function, opName string, extra ...*eng.Term) {
	c := a.c
	name := fnLabel(fn) + " " + opName
	if len(fn.Params) < 2 {
		return
	}
	args := []*eng.Term{eng.Sym("q", a.qp), eng.Sym("r", a.qp)}
	a.run(fn, append(args, extra...)...)
	q, r := a.r.Params[0], a.r.Params[1]
	n := 0
	for _, t := range a.r.Terms {
		if !a.possible(t.St) {
			continue
		}
		if t.Kind != "return" {
			c.Check(false, "equivalent", name, fn.Pos(), "%s can end in a %s", name, t.Kind)
			continue
		}
		n++
		a.parts = map[*eng.Term]partition{}
		a.split(t.St, t.Rets[0])
		ok := a.prove(t.St, nil, func(p *proof) *bexp {
			x, y := p.query(q, true), p.query(r, true)
			want := bAnd(x, y)
			if opName == "QOr" {
				want = bOr(x, y)
			}
			got := bIff(p.query(t.Rets[0], false), want)
			// all and none have no operands
			if ret := t.Rets[0]; ret.Op == "sym" || ret.Op == "ld" && ret.Args[0].Op != "global" || ret.Op == "alloc" {
				switch p.op(a.now(t.St, ret, "Op")) {
				case "QAll", "QNone":
					got = bAnd(got, bAnd(p.none(a.now(t.St, ret, "Trigram")), p.none(a.now(t.St, ret, "Sub"))))
				}
			}
			return got
		})
		c.Check(ok, "equivalent", name, fn.Pos(), "a path of %s returns a query that is not equivalent to the combination of its operands (%s)", name, a.pathOf(t.St))
		a.constants(t.St, t.St.Events(false), fn, name)
		if opName == "QOr" {
			a.nonempty(t.St, t.Rets[0], fn, name)
		}
	}
	for _, l := range a.r.Loops {
		for _, b := range l.Backs {
			if evs, ok := b.EventsSince(l); ok {
				a.constants(b, evs, fn, name)
			}
		}
	}
	c.Check(n > 0, "equivalent", name+" returns", fn.Pos(), "%s never returns", name)
}

// pathOf describes the conditions of a path on the operands.
func (a *algebra) pathOf(st *eng.State) string {
	var out []string
	for _, f := range st.Facts {
		s := f.String()
		if strings.Contains(s, "@") {
			continue
		}
		out = append(out, s)
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, " ")
}

// constants checks that what is stored to is not one of the constants.
func (a *algebra) constants(st *eng.State, evs []*eng.Event, fn *ssa.Function, name string) {
	for _, e := range evs {
		if e.Kind != "store" || e.Args[0].Op != "field" {
			continue
		}
		q := e.Args[0].Args[0]
		if q.Op == "alloc" || q.Typ == nil || !types.Identical(q.Typ, a.qp) || q.Op == "qop" {
			continue
		}
		ok := a.prove(st, nil, func(p *proof) *bexp {
			p.wellFormed(q)
			p.list("A", a.before(q, "Trigram"))
			p.list("A", a.before(q, "Sub"))
			switch p.op(a.before(q, "Op")) {
			case "QAll", "QNone":
				return bConst(false)
			}
			return bConst(true)
		})
		a.c.Check(ok, "constant", name, e.Instr.Pos(), "%s changes %s, which can be the constant all or none", name, q)
	}
}

// snaps lists the queries, with their lists, that ret is made of.
func (a *algebra) snaps(st *eng.State, ret *eng.Term) (out [][3]*eng.Term) { // pointer, trigrams, subs
	seen := map[*eng.Term]bool{}
	var visit func(x *eng.Term)
	list := func(s *eng.Term) {
		s.Walk(func(x *eng.Term) bool {
			if x.Typ != nil && types.Identical(x.Typ, a.qp) && (x.Op == "sym" || x.Op == "ld") {
				visit(x)
			}
			return true
		})
		if es, ok := varArgs(st, s); ok {
			for _, e := range es {
				visit(e)
			}
		}
	}
	visit = func(x *eng.Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case "qop":
			visit(x.Args[1])
			visit(x.Args[2])
		case "snap":
			out = append(out, [3]*eng.Term{x.Args[3], x.Args[1], x.Args[2]})
			list(x.Args[2])
		case "sym", "ld", "alloc":
			if x.Op == "ld" && x.Args[0].Op == "global" {
				return
			}
			s := a.now(st, x, "Sub")
			out = append(out, [3]*eng.Term{x, a.now(st, x, "Trigram"), s})
			list(s)
		}
	}
	visit(ret)
	return out
}

// split finds the lists of which the common trigrams have been taken out.
func (a *algebra) split(st *eng.State, ret *eng.Term) {
	for _, x := range a.snaps(st, ret) {
		if x[0].Op == "alloc" {
			continue
		}
		l := a.before(x[0], "Trigram")
		if x[1] == l {
			continue
		}
		if c, ok := a.partOf(st, l, x[1]); ok {
			a.parts[l] = partition{x[1], c}
		}
	}
}

// nonempty: taking out the common trigrams leaves no conjunction of nothing,
// because a list that is part of the other has been recognised before.
func (a *algebra) nonempty(st *eng.State, ret *eng.Term, fn *ssa.Function, name string) {
	for _, x := range a.snaps(st, ret) {
		l := a.before(x[0], "Trigram")
		if pt, ok := a.parts[l]; !ok || pt.rest != x[1] {
			continue
		}
		good := st.Implies(eng.Le(eng.Len(a.norm(a.parts[l].common)), eng.Int(0))) || st.Implies(eng.Le(eng.Int(1), eng.Len(x[2])))
		for _, f := range st.Facts {
			if f.Op != "not" {
				continue
			}
			g := f.Args[0]
			if g.Op == "subset" && g.Args[0] == l {
				good = true
			}
			if g.Op == "imply" && g.Args[1].Op == "snap" && g.Args[1].Args[3] == x[0] && g.Args[1].Args[1] == l {
				good = true
			}
		}
		// the query is a conjunction or a disjunction and nothing else
		good = good || a.prove(st, nil, func(p *proof) *bexp {
			for _, y := range a.snaps(st, ret) {
				p.op(a.before(y[0], "Op"))
			}
			return bConst(p.op(a.before(x[0], "Op")) != "QAnd")
		})
		a.c.Check(good, "nonempty", name, fn.Pos(), "%s can take all trigrams out of %s and leave a conjunction of nothing", name, x[0])
	}
}

// partOf decides that the trigrams of list l are those of rest and of the
// result, which are all in l.
func (a *algebra) partOf(st *eng.State, l, rest *eng.Term) (common *eng.Term, ok bool) {
	core, from := rest, (*eng.Term)(nil)
	tail := func(t *eng.Term) bool {
		return t.Op == "slice" && t.Args[0] == l && t.Args[2] == eng.Len(l)
	}
	if rest.Op == "append" && rest.Aux == "slice" && tail(rest.Args[1]) {
		core, from = rest.Args[0], rest.Args[1].Args[1]
	}
	if rest.Op == "slice" && rest.Args[0] == l && rest.Args[1] == eng.Int(0) {
		for _, e := range st.Events(false) {
			if e.Kind != "copy" || !tail(e.Args[0]) || !tail(e.Args[1]) {
				continue
			}
			w := e.Args[0].Args[1]
			if n := eng.Sub(rest.Args[2], w); n.Op == "copyn" && n.Args[0] == eng.Len(e.Args[0]) && n.Args[1] == eng.Len(e.Args[1]) {
				core, from = eng.Mk("slice", "", rest.Typ, l, eng.Int(0), w), e.Args[1].Args[1]
			}
		}
	}
	w, inPlace := core, false
	if core.Op == "slice" && core.Args[0] == l && core.Args[1] == eng.Int(0) {
		w, inPlace = core.Args[2], true
	}
	lp := a.r.LoopOf(w)
	if lp == nil || a.r.PhiOf(w) == nil {
		return nil, false
	}
	cands := []*eng.Term{eng.Nil}
	for _, x := range a.r.Loops {
		for _, ph := range x.Phis {
			if sl, isSl := ph.Sym.Typ.Underlying().(*types.Slice); isSl && isString(sl.Elem()) && ph.Sym != w {
				cands = append(cands, ph.Sym)
			}
		}
	}
	for _, ip := range lp.Phis {
		if ip.Sym == w || !isNumeric(ip.Sym.Typ) {
			continue
		}
		for k := int64(0); k <= 1; k++ {
			at := eng.AddK(ip.Sym, k)
			if from != nil && from != at || from == nil && !st.Implies(eng.Le(eng.Len(l), at)) {
				continue
			}
			for _, c := range cands {
				if a.steps(l, at, w, c, inPlace) {
					return c, true
				}
			}
		}
	}
	return nil, false
}

// equalTo reports whether fs say that x is equal to one of those that are cur.
func equalTo(fs []*eng.Term, x *eng.Term, cur func(*eng.Term) bool) bool {
	ge := func(f *eng.Term, x, y func(*eng.Term) bool) bool {
		return f.Op == "not" && f.Args[0].Op == "lt" && x(f.Args[0].Args[0]) && y(f.Args[0].Args[1])
	}
	is := func(y *eng.Term) bool { return y == x }
	below, above := map[*eng.Term]bool{}, map[*eng.Term]bool{}
	for _, f := range fs {
		if f.Op == "eq" && len(f.Args) == 2 && (f.Args[0] == x && cur(f.Args[1]) || f.Args[1] == x && cur(f.Args[0])) {
			return true
		}
		if ge(f, is, cur) {
			below[f.Args[0].Args[1]] = true
		}
		if ge(f, cur, is) {
			above[f.Args[0].Args[0]] = true
		}
	}
	for y := range below {
		if above[y] {
			return true
		}
	}
	return false
}

// steps decides, by induction over the loops, that the elements of l before
// at are those of the first w elements kept and of c.
func (a *algebra) steps(l, at, w, c *eng.Term, inPlace bool) bool {
	pw := a.r.PhiOf(w)
	if pw == nil {
		empty := func(t *eng.Term) bool { return t == eng.Nil || eng.Len(t) == eng.Int(0) }
		fresh := func(t *eng.Term) bool {
			root := eng.Root(t)
			return t == eng.Nil || root.Op == "alloc" || root.Op == "makeslice"
		}
		if at != eng.Int(0) || !empty(c) || !fresh(c) {
			return false
		}
		if inPlace {
			return w == eng.Int(0)
		}
		if w.Op == "slice" && w.Args[0] == l {
			return w.Args[1] == eng.Int(0) && w.Args[2] == eng.Int(0)
		}
		return empty(w) && fresh(w)
	}
	lp := a.r.LoopOf(w)
	var pi *eng.Phi
	var k int64
	for _, ph := range lp.Phis {
		if d, ok := eng.DiffConst(at, ph.Sym); ok && isNumeric(ph.Sym.Typ) && ph != pw {
			pi, k = ph, d
		}
	}
	if pi == nil {
		return false
	}
	var pc *eng.Phi
	if c != eng.Nil {
		pc = lp.Phi(c)
		if pc == nil && a.r.PhiOf(c) != nil && a.r.LoopOf(c) == nil {
			return false
		}
	}
	for i, b := range lp.Backs {
		evs, ok := b.EventsSince(lp)
		if !ok {
			return false
		}
		d, ok := eng.DiffConst(pi.Backs[i], pi.Sym)
		if !ok || d < 0 || d > 1 {
			return false
		}
		cur := func(x *eng.Term) bool {
			bb, ii, ok := elemOf(x)
			return ok && bb == l && ii == at
		}
		// the element looked at, or one found equal to it
		isCur := func(x *eng.Term) bool {
			if cur(x) {
				return true
			}
			return equalTo(b.Facts, x, cur)
		}
		var stores []*eng.Event
		for _, e := range evs {
			if e.Kind == "store" && e.Args[0].Op == "elem" && eng.Root(e.Args[0]) == eng.Root(l) && e.Args[0].Args[0] == l {
				stores = append(stores, e)
			}
		}
		kept, moved := false, false
		if inPlace {
			switch {
			case pw.Backs[i] == pw.Sym:
				if len(stores) > 0 {
					return false
				}
			case pw.Backs[i] == eng.AddK(pw.Sym, 1) && len(stores) == 1 && stores[0].Args[0].Args[1] == pw.Sym && isCur(stores[0].Args[1]):
				kept = true
			default:
				return false
			}
		} else {
			x := pw.Backs[i]
			switch {
			case x == pw.Sym:
			case x.Op == "append" && x.Aux == "elems" && len(x.Args) == 2 && x.Args[0] == pw.Sym && isCur(x.Args[1]):
				kept = true
			default:
				return false
			}
			if len(stores) > 0 {
				return false
			}
		}
		if pc != nil {
			x := pc.Backs[i]
			switch {
			case x == pc.Sym:
			case x.Op == "append" && x.Aux == "elems" && len(x.Args) == 2 && x.Args[0] == pc.Sym && isCur(x.Args[1]):
				moved = true
			default:
				return false
			}
		}
		if d == 1 && !kept && !moved || d == 0 && (kept || moved) {
			return false
		}
	}
	if pc != nil {
		c = pc.Init
	}
	return a.steps(l, eng.AddK(pi.Init, k), pw.Init, c, inPlace)
}

// implication decides that a test whether trigrams imply a query never says
// yes wrongly.
func (a *algebra) implication(fn *ssa.Function) {
	name := fnLabel(fn)
	a.run(fn)
	t, q := a.r.Params[0], a.r.Params[1]
	if types.Identical(fn.Params[0].Type(), a.qp) {
		t, q = q, t
	}
	n := 0
	for _, tm := range a.r.Terms {
		if tm.Kind != "return" {
			a.c.Check(false, "sound", name, fn.Pos(), "%s can end in a %s", name, tm.Kind)
			continue
		}
		n++
		if tm.Rets[0] == eng.False {
			continue
		}
		ok := a.prove(tm.St, []*eng.Term{tm.Rets[0]}, func(p *proof) *bexp {
			return bImp(p.list("A", t), p.query(q, true))
		})
		a.c.Check(ok, "sound", name, fn.Pos(), "%s can say that trigrams imply a query they do not imply (%s)", name, a.pathOf(tm.St))
	}
	a.c.Check(n > 0, "sound", name+" returns", fn.Pos(), "%s never returns", name)
}

// inclusion decides that a test whether a list is part of another never says
// yes wrongly.
func (a *algebra) inclusion(fn *ssa.Function) {
	name := fnLabel(fn)
	a.run(fn)
	s, t := a.r.Params[0], a.r.Params[1]
	inT := func(x *eng.Term) bool {
		b, _, ok := elemOf(x)
		return ok && b == t
	}
	in := func(fs []*eng.Term, x *eng.Term) bool {
		for _, f := range fs {
			if isCall(f, "slices.Contains") && f.Args[0] == t && f.Args[1] == x {
				return true
			}
		}
		return equalTo(fs, x, inT)
	}
	n := 0
	for _, tm := range a.r.Terms {
		if tm.Kind != "return" {
			a.c.Check(false, "sound", name, fn.Pos(), "%s can end in a %s", name, tm.Kind)
			continue
		}
		n++
		if tm.Rets[0] == eng.False {
			continue
		}
		good := tm.St.Implies(eng.Le(eng.Len(s), eng.Int(0)))
		if tm.Rets[0] == eng.True {
			for _, l := range a.r.Loops {
				for _, ph := range l.Phis {
					for k := int64(0); k <= 1 && isNumeric(ph.Sym.Typ); k++ {
						at := eng.AddK(ph.Sym, k)
						if eng.AddK(ph.Init, k) != eng.Int(0) || !tm.St.Implies(eng.Le(eng.Len(s), at)) {
							continue
						}
						all := len(l.Backs) > 0
						for i, b := range l.Backs {
							d, ok := eng.DiffConst(ph.Backs[i], ph.Sym)
							if ok && d == 0 {
								continue
							}
							found := false
							for _, f := range b.Facts {
								f.Walk(func(x *eng.Term) bool {
									if bb, ii, ok := elemOf(x); ok && bb == s && ii == at && in(b.Facts, x) {
										found = true
									}
									return true
								})
							}
							all = all && ok && d == 1 && found
						}
						good = good || all
					}
				}
			}
		}
		a.c.Check(good, "sound", name, fn.Pos(), "%s can say that a list is part of another when it is not", name)
	}
	a.c.Check(n > 0, "sound", name+" returns", fn.Pos(), "%s never returns", name)
}
