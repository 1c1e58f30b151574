package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
	"verif/checker/load"
)

// C25: damage of an index that shows where it is read ends in failure.

func init() {
	register(&Rule{
		ID: "C25",
		Explanation: "Every function that decodes numbers of an index file (posting lists, entries of the posting index) is interpreted on all paths with failing paths ended where they fail. On every path that goes on, a variable-length number must be known to be complete, a step of a list must be known to be positive, or zero only as the end of a list whose recorded number of files is used up, and a result that extends to a given end must be known to end within the file. " +
			"The functions are a closed world: another reader of numbers or of the mapped bytes alarms. The index checker's loops must meet the same conditions and compare each list's trigram with its entry's.",
		Run: runDamage,
	})
}

const (
	uvarint   = "encoding/binary.Uvarint"
	deltaNext = "(*" + load.Module + "/index.deltaReader).next"
)

type damage struct {
	c    *Ctx
	seen map[ssa.Instruction]bool
}

func runDamage(c *Ctx) {
	d := &damage{c: c, seen: map[ssa.Instruction]bool{}}
	d.search()
	d.merge()
	d.entries("Index.findList")
	d.entries("postMapReader.init")
	d.entries("postMapReader.nextTrigram")
	d.numbers()
	d.extent()
	d.table()
	d.checker()
	d.closed()
	c.checkedWhenAsked()
	c.Min("steps", 3)
	c.Min("count", 2)
	c.Min("entry", 4)
	c.Min("number", 2)
	c.Min("extent", 2)
	c.Min("check", 4)
	c.Min("closed", 4)
}

func (d *damage) run(name string, opaque func(f *ssa.Function) bool) (*ssa.Function, *eng.Run) {
	f := d.c.Func("index", name)
	if f == nil {
		return nil, nil
	}
	r := d.c.Analyze(f, &eng.Config{
		Opaque:    func(x *ssa.Function) bool { return opaque(x) && x != f },
		KeepFacts: true,
		Join:      2000,
		Entries:   16,
		MaxStates: 4000,
	})
	if r == nil {
		return f, nil
	}
	for _, s := range d.ends(r) {
		for _, e := range s.evs {
			if e.Instr != nil {
				d.seen[e.Instr] = true
			}
		}
	}
	return f, r
}

func readsDeltas(f *ssa.Function) bool { return recvNamed(f) == "deltaReader" }

// An end is where a path goes on: the function returns or the next iteration
// of a loop starts.
type end struct {
	st   *eng.State
	evs  []*eng.Event
	loop *eng.Loop
	i    int
	rets []*eng.Term
}

func (d *damage) ends(r *eng.Run) (out []end) {
	for _, t := range r.Terms {
		if t.Kind == "return" {
			out = append(out, end{st: t.St, evs: t.St.Events(false), rets: t.Rets})
		}
	}
	for _, l := range r.Loops {
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			out = append(out, end{st: st, evs: evs, loop: l, i: i})
		}
	}
	return out
}

func resultOf(e *eng.Event, i int) *eng.Term {
	if e.Res == nil {
		return nil
	}
	tup, ok := e.Res.Typ.(*types.Tuple)
	if !ok {
		return e.Res
	}
	return eng.Extract(e.Res, i, tup.At(i).Type())
}

// steps returns the numbers read from a list on the way.
func steps(evs []*eng.Event) (out []*eng.Event) {
	for _, e := range evs {
		if e.Kind == "call" && e.Name == deltaNext {
			out = append(out, e)
		}
	}
	return out
}

var one = eng.Int(1)

// complete: no path goes on with a number that is cut off.
func (d *damage) complete(rule, cons string, f *ssa.Function, r *eng.Run) (n int) {
	for _, s := range d.ends(r) {
		for _, e := range s.evs {
			if e.Kind == "call" && e.Name == uvarint {
				n++
				k := resultOf(e, 1)
				d.c.Check(k != nil && s.st.Implies(eng.Le(one, k)), rule, cons+" "+d.site(e), posOf(e), "a number that is cut off or too long is used")
			}
		}
	}
	return n
}

// site names a call among those of its function.
func (d *damage) site(e *eng.Event) string {
	n := 0
	if e.Instr != nil {
		for _, b := range e.Instr.Parent().Blocks {
			for _, in := range b.Instrs {
				if in == e.Instr {
					return fnLabel(e.Instr.Parent()) + " #" + string(rune('0'+n%10))
				}
				if ci, ok := in.(ssa.CallInstruction); ok && callee(ci) == e.Name {
					n++
				}
			}
		}
	}
	return e.Name
}

func callee(ci ssa.CallInstruction) string {
	if f := ci.Common().StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// search decides the reader of a search.
func (d *damage) search() {
	c := d.c
	f, r := d.run("postReader.next", readsDeltas)
	if r == nil {
		return
	}
	cons := fnLabel(f)
	rd := r.Params[0]
	st := rd.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	// the field that counts the files that are left
	left := -1
	for i := range st.NumFields() {
		if !isNumeric(st.Field(i).Type()) {
			continue
		}
		a := eng.FieldAddr(rd, st, i)
		n, ok := 0, true
		for _, s := range d.ends(r) {
			k := int64(len(steps(s.evs)))
			if k == 0 || s.loop == nil && (len(s.rets) != 1 || s.rets[0] == eng.False) {
				continue
			}
			n++
			if !d.counted(r, s, a, st.Field(i).Type(), k) {
				ok = false
			}
		}
		if n > 0 && ok {
			left = i
			break
		}
	}
	if !c.Check(left >= 0, "count", cons, f.Pos(), "the files read are not counted against the number that the index gives") {
		return
	}
	at := eng.FieldAddr(rd, st, left)
	typ := st.Field(left).Type()
	for _, s := range d.ends(r) {
		ss := steps(s.evs)
		stop := s.loop == nil && len(s.rets) == 1 && s.rets[0] == eng.False
		for i, e := range ss {
			if stop && i == len(ss)-1 && s.st.Implies(eng.EqInt(e.Res, eng.Int(0))) {
				continue
			}
			c.Check(s.st.Implies(eng.Le(one, e.Res)), "steps", cons+" "+d.site(e), posOf(e), "a file number that does not exceed the one before is used")
		}
		if !stop {
			continue
		}
		// the list has ended where it should
		now := s.st.Load(at, typ)
		over := len(ss) > 0 && s.st.Implies(eng.EqInt(ss[len(ss)-1].Res, eng.Int(0)))
		if over {
			// (of what was left when the last number was read)
			for _, l := range s.st.Passed() {
				if l == nil {
					continue
				}
				for _, p := range l.Phis {
					if p.Addr == at {
						now = eng.AddK(p.Sym, -int64(len(ss)-1))
					}
				}
			}
			c.Check(s.st.Implies(eng.Le(now, eng.Int(0))), "count", cons+" fewer", f.Pos(), "a list may end before all the files that the index gives for it")
			continue
		}
		// there is no list: the reader was not started
		none := len(ss) == 0
		if none {
			none = false
			for i := range st.NumFields() {
				ft := st.Field(i).Type()
				if _, ok := ft.Underlying().(*types.Pointer); ok && s.st.Implies(eng.Eq(s.st.Load(eng.FieldAddr(rd, st, i), ft), eng.Nil, ft)) {
					none = true
				}
			}
			for _, l := range s.st.Passed() {
				if l != nil && !l.Callback {
					none = false
				}
			}
		}
		c.Check(none, "count", cons+" more", f.Pos(), "a list may have more files than the index gives for it: its end is not looked at")
	}
}

// counted: the number of files left decreases by the steps taken and was
// enough for them.
func (d *damage) counted(r *eng.Run, s end, a *eng.Term, typ types.Type, k int64) bool {
	// the quantity when the iteration started
	var from *eng.Term
	if s.loop != nil {
		for _, p := range s.loop.Phis {
			if p.Addr == a {
				from = p.Sym
				if p.Backs[s.i] != eng.AddK(p.Sym, -k) {
					return false
				}
			}
		}
		if from == nil {
			return false
		}
	} else {
		now := s.st.Load(a, typ)
		from = eng.AddK(now, k)
		// the state the loop was left with
		if r.PhiOf(from) == nil && !(from.Op == "ld" && from.Args[0] == a) {
			return false
		}
	}
	// (from a negative number it would go on until a step fails)
	return s.st.Implies(eng.Le(eng.Int(k), from)) || k == 1 && s.st.Implies(eng.Not(eng.EqInt(from, eng.Int(0))))
}

// merge decides the reader of a merge.
func (d *damage) merge() {
	f, r := d.run("postMapReader.nextId", readsDeltas)
	if r == nil {
		return
	}
	cons := fnLabel(f)
	n := 0
	for _, s := range d.ends(r) {
		for _, e := range steps(s.evs) {
			n++
			d.c.Check(s.st.Implies(eng.Le(one, e.Res)), "steps", cons+" "+d.site(e), posOf(e), "a file number that does not exceed the one before is used")
		}
	}
	d.c.Check(n > 0, "steps", cons, f.Pos(), "no list is read")
}

// entries decides a reader of the posting index.
func (d *damage) entries(name string) {
	f, r := d.run(name, func(x *ssa.Function) bool { return readsDeltas(x) || x.Name() == "slice" })
	if r == nil {
		return
	}
	n := d.complete("entry", fnLabel(f), f, r)
	d.c.Check(n > 0, "entry", fnLabel(f), f.Pos(), "no entry is read")
}

// numbers decides the decoding of the numbers of a list.
func (d *damage) numbers() {
	c := d.c
	f, r := d.run("deltaReader.next", func(x *ssa.Function) bool { return false })
	if r == nil {
		return
	}
	cons := fnLabel(f)
	n := d.complete("number", cons, f, r)
	rd := r.Params[0]
	st := rd.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	data := map[*eng.Term]bool{}
	for i := range st.NumFields() {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			a := eng.FieldAddr(rd, st, i)
			data[eng.Mk("ld", "", st.Field(i).Type(), a)] = true
			for _, l := range r.Loops {
				for _, p := range l.Phis {
					if p.Addr == a || p.Init != nil && data[p.Init] {
						data[p.Sym] = true
					}
				}
			}
		}
	}
	c.Check(len(data) >= 2, "number", cons+" data", f.Pos(), "the data read are not recognised")
	for _, s := range d.ends(r) {
		bad := false
		for _, fact := range s.st.Facts {
			for _, a := range eng.Atoms(factArg(fact)) {
				if a.Op == "len" && dataOf(data, a.Args[0]) && s.st.Implies(eng.Le(a, eng.Int(0))) {
					bad = true
				}
			}
		}
		c.Check(!bad, "number", cons+" bits", f.Pos(), "a number is made up where the data have ended")
	}
	c.Check(n > 0, "number", cons+" reads", f.Pos(), "no number is read")
}

func dataOf(data map[*eng.Term]bool, t *eng.Term) bool {
	if t.Op == "ld" {
		for k := range data {
			if k.Op == "ld" && k.Args[0] == t.Args[0] {
				return true
			}
		}
	}
	return data[t]
}

// factArg strips the comparison from a fact.
func factArg(f *eng.Term) *eng.Term {
	if f.Op == "not" {
		f = f.Args[0]
	}
	if len(f.Args) > 0 {
		return f.Args[0]
	}
	return f
}

// extent: parts of the mapped bytes end within the file.
func (d *damage) extent() {
	c := d.c
	for _, f := range c.P.Funcs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != load.Module+"/index" || !slicesMapped(f) {
			continue
		}
		if recvNamed(f) == "postHeap" {
			continue // a temporary file
		}
		r := c.Analyze(f, &eng.Config{
			Opaque:    func(x *ssa.Function) bool { return x != f && x.Name() != "corrupt" },
			KeepFacts: true,
			Join:      2000,
			Entries:   16,
			MaxStates: 4000,
		})
		if r == nil {
			continue
		}
		cons := fnLabel(f)
		check := func(s end, t *eng.Term) {
			walkTerm(t, map[*eng.Term]bool{}, func(x *eng.Term) {
				if x.Op != "slice" || !mapped(x.Args[0]) {
					return
				}
				n := eng.Len(x.Args[0])
				c.Check(x.Args[2] == n || s.st.Implies(eng.Le(x.Args[2], n)), "extent", cons, f.Pos(), "%s may extend beyond the file", x)
			})
		}
		for _, s := range d.ends(r) {
			for _, t := range s.rets {
				check(s, t)
			}
			for _, e := range s.evs {
				for _, a := range e.Args {
					check(s, a)
				}
			}
		}
	}
}

// table: what is asked for has the length asked for.
func (d *damage) table() {
	c := d.c
	f, r := d.run("Index.slice", func(x *ssa.Function) bool { return false })
	if r == nil || !c.Check(len(r.Params) == 3, "extent", fnLabel(f)+" parameters", f.Pos(), "it has other parameters") {
		return
	}
	n := r.Params[2]
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 || t.St.Implies(eng.Lt(n, eng.Int(0))) {
			continue
		}
		l := eng.Len(t.Rets[0])
		c.Check(l == n || t.St.Implies(eng.EqInt(l, n)), "extent", fnLabel(f)+" length", f.Pos(), "a table that the file has not room for is cut short")
	}
}

// slicesMapped reports whether f slices the bytes of a mapped file.
func slicesMapped(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Slice)
			if !ok || s.High == nil {
				continue
			}
			if isMappedVal(s.X, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

func isMappedVal(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			p, _ := fa.X.Type().Underlying().(*types.Pointer)
			return p != nil && namedType(p.Elem()) == "mmapData"
		}
	case *ssa.Field:
		return namedType(v.X.Type()) == "mmapData"
	case *ssa.Phi:
		for _, e := range v.Edges {
			if isMappedVal(e, seen) {
				return true
			}
		}
	}
	return false
}

func mapped(t *eng.Term) bool {
	if t.Op == "ld" && t.Args[0].Op == "field" {
		b := t.Args[0].Args[0]
		if b.Typ != nil {
			if p, ok := b.Typ.Underlying().(*types.Pointer); ok {
				return namedType(p.Elem()) == "mmapData"
			}
		}
	}
	if t.Op == "fieldval" && t.Args[0].Typ != nil {
		return namedType(t.Args[0].Typ) == "mmapData"
	}
	return false
}

func walkTerm(t *eng.Term, seen map[*eng.Term]bool, f func(*eng.Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.Args {
		walkTerm(a, seen, f)
	}
}

// checker decides the function that checks an index.
func (d *damage) checker() {
	c := d.c
	f, r := d.run("Index.Check", func(x *ssa.Function) bool {
		return readsDeltas(x) || x.Name() == "slice" || recvNamed(x) == "PathReader" || x.Name() == "NamesAt" || x.Name() == "Names"
	})
	if r == nil {
		return
	}
	cons := fnLabel(f)
	n := d.complete("check", cons, f, r)
	c.Check(n > 0, "check", cons+" entries", f.Pos(), "no entry is read")
	lists, inner := 0, 0
	for _, s := range d.ends(r) {
		ss := steps(s.evs)
		// an end of a list: after the loop over its files
		var list *eng.Event
		for _, e := range s.evs {
			if e.Kind == "call" && isMethod(e.Name, "deltaReader", "init") {
				list = e
			}
		}
		if s.loop == nil {
			continue
		}
		if list == nil {
			for _, e := range ss {
				inner++
				c.Check(s.st.Implies(eng.Not(eng.EqInt(e.Res, eng.Int(0)))), "check", cons+" fewer", posOf(e), "a list with fewer files than its entry gives is not reported")
				// one of the files of the entry
				ok := len(ss) == 1
				k := false
				for _, p := range s.loop.Phis {
					if q, y := eng.DiffConst(p.Backs[s.i], p.Sym); y && (q == 1 || q == -1) {
						k = true
					}
				}
				c.Check(ok && k, "check", cons+" counted", posOf(e), "the files of a list are not counted one by one")
			}
			continue
		}
		lists++
		ok := len(ss) > 0 && s.st.Implies(eng.EqInt(ss[len(ss)-1].Res, eng.Int(0)))
		for i, e := range ss {
			if i < len(ss)-1 && !s.st.Implies(eng.Not(eng.EqInt(e.Res, eng.Int(0)))) {
				ok = false
			}
		}
		c.Check(ok && d.all(r, s, len(ss)-1), "check", cons+" more", posOf(list), "a list with more files than its entry gives is not reported")
		// the trigram of the list is that of the entry
		data := list.Args[len(list.Args)-1]
		c.Check(d.sameTrigram(s, data), "check", cons+" trigram", posOf(list), "a list of another trigram is not reported")
	}
	c.Check(lists > 0 && inner > 0, "check", cons+" lists", f.Pos(), "lists are not read")
	d.blocks(f, r)
}

// peel is the slice t is part of, and where t starts in it.
func peel(t *eng.Term) (root, lo *eng.Term) {
	lo = eng.Int(0)
	for t.Op == "slice" {
		if t.Args[1] != nil {
			lo = eng.Add(lo, t.Args[1])
		}
		t = t.Args[0]
	}
	return t, lo
}

// moved is where the part of root from lo on is after the i'th path around
// the loop, or where it is at first if i is negative.
func moved(l *eng.Loop, i int, root, lo *eng.Term) (*eng.Term, *eng.Term) {
	m := map[*eng.Term]*eng.Term{}
	for _, p := range l.Phis {
		if i < 0 {
			m[p.Sym] = p.Init
		} else {
			m[p.Sym] = p.Backs[i]
		}
	}
	x, more := peel(eng.Subst(root, m))
	return x, eng.Add(eng.Subst(lo, m), more)
}

// blocks: every entry of every block of the lookup table is checked.
func (d *damage) blocks(f *ssa.Function, r *eng.Run) {
	c := d.c
	cons := fnLabel(f)
	// the loops over the entries of a block, and where they start
	type walk struct {
		root, lo *eng.Term
		n        *eng.Term
		size     int64
	}
	entries := map[*eng.Loop]walk{}
	for _, l := range r.Loops {
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			var nums []*eng.Event
			for _, e := range evs {
				if e.Kind == "call" && e.Name == uvarint {
					nums = append(nums, e)
				}
			}
			if len(nums) != 2 {
				continue
			}
			root, lo := peel(nums[0].Args[0])
			last, end := peel(nums[1].Args[0])
			end = eng.Add(end, resultOf(nums[1], 1))
			lo = eng.AddK(lo, -3)
			next, at := moved(l, i, root, lo)
			c.Check(next == last && at == end, "check", cons+" next entry", posOf(nums[1]), "the entry checked next is not the one that follows")
			root0, lo0 := moved(l, -1, root, lo)
			entries[l] = walk{root: root0, lo: lo0}
			// what ends the entries of a block
			for _, x := range l.Exits {
				short := x.Implies(eng.Le(eng.Sub(eng.Len(root), lo), eng.Int(4)))
				c.Check(short || zeros(x, root, lo), "check", cons+" last entry", l.Pos, "entries of a block are left unchecked")
			}
		}
	}
	c.Check(len(entries) > 0, "check", cons+" entries of a block", f.Pos(), "the loop over the entries was not found")
	// the loop over the blocks
	blocks := map[*eng.Loop]walk{}
	inner := func(l *eng.Loop, st *eng.State) *eng.Loop {
		path, _ := st.PathSince(l)
		for _, h := range path {
			if _, ok := entries[h.Loop]; ok && h.Loop != l {
				return h.Loop
			}
		}
		return nil
	}
	for _, l := range r.Loops {
		for _, st := range l.Backs {
			if in := inner(l, st); in != nil {
				blocks[l] = entries[in]
			}
		}
	}
	for _, l := range r.Loops {
		w, ok := blocks[l]
		if !ok {
			continue
		}
		for i, st := range l.Backs {
			in := inner(l, st)
			if in != nil {
				w = entries[in]
			}
			blocks[l] = w
			next, at := moved(l, i, w.root, w.lo)
			size, ok := eng.DiffConst(at, w.lo)
			ok = ok && in != nil && next == w.root && size > 0
			c.Check(ok, "check", cons+" next block", l.Pos, "the block checked next is not the one that follows")
			// of the whole table
			root0, lo0 := moved(l, -1, w.root, w.lo)
			n := d.asked(r, root0)
			c.Check(n != nil && lo0 == eng.Int(0) && n.Op == "lin" && len(n.Args) == 1 && n.K == 0 && n.Coef[0] == size, "check", cons+" table", l.Pos, "not the whole lookup table is checked, block by block")
			w.size, w.n = size, n
			blocks[l] = w
		}
	}
	c.Check(len(blocks) > 0, "check", cons+" blocks", f.Pos(), "the loop over the blocks was not found")
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 || t.Rets[0] != eng.Nil {
			continue
		}
		ok, past := false, false
		for _, l := range t.St.Passed() {
			if w, y := blocks[l]; y {
				past = true
				lo := w.lo
				if inner(l, t.St) != nil {
					lo = eng.AddK(lo, w.size)
				}
				ok = t.St.Implies(eng.Le(eng.Sub(eng.Len(w.root), lo), eng.Int(w.size-1))) ||
					w.n != nil && atMost(t.St, eng.Sub(w.n, lo), w.size)
			}
		}
		for _, w := range blocks {
			if !past && w.n != nil && atMost(t.St, w.n, w.size) {
				ok, past = true, true
			}
		}
		if !past {
			// an old index has no such table
			if p, y := r.Params[0].Typ.Underlying().(*types.Pointer); y {
				if st, y := p.Elem().Underlying().(*types.Struct); y {
					a := initial(r.Params[0], st, "version")
					ok = a != nil && t.St.Implies(eng.Not(eng.EqInt(a, eng.Int(2))))
				}
			}
		}
		c.Check(ok, "check", cons+" last block", f.Pos(), "blocks are left unchecked")
	}
}

// zeros reports whether the three bytes of root from lo on are known to be 0.
func zeros(st *eng.State, root, lo *eng.Term) bool {
	var zero [3]bool
	for _, f := range st.Facts {
		if len(f.Args) != 1 || f != eng.EqInt(f.Args[0], eng.Int(0)) {
			continue
		}
		// of a number made of them, too
		f.Walk(func(t *eng.Term) bool {
			if b, i, ok := elemOf(t); ok {
				b, more := peel(b)
				for k := range int64(3) {
					if b == root && eng.Add(i, more) == eng.AddK(lo, k) {
						zero[k] = true
					}
				}
			}
			return true
		})
	}
	return zero[0] && zero[1] && zero[2]
}

// atMost reports whether t, a multiple of size, is known not to be positive.
func atMost(st *eng.State, t *eng.Term, size int64) bool {
	if st.Implies(eng.Le(t, eng.Int(size-1))) {
		return true
	}
	if t.Op != "lin" || t.K%size != 0 {
		return false
	}
	n := eng.Int(t.K / size)
	for i, a := range t.Args {
		if t.Coef[i]%size != 0 {
			return false
		}
		n = eng.Add(n, eng.MulK(a, t.Coef[i]/size))
	}
	return st.Implies(eng.Le(n, eng.Int(0)))
}

// asked is the number of bytes the slice of the index was asked for.
func (d *damage) asked(r *eng.Run, t *eng.Term) *eng.Term {
	for _, s := range d.ends(r) {
		for _, e := range s.st.Events(false) {
			if e.Kind == "call" && e.Res == t && strings.HasSuffix(e.Name, ".slice") {
				return e.Args[len(e.Args)-1]
			}
		}
	}
	return nil
}

// all reports whether as many numbers were read as the entry gives files: those
// of the loops that were passed, and some more.
func (d *damage) all(r *eng.Run, s end, more int) bool {
	var cnt *eng.Term
	for _, e := range s.evs {
		if e.Kind == "call" && e.Name == uvarint && cnt == nil {
			cnt = resultOf(e, 0)
		}
	}
	if cnt == nil {
		return false
	}
	if more == 0 && s.st.Implies(eng.Le(cnt, eng.Int(0))) {
		return true
	}
	path, _ := s.st.PathSince(s.loop)
	for _, h := range path {
		if h.Loop == nil || h.Loop == s.loop {
			continue
		}
		for _, p := range h.Loop.Phis {
			up, down := len(p.Backs) > 0, len(p.Backs) > 0
			for _, b := range p.Backs {
				k, y := eng.DiffConst(b, p.Sym)
				up = up && y && k == 1
				down = down && y && k == -1
			}
			stripped := func(t *eng.Term) *eng.Term {
				for t.Op == "conv" {
					t = t.Args[0]
				}
				return t
			}
			if up && p.Init == eng.Int(0) {
				n := eng.AddK(p.Sym, int64(more))
				if s.st.Implies(eng.Le(cnt, n)) || s.st.Implies(eng.Le(eng.Conv(cnt, cnt.Typ, types.Typ[types.Int]), n)) {
					return true
				}
			}
			if down && stripped(p.Init) == cnt && s.st.Implies(eng.Le(p.Sym, eng.Int(int64(more)))) {
				return true
			}
		}
	}
	return false
}

// sameTrigram reports whether the path knows that the three bytes before the
// list data are those an entry starts with.
func (d *damage) sameTrigram(s end, data *eng.Term) bool {
	base := data
	for base.Op == "slice" {
		base = base.Args[0]
	}
	// the block's rest
	var entry []*eng.Term
	for _, e := range s.evs {
		if e.Kind == "call" && e.Name == uvarint {
			b := e.Args[0]
			for b.Op == "slice" {
				b = b.Args[0]
			}
			entry = append(entry, b)
		}
	}
	if len(entry) == 0 {
		return false
	}
	if data.Op != "slice" {
		return false
	}
	from := eng.AddK(data.Args[1], -3)
	// at returns the bytes t stands for: those from lo on of x
	at := func(t *eng.Term) (x, lo, n *eng.Term) {
		for t.Op == "conv" || t.Op == "convstr" {
			t = t.Args[0]
		}
		if t.Op == "slice" {
			return t.Args[0], t.Args[1], eng.Sub(t.Args[2], t.Args[1])
		}
		if b, i, ok := elemOf(t); ok {
			return b, i, eng.Int(1)
		}
		return t, eng.Int(0), eng.Len(t)
	}
	three := eng.Int(3)
	var bytes [3]bool
	for _, fact := range s.st.Facts {
		for _, pair := range bothSides(fact) {
			x, lo, n := at(pair[0])
			y, lo1, n1 := at(pair[1])
			if x == entry[0] {
				x, lo, n, y, lo1, n1 = y, lo1, n1, x, lo, n
			}
			if x != base || y != entry[0] {
				continue
			}
			prefix := isCall(fact, "bytes.HasPrefix") || isCall(fact, "strings.HasPrefix")
			if lo == from && lo1 == eng.Int(0) && (n == three || prefix) && n1 == three {
				return true
			}
			if n == eng.Int(1) && n1 == n {
				for k := range int64(3) {
					if lo == eng.AddK(from, k) && lo1 == eng.Int(k) {
						bytes[k] = true
					}
				}
			}
		}
	}
	return bytes == [3]bool{true, true, true}
}

// bothSides returns what a fact compares.
func bothSides(f *eng.Term) (out [][2]*eng.Term) {
	if f.Op == "not" {
		return nil
	}
	if f.Op == "call" && len(f.Args) >= 2 {
		for _, n := range []string{"bytes.HasPrefix", "strings.HasPrefix", "bytes.Equal"} {
			if isCall(f, n) {
				out = append(out, [2]*eng.Term{f.Args[0], f.Args[1]})
			}
		}
		return out
	}
	if len(f.Args) == 2 && f.Op != "call" {
		return [][2]*eng.Term{{f.Args[0], f.Args[1]}}
	}
	// a difference that is zero
	if len(f.Args) == 1 {
		as := eng.Atoms(f.Args[0])
		if len(as) == 2 && f == eng.EqInt(as[0], as[1]) {
			return [][2]*eng.Term{{as[0], as[1]}}
		}
	}
	return nil
}

// closed: nothing else reads numbers.
func (d *damage) closed() {
	c := d.c
	for _, f := range c.P.Funcs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != load.Module+"/index" {
			continue
		}
		switch recvNamed(f) {
		case "PathReader", "allPostReader":
			// names stop where they are damaged; temporary files
			// are not the index
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				switch name := callee(ci); name {
				case uvarint, "encoding/binary.Varint", "encoding/binary.ReadUvarint":
				case deltaNext:
				default:
					continue
				}
				c.Check(d.seen[in] || !called(c, f), "closed", fnLabel(f)+" reads", in.Pos(), "%s reads numbers of an index in a way that was not analysed", f)
			}
		}
	}
}
