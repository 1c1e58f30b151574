package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

const (
	setPkg   = load.Module + "/sparse"
	pathWr   = "(*" + idx + "PathWriter).Write"
	readName = "(io.Reader).Read"
)

func setM(n string) string { return "(*" + setPkg + ".Set)." + n }

func init() {
	register(&Rule{
		ID: "C08",
		Explanation: "Loop-transition analysis of the indexing of one file (helpers inlined, the set of trigrams abstract): the loop that consumes bytes is found by its set insertions, and on every path through an iteration a bit-slice domain decides that exactly the next byte of the data read is consumed (same chunk and next index, or index 0 of a chunk just read after the old one was used up), " +
			"that the value inserted is the concatenation of the last three bytes consumed, and that it is inserted if and only if three bytes have been consumed. A file is recorded only after a read that returned no data and io.EOF, the set is emptied before the first byte, every element of the set is appended to the pending postings with the file's number, and the set's own operations are checked against their membership equations.",
		Assumptions: []string{"io.Reader returns the file's bytes in order", "bounds of 24 and 40 bits are decided by the posting pipeline's rule"},
		Run:         runTrigram,
	})
	register(&Rule{
		ID: "C09",
		Explanation: "Path-condition analysis of the same loop: for every path through an iteration the set of (previous byte, byte) pairs that its branch conditions admit is computed exactly over all 65,536 pairs and compared with the definition of pairs that occur in valid UTF-8; the conditions must imply that the byte is not NUL, that at most 2^30 bytes and at most 2000 bytes since the last newline have been consumed, and the file is recorded only on paths that imply at most 20000 distinct trigrams. " +
			"Conversely each path that gives a file up without an error must contradict one of these. On paths that do not record the file nothing but the scratch space is stored.",
		Assumptions: []string{"the number of trigrams is the size of the set (decided by C08)"},
		Run:         runTextFilter,
	})
}

// An addLoop describes the loop of the indexer that consumes the bytes of a
// file.
type addLoop struct {
	run   *eng.Run
	loop  *eng.Loop
	steps []*addStep // one per back edge that consumes a byte
	exits []*addStep // exits after or before consuming a byte
}

type addStep struct {
	st   *eng.State
	back int // index of the back edge, or -1
	adds []*eng.Event
	b    *eng.Term // the byte consumed, or nil
	buf  *eng.Term
	idx  *eng.Term
	read *eng.Event
}

// analyzeAdd analyses the indexing of one file.
func (c *Ctx) analyzeAdd() []*addLoop {
	root := c.Func("index", "IndexWriter.Add")
	if root == nil {
		return nil
	}
	fs := c.deepest(root, readName, pathWr)
	if len(fs) != 1 {
		c.Viol("anchor", "index:(*IndexWriter).Add", root.Pos(), "found %d functions that read a file and record its name", len(fs))
		return nil
	}
	f := fs[0]
	interest := func(e *eng.Event) bool {
		switch e.Kind {
		case "call":
			return strings.HasPrefix(e.Name, "(*"+setPkg+".Set).") || e.Name == readName || e.Name == pathWr || e.Name == "io.ReadFull"
		case "store":
			return true
		}
		return false
	}
	fieldsOfWriter := func(a *eng.Term) bool {
		for a.Op == "elem" {
			a = a.Args[0]
			if a.Op != "field" && len(a.Args) > 0 {
				a = a.Args[0]
			}
		}
		return a.Op == "field" && strings.HasSuffix(types.TypeString(typOf(a.Args[0]), nil), "index.IndexWriter")
	}
	r := c.Analyze(f, &eng.Config{
		Join: 200, Entries: 4, MaxStates: 2000, KeepFacts: true,
		Opaque: func(f *ssa.Function) bool {
			return fnPkg(f) != nil && fnPkg(f).Path() == setPkg || fullName(f) == pathWr
		},
		Target: func(in ssa.Instruction, n string) bool {
			return strings.HasPrefix(n, "(*"+setPkg+".Set).") || n == readName || n == pathWr
		},
		Interest: interest,
		Stores:   fieldsOfWriter,
	})
	var out []*addLoop
	for _, l := range r.Loops {
		a := &addLoop{run: r, loop: l}
		found := false
		for i, b := range l.Backs {
			s := c.addStep(a, b, i)
			if len(s.adds) > 0 && !innerHas(r, l, setM("Add")) {
				found = true
			}
			a.steps = append(a.steps, s)
		}
		if !found {
			continue
		}
		for _, x := range l.Exits {
			a.exits = append(a.exits, c.addStep(a, x, -1))
		}
		out = append(out, a)
	}
	return out
}

// innerHas reports whether a loop inside l performs a call of name.
func innerHas(r *eng.Run, l *eng.Loop, name string) bool {
	for _, b := range l.Backs {
		seen := false
		for _, p := range b.Passed() {
			if p == l {
				seen = true
				continue
			}
			if !seen {
				continue
			}
			for _, pb := range p.Backs {
				ev, _ := pb.EventsSince(p)
				for _, e := range ev {
					if e.Name == name {
						return true
					}
				}
			}
		}
	}
	return false
}

func isByteLoad(t *eng.Term) bool {
	if t.Op != "ld" || t.Args[0].Op != "elem" || t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (c *Ctx) addStep(a *addLoop, st *eng.State, back int) *addStep {
	s := &addStep{st: st, back: back}
	ev, _ := st.EventsSince(a.loop)
	for _, e := range ev {
		switch e.Name {
		case setM("Add"):
			s.adds = append(s.adds, e)
		case readName:
			s.read = e
		}
	}
	// the byte consumed: a byte load among the inserted value, the new
	// values of the phis and the facts
	var cands []*eng.Term
	see := func(t *eng.Term) {
		if t == nil {
			return
		}
		t.Walk(func(x *eng.Term) bool {
			if isByteLoad(x) {
				for _, y := range cands {
					if x == y {
						return false
					}
				}
				cands = append(cands, x)
				return false
			}
			return true
		})
	}
	for _, e := range s.adds {
		see(e.Args[1])
	}
	if back >= 0 {
		for _, p := range a.loop.Phis {
			if isNumeric(p.Sym.Typ) {
				see(p.Backs[back])
			}
		}
	}
	for _, f := range st.Facts {
		see(f)
	}
	if len(cands) > 0 {
		s.b = cands[0]
		s.buf, s.idx = s.b.Args[0].Args[0], s.b.Args[0].Args[1]
		for _, x := range cands {
			if x.Args[0].Args[0] != s.buf || x.Args[0].Args[1] != s.idx {
				s.b = nil // more than one byte is looked at
			}
		}
		if s.b == nil {
			s.b = cands[0]
			s.buf = nil
		}
	}
	return s
}

// backVal returns the value of the phi symbol p on the back edge of s.
func (a *addLoop) backVal(p *eng.Term, s *addStep) *eng.Term {
	if ph := a.loop.Phi(p); ph != nil && s.back >= 0 {
		return ph.Backs[s.back]
	}
	return nil
}

// nextByte checks that the byte of step s is the one that follows the last
// byte consumed: returns "" or what is wrong.
func (a *addLoop) nextByte(s *addStep) string {
	if s.buf == nil {
		return "more than one byte is examined in one step"
	}
	l := a.loop
	chunkOf := func(buf *eng.Term) *eng.Event { // the Read that filled buf
		var rd *eng.Event
		for _, e := range s.st.Events(false) {
			if e.Name == readName {
				rd = e
			}
		}
		if rd == nil {
			return nil
		}
		base := func(t *eng.Term) *eng.Term {
			for t.Op == "slice" {
				t = t.Args[0]
			}
			return t
		}
		if base(rd.Args[1]) != base(buf) {
			return nil
		}
		if eng.Len(buf) != rd.Result(0) && !s.st.Implies(eng.EqInt(eng.Len(buf), rd.Result(0))) {
			return nil
		}
		return rd
	}
	if s.read != nil && s.idx == eng.Int(0) {
		// a chunk read in this iteration
		n := s.read.Result(0)
		if sliceBase(s.read.Args[1]) != sliceBase(s.buf) {
			return "the byte does not come from the data returned by the read"
		}
		if !s.st.Implies(eng.Not(eng.EqInt(n, eng.Int(0)))) && !s.st.Implies(eng.Lt(eng.Int(0), n)) {
			return "a byte is taken from an empty chunk"
		}
		if s.back < 0 {
			return ""
		}
		// the old chunk was used up
		for _, p := range l.Phis {
			v := p.Backs[s.back]
			if _, ok := p.Sym.Typ.Underlying().(*types.Slice); !ok || sliceBase(v) != sliceBase(s.buf) || eng.Len(v) != n {
				continue
			}
			for _, q := range l.Phis {
				if q.Backs[s.back] == eng.Int(1) && q.Init.Op == "int" && s.st.Implies(eng.Le(eng.Len(p.Sym), q.Sym)) &&
					(eng.Len(p.Init) == q.Init || eng.Len(p.Init).Op == "int" && eng.Len(p.Init).K <= q.Init.K) {
					return ""
				}
			}
		}
		return "a new chunk is read before the old one is used up, or the cursor does not follow the byte consumed"
	}
	in := s.st.Implies(eng.Lt(s.idx, eng.Len(s.buf)))
	if p := l.Phi(s.buf); p != nil {
		// the chunk is carried by the loop; the index too
		i := l.Phi(s.idx)
		if i == nil || !in {
			return "the byte is not known to lie within the data read"
		}
		if v := a.backVal(s.buf, s); v != nil && v != s.buf {
			return "the chunk changes after the byte is consumed"
		}
		if v := a.backVal(s.idx, s); v != nil && v != eng.AddK(s.idx, 1) {
			return fmt.Sprintf("after byte %s the next one taken is %s", s.idx, v)
		}
		return ""
	}
	// an inner loop over one chunk: the index is carried by the loop
	for _, p := range l.Phis {
		k, ok := eng.DiffConst(s.idx, p.Sym)
		if !ok || p.Init.Op != "int" || p.Init.K+k != 0 {
			continue
		}
		if !in {
			return "the byte is not known to lie within the data read"
		}
		if v := a.backVal(p.Sym, s); v != nil && v != eng.AddK(p.Sym, 1) {
			return fmt.Sprintf("after byte %s the cursor moves to %s", s.idx, v)
		}
		if rd := chunkOf(s.buf); rd == nil {
			return "the chunk is not the data returned by the read"
		}
		return ""
	}
	return "the byte consumed does not follow the last one"
}

// history follows bits of the loop state back to the byte consumed n steps
// ago: it reports whether the bits bs (8 of them) hold that byte.
func (a *addLoop) history(bs []bit, n int) bool {
	for _, s := range a.steps {
		if s.b == nil {
			continue // does not consume: checked elsewhere
		}
		nb := make([]bit, len(bs))
		for i, b := range bs {
			if b.leaf == nil {
				return false
			}
			p := a.loop.Phi(b.leaf)
			if p == nil {
				return false
			}
			v := bitsOf(nil, p.Backs[s.back], b.idx+1)
			nb[i] = v[b.idx]
		}
		if n == 1 {
			for i, b := range nb {
				if b.leaf != s.b || b.idx != i {
					return false
				}
			}
			continue
		}
		if !a.history(nb, n-1) {
			return false
		}
	}
	return true
}

// counters returns the phis that count the bytes consumed.
func (a *addLoop) counters() []*eng.Phi {
	var out []*eng.Phi
	for _, p := range a.loop.Phis {
		if !isNumeric(p.Sym.Typ) || !startsAt(a.run, p.Init, 0) {
			continue
		}
		ok := true
		for _, s := range a.steps {
			if s.b == nil {
				ok = ok && p.Backs[s.back] == p.Sym
			} else {
				ok = ok && p.Backs[s.back] == eng.AddK(p.Sym, 1)
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// startsAt reports whether t is k, or a phi of an outer loop that starts at k
// and is otherwise only changed by inner loops (whose phis start at it).
func startsAt(r *eng.Run, t *eng.Term, k int64) bool {
	if t == eng.Int(k) {
		return true
	}
	p := r.PhiOf(t)
	if p == nil {
		return false
	}
	if !startsAt(r, p.Init, k) {
		return false
	}
	for _, b := range p.Backs {
		if b == p.Sym {
			continue
		}
		q := r.PhiOf(b)
		if q == nil || q.Init != p.Sym {
			return false
		}
	}
	return true
}

func runTrigram(c *Ctx) {
	loops := c.analyzeAdd()
	c.Check(len(loops) >= 1, "byte-loops", "index:(*IndexWriter).Add", 0, "no loop that consumes the bytes of a file was found")
	for _, a := range loops {
		l := a.loop
		cons := fnLabel(l.Fn)
		ctrs := a.counters()
		if !c.Check(len(ctrs) > 0, "byte-counter", cons, l.Pos, "nothing in the loop counts the bytes consumed") {
			continue
		}
		for _, s := range a.steps {
			if s.b == nil {
				c.Check(len(s.adds) == 0 && s.read == nil, "byte-consumed", cons, l.Pos, "an iteration inserts a trigram or reads data without consuming a byte")
				continue
			}
			why := a.nextByte(s)
			c.Check(why == "", "next-byte", cons, l.Pos, "%s", why)
			if len(s.adds) > 1 {
				c.Check(false, "window", cons, s.adds[1].Instr.Pos(), "two trigrams are inserted for one byte")
				continue
			}
			decided := false
			for _, n := range ctrs {
				n1 := eng.AddK(n.Sym, 1)
				if len(s.adds) == 1 && s.st.Implies(eng.Le(eng.Int(3), n1)) || len(s.adds) == 0 && s.st.Implies(eng.Lt(n1, eng.Int(3))) {
					decided = true
				}
			}
			pos := l.Pos
			if len(s.adds) > 0 {
				pos = s.adds[0].Instr.Pos()
			}
			c.Check(decided, "inserted-iff-three", cons, pos, "a trigram is inserted (%v) on a path that does not imply exactly that at least three bytes were consumed", len(s.adds) == 1)
			if len(s.adds) == 0 {
				continue
			}
			v := bitsOf(nil, s.adds[0].Args[1], 32)
			ok := true
			for i := 0; i < 8; i++ {
				ok = ok && v[i].leaf == s.b && v[i].idx == i
			}
			for i := 24; i < 32; i++ {
				ok = ok && v[i].isConst(0)
			}
			ok = ok && a.history(v[8:16], 1) && a.history(v[16:24], 2)
			c.Check(ok, "window", cons, pos, "the value inserted is not made of the last three bytes consumed: %s", s.adds[0].Args[1])
		}
	}
	// recording the file
	n := 0
	if len(loops) > 0 {
		n = c.recorded(loops)
	}
	c.Check(n > 0, "recorded", "index:(*IndexWriter).Add", 0, "no path records a file")
	c.sparseSet()
	c.Min("window", 1)
	c.Min("next-byte", 1)
	c.Min("end-of-file", 1)
	c.Min("postings", 1)
	c.Min("set-model", 5)
}

// recorded checks the paths on which a file is recorded.
func (c *Ctx) recorded(loops []*addLoop) int {
	r := loops[0].run
	n := 0
	inLoops := map[*eng.Loop]*addLoop{}
	for _, a := range loops {
		inLoops[a.loop] = a
	}
	for _, e := range r.Events {
		if e.Name != pathWr {
			continue
		}
		n++
		cons := fnLabel(e.Fn)
		evs := e.St.Events(false)
		var lastRead, reset *eng.Event
		for _, p := range evs {
			switch p.Name {
			case readName:
				lastRead = p
			case setM("Reset"):
				reset = p
			}
		}
		passed := false
		for _, l := range e.St.Passed() {
			if inLoops[l] != nil {
				passed = true
			}
		}
		if !c.Check(passed, "end-of-file", cons+" loop", e.Instr.Pos(), "a file is recorded without reading it") {
			continue
		}
		if !c.Check(lastRead != nil, "end-of-file", cons+" read", e.Instr.Pos(), "a file is recorded without reading to its end") {
			continue
		}
		eof := false
		err := lastRead.Result(1)
		for _, f := range e.St.Facts {
			if f.Op == "eq" && (f.Args[0] == err || f.Args[1] == err) {
				o := f.Args[0]
				if o == err {
					o = f.Args[1]
				}
				if o.Op == "ld" && o.Args[0].Op == "global" && o.Args[0].Aux == "io.EOF" {
					eof = true
				}
			}
			if isCall(f, "errors.Is") && f.Args[0] == err && f.Args[1].Op == "ld" && f.Args[1].Args[0].Aux == "io.EOF" {
				eof = true
			}
		}
		c.Check(eof, "end-of-file", cons, e.Instr.Pos(), "a file is recorded although the last read did not report its end")
		c.Check(e.St.Implies(eng.EqInt(lastRead.Result(0), eng.Int(0))), "end-of-file", cons+" data", e.Instr.Pos(), "a file is recorded although the last read returned data that was not consumed")
		// emptied before the loop: Reset precedes the first Read on the path
		c.Check(reset != nil, "set-emptied", cons, e.Instr.Pos(), "the set of trigrams is not emptied before a file is read")
	}
	// the set is emptied before the loop, not inside it
	for _, a := range loops {
		outer := a.loop
		for _, s := range append(append([]*addStep(nil), a.steps...), a.exits...) {
			ev, _ := s.st.EventsSince(outer)
			for _, p := range ev {
				c.Check(p.Name != setM("Reset"), "set-emptied", fnLabel(a.loop.Fn)+" loop", p.Instr.Pos(), "the set of trigrams is emptied while a file is being read")
			}
		}
	}
	c.pendingLoop(r)
	return n
}

// pendingLoop checks the loop that turns the set into postings.
func (c *Ctx) pendingLoop(r *eng.Run) {
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Addr == nil || p.Addr.Op != "field" || p.Sym.Typ == nil {
				continue
			}
			sl, ok := p.Sym.Typ.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			b, ok := sl.Elem().Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Uint64 || nested(r, l) {
				continue
			}
			cons := fnLabel(l.Fn)
			for bi, v := range p.Backs {
				st := l.Backs[bi]
				if v == p.Sym {
					c.Check(false, "postings", cons, l.Pos, "an element of the set of trigrams adds no posting")
					continue
				}
				if !c.Check(v.Op == "append" && v.Aux == "elems" && len(v.Args) == 2, "postings", cons, l.Pos, "the pending postings become %s", v) {
					continue
				}
				base := v.Args[0]
				c.Check(base == p.Sym || base.Op == "ld" && base.Args[0] == p.Addr || base.Op == "slice" && base.Args[1] == eng.Int(0) && base.Args[2] == eng.Int(0), "postings", cons+" base", l.Pos, "a posting is appended to %s, not to the pending postings", base)
				fs, ok := fieldsOf(st, v.Args[1], 64)
				okF := ok && len(fs) == 2 && fs[0].at == 0 && fs[0].from == 0 && fs[1].at == 40 && fs[1].from == 0 && fs[1].width >= 24
				if !c.Check(okF, "postings", cons+" entry", l.Pos, "a pending posting is not a file number with a trigram above it: %s", v.Args[1]) {
					continue
				}
				tri, id := fs[1].leaf, fs[0].leaf
				// the trigram is element k of the set's contents, k running over all of them
				okT := tri.Op == "ld" && tri.Args[0].Op == "elem" && isCall(tri.Args[0].Args[0], setM("Dense"))
				if c.Check(okT, "postings", cons+" trigram", l.Pos, "the trigram of a pending posting is %s, not an element of the set", tri) {
					c.wholeScan(l, bi, tri.Args[0].Args[0], tri.Args[0].Args[1], "postings", cons)
				}
				// the file number is the number of names before this one
				okI := id.Op == "ld" && id.Args[0].Op == "field" && l.Phi(id) == nil
				recorded := false
				for _, e := range st.Events(false) {
					if e.Name == pathWr {
						recorded = true
						for _, re := range r.Events {
							if re.Name != pathWr || re.Instr != e.Instr || re.Ctx != e.Ctx || re.St == nil {
								continue
							}
							// numbered before the increment
							d, isK := eng.DiffConst(re.St.Load(id.Args[0], id.Typ), id)
							okI = okI && isK && d >= 0
						}
					}
				}
				c.Check(okI && recorded, "postings", cons+" file", l.Pos, "the file number of a pending posting is %s, not the number assigned to the file's name", id)
			}
		}
	}
}

// nested reports whether some other loop inside l changes the same things
// (l is then not the innermost loop).
func nested(r *eng.Run, l *eng.Loop) bool {
	for _, b := range l.Backs {
		seen := false
		for _, p := range b.Passed() {
			if seen && p != l {
				return true
			}
			if p == l {
				seen = true
			}
		}
	}
	return false
}

// wholeScan checks that on back edge bi the loop visits element idx of seq and
// moves on to the next one, that it starts with element 0 and that it only
// ends after the last one.
func (c *Ctx) wholeScan(l *eng.Loop, bi int, seq, idx *eng.Term, rule, cons string) bool {
	st := l.Backs[bi]
	for _, p := range l.Phis {
		k, ok := eng.DiffConst(idx, p.Sym)
		if !ok {
			continue
		}
		c.Check(p.Init.Op == "int" && p.Init.K+k == 0, rule, cons+" first", l.Pos, "the loop over %s starts at element %s", seq, eng.AddK(p.Init, k))
		c.Check(p.Backs[bi] == eng.AddK(p.Sym, 1), rule, cons+" next", l.Pos, "the loop over %s goes from element %s to %s", seq, idx, eng.AddK(p.Backs[bi], k))
		okX := true
		for _, x := range l.Exits {
			if !x.Implies(eng.Le(eng.Len(seq), eng.AddK(p.Sym, k))) && !x.Implies(eng.False) {
				okX = false
			}
		}
		c.Check(okX && len(l.Exits) > 0, rule, cons+" end", l.Pos, "the loop over %s can end before its last element", seq)
		return true
	}
	// consumed from the front: seq is a phi replaced by its tail
	if p := l.Phi(seq); p != nil && idx == eng.Int(0) {
		v := p.Backs[bi]
		c.Check(v.Op == "slice" && v.Args[0] == seq && v.Args[1] == eng.Int(1), rule, cons+" next", l.Pos, "the loop over %s continues with %s", seq, v)
		return true
	}
	_ = st
	c.Check(false, rule, cons+" first", l.Pos, "the loop does not visit the elements of %s in order", seq)
	return false
}

// sparseSet checks the membership equations of the set.
func (c *Ctx) sparseSet() {
	_, sty := c.structOf("sparse", "Set")
	if sty == nil {
		c.Viol("anchor", "sparse.Set", 0, "type sparse.Set not found")
		return
	}
	an := func(name string) (*eng.Run, *ssa.Function) {
		f := c.Func("sparse", name)
		if f == nil {
			return nil, nil
		}
		return c.Analyze(f, &eng.Config{Stores: func(*eng.Term) bool { return true }, Interest: func(e *eng.Event) bool { return e.Kind == "store" }}), f
	}
	var s *eng.Term
	// The list of elements is what Dense returns.
	r, f := an("Set.Dense")
	if r == nil || len(r.Terms) != 1 {
		c.Check(false, "set-model", "(*sparse.Set).Dense", 0, "Dense does not simply return the elements")
		return
	}
	d := r.Terms[0].Rets[0]
	ok := d.Op == "ld" && d.Args[0].Op == "field"
	if !c.Check(ok, "set-model", "(*sparse.Set).Dense", f.Pos(), "Dense returns %s, not the list of elements", d) {
		return
	}
	s = d.Args[0].Args[0]
	denseName := d.Args[0].Aux
	// x is a member when dense[sparse[x]] == x with sparse[x] < len(dense)
	has, hf := an("Set.Has")
	if has == nil {
		return
	}
	_ = s
	// member: whether the facts imply that x is in, or is not in, the set
	// whose elements are dense
	member := func(st *eng.State, dense, x *eng.Term) (in, out bool) {
		var v, e *eng.Term
		for pass := 0; pass < 2; pass++ {
			for _, f := range st.Facts {
				f.Walk(func(y *eng.Term) bool {
					if y.Op != "ld" || y.Args[0].Op != "elem" {
						return true
					}
					if y.Args[0].Args[0] != dense && stripConv(y.Args[0].Args[1]) == x {
						v = y
					} else if y.Args[0].Args[0] == dense && v != nil && stripConv(y.Args[0].Args[1]) == v {
						e = y
					}
					return true
				})
			}
		}
		if v == nil {
			return
		}
		n := eng.Conv(eng.Len(dense), types.Typ[types.Int], v.Typ)
		lt := st.Implies(eng.Lt(v, n)) || st.Implies(eng.Lt(v, eng.Len(dense)))
		ge := st.Implies(eng.Le(n, v)) || st.Implies(eng.Le(eng.Len(dense), v))
		eq := e != nil && st.Implies(eng.EqInt(e, x))
		ne := e != nil && st.Implies(eng.Not(eng.EqInt(e, x)))
		return lt && eq, ge || ne
	}
	denseOf := func(recv *eng.Term) *eng.Term {
		return eng.Mk("ld", "", d.Typ, eng.Mk("field", denseName, d.Args[0].Typ, recv))
	}
	okHas := len(has.Terms) > 0
	for _, t := range has.Terms {
		recv, x := has.Params[0], has.Params[1]
		ret := t.Rets[0]
		if ret != eng.True && ret != eng.False {
			a, b := *t.St, *t.St
			a.Facts = append(append([]*eng.Term(nil), t.St.Facts...), ret)
			b.Facts = append(append([]*eng.Term(nil), t.St.Facts...), eng.Not(ret))
			in, _ := member(&a, denseOf(recv), x)
			_, out := member(&b, denseOf(recv), x)
			okHas = okHas && in && out
			continue
		}
		in, out := member(t.St, denseOf(recv), x)
		okHas = okHas && (ret == eng.True && in || ret == eng.False && out)
	}
	c.Check(okHas, "set-model", "(*sparse.Set).Has", hf.Pos(), "Has(x) is not sparse[x] < len(dense) && dense[sparse[x]] == x")
	// Add
	if r, f := an("Set.Add"); r != nil {
		ok := len(r.Terms) >= 2
		why := ""
		for _, t := range r.Terms {
			recv, x := r.Params[0], r.Params[1]
			old := eng.Mk("ld", "", d.Typ, fieldAddr(recv, denseName))
			fin := t.St.Load(fieldAddr(recv, denseName), d.Typ)
			if fin == old {
				in, _ := member(t.St, old, x)
				if !in || len(t.St.Events(false)) > 0 {
					ok, why = false, "a value can be left out although it is not in the set"
				}
				continue
			}
			if !(fin.Op == "append" && fin.Aux == "elems" && len(fin.Args) == 2 && fin.Args[0] == old && fin.Args[1] == x) {
				ok, why = false, "the elements become "+fin.String()
				continue
			}
			pos := false
			for _, e := range t.St.Events(false) {
				if e.Kind != "store" {
					continue
				}
				a := e.Args[0]
				if eng.Root(a).Op == "alloc" {
					continue
				}
				if a.Op == "elem" && stripConv(a.Args[1]) == x {
					v := e.Args[1]
					pos = v == eng.Len(old) || v.Op == "conv" && v.Args[0] == eng.Len(old)
					if !pos {
						why = "the position recorded is " + v.String()
					}
				} else if !(a.Op == "field" && a.Aux == denseName) {
					ok, why = false, "it also stores to "+a.String()
				}
			}
			if !pos {
				ok = false
				if why == "" {
					why = "no position is recorded for the new element"
				}
			}
			// added only when absent, so that Dense lists no value twice
			if _, out := member(t.St, old, x); !out {
				ok, why = false, "a value can be added twice"
			}
		}
		c.Check(ok, "set-model", "(*sparse.Set).Add", f.Pos(), "Add does not insert its argument exactly when it is absent: %s", why)
	}
	if r, f := an("Set.Reset"); r != nil {
		ok := len(r.Terms) > 0
		for _, t := range r.Terms {
			fin := t.St.Load(fieldAddr(r.Params[0], denseName), d.Typ)
			ok = ok && t.St.Implies(eng.EqInt(eng.Len(fin), eng.Int(0)))
		}
		c.Check(ok, "set-model", "(*sparse.Set).Reset", f.Pos(), "Reset leaves elements in the set")
	}
	if r, f := an("Set.Len"); r != nil {
		ok := len(r.Terms) > 0
		for _, t := range r.Terms {
			ok = ok && t.Rets[0] == eng.Len(eng.Mk("ld", "", d.Typ, fieldAddr(r.Params[0], denseName)))
		}
		c.Check(ok, "set-model", "(*sparse.Set).Len", f.Pos(), "Len does not return the number of elements")
	}
	for _, name := range []string{"NewSet", "Set.Init"} {
		r, f := an(name)
		if r == nil {
			continue
		}
		ok := len(r.Terms) == 1
		for _, t := range r.Terms {
			recv, mx := r.Params[0], r.Params[len(r.Params)-1]
			if name == "NewSet" {
				recv = t.Rets[0]
			}
			good := false
			pt, isP := recv.Typ.Underlying().(*types.Pointer)
			if !isP {
				ok = false
				continue
			}
			sst := pt.Elem().Underlying().(*types.Struct)
			for i := 0; i < sst.NumFields(); i++ {
				if sst.Field(i).Name() == denseName {
					continue
				}
				v := t.St.Load(eng.FieldAddr(recv, sst, i), sst.Field(i).Type())
				if eng.Len(v) == mx {
					good = true
				}
			}
			ok = ok && good
		}
		c.Check(ok, "set-model", "sparse."+name, f.Pos(), "%s does not make room for all values below its argument", name)
	}
	// room for all trigrams
	if f := c.Func("index", "Create"); f != nil {
		r := c.Analyze(f, &eng.Config{Opaque: func(*ssa.Function) bool { return true }, Interest: func(e *eng.Event) bool {
			return e.Name == setPkg+".NewSet" || e.Name == setM("Init")
		}})
		n := 0
		for _, e := range r.Events {
			n++
			a := e.Args[len(e.Args)-1]
			c.Check(a.Op == "int" && a.K >= 1<<24, "set-room", "index.Create", e.Instr.Pos(), "the set of trigrams has room for %s values only", a)
		}
		c.Check(n > 0, "set-room", "index.Create set", f.Pos(), "Create makes no set of trigrams")
	}
}

// sliceBase strips slicing from a slice term.
func sliceBase(t *eng.Term) *eng.Term {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

func stripConv(t *eng.Term) *eng.Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}
