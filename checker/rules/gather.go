package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
	"verif/checker/load"
)

// C11: the pending postings of a build are sorted, written out, merged and
// grouped into lists without losing, repeating or misplacing any.

func init() {
	register(&Rule{ID: "C11", Run: runGather})
}

type gatherRules struct {
	c *Ctx
	// writers of the heap that were analysed
	seen map[ssa.Instruction]bool
}

const ixHeap = "(*" + load.Module + "/index.postHeap)."

func runGather(c *Ctx) {
	g := &gatherRules{c: c, seen: map[ssa.Instruction]bool{}}
	g.packed()
	g.sorted()
	g.sift("siftDown", true)
	g.sift("siftUp", false)
	g.heapOps()
	g.chunks()
	g.grouped("flushPost")
	g.grouped("mergePost")
	g.once()
	g.closed()
	c.Min("entry", 3)
	c.Min("sort", 2)
	c.Min("heap", 9)
	c.Min("chunks", 4)
	c.Min("lists", 8)
	c.Min("closed", 2)
}

func (g *gatherRules) run(f *ssa.Function, opaque func(*ssa.Function) bool) *eng.Run {
	if f == nil {
		return nil
	}
	r := g.c.Analyze(f, &eng.Config{
		Opaque:    func(x *ssa.Function) bool { return x == f || opaque(x) },
		Stores:    func(*eng.Term) bool { return true },
		KeepFacts: true,
		Join:      2000,
		Entries:   16,
		MaxStates: 4000,
		Model: func(st *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
			// buffers and readers do not
			// touch what the caller looks at
			switch recvNamed(fn) {
			case "Buffer", "allPostReader":
				return e.Res, true
			}
			return e.Res, fn.Name() == "mmapFile"
		},
	})
	if r == nil {
		return nil
	}
	see := func(evs []*eng.Event) {
		for _, e := range evs {
			if e.Instr != nil {
				g.seen[e.Instr] = true
			}
		}
	}
	for _, t := range r.Terms {
		see(t.St.Events(false))
	}
	for _, l := range r.Loops {
		for _, st := range l.Backs {
			see(st.Events(false))
		}
	}
	return r
}

// entryBits reports whether the low bits of t are bits from.. of a posting
// entry, n of them, and the rest zero.
func entryBits(t *eng.Term, from, n int) (leaf *eng.Term, ok bool) {
	bits := bitsOf(nil, t, 64)
	for i, b := range bits {
		if i >= n {
			if !b.isConst(0) {
				return nil, false
			}
			continue
		}
		if b.leaf == nil || b.idx != from+i || leaf != nil && b.leaf != leaf {
			return nil, false
		}
		leaf = b.leaf
	}
	return leaf, leaf != nil
}

// packed: an entry orders by trigram, then by file, and gives both back.
func (g *gatherRules) packed() {
	c := g.c
	none := func(*ssa.Function) bool { return false }
	f := c.Func("index", "makePostEntry")
	if r := g.run(f, none); r != nil && len(r.Params) == 2 {
		tri, id := r.Params[0], r.Params[1]
		n := 0
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			n++
			bits := bitsOf(t.St, t.Rets[0], 64)
			ok := true
			for i, b := range bits {
				switch {
				case i < 40:
					ok = ok && b.leaf == id && b.idx == i
				default:
					ok = ok && b.leaf == tri && b.idx == i-40
				}
			}
			if !ok {
				// a sum of the two is as good when the number is small
				ok = t.Rets[0] == eng.Add(eng.Mk("shl", "", t.Rets[0].Typ, tri, eng.Int(40)), id)
			}
			if !ok {
				// the number is or'ed as it is, and has been shown to be less than 2^40
				ok = true
				small := false
				for _, fct := range t.St.Facts {
					fct.Walk(func(x *eng.Term) bool {
						if (x.Op == "shr" || x.Op == "quo") && x.Args[0] == id && x.Args[1] == eng.Int(40) && t.St.Implies(eng.Le(x, eng.Int(0))) {
							small = true
						}
						return true
					})
				}
				small = small || t.St.Implies(eng.Le(id, eng.Int(1<<40-1)))
				for i, b := range orLeaves(t.Rets[0], tri, id) {
					ok = ok && (i < 40 && b == 2 || i >= 40 && (b == 1 || b == 3 && small))
				}
			}
			c.Check(ok, "entry", fnLabel(f), f.Pos(), "an entry is %s, not the trigram in the upper 24 bits and the number in the lower 40", t.Rets[0])
		}
		c.Check(n > 0, "entry", fnLabel(f)+" made", f.Pos(), "it makes no entry")
	}
	for _, k := range []struct {
		name    string
		from, n int
	}{{"postEntry.trigram", 40, 24}, {"postEntry.fileid", 0, 40}} {
		f := c.Func("index", k.name)
		r := g.run(f, none)
		if r == nil || len(r.Params) != 1 {
			continue
		}
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			l, ok := entryBits(t.Rets[0], k.from, k.n)
			c.Check(ok && l == r.Params[0], "entry", fnLabel(f), f.Pos(), "it gives %s, not bits %d-%d of the entry", t.Rets[0], k.from, k.from+k.n-1)
		}
	}
}

// orLeaves tells, for each of the 64 bits of t, which of a (1) and b (2) at
// the places of an entry are or'ed into it; 4 is anything else.
func orLeaves(t, a, b *eng.Term) (out [64]int) {
	parts := []*eng.Term{t}
	if t.Op == "or" || t.Op == "xor" {
		parts = t.Args
	}
	if t.Op == "lin" && t.K == 0 {
		parts = t.Args
		for _, k := range t.Coef {
			if k != 1 {
				out[0] = 4
			}
		}
	}
	for _, p := range parts {
		for i, x := range bitsOf(nil, p, 64) {
			switch {
			case x.isConst(0):
			case x.leaf == a && x.idx == i-40:
				out[i] |= 1
			case x.leaf == b && x.idx == i:
				out[i] |= 2
			default:
				out[i] |= 4
			}
		}
	}
	return
}

// scans reports whether l visits all of 0..n-1 in order in idx.
func scans(l *eng.Loop, idx, n *eng.Term) bool {
	for _, q := range l.Phis {
		k, ok := eng.DiffConst(idx, q.Sym)
		if !ok || q.Init.Op != "int" || q.Init.K+k != 0 {
			continue
		}
		for _, b := range q.Backs {
			ok = ok && b == eng.AddK(q.Sym, 1)
		}
		for _, x := range l.Exits {
			ok = ok && (x.Implies(eng.False) || x.Implies(eng.Le(n, idx)))
		}
		if ok && len(l.Backs) > 0 {
			return true
		}
	}
	return false
}

// sorted: sortPost is a chain of stable counting sorts by ever higher bits of
// the trigram that ends in the slice it was given.
func (g *gatherRules) sorted() {
	c := g.c
	f := c.Func("index", "sortPost")
	r := g.run(f, func(*ssa.Function) bool { return false })
	if r == nil || len(r.Params) != 1 {
		return
	}
	cons := fnLabel(f)
	post := r.Params[0]
	type keyBits struct{ lo, n int }
	type counts struct {
		what string // zero, counts, offsets
		src  *eng.Term
		key  keyBits
	}
	arrLen := func(a *eng.Term) (int64, bool) {
		if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
			if u, ok := p.Elem().Underlying().(*types.Array); ok {
				return u.Len(), true
			}
		}
		if a.Op == "makeslice" && a.Args[0].Op == "int" {
			return a.Args[0].K, true
		}
		return 0, false
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind == "panic" || t.Kind == "fatal" {
			continue
		}
		n++
		tab := map[*eng.Term]counts{}
		// sortedTo[a]: a holds the entries of post, sorted by the bits from 40 up to this one
		done := map[*eng.Term]int{post: 40}
		bad := ""
		fail := func(format string, args ...any) {
			if bad == "" {
				bad = fmt.Sprintf(format, args...)
			}
		}
		// all entries, and nothing behind them
		all := func(l *eng.Loop, j *eng.Term) bool {
			return scans(l, j, eng.Len(post)) && l.Backs[0].Implies(eng.Lt(j, eng.Len(post)))
		}
		key := func(idx *eng.Term) (src, j *eng.Term, k keyBits, ok bool) {
			bits := bitsOf(nil, idx, 64)
			if bits[0].leaf == nil {
				return
			}
			w := 0
			for w < 64 && bits[w].leaf != nil {
				w++
			}
			leaf, ok := entryBits(idx, bits[0].idx, w)
			if !ok {
				return nil, nil, k, false
			}
			src, j, ok = elemOf(leaf)
			return src, j, keyBits{bits[0].idx, w}, ok
		}
		for _, h := range t.St.Path(false) {
			if h.Loop == nil {
				e := h.Ev
				switch {
				case e == nil:
				case e.Kind == "call" && e.Name == "clear":
					a := e.Args[0]
					if n, ok := arrLen(a); !ok && a.Op == "slice" {
						if n, ok = arrLen(a.Args[0]); ok && a.Args[1] == eng.Int(0) && a.Args[2] == eng.Int(n) {
							a = a.Args[0]
						}
					}
					tab[a] = counts{what: "zero"}
				case e.Kind == "call" && e.Name == "copy" || e.Kind == "copy":
					if k, ok := done[e.Args[1]]; ok && len(e.Args) >= 2 {
						done[e.Args[0]] = k
					} else {
						fail("%s is copied", e.Args[1])
					}
				case e.Kind == "call" && (e.Name == "slices.Sort" || strings.HasPrefix(e.Name, "slices.Sort[")) && e.Args[0] == post:
					done[post] = 64
				case e.Kind == "store":
					a := e.Args[0]
					if _, ok := arrLen(a); ok && e.Args[1].Op == "zeroarr" {
						tab[a] = counts{what: "zero"}
					} else if a.Op == "elem" && a.Args[0] == post {
						fail("%s is written", a)
					}
				}
				continue
			}
			l := h.Loop
			if len(l.Backs) != 1 {
				fail("a loop of the sort has several ways round")
				break
			}
			evs, _ := l.Backs[0].EventsSince(l)
			type upd struct{ addr, val *eng.Term }
			var ups []upd
			for _, e := range evs {
				if e.Kind == "store" {
					ups = append(ups, upd{e.Args[0], e.Args[1]})
				}
			}
			next := map[*eng.Term]counts{}
			var out []struct {
				src, dst *eng.Term
				key      keyBits
			}
			for _, u := range ups {
				if u.addr.Op != "elem" {
					fail("%s is written", u.addr)
					break
				}
				arr, idx := u.addr.Args[0], u.addr.Args[1]
				size, isTab := arrLen(arr)
				if !isTab {
					// scatter
					cell, at, ok := elemOf(u.val)
					_ = at
					tabAddr, ki, ok2 := elemOf(idx)
					if !ok || !ok2 {
						fail("%s is written to %s", u.val, u.addr)
						break
					}
					src, j, k, ok3 := key(ki)
					cs := tab[tabAddr]
					if !ok3 || src != cell || at != j || !all(l, j) || cs.what != "offsets" || cs.src != src || cs.key != k || arr == src {
						fail("entries of %s are moved to %s without it being known where they belong", cell, arr)
						break
					}
					// and the place has been taken
					took := false
					for _, v := range ups {
						took = took || v.addr == idx.Args[0] && v.val == eng.AddK(idx, 1)
					}
					if !took {
						fail("two entries are moved to the same place")
						break
					}
					out = append(out, struct {
						src, dst *eng.Term
						key      keyBits
					}{src, arr, k})
					next[tabAddr] = counts{}
					continue
				}
				if _, ok := next[arr]; ok {
					continue
				}
				src, j, k, isKey := key(idx)
				switch {
				case u.val == eng.Int(0) && scans(l, idx, eng.Int(size)):
					next[arr] = counts{what: "zero"}
				case isKey && isLoadPlus(u.val, u.addr) && all(l, j):
					if size < 1<<uint(k.n) {
						fail("a table of %d counts is indexed by %d bits", size, k.n)
					}
					if _, old := tab[arr]; !old && arr.Op == "alloc" || tab[arr].what == "zero" {
						next[arr] = counts{"counts", src, k}
					} else if cs := tab[arr]; cs.what == "offsets" && cs.src == src && cs.key == k {
						// the places being taken, judged with the entries
						moved := false
						for _, v := range ups {
							if ta, _, ok := elemOf(v.addr.Args[len(v.addr.Args)-1]); ok && v.addr.Op == "elem" && ta == arr {
								moved = true
							}
						}
						if !moved {
							fail("places are taken for no entry")
						}
						next[arr] = counts{}
					} else {
						fail("the counts in %s do not start at zero", arr)
					}
				default:
					// running totals
					q := l.Phi(u.val)
					ok := q != nil && q.Init == eng.Int(0) && scans(l, idx, eng.Int(size)) && tab[arr].what == "counts"
					if ok {
						d := eng.Sub(q.Backs[0], q.Sym)
						ld := d.Op == "ld" && d.Args[0] == u.addr || d.Op == "stridx" && d.Args[1] == idx && whole(r, d.Args[0], arr)
						ok = ld
					}
					if !ok {
						fail("%s is written to %s", u.val, u.addr)
						break
					}
					cs := tab[arr]
					cs.what = "offsets"
					next[arr] = cs
				}
			}
			for a, cs := range next {
				tab[a] = cs
			}
			for _, o := range out {
				from, ok := done[o.src]
				switch {
				case !ok:
					fail("%s is moved, which does not hold the entries", o.src)
				case o.key.lo > from:
					fail("the entries are sorted by bits %d and up, but they are sorted only by the bits below %d", o.key.lo, from)
				case o.key.lo+o.key.n < from || o.key.lo+o.key.n > 64:
					fail("the entries are sorted by bits %d-%d last", o.key.lo, o.key.lo+o.key.n-1)
				default:
					done[o.dst] = o.key.lo + o.key.n
					// it was all of them
					for a := range tab {
						if cs := tab[a]; cs.src == o.dst {
							tab[a] = counts{}
						}
					}
				}
			}
			if bad != "" {
				break
			}
		}
		if bad == "" && done[post] != 64 {
			fail("in the end the entries given are sorted by the bits below %d only", done[post])
		}
		c.Check(bad == "", "sort", cons, f.Pos(), "%s", bad)
		for a := range tab {
			c.Check(true, "sort", cons+" "+a.String(), f.Pos(), "")
		}
		for a, k := range done {
			if k > 40 {
				c.Check(true, "sort", cons+" into "+a.String(), f.Pos(), "")
			}
		}
	}
	c.Check(n > 0, "sort", cons+" ends", f.Pos(), "it never ends")
}

// whole reports whether t is the array at arr as a loop left it.
func whole(r *eng.Run, t, arr *eng.Term) bool {
	if q := r.PhiOf(t); q != nil {
		return q.Addr == arr
	}
	return t.Op == "ld" && t.Args[0] == arr
}

// isLoadPlus reports whether v is the value at addr plus one.
func isLoadPlus(v, addr *eng.Term) bool {
	for _, a := range eng.Atoms(v) {
		if a.Op == "ld" && a.Args[0] == addr && v == eng.AddK(a, 1) {
			return true
		}
	}
	return false
}

// chunkAt recognises the entry at the front of a chunk, h.ch[idx].e, or with
// e false the chunk h.ch[idx].
func chunkAt(t, h *eng.Term, e bool) (idx *eng.Term, ok bool) {
	if e {
		if t.Op != "ld" || t.Args[0].Op != "field" || t.Args[0].Aux != "e" {
			return nil, false
		}
		t = t.Args[0].Args[0]
	}
	b, i, ok := elemOf(t)
	if !ok || !isFieldOf(b, h, "ch") {
		return nil, false
	}
	return i, true
}

// sift: one step of moving a chunk keeps the heap in order but for the chunk
// moved, and it stops only where that is in order too.
func (g *gatherRules) sift(name string, down bool) {
	c := g.c
	f := c.Func("index", "postHeap."+name)
	r := g.run(f, func(*ssa.Function) bool { return false })
	if r == nil || len(r.Params) != 2 {
		return
	}
	cons := fnLabel(f)
	h := r.Params[0]
	// variables: the place, the number of chunks, and the entries there and
	// at the places it may move to
	const vI, vLen, vE, vA, vB = 0, 1, 2, 3, 4
	place := func(vi int64, v int) int64 {
		switch {
		case v == vE:
			return vi
		case v == vA && !down:
			if vi == 0 {
				return -1
			}
			return (vi - 1) / 2
		case v == vA:
			return 2*vi + 1
		case v == vB && down:
			return 2*vi + 2
		}
		return -1
	}
	maxI := int64(6)
	steps := 0
	judge := func(what string, st *eng.State, cur, to *eng.Term, evs []*eng.Event, also map[*eng.Term]*eng.Term) {
		steps++
		sp := &space{}
		// which variable an index means
		isPlace := func(idx *eng.Term) int {
			fi := sp.num(idx, ^uint64(0))
			if fi == nil || fi.sup&^(1<<vI) != 0 {
				return -1
			}
			for _, v := range []int{vE, vA, vB} {
				same := true
				for x := int64(0); x <= maxI && same; x++ {
					if v == vA && !down && x == 0 {
						continue // no parent
					}
					same = fi.eval([]int64{x, 0, 0, 0, 0}) == place(x, v)
				}
				if same && !(v == vB && !down) {
					return v
				}
			}
			return -1
		}
		sp.leaf = func(t *eng.Term) *leaf {
			switch {
			case t == cur:
				return variable(vI)
			case t.Op == "len" && isFieldOf(t.Args[0], h, "ch"):
				return variable(vLen)
			}
			if x, ok := also[t]; ok {
				if fx := sp.num(x, ^uint64(0)); fx != nil {
					return &leaf{fx.eval, func(uint64) uint { return fx.sup }}
				}
			}
			if idx, ok := chunkAt(t, h, true); ok {
				if v := isPlace(idx); v >= 0 {
					return variable(v)
				}
			}
			return nil
		}
		gs, _ := sp.guard(st.Facts) // a condition that is not understood may hold or not
		v := 0
		if to != nil {
			if v = isPlace(to); v < vA {
				c.Check(false, "heap", cons, f.Pos(), "the chunk at %s is moved to %s", cur, to)
				return
			}
		}
		// the stores of a move
		var a, b *eng.Term
		for _, e := range evs {
			if e.Kind != "store" || e.Args[0].Op != "elem" {
				if e.Kind == "store" {
					c.Check(false, "heap", cons, f.Pos(), "%s is written", e.Args[0])
					return
				}
				continue
			}
			if !isFieldOf(e.Args[0].Args[0], h, "ch") {
				c.Check(false, "heap", cons, f.Pos(), "%s is written", e.Args[0])
				return
			}
			wh, ok := chunkAt(e.Args[1], h, false)
			at := e.Args[0].Args[1]
			if !ok || to == nil {
				c.Check(false, "heap", cons, f.Pos(), "%s is written to place %s", e.Args[1], at)
				return
			}
			switch {
			case isPlace(at) == vE && isPlace(wh) == v:
				a = wh
			case isPlace(at) == v && isPlace(wh) == vE:
				b = wh
			default:
				c.Check(false, "heap", cons, f.Pos(), "the chunk at %s is written to place %s", wh, at)
				return
			}
		}
		if to != nil && (a == nil || b == nil) {
			c.Check(false, "heap", cons, f.Pos(), "the chunks at %s and %s do not change places", cur, to)
			return
		}
		for i := int64(0); i <= maxI; i++ {
			for n := i + 1; n <= 2*i+4; n++ {
				for e := int64(0); e < 27; e++ {
					env := []int64{i, n, e % 3, e / 3 % 3, e / 9}
					if !holds(gs, env) {
						continue
					}
					hasA, hasB := place(i, vA) >= 0 && place(i, vA) < n, place(i, vB) >= 0 && place(i, vB) < n
					below := func(x, y int64) bool { return x <= y }
					if !down {
						below = func(x, y int64) bool { return y <= x }
					}
					why := ""
					if to == nil {
						if hasA && !below(env[vE], env[vA]) || hasB && !below(env[vE], env[vB]) {
							why = "it stops"
						}
					} else {
						has, other, hasO := hasA, vB, hasB
						if v == vB {
							has, other, hasO = hasB, vA, hasA
						}
						switch {
						case !has:
							why = "it moves outside of the heap"
						case !below(env[v], env[vE]):
							why = "it moves"
						case hasO && !below(env[v], env[other]):
							why = "it moves to the wrong side"
						}
					}
					if why != "" {
						c.Check(false, "heap", cons, f.Pos(), "of %d chunks, %s at %d with entry %d, and %v next to it", n, why, i, env[vE], env[vA:])
						return
					}
				}
			}
		}
		c.Check(true, "heap", cons+" "+what, f.Pos(), "")
	}
	for _, l := range r.Loops {
		// the place, and what else goes along with it
		var q *eng.Phi
		for _, p := range l.Phis {
			if p.Init == r.Params[1] {
				q = p
			}
		}
		if !c.Check(q != nil, "heap", cons+" loop", f.Pos(), "a loop does not start at the place given") {
			return
		}
		also := map[*eng.Term]*eng.Term{}
		for _, p := range l.Phis {
			if p == q || p.Addr != nil {
				continue
			}
			x := eng.Subst(p.Init, map[*eng.Term]*eng.Term{q.Init: q.Sym})
			ok := true
			for i := range l.Backs {
				ok = ok && p.Backs[i] == eng.Subst(p.Init, map[*eng.Term]*eng.Term{q.Init: q.Backs[i]})
			}
			if ok {
				also[p.Sym] = x
			}
		}
		for i, st := range l.Backs {
			evs, _ := st.EventsSince(l)
			judge(fmt.Sprintf("move %d", i+1), st, q.Sym, q.Backs[i], evs, also)
		}
		for i, st := range l.Exits {
			evs, _ := st.EventsSince(l)
			judge(fmt.Sprintf("stop %d", i+1), st, q.Sym, nil, evs, also)
		}
	}
	for i, t := range r.Terms {
		if t.Kind != "return" || len(t.St.Passed()) > 0 {
			continue
		}
		var to *eng.Term
		evs := t.St.Events(false)
		for _, e := range evs {
			if e.Kind == "call" && e.Name == ixHeap+name && e.Args[0] == h {
				to = e.Args[1]
			}
		}
		judge(fmt.Sprintf("end %d", i+1), t.St, r.Params[1], to, evs, nil)
	}
	c.Check(steps >= 3, "heap", cons+" steps", f.Pos(), "%d steps were found", steps)
}

// heapOps: adding, taking the least entry and dropping a chunk.
func (g *gatherRules) heapOps() {
	c := g.c
	opaque := func(names ...string) func(*ssa.Function) bool {
		return func(f *ssa.Function) bool {
			if recvNamed(f) != "postHeap" {
				return false
			}
			for _, n := range names {
				if f.Name() == n {
					return true
				}
			}
			return false
		}
	}
	calls := func(evs []*eng.Event, name string) (out []*eng.Event) {
		for _, e := range evs {
			if e.Kind == "call" && e.Name == name {
				out = append(out, e)
			}
		}
		return
	}
	// the store to the heap's slice at the end of a path, and the elements written
	heapStores := func(evs []*eng.Event, h *eng.Term) (ch *eng.Term, elems [][2]*eng.Term) {
		for _, e := range evs {
			if e.Kind != "store" {
				continue
			}
			a := e.Args[0]
			if a.Op == "field" && a.Aux == "ch" && a.Args[0] == h {
				ch = e.Args[1]
			}
			if a.Op == "elem" && isFieldOf(a.Args[0], h, "ch") {
				elems = append(elems, [2]*eng.Term{a.Args[1], e.Args[1]})
			}
		}
		return
	}
	// add: with push and the rest inside
	f := c.Func("index", "postHeap.add")
	if r := g.run(f, opaque("siftUp", "siftDown")); r != nil && len(r.Params) == 2 {
		h, next := r.Params[0], r.Params[1]
		cons := fnLabel(f)
		for _, t := range r.Terms {
			if !c.Check(t.Kind == "return", "heap", cons+" ends", f.Pos(), "it can end by %s", t.Kind) {
				continue
			}
			evs := t.St.Events(false)
			var first *eng.Event
			n := 0
			for _, e := range evs {
				if e.Kind == "call" && e.Name == "dynamic" {
					if first = e; e.Args[0] == next {
						n++
					}
				}
			}
			if !c.Check(n == 1 && first.Args[0] == next, "heap", cons+" first entry", f.Pos(), "the first entry of a chunk is read %d times", n) {
				continue
			}
			e0, ok0 := eng.Extract(first.Res, 0, types.Typ[types.Uint64]), eng.Extract(first.Res, 1, types.Typ[types.Bool])
			ch, elems := heapStores(evs, h)
			if t.St.Implies(eng.Not(ok0)) {
				c.Check(ch == nil && len(elems) == 0, "heap", cons+" empty chunk", f.Pos(), "an empty chunk is added")
				continue
			}
			ok := ch != nil && isAppend(ch, "elems") && len(ch.Args) == 2 && isFieldOf(ch.Args[0], h, "ch")
			if !c.Check(ok, "heap", cons+" chunk", f.Pos(), "the heap becomes %s, not the chunk added to it", ch) {
				continue
			}
			chunk := ch.Args[1]
			var ce, cn *eng.Term
			for _, e := range evs {
				if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Args[0] == chunk {
					switch e.Args[0].Aux {
					case "e":
						ce = e.Args[1]
					case "next":
						cn = e.Args[1]
					}
				}
			}
			same := ce != nil && ce.Op == "extract" && ce.Args[0] == first.Res && ce.Aux == "0" || ce == e0
			c.Check(same && cn == next && chunk.Op == "alloc", "heap", cons+" chunk content", f.Pos(), "the chunk added holds %s and %s", ce, cn)
			up := calls(evs, ixHeap+"siftUp")
			okUp := len(up) == 1 && up[0].Args[0] == h && up[0].Args[1] == eng.Len(ch.Args[0]) || len(up) == 0 && t.St.Implies(eng.Le(eng.Len(ch.Args[0]), eng.Int(0)))
			c.Check(okUp, "heap", cons+" in order", f.Pos(), "the chunk added is not moved to where it belongs")
		}
	}
	// next, with pop inside
	f = c.Func("index", "postHeap.next")
	if r := g.run(f, opaque("siftUp", "siftDown")); r != nil && len(r.Params) == 1 {
		h := r.Params[0]
		cons := fnLabel(f)
		inv := c.constOf("index", "invalidTrigram")
		for _, t := range r.Terms {
			if t.Kind == "panic" {
				continue // the order has been broken
			}
			if !c.Check(t.Kind == "return" && len(t.Rets) == 1, "heap", cons+" ends", f.Pos(), "it can end by %s", t.Kind) {
				continue
			}
			evs := t.St.Events(false)
			ch, elems := heapStores(evs, h)
			var old *eng.Term // the slice at the start
			for _, x := range t.St.Facts {
				x.Walk(func(y *eng.Term) bool {
					if y.Op == "len" && isFieldOf(y.Args[0], h, "ch") && old == nil {
						old = y.Args[0]
					}
					return true
				})
			}
			if !c.Check(old != nil, "heap", cons+" empty", f.Pos(), "it does not look whether the heap is empty") {
				continue
			}
			var next *eng.Event
			n := 0
			for _, e := range evs {
				if e.Kind == "call" && e.Name == "dynamic" {
					next = e
					n++
				}
			}
			if t.St.Implies(eng.Le(eng.Len(old), eng.Int(0))) {
				ok := n == 0 && ch == nil && len(elems) == 0
				bits := bitsOf(t.St, t.Rets[0], 64)
				for i := 40; i < 64 && inv != nil; i++ {
					ok = ok && bits[i].isConst(int(inv.K>>uint(i-40)&1))
				}
				c.Check(ok, "heap", cons+" at the end", f.Pos(), "at the end it gives %s, which is not the entry of the end", t.Rets[0])
				continue
			}
			root := t.Rets[0]
			okRoot := root.Op == "ld" && root.Args[0].Op == "field" && root.Args[0].Aux == "e"
			if okRoot {
				i, ok := chunkAt(root.Args[0].Args[0], h, false)
				okRoot = ok && i == eng.Int(0)
			}
			if !c.Check(okRoot, "heap", cons+" least", f.Pos(), "it gives %s, not the entry at the root of the heap", root) {
				continue
			}
			chunk := root.Args[0].Args[0]
			if !c.Check(n == 1 && isFieldOf(next.Args[0], chunk, "next"), "heap", cons+" step", f.Pos(), "the chunk whose entry is given is not moved on once") {
				continue
			}
			down := calls(evs, ixHeap+"siftDown")
			root0 := len(down) == 1 && down[0].Args[0] == h && down[0].Args[1] == eng.Int(0)
			var wrote *eng.Term
			for _, e := range evs {
				if e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Aux == "e" && e.Args[0].Args[0] == chunk {
					wrote = e.Args[1]
				}
			}
			more := false
			for _, x := range t.St.Facts {
				if x.Op == "extract" && x.Aux == "1" && x.Args[0] == next.Res {
					more = true
				}
			}
			if more {
				ok := wrote != nil && wrote.Op == "extract" && wrote.Aux == "0" && wrote.Args[0] == next.Res
				c.Check(ok && ch == nil && len(elems) == 0, "heap", cons+" next entry", f.Pos(), "the chunk's next entry is not put in the place of the one given (%s)", wrote)
				c.Check(root0 || t.St.Implies(eng.Le(eng.Len(old), eng.Int(1))), "heap", cons+" next entry in order", f.Pos(), "the chunk is not moved to where it belongs")
				continue
			}
			nm1 := eng.AddK(eng.Len(old), -1)
			kept := elems[:0:0]
			for _, x := range elems {
				if x[0] != nm1 { // the place is given up
					kept = append(kept, x)
				}
			}
			elems = kept
			ok := ch != nil && ch.Op == "slice" && ch.Args[0] == old && ch.Args[1] == eng.Int(0) && ch.Args[2] == nm1
			if len(elems) == 1 {
				wh, k := chunkAt(elems[0][1], h, false)
				ok = ok && elems[0][0] == eng.Int(0) && k && wh == nm1
			} else {
				ok = ok && len(elems) == 0 && t.St.Implies(eng.Le(eng.Len(old), eng.Int(1)))
			}
			c.Check(ok, "heap", cons+" chunk over", f.Pos(), "a chunk that is over is not replaced by the last (the heap becomes %s)", ch)
			c.Check(root0 || t.St.Implies(eng.Le(eng.Len(old), eng.Int(2))), "heap", cons+" chunk over in order", f.Pos(), "the chunk put in the place of one that is over is not moved to where it belongs")
		}
	}
}

// chunks: what is in memory and in each part of the file becomes a chunk.
func (g *gatherRules) chunks() {
	c := g.c
	isAdd := func(f *ssa.Function) bool { return recvNamed(f) == "postHeap" && f.Name() == "add" }
	f := c.Func("index", "postHeap.addMem")
	if r := g.run(f, isAdd); r != nil && len(r.Params) == 2 {
		cons := fnLabel(f)
		h, x := r.Params[0], r.Params[1]
		for _, t := range r.Terms {
			var add *eng.Event
			n := 0
			for _, e := range t.St.Events(false) {
				if e.Kind == "call" && e.Name == ixHeap+"add" {
					add = e
					n++
				}
			}
			c.Check(t.Kind == "return" && n == 1 && add.Args[0] == h, "chunks", cons, f.Pos(), "the entries in memory are added %d times", n)
		}
		// the function that gives the entries
		ok := false
		why := "no function gives the entries"
		for _, l := range r.Loops {
			if !l.Callback {
				continue
			}
			for _, q := range l.Phis {
				if ok {
					break
				}
				why = ""
				for i, st := range l.Backs {
					evs, _ := st.EventsSince(l)
					var ret *eng.Event
					for _, e := range evs {
						if e.Kind == "return" {
							ret = e
						}
					}
					if ret == nil || len(ret.Args) != 2 {
						why = "it does not return"
						continue
					}
					_, isSlice := q.Sym.Typ.Underlying().(*types.Slice)
					var rest, at *eng.Term
					if isSlice {
						rest = eng.Len(q.Sym)
						at = eng.Int(0)
					} else {
						rest = eng.Sub(eng.Len(x), q.Sym)
						at = q.Sym
					}
					switch {
					case ret.Args[1] == eng.False:
						if !st.Implies(eng.Le(rest, eng.Int(0))) {
							why = "it ends before the entries"
						}
					case ret.Args[1] == eng.True:
						b, j, k := elemOf(ret.Args[0])
						if !k || j != at || isSlice && b != q.Sym {
							why = fmt.Sprintf("it gives %s", ret.Args[0])
							continue
						}
						nb := q.Backs[i]
						if isSlice {
							if nb.Op != "slice" || nb.Args[0] != q.Sym || nb.Args[1] != eng.Int(1) || nb.Args[2] != eng.Len(q.Sym) {
								why = fmt.Sprintf("after one entry %s are left", nb)
							}
						} else if nb != eng.AddK(q.Sym, 1) {
							why = fmt.Sprintf("after entry %s follows %s", q.Sym, nb)
						}
					default:
						why = fmt.Sprintf("it returns %v", ret.Args)
					}
				}
				// it starts at the beginning
				for _, t := range r.Terms {
					var from *eng.Term
					if q.Addr != nil && q.Addr.Op == "alloc" {
						if _, isSlice := q.Sym.Typ.Underlying().(*types.Slice); !isSlice {
							from = eng.Int(0)
						}
					}
					for _, e := range t.St.Events(false) {
						if e.Kind == "store" && e.Args[0] == q.Addr {
							from = e.Args[1]
						}
					}
					if why == "" && from != x && from != eng.Int(0) {
						why = fmt.Sprintf("it starts with %v", from)
					}
				}
				ok = why == ""
			}
		}
		c.Check(ok && why == "", "chunks", cons+" entries", f.Pos(), "%s", why)
	}
	f = c.Func("index", "postHeap.addFile")
	if r := g.run(f, func(x *ssa.Function) bool {
		return isAdd(x) || x.Name() == "mmapFile" || recvNamed(x) == "Buffer" || recvNamed(x) == "allPostReader"
	}); r != nil && len(r.Params) == 3 {
		cons := fnLabel(f)
		h, w, ends := r.Params[0], r.Params[1], r.Params[2]
		var main *eng.Loop
		for _, l := range r.Loops {
			if !l.Callback {
				if main != nil {
					c.Check(false, "chunks", cons+" loops", f.Pos(), "there are two loops")
				}
				main = l
			}
		}
		if !c.Check(main != nil && len(main.Backs) > 0, "chunks", cons+" parts", f.Pos(), "the parts of the file are not visited") {
			return
		}
		for i, st := range main.Backs {
			evs, _ := st.EventsSince(main)
			var init, add *eng.Event
			n, m := 0, 0
			for _, e := range evs {
				if e.Kind != "call" {
					continue
				}
				switch {
				case e.Name == ixHeap+"add":
					add = e
					m++
				case isMethod(e.Name, "allPostReader", "init"):
					init = e
					n++
				}
			}
			if !c.Check(n == 1 && m == 1 && add.Args[0] == h, "chunks", cons+" part", f.Pos(), "a part of the file is not added once") {
				continue
			}
			// the reader is the part's own
			rd := init.Args[0]
			own := rd.Op == "alloc" && add.Args[1].Op == "closure" && len(add.Args[1].Args) == 1 && add.Args[1].Args[0] == rd && strings.Contains(add.Args[1].Aux, "allPostReader).next")
			if own {
				own = madeIn(init.Instr, main)
			}
			c.Check(own, "chunks", cons+" reader", f.Pos(), "the chunk added is not that of a reader of its own for the part (%s)", add.Args[1])
			d := init.Args[2]
			ok := d.Op == "slice"
			if ok {
				_, j, k := elemOf(d.Args[2])
				b, _, _ := elemOf(d.Args[2])
				ok = k && b == ends && scans(main, j, eng.Len(ends))
				// from the end of the part before
				q := main.Phi(d.Args[1])
				if q != nil {
					ok = ok && q.Init == eng.Int(0) && q.Backs[i] == d.Args[2]
				} else if b0, j0, k0 := elemOf(d.Args[1]); k0 {
					ok = ok && b0 == ends && j0 == eng.AddK(j, -1)
				} else {
					ok = ok && d.Args[1] == eng.Int(0) && st.Implies(eng.Le(j, eng.Int(0)))
				}
				// of the whole file
				ok = ok && fileData(d.Args[0], w)
			}
			c.Check(ok, "chunks", cons+" extent", f.Pos(), "the part read is %s, not from the end of the one before to its own", d)
		}
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			passed := false
			flushed := false
			for _, hh := range t.St.Path(false) {
				if hh.Loop == main {
					passed = true
				}
				if hh.Ev != nil && hh.Ev.Kind == "call" && (isMethod(hh.Ev.Name, "Buffer", "Flush") || isMethod(hh.Ev.Name, "Buffer", "finish")) && hh.Ev.Args[0] == w && !passed {
					flushed = true
				}
			}
			c.Check(passed && flushed, "chunks", cons+" read", f.Pos(), "the file is not flushed and all of its parts added")
		}
	}
}

// madeIn reports whether the receiver of the call is made anew in each
// iteration.
func madeIn(call ssa.Instruction, l *eng.Loop) bool {
	ci, ok := call.(ssa.CallInstruction)
	if !ok || l.Header == nil || len(ci.Common().Args) == 0 {
		return false
	}
	a, ok := ci.Common().Args[0].(*ssa.Alloc)
	if !ok {
		return false
	}
	b := a.Block()
	if b.Parent() != l.Header.Parent() {
		return true // by a function that is called
	}
	if !l.Header.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(x *ssa.BasicBlock) bool
	back = func(x *ssa.BasicBlock) bool {
		for _, n := range x.Succs {
			if n == l.Header {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if back(n) {
					return true
				}
			}
		}
		return false
	}
	return back(b)
}

func fileData(t, w *eng.Term) bool {
	ok := false
	t.Walk(func(x *eng.Term) bool {
		if x.Op == "call" && strings.HasSuffix(strings.SplitN(x.Aux, "@", 2)[0], ".mmapFile") {
			ok = len(x.Args) == 1 && isFieldOf(x.Args[0], w, "file")
			return false
		}
		return true
	})
	return ok
}

// grouped: every entry is written once, in the list of its trigram.
func (g *gatherRules) grouped(name string) {
	c := g.c
	f := c.Func("index", "IndexWriter."+name)
	isOp := func(x *ssa.Function) bool {
		switch recvNamed(x) {
		case "postDataWriter", "Buffer", "postHeap":
			return true
		}
		return x.Name() == "sortPost"
	}
	r := g.run(f, isOp)
	if r == nil || len(r.Params) == 0 {
		return
	}
	cons := fnLabel(f)
	ix := r.Params[0]
	inv := c.constOf("index", "invalidTrigram")
	if inv == nil {
		return
	}
	fail := func(what, format string, args ...any) {
		c.Check(false, "lists", cons+" "+what, f.Pos(), format, args...)
	}
	heap := name == "mergePost"

	// what is known at a point of a path
	type at struct {
		cur  *eng.Term // heap: the entry that was taken last
		used bool      // and whether it has been written
		late *eng.Term // heap: the entry before, when it has not been written
		pos  *eng.Term // slice: where the next entry to be written is
		tri  *eng.Term // the trigram of the list that is open
	}
	isNext := func(e *eng.Event) bool { return e.Kind == "call" && e.Name == ixHeap+"next" }
	writer := func(e *eng.Event, m string) bool { return e.Kind == "call" && isMethod(e.Name, "postDataWriter", m) }
	// sameTri reports whether the entry's trigram is tri on the path
	sameTri := func(st *eng.State, e, tri *eng.Term) bool {
		if tri == nil {
			return false
		}
		if l, ok := entryBits(tri, 40, 24); ok && l == e {
			return true
		}
		return st.Implies(eng.EqInt(tri, triOf(e)))
	}
	ended := func(st *eng.State, e *eng.Term) bool {
		return st.Implies(eng.EqInt(triOf(e), inv))
	}
	// atEnd also follows the loops that were passed without an iteration
	var atEnd func(st *eng.State, e *eng.Term) bool
	atEnd = func(st *eng.State, e *eng.Term) bool {
		if e == nil || ended(st, e) {
			return e != nil
		}
		q := r.PhiOf(e)
		for _, l := range r.Loops {
			if q == nil || l.Phi(e) != q {
				continue
			}
			for _, b := range l.Backs {
				never := false
				for _, f := range b.Facts {
					inner := false
					for _, p := range l.Phis {
						inner = inner || f.Contains(p.Sym)
					}
					never = never || !inner && st.Implies(eng.Not(f))
				}
				if !never {
					return false
				}
			}
			return atEnd(st, q.Init)
		}
		return false
	}
	lists, numbers := 0, 0
	var walk func(st *eng.State, hist []*eng.Hist, p at) (at, string)
	// loop judges the iterations of a loop and gives what is known behind it
	loop := func(l *eng.Loop, p at) (at, string) {
		touches := false
		for _, st := range l.Backs {
			hist, _ := st.PathSince(l)
			for _, h := range hist {
				touches = touches || h.Loop != nil || isNext(h.Ev) || writer(h.Ev, "trigram") || writer(h.Ev, "fileid") || writer(h.Ev, "endTrigram")
			}
		}
		if !touches {
			return p, ""
		}
		// where the entries go on, at the head of an iteration
		head := p
		var q *eng.Phi
		k := int64(0)
		if heap {
			if p.used || p.late != nil {
				return p, fmt.Sprintf("a loop starts when %s has been taken", p.cur)
			}
			for _, x := range l.Phis {
				if x.Addr == nil && namedType(x.Sym.Typ) == "postEntry" && x.Init == p.cur {
					q = x
				}
			}
			if q != nil {
				head.cur = q.Sym
			}
		} else {
			for _, x := range l.Phis {
				d, ok := eng.DiffConst(p.pos, x.Init)
				if x.Addr != nil || !ok || x.Init.Typ == nil || !isNumeric(x.Sym.Typ) {
					continue
				}
				step := true
				for _, b := range x.Backs {
					if _, same := eng.DiffConst(b, x.Sym); same && b == x.Sym {
						step = false
					}
				}
				if step || q == nil {
					q, k = x, d
				}
			}
			if q != nil {
				head.pos = eng.AddK(q.Sym, k)
			}
		}
		why := ""
		try := func(tri *eng.Term, back func(i int) *eng.Term) bool {
			hd := head
			hd.tri = tri
			for i, st := range l.Backs {
				hist, _ := st.PathSince(l)
				end, w := walk(st, hist, hd)
				if w != "" {
					why = w
					return false
				}
				if heap {
					want := p.cur
					if q != nil {
						want = q.Backs[i]
					}
					if end.used || end.late != nil || end.cur != want {
						why = fmt.Sprintf("an iteration ends with %s, not with an entry that was taken and not yet written", want)
						return false
					}
				} else {
					want := p.pos
					if q != nil {
						want = eng.AddK(q.Backs[i], k)
					}
					if end.pos != want && !st.Implies(eng.EqInt(end.pos, want)) {
						why = fmt.Sprintf("the entries written end at %s, but those after %s are next", end.pos, want)
						return false
					}
				}
				b := back(i)
				same := end.tri == b
				if end.tri != nil && b != nil && !same {
					same = st.Implies(eng.EqInt(end.tri, b))
				}
				if end.tri == nil && b != nil {
					same = b == inv
				}
				if !same {
					why = fmt.Sprintf("the list of %v is taken for that of %v", end.tri, b)
					return false
				}
			}
			head = hd
			return true
		}
		// the variable that remembers the trigram of the list that is open
		first := ""
		for _, x := range l.Phis {
			if x.Addr != nil || !types.Identical(x.Sym.Typ.Underlying(), types.Typ[types.Uint32]) || x.Init != p.tri && !(p.tri == nil && x.Init == inv) {
				continue
			}
			if try(x.Sym, func(i int) *eng.Term { return x.Backs[i] }) {
				return head, ""
			}
			if first == "" {
				first = why
			}
		}
		if try(p.tri, func(int) *eng.Term { return p.tri }) {
			return head, ""
		}
		if first == "" {
			first = why
		}
		return p, first
	}
	walk = func(st *eng.State, hist []*eng.Hist, p at) (at, string) {
		for _, h := range hist {
			if h.Loop != nil {
				var why string
				if p, why = loop(h.Loop, p); why != "" {
					return p, why
				}
				continue
			}
			e := h.Ev
			switch {
			case e == nil:
			case isNext(e) && heap:
				if p.cur != nil && !p.used && !ended(st, p.cur) {
					if p.late != nil {
						return p, fmt.Sprintf("%s is not written", p.late)
					}
					p.late = p.cur
				}
				p.cur, p.used = e.Res, false
			case writer(e, "trigram"):
				p.tri = e.Args[1]
				lists++
			case writer(e, "endTrigram"):
				p.tri = nil
			case writer(e, "fileid"):
				leaf, k := entryBits(e.Args[1], 0, 40)
				if !k {
					return p, fmt.Sprintf("%s is written, not the number of an entry", e.Args[1])
				}
				switch {
				case !heap:
					b, j, k := elemOf(leaf)
					if !k || !isFieldOf(b, ix, "post") || j != p.pos && !st.Implies(eng.EqInt(j, p.pos)) {
						return p, fmt.Sprintf("%s is written, but entry %s is next", leaf, p.pos)
					}
					p.pos = eng.AddK(j, 1)
				case leaf == p.cur && !p.used:
					p.used = true
				case leaf == p.late:
					p.late = nil
				default:
					return p, fmt.Sprintf("the number of %s is written, not that of the entry taken last, once", leaf)
				}
				if !sameTri(st, leaf, p.tri) {
					return p, fmt.Sprintf("the number of %s is written in the list of %s", leaf, p.tri)
				}
				numbers++
			}
		}
		return p, ""
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		hist := t.St.Path(false)
		p, why := walk(t.St, hist, at{pos: eng.Int(0)})
		if !c.Check(why == "" && p.late == nil, "lists", cons+" entries", f.Pos(), "%s", why) {
			return
		}
		// sorted, and nothing else was done to the entries
		step := 0 // 1 sorted, 2 written or added
		var ends, post *eng.Term
		var endAt *eng.Event
		file, mem := false, false
		for _, h := range hist {
			if h.Loop != nil {
				if step == 1 && !heap {
					step = 2
				}
				continue
			}
			e := h.Ev
			switch {
			case e == nil:
			case e.Kind == "call" && e.Name == load.Module+"/index.sortPost":
				if step == 0 && isFieldOf(e.Args[0], ix, "post") {
					step = 1
				}
			case e.Kind == "call" && e.Name == ixHeap+"addMem":
				if step == 1 && isFieldOf(e.Args[1], ix, "post") && !mem {
					mem, step = true, 2
				} else {
					fail("sorted", "%s is added to the heap, perhaps not sorted or again", e.Args[1])
				}
			case e.Kind == "call" && e.Name == ixHeap+"addFile":
				if file || !isFieldOf(e.Args[1], ix, "postFile") || !isFieldOf(e.Args[2], ix, "postEnds") {
					fail("file", "%v is added to the heap", e.Args[1:])
				}
				file = true
			case isNext(e) && !mem:
				fail("complete", "entries are taken before all are in the heap")
			case e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Args[0] == ix && e.Args[0].Aux == "post":
				post = e.Args[1]
				if step != 2 {
					fail("kept", "the entries are replaced before they are written")
				}
			case e.Kind == "store" && e.Args[0].Op == "field" && e.Args[0].Args[0] == ix && e.Args[0].Aux == "postEnds":
				ends = e.Args[1]
			case e.Kind == "call" && isMethod(e.Name, "Buffer", "Offset"):
				endAt = e
			case writer(e, "endTrigram") || writer(e, "trigram") || writer(e, "fileid") || writer(e, "flush"):
				endAt = nil
			}
		}
		if heap {
			c.Check(mem, "lists", cons+" memory", f.Pos(), "the entries in memory are not merged")
			noFile := false
			for _, x := range t.St.Facts {
				x.Walk(func(y *eng.Term) bool {
					if y.Op == "len" && isFieldOf(y.Args[0], ix, "postEnds") && t.St.Implies(eng.Le(y, eng.Int(0))) {
						noFile = true
					}
					return true
				})
			}
			c.Check(file || noFile, "lists", cons+" file", f.Pos(), "the entries written out are not merged")
			c.Check(atEnd(t.St, p.cur), "lists", cons+" end", f.Pos(), "it ends before the entries")
			continue
		}
		all := false
		for _, x := range t.St.Facts {
			x.Walk(func(y *eng.Term) bool {
				if y.Op == "len" && isFieldOf(y.Args[0], ix, "post") && t.St.Implies(eng.Le(y, p.pos)) {
					all = true
				}
				return true
			})
		}
		c.Check(all, "lists", cons+" all", f.Pos(), "it ends when the entries before %s are written", p.pos)
		c.Check(step == 2, "lists", cons+" sorted", f.Pos(), "the entries are not sorted and written")
		c.Check(post != nil && (post.Op == "nil" || post.Op == "slice" && isFieldOf(post.Args[0], ix, "post") && post.Args[1] == post.Args[2]), "lists", cons+" emptied", f.Pos(), "after they are written the entries are %s", post)
		okEnd := ends != nil && endAt != nil && isAppend(ends, "elems") && len(ends.Args) == 2 && isFieldOf(ends.Args[0], ix, "postEnds") && ends.Args[1] == endAt.Res && isFieldOf(endAt.Args[0], ix, "postFile")
		c.Check(okEnd, "lists", cons+" end", f.Pos(), "the end of the part written is recorded as %s", ends)
	}
	c.Check(lists > 0, "lists", cons+" lists", f.Pos(), "no list is started")
	c.Check(numbers > 0, "lists", cons+" numbers", f.Pos(), "no number is written")
	c.Check(n > 0, "lists", cons+" returns", f.Pos(), "it never returns")
}

// triOf is the trigram of an entry, as its method computes it.
func triOf(e *eng.Term) *eng.Term {
	return eng.Conv(eng.Mk("shr", "", e.Typ, e, eng.Int(40)), e.Typ, types.Typ[types.Uint32])
}

func namedType(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// once: finishing an index merges the entries once.
func (g *gatherRules) once() {
	c := g.c
	f := c.Func("index", "IndexWriter.Flush")
	r := g.run(f, func(x *ssa.Function) bool {
		switch recvNamed(x) {
		case "IndexWriter":
			return x.Name() == "mergePost"
		case "Buffer", "PathWriter":
			return true
		}
		return x.Name() == "copyFile"
	})
	if r == nil {
		return
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		k := 0
		for _, e := range t.St.Events(false) {
			if e.Kind == "call" && isMethod(e.Name, "IndexWriter", "mergePost") {
				k++
			}
		}
		n++
		c.Check(k == 1, "lists", fnLabel(f), f.Pos(), "the entries are merged %d times", k)
	}
	c.Check(n > 0, "lists", fnLabel(f)+" ends", f.Pos(), "it never ends")
}

// closed: nothing else changes the heap.
func (g *gatherRules) closed() {
	c := g.c
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				name := ""
				if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
					name = namedType(p.Elem())
				}
				if name != "postHeap" && name != "postChunk" {
					continue
				}
				c.Check(g.seen[in] || !called(c, f), "closed", fnLabel(f), in.Pos(), "%s changes a %s", f, name)
			}
		}
	}
}

// called reports whether a function of the program calls f, or takes it as a
// value.
func called(c *Ctx, f *ssa.Function) bool {
	for _, g := range c.P.Funcs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						return true
					}
				}
			}
		}
	}
	return false
}
