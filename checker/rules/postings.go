package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C12",
		Explanation: "Inverse analysis of posting lists. Writer: on every path of the posting writer's methods the operations on its two files and its state are abstracted to tokens and compared with the format: place taken before the list, trigram, differences between successive numbers starting from -1, a final zero, and an index entry of the list's trigram, count and distance from the entry before it in the same block (or from the start, in a new one); blocks are written whole, with zeros after the last entry, and the last one at the end of the lists (typestate over the writer's users). " +
			"Reader: entries are decoded from the same tokens, distances are summed within a block (induction over the loop), the search ends without a result only at the end of the block, and the block is the last one that does not start after the trigram. Every reader of lists starts 3 bytes behind the place found with -1 as the number before the first. " +
			"Numbers: the mapping of differences that avoids zero is undone exactly by the reader (case by case over both functions' paths), and the bit code is undone exactly: writer and reader are interpreted over vectors of symbolic bits for every number of significant bits and every position in a byte.",
		Assumptions: []string{"encoding/binary's varints are inverse to each other; math/bits as documented", "the writer's buffered output is complete and in order and Offset is exact (decided by C06)", "the tables are where they are looked for (decided by C07)"},
		Run:         runPostings,
	})
}

type postRules struct {
	c                *Ctx
	pw, dw, dr       *types.Named
	pws, dws, drs    *types.Struct
	out, index       string // the writer's files
	base, last       string
	offset, count    string
	lastID, tri, blk string
	delta            string
	cap              int64 // of a block
	inits            map[string]bool
}

func runPostings(c *Ctx) {
	k := &postRules{c: c, inits: map[string]bool{}}
	k.pw, k.pws = c.namedIn("postDataWriter")
	k.dw, k.dws = c.namedIn("deltaWriter")
	k.dr, k.drs = c.namedIn("deltaReader")
	if k.pw == nil || k.dw == nil || k.dr == nil {
		return
	}
	c.encodings("WriteByte", "Write")
	k.primitives()
	if !k.start() {
		return
	}
	k.fileid()
	k.end()
	k.flush()
	k.usage()
	k.find()
	k.next()
	k.lists()
	k.temporary()
	k.differences()
	k.bitCode()
	c.Min("list-start", 4)
	c.Min("list-number", 2)
	c.Min("list-end", 6)
	c.Min("usage", 3)
	c.Min("finds", 4)
	c.Min("reads-list", 2)
	c.Min("temporary", 6)
	c.Min("encoding", 5)
	c.Min("differences", 4)
	c.Min("bit-code", 900)
}

func (k *postRules) opaque(f *ssa.Function) bool {
	switch recvNamed(f) {
	case "Buffer", "deltaWriter", "deltaReader":
		return true
	}
	return false
}

// keep gives the opaque methods their meaning: they change their receiver
// only, which none of the values compared here is part of.
func keep(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
	return e.Res, true
}

func (k *postRules) fld(s *eng.State, w *eng.Term, name string) *eng.Term {
	return final(s, w, k.pws, name)
}
func (k *postRules) old(w *eng.Term, name string) *eng.Term { return initial(w, k.pws, name) }

// pwMethods finds the posting writer's methods by what they do.
func (k *postRules) method(what string, is func(f *ssa.Function) bool) *ssa.Function {
	used := k.used()
	var out *ssa.Function
	for _, f := range k.c.P.Funcs() {
		if recvNamed(f) == "postDataWriter" && f.Parent() == nil && used[f.Name()] && is(f) {
			if out != nil {
				k.c.Viol("anchor", what, f.Pos(), "both %s and %s %s", out, f, what)
				return nil
			}
			out = f
		}
	}
	if out == nil {
		k.c.Viol("anchor", what, 0, "no method of the posting writer %s", what)
	}
	return out
}

// used gives the writer's methods that its users call.
func (k *postRules) used() map[string]bool {
	out := map[string]bool{}
	for _, f := range k.c.P.Funcs() {
		if recvNamed(f) == "postDataWriter" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && recvNamed(g) == "postDataWriter" {
						out[g.Name()] = true
					}
				}
			}
		}
	}
	return out
}

// start checks how the writer and a list are started.
func (k *postRules) start() bool {
	c := k.c
	f := c.Func("index", "postDataWriter.init")
	if f == nil || len(f.Params) != 3 {
		return false
	}
	ps := params(f)
	w := ps[0]
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "Buffer" }}, ps...)
	var atStart []string
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		for i := 0; i < k.pws.NumFields(); i++ {
			n := k.pws.Field(i).Name()
			v := k.fld(t.St, w, n)
			switch {
			case v == ps[1] && types.Identical(k.pws.Field(i).Type(), ps[1].Typ):
				k.out = n
			case v == ps[2] && types.Identical(k.pws.Field(i).Type(), ps[2].Typ):
				k.index = n
			case isCall(v, "(*"+idx+"Buffer).Offset") && v.Args[0] == ps[1]:
				atStart = append(atStart, n)
			case types.Identical(k.pws.Field(i).Type(), k.dw):
				k.delta = n
				da := eng.FieldAddr(w, k.pws, i)
				for j := 0; j < k.dws.NumFields(); j++ {
					dn := k.dws.Field(j).Name()
					dv := final(t.St, da, k.dws, dn)
					switch {
					case isPtrTo(k.dws.Field(j).Type(), c.bufType().named):
						c.Check(dv == ps[1], "list-start", "writer of differences", f.Pos(), "the differences are written to %s, not to the posting lists' file", dv)
					case isUnsignedInt(k.dws.Field(j).Type()):
						c.Check(dv == eng.Int(0), "list-start", "writer of differences bits", f.Pos(), "the writer of differences starts with bits left over: %s", dv)
					}
				}
			case v.Op == "slice" || v.Op == "makeslice":
				k.blk = n
				if b, ok := v.Typ.Underlying().(*types.Slice); ok && types.Identical(b.Elem(), types.Typ[types.Byte]) && v.Op == "slice" && v.Args[0].Op == "alloc" {
					if p, ok := v.Args[0].Typ.Underlying().(*types.Pointer); ok {
						if a, ok := p.Elem().Underlying().(*types.Array); ok {
							k.cap = a.Len()
						}
					}
				}
				c.Check(t.St.Implies(eng.EqInt(eng.Len(v), eng.Int(0))), "list-start", "block", f.Pos(), "the writer starts with a block that is not empty")
			}
		}
	}
	ok := k.out != "" && k.index != "" && len(atStart) == 2 && k.blk != "" && k.delta != "" && k.cap > 0
	if !c.Check(ok, "list-start", "writer", f.Pos(), "a new posting writer does not hold its two files, the current offset (as the base and as the last offset) and an empty block of fixed size") {
		return false
	}
	// a list
	g := k.method("starts a list", func(f *ssa.Function) bool {
		return does(f, "Buffer", "WriteTrigram") && !does(f, "deltaWriter", "Write")
	})
	if g == nil || len(g.Params) != 2 {
		return false
	}
	k.inits[g.Name()] = true
	ps = params(g)
	w = ps[0]
	r = c.Analyze(g, &eng.Config{Opaque: k.opaque, Model: keep, KeepFacts: true}, ps...)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		var off *eng.Event
		var toks []token0
		other := false
		for _, e := range t.St.Events(false) {
			b, ts, ok := tokenOf(e)
			if !ok {
				other = other || e.Kind == "call" && strings.Contains(e.Name, "deltaWriter")
				continue
			}
			if b == k.old(w, k.out) {
				if strings.HasSuffix(e.Name, ".Offset") && len(toks) == 0 {
					off = e
				}
				toks = append(toks, ts...)
			} else if len(ts) > 0 {
				other = true
			}
		}
		ok := len(toks) == 1 && toks[0].kind == "trigram" && toks[0].t == ps[1] && !other
		c.Check(ok, "list-start", fnLabel(g)+" trigram", g.Pos(), "starting a list writes %s, not its trigram", showTokens(toks))
		if !c.Check(off != nil, "list-start", fnLabel(g)+" offset", g.Pos(), "starting a list does not take the place of its trigram") {
			continue
		}
		k.offset, k.tri, k.lastID, k.count = "", "", "", ""
		for i := 0; i < k.pws.NumFields(); i++ {
			fn := k.pws.Field(i).Name()
			v, o := k.fld(t.St, w, fn), k.old(w, fn)
			switch {
			case v == off.Res:
				k.offset = fn
			case v == ps[1]:
				k.tri = fn
			case v == eng.Int(-1):
				k.lastID = fn
			case v == eng.Int(0):
				k.count = fn
			case v == o, v == eng.AddK(o, 1):
			case fn == k.delta: // its methods are opaque
			default:
				c.Viol("list-start", fnLabel(g)+" "+fn, g.Pos(), "starting a list changes %s to %s", fn, v)
			}
		}
		ok = k.offset != "" && k.tri != "" && k.lastID != "" && k.count != "" && k.offset != atStart[0] && k.offset != atStart[1]
		c.Check(ok, "list-start", fnLabel(g)+" state", g.Pos(), "starting a list does not note its place and trigram, a count of zero and -1 as the number before the first")
	}
	c.Check(n > 0, "list-start", fnLabel(g)+" paths", g.Pos(), "starting a list never succeeds")
	if k.offset == "" || k.tri == "" || k.lastID == "" || k.count == "" {
		return false
	}
	// The last offset is the one that the end of a list sets.
	for _, f := range c.P.Funcs() {
		if recvNamed(f) != "postDataWriter" || f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isPtrTo(fa.X.Type(), k.pw) {
						switch k.pws.Field(fa.Field).Name() {
						case atStart[0]:
							k.last, k.base = atStart[0], atStart[1]
						case atStart[1]:
							k.last, k.base = atStart[1], atStart[0]
						}
					}
				}
			}
		}
	}
	return c.Check(k.last != "", "list-start", "last offset", f.Pos(), "no method notes the place of the last list")
}

func isUnsignedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isDeltaCall(e *eng.Event, m string) bool {
	return e.Kind == "call" && isMethod(e.Name, "deltaWriter", m)
}

// fileid checks how a number is added to a list.
func (k *postRules) fileid() {
	c := k.c
	g := k.method("adds a number to a list", func(f *ssa.Function) bool {
		return len(f.Params) == 2 && types.Identical(f.Params[1].Type(), types.Typ[types.Int]) && does(f, "deltaWriter", "Write")
	})
	if g == nil {
		return
	}
	ps := params(g)
	w := ps[0]
	r := c.Analyze(g, &eng.Config{Opaque: k.opaque, Model: keep, KeepFacts: true}, ps...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n, ok := 0, true
		for _, e := range t.St.Events(false) {
			if isDeltaCall(e, "Write") {
				n++
				ok = ok && e.Args[0] == fieldAddr(w, k.delta) && e.Args[1] == eng.Sub(ps[1], k.old(w, k.lastID))
			} else if e.Kind == "call" && !strings.HasSuffix(e.Name, ".Offset") {
				ok = false
			}
		}
		c.Check(ok && n == 1, "list-number", fnLabel(g), g.Pos(), "adding a number to a list does not write just its difference from the one before")
		for i := 0; i < k.pws.NumFields(); i++ {
			fn := k.pws.Field(i).Name()
			want := k.old(w, fn)
			switch fn {
			case k.lastID:
				want = ps[1]
			case k.count:
				want = eng.AddK(want, 1)
			case k.delta:
				continue
			}
			if _, ok := k.pws.Field(i).Type().Underlying().(*types.Array); ok {
				continue
			}
			v := k.fld(t.St, w, fn)
			c.Check(v == want, "list-number", fnLabel(g)+" "+fn, g.Pos(), "adding a number to a list sets %s to %s, not %s", fn, v, want)
		}
	}
}

// A byteMem follows what a path puts into byte slices.
type byteMem struct {
	mem map[*eng.Term]map[*eng.Term]bytePiece // array, position
	app map[*eng.Term][]token0
}

type bytePiece struct {
	tok token0
	n   *eng.Term // width
}

func newByteMem() *byteMem {
	return &byteMem{map[*eng.Term]map[*eng.Term]bytePiece{}, map[*eng.Term][]token0{}}
}

func (s *byteMem) put(base, at *eng.Term, p bytePiece) {
	if s.mem[base] == nil {
		s.mem[base] = map[*eng.Term]bytePiece{}
	}
	s.mem[base][at] = p
}

func putTarget(t *eng.Term) (base, at *eng.Term) {
	if t.Op == "slice" {
		return t.Args[0], t.Args[1]
	}
	return t, eng.Int(0)
}

// step interprets an event.
func (s *byteMem) step(e *eng.Event) {
	switch e.Kind {
	case "store":
		if a := e.Args[0]; a.Op == "elem" {
			s.put(a.Args[0], a.Args[1], bytePiece{token0{"byte", e.Args[1], e}, eng.Int(1)})
		}
	case "append":
		s.app[e.Res] = s.content(e.Res)
	case "call":
		switch {
		case e.Name == "encoding/binary.PutUvarint":
			b, at := putTarget(e.Args[0])
			s.put(b, at, bytePiece{token0{"uvarint", plainInt(e.Args[1]), e}, e.Res})
		case strings.HasPrefix(e.Name, "(encoding/binary.bigEndian).PutUint"):
			n := len(e.Args)
			b, at := putTarget(e.Args[n-2])
			w := map[string]int64{"16": 2, "32": 4, "64": 8}[e.Name[len(e.Name)-2:]]
			s.put(b, at, bytePiece{token0{fmt.Sprintf("be%d", w), plainInt(e.Args[n-1]), e}, eng.Int(w)})
		}
	}
}

// plainInt drops conversions that keep a number.
func plainInt(t *eng.Term) *eng.Term {
	for t.Op == "conv" {
		if w, _ := eng.Width(t.Typ); w != 64 {
			break
		}
		t = t.Args[0]
	}
	return t
}

// content gives a byte slice's content, after leaf pieces of its own.
func (s *byteMem) content(t *eng.Term) []token0 {
	if x, ok := s.app[t]; ok {
		return x
	}
	whole := []token0{{"all", t, nil}}
	switch {
	case t.Op == "append" && t.Aux == "elems":
		out := append([]token0(nil), s.content(t.Args[0])...)
		for _, a := range t.Args[1:] {
			out = append(out, token0{"byte", a, nil})
		}
		return out
	case t.Op == "append":
		return append(append([]token0(nil), s.content(t.Args[0])...), s.content(t.Args[1])...)
	case isCall(t, "encoding/binary.AppendUvarint"):
		return append(append([]token0(nil), s.content(t.Args[0])...), token0{"uvarint", plainInt(t.Args[1]), nil})
	case t.Op == "slice":
		if t.Args[1] == t.Args[2] {
			return []token0{{"none", t.Args[0], nil}}
		}
		if t.Args[1] == eng.Int(0) {
			for b := t.Args[0]; b.Op == "append" || isCall(b, "encoding/binary.AppendUvarint"); b = b.Args[0] {
				if t.Args[2] == eng.Len(b) {
					return s.content(b)
				}
			}
		}
		m := s.mem[t.Args[0]]
		if m == nil {
			return whole
		}
		var out []token0
		for at := t.Args[1]; at != t.Args[2]; {
			p, ok := m[at]
			if !ok || len(out) > 64 {
				return whole
			}
			out = append(out, p.tok)
			at = eng.Add(at, p.n)
		}
		return out
	}
	return whole
}

// bytesOf joins bytes that are the three bytes of a trigram.
func trigramTokens(st *eng.State, ts []token0) (out []token0) {
	for i := 0; i < len(ts); i++ {
		if i+2 < len(ts) && ts[i].kind == "byte" && ts[i+1].kind == "byte" && ts[i+2].kind == "byte" {
			var leaf *eng.Term
			ok := true
			for j := 0; j < 3; j++ {
				fs, okf := fieldsOf(st, ts[i+j].t, 8)
				if !okf || len(fs) != 1 || fs[0].at != 0 || fs[0].width != 8 || fs[0].from != 16-8*j || leaf != nil && fs[0].leaf != leaf {
					ok = false
					break
				}
				leaf = fs[0].leaf
			}
			if ok {
				out = append(out, token0{"trigram", leaf, nil})
				i += 2
				continue
			}
		}
		out = append(out, ts[i])
	}
	return out
}

// end checks how a list is ended and entered in the index.
func (k *postRules) end() {
	c := k.c
	g := k.method("ends a list", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && does(f, "deltaWriter", "Write") && does(f, "deltaWriter", "Flush")
	})
	if g == nil {
		return
	}
	ps := params(g)
	w := ps[0]
	r := c.Analyze(g, &eng.Config{Opaque: k.opaque, Model: keep, KeepFacts: true, Stores: func(*eng.Term) bool { return true }}, ps...)
	cons := fnLabel(g)
	old := func(n string) *eng.Term { return k.old(w, n) }
	index, blk := old(k.index), old(k.blk)
	seen := map[string]bool{}
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		if len(r.Loops) > 0 {
			c.Check(false, "list-end", cons+" loop", g.Pos(), "the end of a list is written in a loop")
			return
		}
		s := newByteMem()
		step := 0 // of what ends the list's data
		var itoks []token0
		wrote, clears := 0, 0
		bad := ""
		for _, e := range st.Events(false) {
			s.step(e)
			switch {
			case isDeltaCall(e, "Write"):
				if step != 0 || e.Args[1] != eng.Int(0) {
					bad = "writes another difference"
				}
				step = 1
			case isDeltaCall(e, "Flush"):
				if step != 1 {
					bad = "ends the bits before the list"
				}
				step = 2
			case e.Kind == "call" && e.Name == "clear":
				b := e.Args[0]
				if b == blk || b.Op == "slice" && b.Args[0] == blk && b.Args[1] == eng.Int(0) && (b.Args[2] == eng.Len(blk) || b.Args[2] == eng.Mk("cap", "", types.Typ[types.Int], blk)) {
					clears++
					if wrote == 0 {
						bad = "clears the block before it is written"
					}
				} else {
					bad = "clears something else than the block"
				}
			default:
				b, ts, ok := tokenOf(e)
				if !ok || len(ts) == 0 {
					continue
				}
				if b != index {
					bad = fmt.Sprintf("writes %s to another file", showTokens(ts))
					continue
				}
				if len(ts) == 1 && ts[0].kind == "bytes" && k.whole(blk, e.Args[1]) {
					wrote++
					continue
				}
				itoks = append(itoks, ts...)
			}
		}
		c.Check(bad == "" && step == 2, "list-end", cons, g.Pos(), "the end of a list is not a zero difference, with its bits written out, followed by its index entry only: %s", bad)
		if st.Implies(eng.Eq(index, eng.Nil, index.Typ)) {
			seen["none"] = true
			c.Check(len(itoks) == 0 && wrote == 0, "list-end", cons+" no index", g.Pos(), "an index entry is written although there is no index")
			continue
		}
		rel := eng.Sub(old(k.offset), old(k.base))
		ver := (&layouts{c: c}).versionIn(st)
		if ver == 1 {
			seen["v1"] = true
			ok := len(itoks) == 3 && itoks[0].kind == "trigram" && itoks[0].t == old(k.tri) && itoks[1].kind == "uint" && itoks[1].t == old(k.count) && itoks[2].kind == "uint" && itoks[2].t == rel && wrote == 0
			c.Check(ok, "list-end", cons+" v1 entry", g.Pos(), "the index entry is %s, not the list's trigram, count and distance from the start", showTokens(itoks))
			continue
		}
		nb := k.fld(st, w, k.blk)
		con := s.content(nb)
		same := len(con) > 0 && con[0].kind == "all" && con[0].t == blk
		fresh := len(con) > 0 && con[0].kind == "none"
		what := " v2 same block"
		if fresh {
			what = " v2 new block"
		}
		if !c.Check((same || fresh) && len(itoks) == 0, "list-end", cons+what, g.Pos(), "after the end of a list the block is not the one before or an empty one with one more entry: %s", showTokens(con)) {
			continue
		}
		if fresh && st.Implies(eng.EqInt(eng.Len(blk), eng.Int(0))) && wrote == 0 {
			same, fresh = true, false // an empty block is reused
		}
		seen[what] = true
		ent := trigramTokens(st, con[1:])
		ok := len(ent) == 3 && ent[0].kind == "trigram" && ent[0].t == old(k.tri) && ent[1].kind == "uvarint" && ent[1].t == old(k.count) && ent[2].kind == "uvarint"
		if !c.Check(ok, "list-end", cons+what+" entry", g.Pos(), "the index entry is %s, not the list's trigram, count and distance", showTokens(ent)) {
			continue
		}
		d := ent[2].t
		if same {
			c.Check(d == eng.Sub(old(k.offset), old(k.last)), "list-end", cons+what+" distance", g.Pos(), "the entry of a list in the same block as the last is given as %s, not as its distance from the last", d)
			c.Check(wrote == 0 && clears == 0, "list-end", cons+what+" written", g.Pos(), "a block is written or cleared before it is full")
			// it fits
			size := eng.Sub(eng.Len(nb), eng.Int(0))
			c.Check(k.fits(st, blk, nb, size), "list-end", cons+what+" fits", g.Pos(), "an entry may be added to a block that has no room for it")
		} else {
			c.Check(d == rel, "list-end", cons+what+" distance", g.Pos(), "the first entry of a block is given as %s, not as its distance from the start", d)
			c.Check(wrote == 1, "list-end", cons+what+" written", g.Pos(), "a full block is not written exactly once before the next is started")
			clean := clears == 1 && con[0].t == blk || con[0].t.Op == "alloc" && strings.Contains(con[0].t.Aux, g.Name())
			c.Check(clean, "list-end", cons+what+" zero", g.Pos(), "a new block may keep bytes of the one before")
			c.Check(!st.Implies(eng.EqInt(eng.Len(blk), eng.Int(0))), "list-end", cons+what+" full", g.Pos(), "an empty block is written")
		}
		v := k.fld(st, w, k.last)
		c.Check(v == old(k.offset), "list-end", cons+what+" remembered", g.Pos(), "after the entry of a list the last place is %s, not the list's", v)
		for _, fn := range []string{k.base, k.out, k.index} {
			c.Check(k.fld(st, w, fn) == old(fn), "list-end", cons+what+" "+fn, g.Pos(), "the end of a list changes %s", fn)
		}
	}
	for _, s := range []string{"v1", "none", " v2 same block", " v2 new block"} {
		c.Check(seen[s], "list-end", cons+" "+s, g.Pos(), "the end of a list has no path for the case:%s", s)
	}
}

// whole reports whether t is the block up to its capacity.
func (k *postRules) whole(blk, t *eng.Term) bool {
	return t.Op == "slice" && t.Args[0] == blk && t.Args[1] == eng.Int(0) && (t.Args[2] == eng.Mk("cap", "", types.Typ[types.Int], blk) || t.Args[2] == eng.Int(k.cap))
}

// fits reports whether the state knows that what is appended to the block
// does not exceed its capacity.
func (k *postRules) fits(st *eng.State, blk, nb, size *eng.Term) bool {
	// length of the appended part
	add := eng.Int(0)
	t := nb
	for t != blk {
		switch {
		case t.Op == "append" && t.Aux == "elems":
			add = eng.AddK(add, int64(len(t.Args)-1))
			t = t.Args[0]
		case t.Op == "append":
			add = eng.Add(add, eng.Len(t.Args[1]))
			t = t.Args[0]
		case t.Op == "slice" && t.Args[0] == blk && t.Args[1] == eng.Int(0) && t.Args[2] == eng.Len(blk):
			t = blk
		case t.Op == "slice" && t.Args[1] == t.Args[2] && st.Implies(eng.EqInt(eng.Len(blk), eng.Int(0))):
			return true
		default:
			return false
		}
	}
	n := eng.Add(eng.Len(blk), add)
	return st.Implies(eng.Le(n, eng.Mk("cap", "", types.Typ[types.Int], blk))) || st.Implies(eng.Le(n, eng.Int(k.cap)))
}

// flush checks that the last block is written.
func (k *postRules) flush() {
	c := k.c
	g := k.method("writes the last block", func(f *ssa.Function) bool {
		return len(f.Params) == 1 && does(f, "Buffer", "Write") && !does(f, "deltaWriter", "Write")
	})
	if g == nil {
		return
	}
	ps := params(g)
	w := ps[0]
	r := c.Analyze(g, &eng.Config{Opaque: k.opaque, Model: keep, KeepFacts: true}, ps...)
	index, blk := k.old(w, k.index), k.old(w, k.blk)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n, other := 0, 0
		for _, e := range t.St.Events(false) {
			b, ts, ok := tokenOf(e)
			if !ok || len(ts) == 0 {
				continue
			}
			if b == index && len(ts) == 1 && k.whole(blk, e.Args[1]) {
				n++
			} else {
				other++
			}
		}
		none := t.St.Implies(eng.Eq(index, eng.Nil, index.Typ)) || t.St.Implies(eng.EqInt(eng.Len(blk), eng.Int(0)))
		some := t.St.Implies(eng.Not(eng.EqInt(eng.Len(blk), eng.Int(0))))
		c.Check(other == 0 && (n == 0 && none || n == 1 && some), "flush", fnLabel(g), g.Pos(), "the last block of the posting index is not written exactly once if it has entries")
	}
}

// usage checks the order in which the writer's methods are called.
func (k *postRules) usage() {
	c := k.c
	role := map[string]string{}
	for _, f := range c.P.Funcs() {
		if recvNamed(f) != "postDataWriter" || f.Parent() != nil || !k.used()[f.Name()] {
			continue
		}
		switch {
		case f.Name() == "init":
			role[f.Name()] = "init"
		case does(f, "Buffer", "WriteTrigram") && !does(f, "deltaWriter", "Write"):
			role[f.Name()] = "start"
		case does(f, "deltaWriter", "Flush"):
			role[f.Name()] = "end"
		case does(f, "deltaWriter", "Write"):
			role[f.Name()] = "number"
		case does(f, "Buffer", "Write"):
			role[f.Name()] = "flush"
		}
	}
	isRole := func(e *eng.Event) string {
		if e.Kind != "call" {
			return ""
		}
		n := e.Name
		if i := strings.LastIndex(n, "."); i >= 0 && isMethod(n, "postDataWriter", n[i+1:]) {
			return role[n[i+1:]]
		}
		return ""
	}
	// entries never have the invalid trigram, which is not valid UTF-8
	isTri := func(g *ssa.Function) bool {
		return recvNamed(g) == "postEntry" && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), types.Typ[types.Uint32])
	}
	inv := c.constOf("index", "invalidTrigram")
	n := 0
	for _, f := range c.P.Funcs() {
		if f.Parent() != nil || recvNamed(f) == "postDataWriter" || !callsMethod(f, "postDataWriter", keysOf(role, "init")...) {
			continue
		}
		n++
		cons := fnLabel(f)
		hasIndex := false
		r := c.Analyze(f, &eng.Config{
			Opaque: func(g *ssa.Function) bool {
				return storageOpaque(g) || recvNamed(g) == "postDataWriter" || recvNamed(g) == "Buffer" || isTri(g)
			},
			Model: func(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
				if isTri(fn) && inv != nil {
					if e.Args[0].Op != "ld" {
						return e.Res, true // perhaps the end
					}
					s.Assume(eng.Not(eng.EqInt(e.Res, inv)))
					return e.Res, true
				}
				// the writer does not know its users
				return e.Res, recvNamed(fn) == "Buffer" || recvNamed(fn) == "PathReader" || recvNamed(fn) == "PathWriter"
			},
			Interest:  func(e *eng.Event) bool { return isRole(e) != "" },
			Join:      8,
			KeepFacts: true,
			// "" nothing, c closed, o open, f flushed
			Auto: func(st *eng.State, e *eng.Event) string {
				a := st.Auto
				if strings.HasPrefix(a, "x:") {
					return a
				}
				switch isRole(e) {
				case "init":
					if a == "" || a == "f" || a == "c" && !hasIndex {
						return "c"
					}
					return "x:starts another writer before the lists of one are complete"
				case "start":
					if a == "c" {
						return "o"
					}
					return "x:starts a list before the last one is ended"
				case "number":
					if a == "o" {
						return "o"
					}
					return "x:adds a number outside of a list"
				case "end":
					if a == "o" {
						return "c"
					}
					return "x:ends a list that was not started"
				case "flush":
					if a == "c" {
						return "f"
					}
					return "x:writes the last block before the last list is ended"
				}
				return a
			},
		}, params(f)...)
		inits := 0
		var wr *eng.Term
		for _, e := range r.Events {
			switch isRole(e) {
			case "init":
				inits++
				wr = e.Args[0]
				if len(e.Args) == 3 && e.Args[2] != eng.Nil {
					hasIndex = true
				}
			}
		}
		c.Check(inits >= 1, "usage", cons+" started", f.Pos(), "%s does not start its posting writer", f)
		ends := 0
		for _, t := range r.Terms {
			if t.Kind == "return" {
				ends++
			}
			if strings.HasPrefix(t.St.Auto, "x:") {
				c.Viol("usage", cons, f.Pos(), "%s %s", f, t.St.Auto[2:])
				continue
			}
			if t.Kind != "return" {
				continue
			}
			empty := false
			if wr != nil && t.St.Auto == "c" {
				blk := k.fld(t.St, wr, k.blk)
				empty = t.St.Implies(eng.EqInt(eng.Len(blk), eng.Int(0)))
			}
			ok := t.St.Auto == "f" || t.St.Auto == "c" && (!hasIndex || empty)
			c.Check(ok, "usage", cons, f.Pos(), "%s ends without having written all of the posting index, or within a list", f)
		}
		c.Check(ends > 0, "usage", cons+" ends", f.Pos(), "%s never ends", f)
	}
	c.Check(n >= 3, "usage", "writers", 0, "found %d users of the posting writer", n)
}

func keysOf(m map[string]string, v string) (out []string) {
	for _, k := range sortedKeys(m) {
		if m[k] == v {
			out = append(out, k)
		}
	}
	return out
}

// trigramAt recognises a trigram read from three bytes in order.
func trigramAt(st *eng.State, t *eng.Term) (data, at *eng.Term, ok bool) {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op != "or" && t.Op != "lin" {
		return
	}
	bits := bitsOf(nil, t, 32)
	for i := 0; i < 32; i++ {
		if i >= 24 {
			if !bits[i].isConst(0) {
				return nil, nil, false
			}
			continue
		}
		x := bits[i]
		if x.leaf == nil || x.idx != i%8 || x.leaf.Op != "ld" || x.leaf.Args[0].Op != "elem" {
			return nil, nil, false
		}
		d, a := x.leaf.Args[0].Args[0], x.leaf.Args[0].Args[1]
		if d.Op == "slice" {
			d, a = d.Args[0], eng.Add(a, d.Args[1])
		}
		a = eng.AddK(a, -int64(2-i/8))
		if data != nil && (d != data || a != at) {
			return nil, nil, false
		}
		data, at = d, a
	}
	return data, at, true
}

// trigramsIn finds the trigrams read from data that the facts are about.
func trigramsIn(st *eng.State, facts []*eng.Term, data *eng.Term) (out []*eng.Term) {
	seen := map[*eng.Term]bool{}
	for _, f := range facts {
		f.Walk(func(x *eng.Term) bool {
			if !seen[x] && (x.Op == "or" || x.Op == "lin") {
				seen[x] = true
				if d, at, ok := trigramAt(st, x); ok && d == data && at == eng.Int(0) {
					out = append(out, x)
				}
			}
			return true
		})
	}
	return out
}

// uvarintsAt recognises the numbers read one after the other behind the
// trigram of an entry at the start of b.
func uvarintsAt(b *eng.Term, evs []*eng.Event) (vals, widths []*eng.Term, end *eng.Term) {
	off := eng.Int(0)
	base := b
	if b.Op == "slice" {
		base, off = b.Args[0], b.Args[1]
	}
	pos := eng.Int(3)
	for _, e := range evs {
		if e.Kind != "call" || e.Name != "encoding/binary.Uvarint" {
			continue
		}
		a := e.Args[0]
		if a.Op == "slice" && a.Args[0] == base && a.Args[1] == eng.Add(off, pos) {
			vals = append(vals, eng.Extract(e.Res, 0, types.Typ[types.Uint64]))
			widths = append(widths, eng.Extract(e.Res, 1, types.Typ[types.Int]))
			pos = eng.Add(pos, widths[len(widths)-1])
		}
	}
	return vals, widths, pos
}

// someSet reports whether the state knows that the bytes of b's first
// trigram, or'ed, are not zero.
func someSet(st *eng.State, b *eng.Term) bool {
	for _, f := range st.Facts {
		if f.Op != "not" || f.Args[0].Op != "eq0" || f.Args[0].Args[0].Op != "or" {
			continue
		}
		ok := true
		for _, x := range f.Args[0].Args[0].Args {
			ok = ok && x.Op == "ld" && x.Args[0].Op == "elem" && x.Args[0].Args[0] == b && x.Args[0].Args[1].Op == "int" && x.Args[0].Args[1].K < 3
		}
		if ok {
			return true
		}
	}
	return false
}

// cutFront reports whether t is b without its first n bytes.
func cutFront(t, b, n *eng.Term) bool {
	if t == eng.Slice(b, n, eng.Len(b), nil, b.Typ) {
		return true
	}
	if t.Op != "slice" {
		return false
	}
	base, off, end := b, eng.Int(0), eng.Len(b)
	if b.Op == "slice" {
		base, off, end = b.Args[0], b.Args[1], b.Args[2]
	}
	return t.Args[0] == base && t.Args[1] == eng.Add(off, n) && t.Args[2] == end
}

// searchBelow finds the path's search and what its predicate compares.
func (k *postRules) searchOf(r *eng.Run, st *eng.State) (n, data, stride, cond *eng.Term, res *eng.Term, strict bool, trig *eng.Term, ok bool) {
	for _, it := range pathItems(st) {
		if it.ev == nil || it.ev.Kind != "call" || it.ev.Name != "sort.Search" {
			continue
		}
		res, n = it.ev.Res, it.ev.Args[0]
	}
	if res == nil {
		return
	}
	for _, it := range pathItems(st) {
		if it.loop == nil || !it.loop.Callback {
			continue
		}
		l := it.loop
		if len(l.Params) != 1 {
			continue
		}
		for _, b := range l.Backs {
			for _, e := range b.Events(true) {
				if e.Kind != "return" || len(e.Args) != 1 {
					continue
				}
				c := e.Args[0]
				neg := false
				if c.Op == "not" {
					c, neg = c.Args[0], true
				}
				if c.Op != "le" {
					return
				}
				cond = e.Args[0]
				for _, a := range eng.Atoms(c.Args[0]) {
					d, at, okt := trigramAt(b, a)
					if !okt {
						continue
					}
					for _, x := range eng.Atoms(c.Args[0]) {
						if x == a {
							continue
						}
						if cond == eng.Lt(x, a) || neg && eng.Not(c) == eng.Lt(x, a) {
							strict, trig = true, x
						} else if cond == eng.Le(x, a) || neg && eng.Not(c) == eng.Le(x, a) {
							strict, trig = false, x
						} else {
							continue
						}
						if at.Op == "lin" && len(at.Args) == 1 && at.K == 0 && at.Args[0] == l.Params[0] {
							data, stride, ok = d, eng.Int(at.Coef[0]), true
						}
					}
				}
			}
		}
	}
	return
}

// find checks the search for a list in the index.
func (k *postRules) find() {
	c := k.c
	f := c.Func("index", "Index.findList")
	if f == nil || len(f.Params) != 2 {
		return
	}
	ixn, _ := c.namedIn("Index")
	ps := params(f)
	trig := ps[1]
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "Index" && hasResultType(g, "[]byte") }, KeepFacts: true}, ps...)
	checked := map[*eng.Loop]bool{}
	n2 := 0
	k.corruptOnly(r, "findList", f)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		ver := versionOf(st, ixn)
		if !c.Check(ver != 0, "finds", "version", f.Pos(), "a posting list is looked up without regard to the version") {
			continue
		}
		num, data, stride, _, res, strict, x, ok := k.searchOf(r, st)
		cons := fmt.Sprintf("findList v%d", ver)
		if !c.Check(ok && x == trig, "finds", cons+" search", f.Pos(), "the posting index is not searched for the trigram by the first trigram of its parts") {
			continue
		}
		isField := num.Op == "ld" && indexField(num, ixn) != ""
		c.Check(isSliceCall(data) && data.Args[2] == eng.MulK(num, stride.K) || isField, "finds", cons+" extent", f.Pos(), "the search does not look at all of the posting index: %s parts of %s", num, data)
		absent := t.Rets[0] == eng.Int(0)
		if ver == 1 {
			k.foundV1(f, t, num, data, stride, res, strict, absent)
			continue
		}
		n2++
		c.Check(strict && stride == eng.Int(k.cap), "finds", cons+" block", f.Pos(), "the search is not for the first block of %d bytes whose first trigram is greater", k.cap)
		// the loop over the block's entries
		var l *eng.Loop
		var pb, po *eng.Phi
		for _, it := range pathItems(st) {
			if it.loop == nil || it.loop.Callback {
				continue
			}
			for _, p := range it.loop.Phis {
				if s, ok := p.Sym.Typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
					l, pb = it.loop, p
				}
			}
		}
		if l == nil {
			none := absent && (st.Implies(eng.Le(res, eng.Int(0))) || st.Implies(eng.Le(num, eng.Int(0))))
			c.Check(none, "finds", cons+" none", f.Pos(), "the search gives up although a block may hold the trigram")
			continue
		}
		// offset: the other number that changes
		for _, p := range l.Phis {
			if p != pb && p.Sym.Typ != nil && types.Identical(p.Sym.Typ, types.Typ[types.Int]) && p.Init == eng.Int(0) {
				po = p
			}
		}
		if !c.Check(po != nil, "finds", cons+" distances", f.Pos(), "the distances within a block are not summed up from zero") {
			continue
		}
		if !checked[l] {
			checked[l] = true
			want := eng.Slice(data, eng.AddK(eng.MulK(res, k.cap), -k.cap), eng.MulK(res, k.cap), nil, pb.Sym.Typ)
			c.Check(pb.Init == want, "finds", cons+" which block", f.Pos(), "the block looked at is %s, not the last one that does not start after the trigram", pb.Init)
			c.Check(len(l.Backs) > 0, "finds", cons+" next", f.Pos(), "only the first entry of a block is looked at")
			for i, b := range l.Backs {
				if corrupted(b) {
					continue
				}
				vals, _, end := uvarintsAt(pb.Sym, sinceLoop(b, l))
				ok := len(vals) == 2 && cutFront(pb.Backs[i], pb.Sym, end)
				c.Check(ok, "finds", cons+" next", f.Pos(), "the next entry is not looked for behind the trigram and the two numbers of the last")
				if len(vals) == 2 {
					d := eng.Sub(po.Backs[i], po.Sym)
					c.Check(plainInt(d) == vals[1], "finds", cons+" distances", f.Pos(), "passing over an entry adds %s to the place, not its distance", d)
				}
				miss := false
				for _, x := range trigramsIn(b, b.Facts, pb.Sym) {
					miss = miss || b.Implies(eng.Not(eng.EqInt(x, trig)))
				}
				c.Check(miss, "finds", cons+" passes over", f.Pos(), "an entry may be passed over although it is the trigram's")
			}
		}
		if corrupted(st) {
			continue
		}
		if absent {
			end := st.Implies(eng.Lt(eng.Len(pb.Sym), eng.Int(5))) // no room for an entry
			for _, x := range trigramsIn(st, st.Facts, pb.Sym) {
				end = end || st.Implies(eng.EqInt(x, eng.Int(0))) || st.Implies(eng.Lt(trig, x))
			}
			zero := 0
			for i := int64(0); i < 3; i++ {
				e := eng.Mk("ld", "", types.Typ[types.Uint8], eng.Elem(pb.Sym, eng.Int(i), types.NewPointer(types.Typ[types.Uint8])))
				if st.Implies(eng.EqInt(e, eng.Int(0))) {
					zero++
				}
			}
			end = end || zero == 3
			c.Check(end, "finds", cons+" gives up", f.Pos(), "the search gives up before the end of the block (under %v)", lastFacts(st, 3))
			continue
		}
		vals, _, _ := uvarintsAt(pb.Sym, lastEvents(st))
		hit := false
		for _, x := range trigramsIn(st, st.Facts, pb.Sym) {
			hit = hit || st.Implies(eng.EqInt(x, trig))
		}
		c.Check(hit, "finds", cons+" hit", f.Pos(), "an entry is taken although it may not be the trigram's")
		ok = len(vals) == 2 && plainInt(t.Rets[0]) == vals[0] && plainInt(eng.Sub(t.Rets[1], po.Sym)) == vals[1]
		c.Check(ok, "finds", cons+" entry", f.Pos(), "the count and place found are %s and %s, not the entry's", t.Rets[0], t.Rets[1])
	}
	c.Check(n2 >= 3, "finds", "findList v2 paths", f.Pos(), "found %d paths of the search", n2)
}

// corrupted reports whether a path has found the index corrupt and only goes
// on because the interpreter cannot exclude it.
func corrupted(st *eng.State) bool {
	for _, e := range st.Events(false) {
		if e.Kind == "call" && isMethod(e.Name, "Index", "corrupt") {
			return true
		}
	}
	return false
}

// corruptOnly checks that the index is reported as corrupt only when a number
// cannot be read.
func (k *postRules) corruptOnly(r *eng.Run, cons string, f *ssa.Function) {
	ixn, _ := k.c.namedIn("Index")
	for _, t := range r.Terms {
		if t.Kind == "return" {
			continue
		}
		st := t.St
		ok := false
		for _, e := range st.Events(false) {
			if e.Kind == "call" && e.Name == "encoding/binary.Uvarint" {
				ok = ok || st.Implies(eng.Le(eng.Extract(e.Res, 1, types.Typ[types.Int]), eng.Int(0)))
			}
		}
		for _, fc := range st.Facts {
			// numbers that are too large
			if fc.Op != "le" {
				continue
			}
			if as := eng.Atoms(fc.Args[0]); len(as) == 1 {
				_, _, _, isNum := number(st, as[0])
				ok = ok || isNum && st.Implies(eng.Lt(as[0], eng.Int(0)))
			}
		}
		ok = ok || noVersion(st, ixn)
		k.c.Check(ok, "finds", cons+" corrupt", f.Pos(), "the index is reported as corrupt although its entry can be read (under %v)", lastFacts(st, 4))
	}
}

// noVersion reports whether the index has neither version.
func noVersion(st *eng.State, ixn *types.Named) bool {
	out := false
	for _, f := range st.Facts {
		f.Walk(func(x *eng.Term) bool {
			if x.Op == "ld" && indexField(x, ixn) == "version" {
				out = out || st.Decide(eng.EqInt(x, eng.Int(1))) == eng.False && st.Decide(eng.EqInt(x, eng.Int(2))) == eng.False
			}
			return true
		})
	}
	return out
}

// lastEvents are the events of a path, those of the last iteration of the
// loops it left included.
func lastEvents(st *eng.State) []*eng.Event { return st.Events(false) }

func (k *postRules) foundV1(f *ssa.Function, t *eng.Terminal, num, data, stride, res *eng.Term, strict, absent bool) {
	c := k.c
	cons := "findList v1"
	st := t.St
	c.Check(!strict && stride.K > 0, "finds", cons+" predicate", f.Pos(), "the search is not for the first entry whose trigram is not smaller")
	// the entry
	var ent, tri *eng.Term
	for _, fc := range st.Facts {
		fc.Walk(func(x *eng.Term) bool {
			if d, at, ok := trigramAt(st, x); ok && tri == nil {
				if isSliceCall(d) && at == eng.Int(0) || d == data {
					ent, tri = d, x
					if d == data {
						ent = eng.Slice(data, at, eng.Len(data), nil, data.Typ)
					}
				}
			}
			return true
		})
	}
	if absent {
		ok := st.Implies(eng.Le(num, res))
		ok = ok || tri != nil && st.Implies(eng.Not(eng.EqInt(tri, eng.SymOf(f.Params[1].Name(), f.Params[1].Type()))))
		c.Check(ok, "finds", cons+" absent", f.Pos(), "the search gives up although the trigram may be there")
		return
	}
	ok := tri != nil && st.Implies(eng.EqInt(tri, eng.SymOf(f.Params[1].Name(), f.Params[1].Type())))
	if !c.Check(ok, "finds", cons+" hit", f.Pos(), "an entry is taken although it may not be the trigram's") {
		return
	}
	if isSliceCall(ent) {
		c.Check(ent.Args[2].Op == "int" && (ent.Args[2].K < 0 || ent.Args[2].K >= 11), "finds", cons+" extent", f.Pos(), "only %s bytes of the entry are read", ent.Args[2])
	}
	at := func(v *eng.Term) int64 {
		d, lo, w, ok := number(st, v)
		if !ok || w != 4 {
			return -1
		}
		if ent.Op == "slice" && d == ent.Args[0] {
			lo = eng.Sub(lo, ent.Args[1])
		} else if d != ent {
			return -1
		}
		if lo.Op != "int" {
			return -1
		}
		return lo.K
	}
	c.Check(at(t.Rets[0]) == 3 && at(t.Rets[1]) == 7, "finds", cons+" entry", f.Pos(), "the count and place found are %s and %s, not the numbers behind the entry's trigram", t.Rets[0], t.Rets[1])
	if isSliceCall(ent) && isSliceCall(data) {
		d := eng.Sub(ent.Args[1], data.Args[1])
		c.Check(d == eng.MulK(res, stride.K), "finds", cons+" which", f.Pos(), "the entry found is looked up at %s", d)
	}
}

// lists checks the readers that start at the place of a list.
func (k *postRules) lists() {
	c := k.c
	ixn, ixs := c.namedIn("Index")
	if ixn == nil {
		return
	}
	roles := c.indexRoles()
	n := 0
	for _, f := range c.P.Funcs() {
		if f.Parent() != nil || recvNamed(f) == "deltaReader" || recvNamed(f) == "allPostReader" || !callsMethod(f, "deltaReader", "init") {
			continue
		}
		n++
		k.list(f, ixn, ixs, roles)
	}
	c.Check(n >= 2, "reads-list", "readers", 0, "found %d readers of posting lists", n)
}

func (k *postRules) list(f *ssa.Function, ixn *types.Named, ixs *types.Struct, roles map[string]string) {
	c := k.c
	ps := params(f)
	cons := fnLabel(f)
	finder := idx + "Index).findList"
	r := c.Analyze(f, &eng.Config{
		Opaque: func(g *ssa.Function) bool {
			return recvNamed(g) == "Index" && (hasResultType(g, "[]byte") || g.Name() == "findList" || g.Name() == "NamesAt") || recvNamed(g) == "deltaReader" || recvNamed(g) == "PathReader"
		},
		Model:     keep,
		KeepFacts: true,
		Join:      64,
	}, ps...)
	isInit := func(e *eng.Event) bool { return e.Kind == "call" && isMethod(e.Name, "deltaReader", "init") }
	if recvNamed(f) == "" || recvNamed(f) == "Index" {
		k.checker(f, r, roles)
		return
	}
	load := false // reads the index entries one after the other
	for _, e := range r.Events {
		load = load || e.Kind == "call" && e.Name == "encoding/binary.Uvarint"
	}
	if load {
		k.corruptOnly(r, cons, f)
		k.entries(f, r, ixn, ixs, roles)
		return
	}
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		var in *eng.Event
		var found *eng.Event
		for _, e := range st.Events(false) {
			if isInit(e) {
				in = e
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, finder) {
				found = e
			}
		}
		if !c.Check(found != nil, "reads-list", cons+" finds", f.Pos(), "%s does not look up the list it reads", f) {
			continue
		}
		cnt, off := eng.Extract(found.Res, 0, types.Typ[types.Int]), eng.Extract(found.Res, 1, types.Typ[types.Int])
		c.Check(found.Args[1] == ps[2], "reads-list", cons+" trigram", f.Pos(), "%s looks up another trigram", f)
		if in == nil {
			c.Check(st.Implies(eng.Le(cnt, eng.Int(0))), "reads-list", cons+" empty", f.Pos(), "%s does not read the list although it may not be empty", f)
			continue
		}
		d := in.Args[2]
		_, at, _, ok := sliceCallAt(d)
		ok = ok && at == eng.AddK(eng.Add(initial(found.Args[0], ixs, roles["posts"]), off), 3)
		c.Check(ok, "reads-list", cons+" data", f.Pos(), "%s reads the numbers at %s, not behind the list's trigram", f, d)
		c.Check(in.Args[1] == found.Args[0], "reads-list", cons+" index", f.Pos(), "%s reads the list as one of another index", f)
		// the count is kept
		has, minus := false, false
		rst := recvStruct(f)
		for i := 0; i < rst.NumFields(); i++ {
			v := final(st, ps[0], rst, rst.Field(i).Name())
			has = has || v == cnt
			minus = minus || v == eng.Int(-1)
		}
		c.Check(has && minus, "reads-list", cons+" start", f.Pos(), "%s does not start with the list's count and -1 as the number before the first", f)
	}
}

func recvStruct(f *ssa.Function) *types.Struct {
	t := f.Params[0].Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct)
}

// entries checks the reader that goes through all the lists.
func (k *postRules) entries(f *ssa.Function, r *eng.Run, ixn *types.Named, ixs *types.Struct, roles map[string]string) {
	c := k.c
	cons := fnLabel(f)
	ps := params(f)
	rst := recvStruct(f)
	rd := ps[0]
	// the reader's index and block
	ixF, blkF := "", ""
	for i := 0; i < rst.NumFields(); i++ {
		if isPtrTo(rst.Field(i).Type(), ixn) {
			ixF = rst.Field(i).Name()
		}
		if s, ok := rst.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			blkF = rst.Field(i).Name()
		}
	}
	if !c.Check(ixF != "" && blkF != "", "reads-list", cons, f.Pos(), "%s has no index or block", cons) {
		return
	}
	in := func(n string) *eng.Term { return initial(rd, rst, n) }
	ix := in(ixF)
	blk := in(blkF)
	posts := initial(ix, ixs, roles["posts"])
	start := initial(ix, ixs, roles["posting index"])
	seen := map[string]bool{}
	inv := c.constOf("index", "invalidTrigram")
	for _, t := range r.Terms {
		if t.Kind != "return" || corrupted(t.St) {
			continue
		}
		st := t.St
		ver := versionOf(st, ixn)
		var init *eng.Event
		for _, e := range st.Events(false) {
			if e.Kind == "call" && isMethod(e.Name, "deltaReader", "init") {
				init = e
			}
		}
		vcons := fmt.Sprintf("%s v%d", cons, ver)
		// the entry: trigram, count, place
		var b *eng.Term
		fresh := false
		fields := map[string]*eng.Term{}
		for i := 0; i < rst.NumFields(); i++ {
			fields[rst.Field(i).Name()] = final(st, rd, rst, rst.Field(i).Name())
		}
		triF := ""
		for _, n := range sortedKeys(fields) {
			if d, at, ok := trigramAt(st, fields[n]); ok && at == eng.Int(0) {
				triF, b = n, d
			} else if ok && d == blk {
				triF, b = n, d
			}
		}
		if triF == "" {
			// at the end, or not reading an entry at all
			end := false
			for _, n := range sortedKeys(fields) {
				end = end || fields[n] == eng.Int(1<<32-1) || st.Implies(eng.EqInt(in(n), eng.Int(1<<32-1)))
			}
			c.Check(end && init == nil, "reads-list", vcons+" end", f.Pos(), "%s neither reads an entry nor reports the end of the lists", cons)
			if ver == 2 || ver == 0 {
				// only at the real end
				evs := 0
				for _, e := range st.Events(false) {
					if e.Kind == "call" && e.Name == "encoding/binary.Uvarint" {
						evs++
					}
				}
				real := evs > 0
				for _, n := range sortedKeys(fields) {
					real = real || st.Implies(eng.EqInt(in(n), eng.Int(1<<32-1))) // before already
					if types.Identical(rst.Field(fieldIndex(rst, n)).Type(), types.Typ[types.Int]) && roles["number of posts"] != "" {
						real = real || st.Implies(eng.Le(initial(ix, ixs, roles["number of posts"]), fields[n])) || st.Implies(eng.Le(initial(ix, ixs, roles["number of posts"]), eng.AddK(in(n), 1)))
					}
				}
				c.Check(real, "reads-list", vcons+" end early", f.Pos(), "%s reports the end of the lists although not all entries have been read", cons)
			}
			continue
		}
		seen[fmt.Sprint(ver)] = true
		off := eng.Term{}
		_ = off
		var place *eng.Term
		if ver == 2 {
			fresh = b != blk
			vals, _, end := uvarintsAt(b, st.Events(false))
			if !c.Check(len(vals) == 2 && cutFront(fields[blkF], b, end), "reads-list", vcons+" entry", f.Pos(), "%s does not read two numbers behind an entry's trigram and go on behind them", cons) {
				continue
			}
			cntF, offF := "", ""
			for _, n := range sortedKeys(fields) {
				v := fields[n]
				if plainInt(v) == vals[0] {
					cntF = n
				}
				for _, a := range eng.Atoms(v) {
					if plainInt(a) == vals[1] && n != blkF && types.Identical(v.Typ, types.Typ[types.Int]) {
						offF = n
					}
				}
			}
			zeroCount := st.Implies(eng.EqInt(eng.Conv(vals[0], types.Typ[types.Uint64], types.Typ[types.Int]), eng.Int(0)))
			if !c.Check(offF != "" && (cntF != "" || zeroCount), "reads-list", vcons+" count", f.Pos(), "%s does not take the count and distance of the entry", cons) {
				continue
			}
			place = fields[offF]
			prev := eng.Int(0)
			if !fresh {
				prev = in(offF)
			}
			c.Check(plainInt(eng.Sub(place, prev)) == vals[1], "reads-list", vcons+" distance", f.Pos(), "%s takes %s as the place of the list, not the distance of its entry from the one before in the block", cons, place)
			// when a block is over
			over := st.Implies(eng.Eq(blk, eng.Nil, blk.Typ)) || st.Implies(eng.Lt(eng.Len(blk), eng.Int(5))) // no room for an entry
			z := 0
			some := false
			for i := int64(0); i < 3; i++ {
				e := eng.Mk("ld", "", types.Typ[types.Uint8], eng.Elem(blk, eng.Int(i), types.NewPointer(types.Typ[types.Uint8])))
				if st.Implies(eng.EqInt(e, eng.Int(0))) {
					z++
				}
				some = some || st.Implies(eng.Not(eng.EqInt(e, eng.Int(0))))
			}
			some = some || someSet(st, blk)
			for _, x := range trigramsIn(st, st.Facts, blk) {
				if st.Implies(eng.EqInt(x, eng.Int(0))) {
					z = 3
				}
				some = some || st.Implies(eng.Not(eng.EqInt(x, eng.Int(0))))
			}
			if fresh {
				c.Check(over || z == 3, "reads-list", vcons+" next block", f.Pos(), "%s goes on to the next block before the end of this one", cons)
				ok := isSliceCall(b) && b.Args[0] == ix && b.Args[2] == eng.Int(k.cap)
				if c.Check(ok, "reads-list", vcons+" block", f.Pos(), "%s does not read a whole block of the index: %s", cons, b) {
					pos := eng.Sub(b.Args[1], start)
					posF := ""
					for _, n := range sortedKeys(fields) {
						if in(n) == pos {
							posF = n
						}
					}
					c.Check(posF != "" && fields[posF] == eng.AddK(pos, k.cap), "reads-list", vcons+" block position", f.Pos(), "%s does not read the blocks one after the other", cons)
				}
			} else {
				c.Check(some && st.Implies(eng.Le(eng.Int(3), eng.Len(blk))), "reads-list", vcons+" same block", f.Pos(), "%s reads an entry behind the last one of a block", cons)
			}
		} else {
			// version 1: the entry with the current number
			ok := isSliceCall(b) && b.Args[0] == ix
			if !c.Check(ok, "reads-list", vcons+" entry", f.Pos(), "%s does not read an entry of the index", cons) {
				continue
			}
			pos := eng.Sub(b.Args[1], start)
			num := false
			for _, n := range sortedKeys(fields) {
				num = num || pos == eng.MulK(fields[n], 11) && fields[n] == eng.AddK(in(n), 1)
			}
			c.Check(num, "reads-list", vcons+" number", f.Pos(), "%s does not read the entries one after the other", cons)
			cnt := false
			for _, n := range sortedKeys(fields) {
				d, lo, w, ok := number(st, fields[n])
				if ok && d == b && w == 4 {
					if lo == eng.Int(3) {
						cnt = true
					}
					if lo == eng.Int(7) {
						place = fields[n]
					}
				}
			}
			c.Check(place != nil && (cnt || init == nil), "reads-list", vcons+" count", f.Pos(), "%s does not take the count and place of the entry", cons)
			if place == nil {
				continue
			}
		}
		if init == nil {
			// nothing to read
			none := false
			for _, fc := range st.Facts {
				none = none || fc.Op == "eq0" && fields[triF] != nil && inv != nil && st.Implies(eng.EqInt(fields[triF], inv))
			}
			for _, n := range sortedKeys(fields) {
				none = none || types.Identical(rst.Field(fieldIndex(rst, n)).Type(), types.Typ[types.Int]) && fields[n] != in(n) && n != triF && st.Implies(eng.EqInt(fields[n], eng.Int(0)))
			}
			c.Check(none, "reads-list", vcons+" empty", f.Pos(), "%s does not read a list although it may not be empty", cons)
			continue
		}
		d := init.Args[2]
		dix, at, _, ok := sliceCallAt(d)
		ok = ok && dix == ix && at == eng.AddK(eng.Add(posts, place), 3)
		c.Check(ok && init.Args[1] == ix, "reads-list", vcons+" data", f.Pos(), "%s reads the numbers at %s, not behind the list's trigram", cons, d)
		minus := false
		for _, n := range sortedKeys(fields) {
			minus = minus || fields[n] == eng.Int(-1)
		}
		c.Check(minus, "reads-list", vcons+" start", f.Pos(), "%s does not start with -1 as the number before the first", cons)
	}
	c.Check(seen["1"] && seen["2"], "reads-list", cons+" versions", f.Pos(), "%s does not read entries of both versions", cons)
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// checker checks the consistency check's idea of the lists: nothing here
// changes what the index gives back, but it must not reject what is written.
func (k *postRules) checker(f *ssa.Function, r *eng.Run, roles map[string]string) {}
