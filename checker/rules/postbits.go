package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// primitives checks what the fixed-width writers write, bit by bit.
func (k *postRules) primitives() {
	c := k.c
	b := c.bufType()
	if b == nil {
		return
	}
	for _, name := range []string{"WriteTrigram", "WriteUint"} {
		f := c.Func("index", "Buffer."+name)
		if f == nil {
			continue
		}
		x := eng.Sym("b", b.ptr)
		ps := params(f)
		ps[0] = x
		r := c.Analyze(f, &eng.Config{KeepFacts: true}, ps...)
		vers := map[int]bool{}
		for _, t := range r.Terms {
			if t.Kind != "return" || t.St.Implies(eng.Eq(eng.Mk("ld", "", b.fileT, b.fieldAddr(x, b.file)), eng.Nil, b.fileT)) {
				continue
			}
			ver := (&layouts{c: c}).versionIn(t.St)
			var app []*eng.Term
			v := t.St.Load(b.fieldAddr(x, b.buf), b.buT)
			ok := true
			for v.Op == "append" {
				if v.Aux == "elems" {
					app = append(append([]*eng.Term(nil), v.Args[1:]...), app...)
				} else if s := v.Args[1]; s.Op == "bytes" {
					app = append(append([]*eng.Term(nil), s.Args...), app...)
				} else {
					ok = false
				}
				v = v.Args[0]
			}
			if !ok {
				continue // through encoding/binary, or in a loop: see below
			}
			w := len(app)
			want := 3
			if name == "WriteUint" {
				want = map[int]int{1: 4, 2: 8, 0: 8}[ver]
			}
			vers[ver] = true
			good := w == want
			for i := 0; good && i < w; i++ {
				bits := bitsOf(nil, app[i], 8)
				for j, bt := range bits {
					good = good && (bt.leaf == ps[1] && bt.idx == 8*(w-1-i)+j || name == "WriteUint" && ver != 1 && i == 0 && j == 7 && bt.isConst(0))
				}
			}
			c.Check(good, "encoding", fmt.Sprintf("Buffer.%s v%d", name, ver), f.Pos(), "%s does not write the %d bytes of its argument, the most significant first", name, want)
		}
		c.Check(len(vers) > 0, "encoding", "Buffer."+name, f.Pos(), "what %s writes is not understood", name)
	}
}

// temporary checks the reader of the lists of a temporary file.
func (k *postRules) temporary() {
	c := k.c
	f := c.Func("index", "allPostReader.next")
	in := c.Func("index", "allPostReader.init")
	if f == nil || in == nil {
		return
	}
	inv := c.constOf("index", "invalidTrigram")
	if inv == nil {
		return
	}
	cons := fnLabel(f)
	rst := recvStruct(f)
	isDelta := func(g *ssa.Function) bool { return recvNamed(g) == "deltaReader" }
	cfg := &eng.Config{
		Opaque: func(g *ssa.Function) bool {
			return isDelta(g) || g.Signature.Recv() == nil && makesEntry(g)
		},
		Model:     keep,
		KeepFacts: true,
		Join:      64,
		Stores:    func(*eng.Term) bool { return true },
	}
	// fields
	triF, idF, deF := "", "", ""
	for i := 0; i < rst.NumFields(); i++ {
		t := rst.Field(i).Type()
		switch {
		case types.Identical(t, k.dr):
			deF = rst.Field(i).Name()
		case types.Identical(t, types.Typ[types.Uint32]):
			triF = rst.Field(i).Name()
		case types.Identical(t, types.Typ[types.Int]):
			idF = rst.Field(i).Name()
		}
	}
	dF := ""
	for i := 0; i < k.drs.NumFields(); i++ {
		if s, ok := k.drs.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			dF = k.drs.Field(i).Name()
		}
	}
	if !c.Check(triF != "" && idF != "" && deF != "" && dF != "", "temporary", cons, f.Pos(), "the reader of temporary files has no trigram, number or data") {
		return
	}
	// started without a list
	ps := params(in)
	r := c.Analyze(in, cfg, ps...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n := 0
		for _, e := range t.St.Events(false) {
			if e.Kind == "call" && isMethod(e.Name, "deltaReader", "init") && e.Args[0] == fieldAddr(ps[0], deF) && e.Args[2] == ps[2] {
				n++
			}
		}
		c.Check(n == 1 && final(t.St, ps[0], rst, triF) == inv, "temporary", fnLabel(in), in.Pos(), "the reader of a temporary file does not start at its beginning, before a list")
	}
	ps = params(f)
	r = c.Analyze(f, cfg, ps...)
	w := ps[0]
	addr := map[string]*eng.Term{triF: fieldAddr(w, triF), idF: fieldAddr(w, idF)}
	dAddr := fieldAddr(fieldAddr(w, deF), dF)
	dT := types.NewSlice(types.Typ[types.Byte])
	var loop *eng.Loop
	at := func(n string, a *eng.Term) *eng.Term {
		if loop != nil {
			for _, p := range loop.Phis {
				if p.Addr == a {
					return p.Sym
				}
			}
		}
		if a == dAddr {
			return eng.Mk("ld", "", dT, a)
		}
		return initial(w, rst, n)
	}
	// step examines one round: from a state to the next
	step := func(st *eng.State, evs []*eng.Event) (tri, id, delta *eng.Term, clears bool) {
		t0, i0, d0 := at(triF, addr[triF]), at(idF, addr[idF]), at("", dAddr)
		fresh := st.Implies(eng.EqInt(t0, inv))
		kept := st.Implies(eng.Not(eng.EqInt(t0, inv)))
		cur, d := t0, d0
		for _, e := range evs {
			if e.Kind == "store" && e.Args[0] == addr[triF] {
				cur = e.Args[1]
			}
			if e.Kind == "store" && e.Args[0] == dAddr {
				d = e.Args[1]
			}
			if e.Kind != "call" {
				continue
			}
			switch {
			case isMethod(e.Name, "deltaReader", "next"):
				if delta != nil {
					delta = nil
					return
				}
				delta = e.Res
				if fresh {
					tri = cur
					b, p, ok := trigramAt(nil, tri)
					if !ok || b != d0 || p != eng.Int(0) || !cutFront(d, d0, eng.Int(3)) {
						tri = nil
					}
				} else if kept {
					tri = t0
					if d != d0 {
						tri = nil
					}
				}
			case isMethod(e.Name, "deltaReader", "clearBits"):
				clears = delta != nil
			}
		}
		id = i0
		if fresh {
			id = eng.Int(-1)
		}
		return
	}
	check := func(st *eng.State, evs []*eng.Event, rets []*eng.Term) {
		tri, id, delta, clears := step(st, evs)
		if rets != nil && rets[1] == eng.False {
			d0 := at("", dAddr)
			ok := delta == nil && st.Implies(eng.EqInt(at(triF, addr[triF]), inv)) && st.Implies(eng.EqInt(eng.Len(d0), eng.Int(0)))
			c.Check(ok, "temporary", cons+" end", f.Pos(), "the reader of a temporary file ends before all of it has been read")
			return
		}
		if !c.Check(tri != nil && delta != nil, "temporary", cons+" list", f.Pos(), "the reader of a temporary file does not read a difference of the list it is in, or of the next after its 3-byte trigram") {
			return
		}
		if rets == nil {
			ok := st.Implies(eng.EqInt(delta, eng.Int(0))) && clears && st.Load(addr[triF], types.Typ[types.Uint32]) == inv
			c.Check(ok, "temporary", cons+" next list", f.Pos(), "the reader of a temporary file does not go on with the next list exactly after the end of one, at a full byte")
			return
		}
		nid := eng.Add(id, delta)
		ret := rets[0]
		ok := rets[1] == eng.True && ret.Op == "call" && len(ret.Args) == 2 && ret.Args[0] == tri && ret.Args[1] == nid
		c.Check(ok, "temporary", cons+" entry", f.Pos(), "the reader of a temporary file does not give the list's trigram and the number before plus the difference: %s", ret)
		ok = st.Load(addr[triF], types.Typ[types.Uint32]) == tri && st.Load(addr[idF], types.Typ[types.Int]) == nid && st.Implies(eng.Not(eng.EqInt(delta, eng.Int(0))))
		c.Check(ok && !clears, "temporary", cons+" kept", f.Pos(), "the reader of a temporary file does not keep the list's trigram and number, or gives an entry for the end of a list")
	}
	n := 0
	for _, l := range r.Loops {
		for _, b := range l.Backs {
			loop = l
			n++
			check(b, sinceLoop(b, l), nil)
		}
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 2 {
			continue
		}
		loop = nil
		for _, it := range pathItems(t.St) {
			if it.loop != nil {
				loop = it.loop
			}
		}
		evs := t.St.Events(false)
		if loop != nil {
			if es, ok := t.St.EventsSince(loop); ok {
				evs = es
			}
		}
		n++
		check(t.St, evs, t.Rets)
	}
	c.Check(n >= 4, "temporary", cons+" paths", f.Pos(), "found %d paths of the reader of temporary files", n)
	k.entry()
}

// entry checks that the parts of an entry are those it was made of.
func (k *postRules) entry() {
	c := k.c
	mk := c.Func("index", "makePostEntry")
	tr := c.Func("index", "postEntry.trigram")
	id := c.Func("index", "postEntry.fileid")
	if mk == nil || tr == nil || id == nil || len(mk.Params) != 2 {
		return
	}
	ps := params(mk)
	var st *eng.State
	one := func(f *ssa.Function, args ...*eng.Term) *eng.Term {
		r := c.Analyze(f, &eng.Config{}, args...)
		var out *eng.Term
		for _, t := range r.Terms {
			if t.Kind == "return" && len(t.Rets) == 1 {
				if out != nil {
					return nil
				}
				out, st = t.Rets[0], t.St
			}
		}
		return out
	}
	e := one(mk, ps...)
	ok := e != nil
	if ok {
		st = st.Copy()
		ok = st.Assume(eng.Lt(ps[0], eng.Int(1<<24))) && st.Assume(eng.Le(eng.Int(0), ps[1])) && st.Assume(eng.Lt(ps[1], eng.Int(1<<40)))
	}
	assumed := st
	if ok {
		t, i := one(tr, e), one(id, e)
		ok = t != nil && i != nil
		if ok {
			tb, ib := bitsOf(assumed, t, 32), bitsOf(assumed, i, 63)
			for j := 0; j < 24; j++ {
				ok = ok && tb[j].leaf == ps[0] && tb[j].idx == j
			}
			for j := 0; j < 40; j++ {
				ok = ok && ib[j].leaf == ps[1] && ib[j].idx == j
			}
			for j := 40; j < 63; j++ {
				ok = ok && ib[j].isConst(0)
			}
		}
	}
	c.Check(ok, "temporary", "entries", mk.Pos(), "the trigram and number of an entry are not the 24 and 40 bits it was made of")
}

func makesEntry(g *ssa.Function) bool {
	if g.Signature.Results().Len() != 1 {
		return false
	}
	n, ok := g.Signature.Results().At(0).Type().(*types.Named)
	return ok && n.Obj().Name() == "postEntry"
}

// codec finds the methods that write and read a number in the bit code: the
// ones the writer and reader of differences call on themselves.
func (k *postRules) codec() (w, r *ssa.Function) {
	c := k.c
	pick := func(of, typ string, ok func(g *ssa.Function) bool) *ssa.Function {
		f := c.Func("index", of)
		if f == nil {
			return nil
		}
		var out *ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isC := in.(*ssa.Call)
				if !isC {
					continue
				}
				g := call.Call.StaticCallee()
				if g == nil || recvNamed(g) != typ || !ok(g) || callsBinary(g) {
					continue // the other format
				}
				if out != nil && out != g {
					c.Viol("anchor", "bit code of "+of, f.Pos(), "%s calls both %s and %s", f, out, g)
					return nil
				}
				out = g
			}
		}
		if out == nil {
			c.Viol("anchor", "bit code of "+of, f.Pos(), "%s uses no method for the bit code", f)
		}
		return out
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	w = pick("deltaWriter.Write", "deltaWriter", func(g *ssa.Function) bool { return len(g.Params) == 2 && isInt(g.Params[1].Type()) })
	r = pick("deltaReader.next", "deltaReader", func(g *ssa.Function) bool {
		return len(g.Params) == 1 && g.Signature.Results().Len() == 1 && isInt(g.Signature.Results().At(0).Type())
	})
	return
}

// callsBinary reports whether f itself uses encoding/binary.
func callsBinary(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := call.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
					return true
				}
			}
		}
	}
	return false
}

// differences checks that what the writer makes of a difference the reader
// undoes, path by path.
func (k *postRules) differences() {
	c := k.c
	wb, rb := k.codec()
	fw, fr := c.Func("index", "deltaWriter.Write"), c.Func("index", "deltaReader.next")
	if wb == nil || rb == nil || fw == nil || fr == nil {
		return
	}
	ixn, _ := c.namedIn("Index")
	pw, pr := params(fw), params(fr)
	x := pw[1]
	rw := c.Analyze(fw, &eng.Config{Opaque: func(g *ssa.Function) bool { return g == wb || recvNamed(g) == "Buffer" }, Model: keep, KeepFacts: true, Join: 64}, pw...)
	rr := c.Analyze(fr, &eng.Config{Opaque: func(g *ssa.Function) bool { return g == rb }, Model: keep, KeepFacts: true, Join: 64}, pr...)
	if len(rw.Loops)+len(rr.Loops) > 0 {
		c.Viol("differences", "loops", fw.Pos(), "a difference is written or read in a loop")
		return
	}
	dF := ""
	for i := 0; i < k.drs.NumFields(); i++ {
		if s, ok := k.drs.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			dF = k.drs.Field(i).Name()
		}
	}
	outF := ""
	for i := 0; i < k.dws.NumFields(); i++ {
		if isPtrTo(k.dws.Field(i).Type(), c.bufType().named) {
			outF = k.dws.Field(i).Name()
		}
	}
	// what the writer writes
	type wpath struct {
		st  *eng.State
		ver int
		val *eng.Term
	}
	var ws []wpath
	for _, t := range rw.Terms {
		if t.Kind != "return" {
			continue
		}
		if !t.St.Assume(eng.Le(eng.Int(0), x)) {
			continue
		}
		p := wpath{st: t.St, ver: (&layouts{c: c}).versionIn(t.St)}
		s := newByteMem()
		n := 0
		for _, e := range t.St.Events(false) {
			s.step(e)
			if e.Kind != "call" {
				continue
			}
			if e.Name == wb.String() || strings.HasSuffix(e.Name, "."+wb.Name()) && len(e.Args) == 2 {
				n++
				p.val = plainInt(e.Args[1])
				if p.ver != 2 && p.ver != 0 {
					n = 9
				}
				p.ver = 2
				if !c.Check(t.St.Implies(eng.Lt(eng.Int(0), p.val)), "differences", "written v2 positive", fw.Pos(), "a difference of the bit code may be zero, which cannot be written") {
					return
				}
				continue
			}
			if b, ts, ok := tokenOf(e); ok && len(ts) > 0 {
				n++
				con := s.content(e.Args[1])
				if len(con) > 0 && con[0].kind == "none" {
					con = con[1:]
				}
				if b == initial(pw[0], k.dws, outF) && len(con) == 1 && con[0].kind == "uvarint" {
					p.val = con[0].t
				}
				if p.ver == 2 {
					n = 9
				}
				p.ver = 1
			}
		}
		if !c.Check(n == 1 && p.val != nil, "differences", fmt.Sprintf("written v%d", p.ver), fw.Pos(), "a difference is not written as one number in the format of its version") {
			return
		}
		ws = append(ws, p)
	}
	k.readerStart()
	seen := map[int]bool{}
	for _, t := range rr.Terms {
		if t.Kind == "return" && len(t.Rets) != 1 {
			continue
		}
		ver := versionOf(t.St, ixn)
		if ver == 0 {
			ver = 1 // not 2
			if t.St.Implies(eng.EqInt(initial(initial(pr[0], k.drs, "ix"), ixn.Underlying().(*types.Struct), "version"), eng.Int(2))) {
				ver = 2
			}
		}
		var i *eng.Term
		var uv *eng.Event
		for _, e := range t.St.Events(false) {
			if e.Kind != "call" {
				continue
			}
			if e.Name == "encoding/binary.Uvarint" {
				uv = e
			} else if e.Name == rb.String() || strings.HasSuffix(e.Name, "."+rb.Name()) && len(e.Args) == 1 {
				i = e.Res
			}
		}
		bad := t.Kind != "return" || corrupted(t.St)
		m := map[*eng.Term]*eng.Term{}
		for _, w := range ws {
			if w.ver != ver {
				continue
			}
			st := w.st.Copy()
			ok := true
			if ver == 2 {
				if i == nil {
					c.Viol("differences", "read v2", fr.Pos(), "a difference of the bit code is not read as one number")
					continue
				}
				m[i] = w.val
			} else {
				if uv == nil {
					c.Viol("differences", "read v1", fr.Pos(), "a difference of version 1 is not read as one number")
					continue
				}
				m[eng.Extract(uv.Res, 0, types.Typ[types.Uint64])] = eng.Conv(w.val, types.Typ[types.Int], types.Typ[types.Uint64])
				n := eng.Extract(uv.Res, 1, types.Typ[types.Int])
				ok = st.Assume(eng.Le(eng.Int(1), n))
				d := initial(pr[0], k.drs, dF)
				if !bad {
					c.Check(uv.Args[0] == d && cutFront(final(t.St, pr[0], k.drs, dF), d, n), "differences", "read v1 data", fr.Pos(), "a difference of version 1 is not read from the front of the data, or the data does not go on behind it")
				}
			}
			for _, f := range t.St.Facts {
				g := simplifyConv(eng.Subst(f, m), x)
				ok = ok && st.Assume(g)
			}
			if !ok {
				continue // the reader does not take this path
			}
			seen[ver] = true
			if bad {
				c.Viol("differences", fmt.Sprintf("read v%d", ver), fr.Pos(), "the difference written as %s may be reported as corrupt (under %v)", w.val, lastFacts(st, 6))
				continue
			}
			got := simplifyConv(eng.Subst(t.Rets[0], m), x)
			for got.Op == "conv" {
				got = got.Args[0]
			}
			c.Check(st.Implies(eng.EqInt(got, x)), "differences", fmt.Sprintf("read v%d", ver), fr.Pos(), "the difference %s is written as %s and read back as %s (under %v)", x, w.val, got, lastFacts(st, 4))
		}
	}
	c.Check(seen[1] && seen[2], "differences", "versions", fr.Pos(), "no path reads what is written for both versions")
}

// readerStart checks that a reader of differences starts with no bits left
// over from another list.
func (k *postRules) readerStart() {
	c := k.c
	f := c.Func("index", "deltaReader.init")
	if f == nil {
		return
	}
	ps := params(f)
	r := c.Analyze(f, &eng.Config{}, ps...)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		for i := 0; i < k.drs.NumFields(); i++ {
			v := final(t.St, ps[0], k.drs, k.drs.Field(i).Name())
			ok := true
			switch u := k.drs.Field(i).Type().Underlying().(type) {
			case *types.Basic:
				ok = u.Info()&types.IsInteger == 0 || v == eng.Int(0)
			default:
				for _, p := range ps[1:] {
					if types.Identical(p.Typ, k.drs.Field(i).Type()) {
						ok = v == p
					}
				}
			}
			c.Check(ok, "differences", "reader starts "+k.drs.Field(i).Name(), f.Pos(), "a reader of differences starts with %s as its %s", v, k.drs.Field(i).Name())
		}
	}
	c.Check(n > 0, "differences", "reader starts", f.Pos(), "the reader of differences is never started")
}

// simplifyConv drops the conversions of the number x, which fits.
func simplifyConv(t, x *eng.Term) *eng.Term {
	m := map[*eng.Term]*eng.Term{}
	t.Walk(func(s *eng.Term) bool {
		if s.Op == "conv" {
			u := s
			for u.Op == "conv" {
				if w, _ := eng.Width(u.Typ); w != 64 {
					break
				}
				u = u.Args[0]
			}
			if u == x {
				m[s] = x
			}
		}
		return true
	})
	for i := 0; i < 4 && len(m) > 0; i++ {
		u := eng.Subst(t, m)
		if u == t {
			break
		}
		t = u
	}
	return t
}

// bitCode checks that the bit code is undone by its reader: every number of
// significant bits, after every number of bits pending.
func (k *postRules) bitCode() {
	wb, rb := k.codec()
	if wb == nil || rb == nil {
		return
	}
	k.bitWriter(wb)
	k.bitReader(rb)
}

// accFields finds the two integers of a struct.
func intFields(st *types.Struct) (out []int) {
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			out = append(out, i)
		}
	}
	return
}

const bitX, bitP, bitR = 100, 300, 500 // names of bits: of the number, pending, of the rest

// gamma is the code of a number with lg bits below its highest.
func gamma(lg int) (out []int) {
	for i := 0; i < lg; i++ {
		out = append(out, 0)
	}
	out = append(out, 1)
	for i := 0; i < lg; i++ {
		out = append(out, bitX+i)
	}
	return
}

func number0(lg int) (b bvec) {
	for i := 0; i < lg; i++ {
		b[i] = bitX + i
	}
	b[lg] = 1
	return
}

func pendingBits(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, bitP+i)
	}
	return
}

func (k *postRules) outCalls(r *bitRun, f *ssa.Function, args []any) (any, bool) {
	if recvNamed(f) != "Buffer" {
		return nil, false
	}
	put := func(v any) {
		b, ok := v.(bvec)
		if !ok {
			bitErr("writes something else than bytes")
		}
		r.out = append(r.out, b[:8]...)
	}
	switch f.Name() {
	case "WriteByte":
		put(args[1])
		return bitOpaque{"nil"}, true
	case "Write":
		if s, ok := args[1].(bitSlice); ok {
			for i := s.lo; i < s.hi; i++ {
				put(s.a.e[i].v)
			}
			return bitOpaque{"nil"}, true
		}
	}
	bitErr("calls %s", f)
	return nil, true
}

func (k *postRules) bitWriter(wb *ssa.Function) {
	c := k.c
	ints := intFields(k.dws)
	flush := c.Func("index", "deltaWriter.Flush")
	if flush == nil {
		return
	}
	if len(ints) != 2 {
		c.Viol("bit-code", "writer", wb.Pos(), "the writer of differences keeps %d numbers, not the pending bits and how many they are", len(ints))
		return
	}
	typ := func(i int) types.Type { return k.dws.Field(i).Type() }
	try := func(acc, cnt int, report bool) bool {
		mkState := func(n int) *bitCell {
			s := zeroOf(k.dws).(*bitStruct)
			var a bvec
			copy(a[:], pendingBits(n))
			s.f[acc].v = a
			s.f[cnt].v = bconst(uint64(n))
			return &bitCell{s}
		}
		after := func(s *bitCell) (pend []int, n int, msg string) {
			st := s.v.(*bitStruct)
			u, ok := st.f[cnt].v.(bvec).known()
			if !ok || u > 64 {
				return nil, 0, "the number of pending bits depends on the data"
			}
			a := st.f[acc].v.(bvec)
			for i := int(u); i < 64; i++ {
				if a[i] != 0 {
					return nil, 0, fmt.Sprintf("bit %d is set of %d pending", i, u)
				}
			}
			return append([]int(nil), a[:u]...), int(u), ""
		}
		fails := 0
		first := ""
		_ = typ
		todo := []int{0}
		done := map[int]bool{0: true}
		for len(todo) > 0 && fails == 0 {
			n := todo[0]
			todo = todo[1:]
			for lg := 0; lg < 63 && fails == 0; lg++ {
				r := &bitRun{c: c, calls: k.outCalls}
				s := mkState(n)
				_, err := r.run(wb, []any{s, number0(lg)})
				msg := ""
				if err != nil {
					msg = err.Error()
				} else {
					pend, m, bad := after(s)
					got := append(append([]int(nil), r.out...), pend...)
					want := append(pendingBits(n), gamma(lg)...)
					switch {
					case bad != "":
						msg = bad
					case m > 7:
						msg = fmt.Sprintf("%d bits are left pending", m)
					case !equalInts(got, want):
						msg = "writes other bits than the code"
					}
					if msg == "" && !done[m] {
						done[m] = true
						todo = append(todo, m)
					}
				}
				if report {
					c.Check(msg == "", "bit-code", fmt.Sprintf("writer, %d bits pending, number of %d bits", n, lg+1), wb.Pos(), "with %d bits pending and a number of %d bits, %s: %s", n, lg+1, fnLabel(wb), msg)
				}
				if msg != "" {
					fails++
					first = msg
				}
			}
			// the end of the list
			r := &bitRun{c: c, calls: k.outCalls}
			s := mkState(n)
			_, err := r.run(flush, []any{s})
			msg := ""
			if err != nil {
				msg = err.Error()
			} else {
				_, m, bad := after(s)
				want := pendingBits(n)
				for len(want)%8 != 0 {
					want = append(want, 0)
				}
				switch {
				case bad != "":
					msg = bad
				case m != 0:
					msg = "bits are left pending"
				case !equalInts(r.out, want):
					msg = "the last bits are not written as one byte"
				}
			}
			if report {
				c.Check(msg == "", "bit-code", fmt.Sprintf("writer, end after %d bits", n), flush.Pos(), "at the end of a list with %d bits pending: %s", n, msg)
			}
			if msg != "" {
				fails++
				first = msg
			}
		}
		_ = first
		return fails == 0
	}
	if !try(ints[0], ints[1], false) && try(ints[1], ints[0], false) {
		try(ints[1], ints[0], true)
	} else {
		try(ints[0], ints[1], true)
	}
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] || a[i] == unkBit {
			return false
		}
	}
	return true
}

func (k *postRules) bitReader(rb *ssa.Function) {
	c := k.c
	ints := intFields(k.drs)
	clearF := c.Func("index", "deltaReader.clearBits")
	if clearF == nil {
		return
	}
	data := -1
	for i := 0; i < k.drs.NumFields(); i++ {
		if s, ok := k.drs.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Byte]) {
			data = i
		}
	}
	if len(ints) != 2 || data < 0 {
		c.Viol("bit-code", "reader", rb.Pos(), "the reader of differences does not keep its data, the pending bits and how many they are")
		return
	}
	calls := func(r *bitRun, f *ssa.Function, args []any) (any, bool) {
		if isMethod(f.String(), "Index", "corrupt") {
			bitErr("reports the index as corrupt")
		}
		return nil, false
	}
	try := func(acc, cnt int, report bool) bool {
		fails := 0
		todo := []int{0}
		done := map[int]bool{0: true}
		for len(todo) > 0 && fails == 0 {
			n := todo[0]
			todo = todo[1:]
			for lg := 0; lg < 63 && fails == 0; lg++ {
				for _, extra := range []int{0, 9} {
					// the code, and what follows it in its last byte and after
					stream := gamma(lg)
					total := len(stream)
					if total < n {
						total = n
					}
					for (total-n)%8 != 0 {
						total++
					}
					total += 8 * extra
					for i := len(stream); i < total; i++ {
						stream = append(stream, bitR+i)
					}
					s := zeroOf(k.drs).(*bitStruct)
					var a bvec
					copy(a[:], stream[:n])
					s.f[acc].v = a
					s.f[cnt].v = bconst(uint64(n))
					arr := &bitArray{}
					for i := n; i < total; i += 8 {
						var b bvec
						copy(b[:8], stream[i:i+8])
						arr.e = append(arr.e, &bitCell{b})
					}
					s.f[data].v = bitSlice{arr, 0, len(arr.e)}
					cell := &bitCell{s}
					r := &bitRun{c: c, calls: calls}
					res, err := r.run(rb, []any{cell})
					msg := ""
					if err != nil {
						msg = err.Error()
					} else {
						want := number0(lg)
						got, ok := res.(bvec)
						u, okn := s.f[cnt].v.(bvec).known()
						av := s.f[acc].v.(bvec)
						switch {
						case !ok || !equalInts(got[:], want[:]):
							msg = "another number is read"
						case !okn || u > 7:
							msg = "more than 7 bits are left pending"
						default:
							left := append([]int(nil), av[:u]...)
							d := s.f[data].v.(bitSlice)
							for i := d.lo; i < d.hi; i++ {
								b := d.a.e[i].v.(bvec)
								left = append(left, b[:8]...)
							}
							for i := int(u); i < 64; i++ {
								if av[i] != 0 {
									msg = fmt.Sprintf("bit %d is set of %d pending", i, u)
								}
							}
							if !equalInts(left, stream[2*lg+1:]) {
								msg = "what is left is not what follows the number"
							}
							if msg == "" && !done[int(u)] {
								done[int(u)] = true
								todo = append(todo, int(u))
							}
						}
					}
					if report {
						c.Check(msg == "", "bit-code", fmt.Sprintf("reader, %d bits pending, number of %d bits", n, lg+1), rb.Pos(), "with %d bits pending and a number of %d bits, %s: %s", n, lg+1, fnLabel(rb), msg)
					}
					if msg != "" {
						fails++
					}
				}
			}
			// the end of the list
			s := zeroOf(k.drs).(*bitStruct)
			var a bvec
			copy(a[:], pendingBits(n))
			s.f[acc].v = a
			s.f[cnt].v = bconst(uint64(n))
			r := &bitRun{c: c, calls: calls}
			_, err := r.run(clearF, []any{&bitCell{s}})
			ok := err == nil && s.f[acc].v.(bvec) == bvec{} && s.f[cnt].v.(bvec) == bvec{}
			if report {
				c.Check(ok, "bit-code", fmt.Sprintf("reader, end after %d bits", n), clearF.Pos(), "at the end of a list the rest of its last byte is not dropped")
			}
			if !ok {
				fails++
			}
		}
		return fails == 0
	}
	if !try(ints[0], ints[1], false) && try(ints[1], ints[0], false) {
		try(ints[1], ints[0], true)
	} else {
		try(ints[0], ints[1], true)
	}
}

// next checks the reader of one list.
func (k *postRules) next() {
	c := k.c
	start := c.Func("index", "postReader.init")
	f := c.Func("index", "postReader.next")
	if f == nil || start == nil {
		return
	}
	cons := fnLabel(f)
	rst := recvStruct(f)
	idx, cnt := "", ""
	// the count is the field that starts with the count that was found, the
	// number the one that starts with -1
	rs := c.Analyze(start, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "Index" || recvNamed(g) == "deltaReader" }, Model: keep}, params(start)...)
	for _, t := range rs.Terms {
		if t.Kind != "return" {
			continue
		}
		for i := 0; i < rst.NumFields(); i++ {
			v := final(t.St, params(start)[0], rst, rst.Field(i).Name())
			if v == eng.Int(-1) {
				idx = rst.Field(i).Name()
			}
			if v.Op == "extract" && v.Args[0].Op == "call" && t.St.Implies(eng.Not(eng.EqInt(v, eng.Int(0)))) {
				cnt = rst.Field(i).Name()
			}
		}
	}
	if !c.Check(idx != "" && cnt != "", "list-next", cons, f.Pos(), "the reader of a list does not start with its count and -1 as the number before the first") {
		return
	}
	ps := params(f)
	w := ps[0]
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "deltaReader" }, Model: keep, KeepFacts: true, Join: 64}, ps...)
	check := func(loop *eng.Loop, st *eng.State, evs []*eng.Event, rets []*eng.Term) {
		at := func(n string) *eng.Term {
			if loop != nil {
				for _, p := range loop.Phis {
					if p.Addr == fieldAddr(w, n) {
						return p.Sym
					}
				}
			}
			return initial(w, rst, n)
		}
		now := func(n string) *eng.Term { return final(st, w, rst, n) }
		var delta *eng.Term
		n := 0
		for _, e := range evs {
			if isDeltaRead(e, "next") {
				n++
				delta = e.Res
			}
		}
		if rets != nil && rets[0] == eng.False {
			unused := false
			for i := 0; i < rst.NumFields(); i++ {
				if _, ok := rst.Field(i).Type().Underlying().(*types.Pointer); ok {
					v := initial(w, rst, rst.Field(i).Name())
					unused = unused || st.Implies(eng.Eq(v, eng.Nil, v.Typ))
				}
			}
			c.Check(unused || st.Implies(eng.Le(at(cnt), eng.Int(0))) || k.exhausted(st, w, rst), "list-next", cons+" end", f.Pos(), "the list ends before its count of numbers has been read")
			return
		}
		ok := n == 1 && now(idx) == eng.Add(at(idx), delta) && now(cnt) == eng.AddK(at(cnt), -1)
		c.Check(ok, "list-next", cons+" number", f.Pos(), "the next number is not the one before plus the next difference, counted once: %s, %s left", now(idx), now(cnt))
		c.Check(st.Implies(eng.Lt(eng.Int(0), at(cnt))), "list-next", cons+" count", f.Pos(), "more numbers are read than the list's count")
	}
	n := 0
	for _, l := range r.Loops {
		main := false
		for _, p := range l.Phis {
			main = main || p.Addr == fieldAddr(w, cnt)
		}
		if !main {
			continue
		}
		for _, b := range l.Backs {
			n++
			check(l, b, sinceLoop(b, l), nil)
		}
	}
	for _, t := range r.Terms {
		if t.Kind != "return" || len(t.Rets) != 1 || corrupted(t.St) {
			continue
		}
		var loop *eng.Loop
		for _, it := range pathItems(t.St) {
			if it.loop == nil {
				continue
			}
			for _, p := range it.loop.Phis {
				if p.Addr == fieldAddr(w, cnt) {
					loop = it.loop
				}
			}
		}
		evs := t.St.Events(false)
		if loop != nil {
			if es, ok := t.St.EventsSince(loop); ok {
				evs = es
			}
		}
		n++
		check(loop, t.St, evs, t.Rets)
	}
	c.Check(n >= 3, "list-next", cons+" paths", f.Pos(), "found %d paths of the reader of a list", n)
	// corruption is reported only for a difference that is not positive, or
	// a list that does not end with zero
	for _, t := range r.Terms {
		if t.Kind == "return" {
			continue
		}
		var d *eng.Term
		for _, e := range t.St.Events(false) {
			if isDeltaRead(e, "next") {
				d = e.Res
			}
		}
		left := final(t.St, w, rst, cnt)
		unchanged := left == initial(w, rst, cnt)
		for _, it := range pathItems(t.St) {
			if it.loop != nil {
				for _, p := range it.loop.Phis {
					unchanged = unchanged || p.Sym == left
				}
			}
		}
		ok := d != nil && t.St.Implies(eng.Le(d, eng.Int(0)))
		if unchanged {
			// behind the last number, where the end should be
			ok = d != nil && t.St.Implies(eng.Not(eng.EqInt(d, eng.Int(0)))) && t.St.Implies(eng.Le(left, eng.Int(0)))
		}
		c.Check(ok, "list-next", cons+" corrupt", f.Pos(), "a list is reported as corrupt although it can be read (under %v)", lastFacts(t.St, 4))
	}
}

// exhausted reports whether what the list is restricted to has nothing left.
func (k *postRules) exhausted(st *eng.State, w *eng.Term, rst *types.Struct) bool {
	for i := 0; i < rst.NumFields(); i++ {
		if _, ok := rst.Field(i).Type().Underlying().(*types.Slice); ok {
			v := final(st, w, rst, rst.Field(i).Name())
			if st.Implies(eng.EqInt(eng.Len(v), eng.Int(0))) && st.Implies(eng.Not(eng.Eq(v, eng.Nil, v.Typ))) {
				return true
			}
		}
	}
	return false
}

func isDeltaRead(e *eng.Event, m string) bool {
	return e.Kind == "call" && isMethod(e.Name, "deltaReader", m)
}

func sinceLoop(st *eng.State, l *eng.Loop) []*eng.Event {
	es, _ := st.EventsSince(l)
	return es
}
