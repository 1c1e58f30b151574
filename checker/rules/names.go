package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C10",
		Explanation: "Inverse analysis of the name lists. Writer: on every path of the path writer's Write, the operations on the data file are abstracted to a sequence of tokens (unsigned varints, strings, bytes) that must be the length of a prefix shared with the last path, the length of the rest and the rest; that the prefix is shared is shown by an inductive argument over the loop that counts it, and that it is empty at every start of a group, where exactly one index entry, the current offset from the list's start, is made first. " +
			"Reader: on every path of Next to success the path is rebuilt from the same tokens and the data moves past exactly these; every path to failure has found the list's end, the limit, or data that no writer makes. Random access: the reader of names from a number on starts at the table entry of the group and skips what comes before in the group, with the limit counting both; group size constants of writers and readers are compared. " +
			"Numbers: the number a file gets is the count of names before it, the same number is in its posting entries, and on every path a name is written it has been shown non-empty and greater than the last.",
		Assumptions: []string{"encoding/binary's varints are inverse to each other", "Path.Compare is a total order (decided by C13)", "the table's place and entry width (decided by C07)", "the writer's buffered output is complete and in order and Offset is exact (decided by C06)"},
		Run:         runNames,
	})
}

type nameRules struct {
	c            *Ctx
	w, rd, ix    *types.Named
	ws, rs       *types.Struct
	path         *types.Named
	paths        *types.Struct
	data, index  string // fields of the writer
	ver, group   string
	start        string
	n, last      string
	rver, rdata  string // fields of the reader
	rlimit, rpth string
	groups       map[int64]token.Pos // group sizes used
}

// initial is the value of a field when the function starts.
func initial(obj *eng.Term, st *types.Struct, name string) *eng.Term {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return eng.Mk("ld", "", st.Field(i).Type(), eng.FieldAddr(obj, st, i))
		}
	}
	return nil
}

// final is its value in a state.
func final(s *eng.State, obj *eng.Term, st *types.Struct, name string) *eng.Term {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.Load(eng.FieldAddr(obj, st, i), st.Field(i).Type())
		}
	}
	return nil
}

func params(f *ssa.Function) (out []*eng.Term) {
	for _, p := range f.Params {
		out = append(out, eng.SymOf(p.Name(), p.Type()))
	}
	return out
}

// isMethod reports whether name is the full name of a method of *T or T.
func isMethod(name, typ, m string) bool {
	return name == "(*"+idxPkg+typ+")."+m || name == "("+idxPkg+typ+")."+m
}

func runNames(c *Ctx) {
	k := &nameRules{c: c, groups: map[int64]token.Pos{}}
	k.w, k.ws = c.namedIn("PathWriter")
	k.rd, k.rs = c.namedIn("PathReader")
	k.path, k.paths = c.namedIn("Path")
	k.ix, _ = c.namedIn("Index")
	if k.w == nil || k.rd == nil || k.path == nil || k.ix == nil {
		return
	}
	if !k.newWriter() || !k.newReader() {
		return
	}
	k.tokensOf()
	k.write()
	k.collect()
	k.owners()
	k.next()
	k.observers()
	k.all()
	k.namesAt()
	k.names()
	k.name()
	k.addName()
	k.numbers()
	k.groupSizes()
	c.Min("writes-path", 4)
	c.Min("reads-path", 2)
	c.Min("stops-only-at-end", 4)
	c.Min("group-start", 2)
	c.Min("skips", 1)
	c.Min("sorted", 1)
}

func bufOp(f *ssa.Function) bool { return recvNamed(f) == "Buffer" }

// newWriter learns the writer's fields from its constructor.
func (k *nameRules) newWriter() bool {
	c := k.c
	f := c.Func("index", "NewPathWriter")
	if f == nil || len(f.Params) != 4 {
		c.Viol("anchor", "NewPathWriter", 0, "NewPathWriter is not as expected")
		return false
	}
	ps := params(f)
	r := c.Analyze(f, &eng.Config{Opaque: bufOp}, ps...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		data, index, ver, group, start := "", "", "", "", ""
		var zero []string
		last := ""
		for i := 0; i < k.ws.NumFields(); i++ {
			fn := k.ws.Field(i).Name()
			v := t.St.Load(eng.FieldAddr(t.Rets[0], k.ws, i), k.ws.Field(i).Type())
			switch {
			case v == ps[0]:
				data = fn
			case v == ps[1]:
				index = fn
			case v == ps[2]:
				ver = fn
			case v == ps[3]:
				group = fn
			case isCall(v, "(*"+idx+"Buffer).Offset") && v.Args[0] == ps[0]:
				start = fn
			case types.Identical(k.ws.Field(i).Type(), k.path):
				last = fn
				s := final(t.St, eng.FieldAddr(t.Rets[0], k.ws, i), k.paths, k.paths.Field(0).Name())
				c.Check(s == eng.Str(""), "new-writer", "last path", f.Pos(), "a new path writer starts with %s as the last path, not the empty one", s)
			case v == eng.Int(0):
				zero = append(zero, fn)
			}
		}
		ok := data != "" && index != "" && ver != "" && group != "" && start != "" && last != "" && len(zero) == 1
		if !c.Check(ok, "new-writer", "fields", f.Pos(), "a new path writer does not hold its two files, version, group size, the current offset in the data file, no path and a count of zero") {
			return false
		}
		k.data, k.index, k.ver, k.group, k.start, k.last, k.n = data, index, ver, group, start, last, zero[0]
	}
	return k.data != ""
}

// newReader learns the reader's fields from its constructor.
func (k *nameRules) newReader() bool {
	c := k.c
	f := c.Func("index", "NewPathReader")
	if f == nil || len(f.Params) != 3 {
		c.Viol("anchor", "NewPathReader", 0, "NewPathReader is not as expected")
		return false
	}
	ps := params(f)
	next := func(n string) bool { return isMethod(n, "PathReader", "Next") }
	type snap struct{ ver, data, limit, path string }
	var got snap
	r := c.Analyze(f, &eng.Config{
		Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "PathReader" && g.Name() == "Next" },
		Model: func(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
			var x snap
			obj := e.Args[0]
			for i := 0; i < k.rs.NumFields(); i++ {
				n := k.rs.Field(i).Name()
				v := s.Load(eng.FieldAddr(obj, k.rs, i), k.rs.Field(i).Type())
				switch {
				case v == ps[0]:
					x.ver = n
				case v == ps[1]:
					x.data = n
				case v == ps[2]:
					x.limit = n
				case types.Identical(k.rs.Field(i).Type(), k.path):
					if final(s, eng.FieldAddr(obj, k.rs, i), k.paths, k.paths.Field(0).Name()) == eng.Str("") {
						x.path = n
					}
				}
			}
			got = x
			return nil, false
		},
	}, ps...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n := 0
		for _, it := range pathItems(t.St) {
			if it.loop != nil {
				for _, e := range it.evs {
					if next(e.Name) {
						n += 2
					}
				}
			} else if next(it.ev.Name) && it.ev.Args[0] == t.Rets[0] {
				n++
			}
		}
		c.Check(n == 1, "new-reader", "first", f.Pos(), "a new path reader does not advance to its first path exactly once")
	}
	if !c.Check(got.ver != "" && got.data != "" && got.limit != "" && got.path != "", "new-reader", "fields", f.Pos(), "a new path reader does not start with the version, data and limit given and the empty path (found %+v)", got) {
		return false
	}
	k.rver, k.rdata, k.rlimit, k.rpth = got.ver, got.data, got.limit, got.path
	return true
}

// tokensOf checks what the buffer's methods write.
func (k *nameRules) tokensOf() { k.c.encodings("WriteVarint", "WriteString", "WriteByte") }

// encodings checks that methods of the buffer write their argument in the
// form their users assume.
func (c *Ctx) encodings(names ...string) {
	b := c.bufType()
	if b == nil {
		return
	}
	for _, name := range names {
		f := c.Func("index", "Buffer."+name)
		if f == nil {
			continue
		}
		x := eng.Sym("b", b.ptr)
		args := []*eng.Term{x}
		for _, p := range f.Params[1:] {
			args = append(args, eng.SymOf(p.Name(), p.Type()))
		}
		want := map[string]string{
			"WriteVarint": "uvarint " + args[1].String(),
			"WriteString": "all of " + args[1].String(),
			"Write":       "all of " + args[1].String(),
			"WriteByte":   args[1].String(),
		}[name]
		r := c.Analyze(f, &eng.Config{}, args...)
		for _, t := range r.Terms {
			if t.Kind != "return" || t.St.Implies(eng.Eq(eng.Mk("ld", "", b.fileT, b.fieldAddr(x, b.file)), eng.Nil, b.fileT)) {
				continue
			}
			it, _ := b.content(t.St, x, t.St.Load(b.fieldAddr(x, b.buf), b.buT))
			for len(it) > 0 && it[0] == "old" {
				it = it[1:]
			}
			for _, e := range t.St.Events(false) {
				// what was written to the file directly
				if strings.HasPrefix(e.Name, "(*os.File).Write") {
					x, _ := b.content(t.St, x, e.Args[1])
					if len(x) > 0 && x[0] != "old" {
						it = append(x, it...)
					}
				}
			}
			c.Check(strings.Join(it, "; ") == want, "encoding", "Buffer."+name, f.Pos(), "Buffer.%s writes %q for its argument, not %q", name, it, want)
		}
	}
}

// A token is a part of what is written to a file.
type token0 struct {
	kind string // uvarint, bytes, uint, trigram
	t    *eng.Term
	ev   *eng.Event
}

// tokenOf abstracts an operation on a buffer.
func tokenOf(e *eng.Event) (buf *eng.Term, toks []token0, ok bool) {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*"+idx+"Buffer).") {
		return nil, nil, false
	}
	buf = e.Args[0]
	switch e.Name[strings.LastIndex(e.Name, ".")+1:] {
	case "WriteVarint":
		return buf, []token0{{"uvarint", e.Args[1], e}}, true
	case "WriteUint":
		return buf, []token0{{"uint", e.Args[1], e}}, true
	case "WriteTrigram":
		return buf, []token0{{"trigram", e.Args[1], e}}, true
	case "WriteByte":
		if e.Args[1].Op == "int" {
			return buf, []token0{{"bytes", eng.Str(string([]byte{byte(e.Args[1].K)})), e}}, true
		}
		return buf, []token0{{"byte", e.Args[1], e}}, true
	case "WriteString", "Write":
		return buf, []token0{{"bytes", plainStr(e.Args[1]), e}}, true
	case "Offset", "Flush":
		return buf, nil, true
	}
	return buf, []token0{{"?" + e.Name, nil, e}}, true
}

// plainStr removes conversions between strings and byte slices.
func plainStr(t *eng.Term) *eng.Term {
	for t != eng.Nil && (t.Op == "convstr" || t.Op == "convbytes" || t.Op == "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func catParts(t *eng.Term) []*eng.Term {
	t = plainStr(t)
	if t.Op != "cat" {
		return []*eng.Term{t}
	}
	var out []*eng.Term
	for _, a := range t.Args {
		out = append(out, catParts(a)...)
	}
	return out
}

// joinTokens joins neighbouring strings.
func joinTokens(ts []token0) (out []token0) {
	for _, t := range ts {
		if t.kind == "bytes" && len(out) > 0 && out[len(out)-1].kind == "bytes" {
			out[len(out)-1].t = eng.Cat(out[len(out)-1].t, t.t)
			continue
		}
		out = append(out, t)
	}
	return out
}

func showTokens(ts []token0) string {
	var s []string
	for _, t := range ts {
		s = append(s, fmt.Sprintf("%s(%v)", t.kind, t.t))
	}
	return strings.Join(s, " ")
}

// shared reports whether the first a bytes of x and y are known to be the
// same in st: a is zero, or at most a loop's counter of equal bytes.
func shared(r *eng.Run, st *eng.State, a, x, y *eng.Term) bool {
	if st.Implies(eng.EqInt(a, eng.Int(0))) {
		return true
	}
	if !st.Implies(eng.Le(eng.Int(0), a)) {
		return false
	}
	at := func(s, i *eng.Term) *eng.Term { return eng.Mk("stridx", "", types.Typ[types.Uint8], s, i) }
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Sym.Typ == nil || !types.Identical(p.Sym.Typ, types.Typ[types.Int]) {
				continue
			}
			// The bytes before it are equal: none at first; each time around
			// it grows by one past an equal byte.
			for _, init := range []int64{0, -1} {
				if p.Init != eng.Int(init) || len(p.Backs) == 0 {
					continue
				}
				equal := func(s *eng.State, i *eng.Term) bool {
					return s.Implies(eng.Le(eng.AddK(i, 1), eng.Len(x))) &&
						s.Implies(eng.Le(eng.AddK(i, 1), eng.Len(y))) &&
						s.Implies(eng.Eq(at(x, i), at(y, i), types.Typ[types.Uint8]))
				}
				good := true
				here := eng.AddK(p.Sym, -init)
				for i, b := range p.Backs {
					if b != p.Sym {
						good = good && b == eng.AddK(p.Sym, 1) && equal(l.Backs[i], here)
					}
				}
				if good && (st.Implies(eng.Le(a, here)) || st.Implies(eng.Le(a, eng.AddK(here, 1))) && equal(st, here)) {
					return true
				}
			}
		}
	}
	return false
}

// write checks the path writer.
func (k *nameRules) write() {
	c := k.c
	f := c.Func("index", "PathWriter.Write")
	if f == nil {
		return
	}
	ps := params(f)
	w := ps[0]
	r := c.Analyze(f, &eng.Config{Opaque: bufOp, KeepFacts: true, Entries: 16}, ps...)
	in := func(n string) *eng.Term { return initial(w, k.ws, n) }
	p := eng.FieldVal(ps[1], k.paths, 0)
	data, index := in(k.data), in(k.index)
	lastA := fieldAddr(w, k.last)
	last := eng.Mk("ld", "", k.paths.Field(0).Type(), eng.FieldAddr(lastA, k.paths, 0))
	rem := eng.Bin(token.REM, in(k.n), in(k.group), types.Typ[types.Int])
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		var toks []token0
		var offs, entries []*eng.Event
		early := map[*eng.Event]bool{}
		first := map[*eng.Event]bool{}
		bad := ""
		for _, it := range pathItems(t.St) {
			evs := it.evs
			if it.ev != nil {
				evs = []*eng.Event{it.ev}
			}
			for _, e := range evs {
				b, ts, ok := tokenOf(e)
				if !ok {
					continue
				}
				if it.loop != nil && len(ts) > 0 {
					bad = "writes in a loop"
				}
				switch {
				case b == data && len(ts) == 0:
					if len(toks) == 0 {
						offs = append(offs, e)
						early[e] = true
					}
				case b == data:
					toks = append(toks, ts...)
				case b == index && len(ts) == 1 && ts[0].kind == "uint":
					entries = append(entries, e)
					first[e] = len(toks) == 0
				case b == index && len(ts) == 0:
				default:
					bad = "writes something unexpected: " + e.Name
				}
			}
		}
		toks = joinTokens(toks)
		ver := oneOrTwo(t.St, in(k.ver))
		cons := fmt.Sprintf("PathWriter.Write v%d", ver)
		if !c.Check(bad == "" && ver != 0, "writes-path", cons, f.Pos(), "Write %s", bad) {
			continue
		}
		noIndex := t.St.Implies(eng.Eq(index, eng.Nil, index.Typ))
		starts := true
		if ver == 1 {
			ok := len(toks) == 1 && toks[0].kind == "bytes" && toks[0].t == eng.Cat(p, eng.Str("\x00"))
			c.Check(ok, "writes-path", cons, f.Pos(), "Write writes %s, not the path and a zero byte", showTokens(toks))
		} else {
			ok := len(toks) >= 2 && len(toks) <= 3 && toks[0].kind == "uvarint" && toks[1].kind == "uvarint" && (len(toks) == 2 || toks[2].kind == "bytes")
			if !c.Check(ok, "writes-path", cons, f.Pos(), "Write writes %s, not the lengths of a shared prefix and of the rest, and the rest", showTokens(toks)) {
				continue
			}
			a := toks[0].t
			rest := eng.Str("")
			if len(toks) == 3 {
				rest = toks[2].t
			}
			wantRest := eng.Slice(p, a, eng.Len(p), nil, p.Typ)
			ok = rest == wantRest || rest == p && t.St.Implies(eng.EqInt(a, eng.Int(0))) || len(toks) == 2 && t.St.Implies(eng.EqInt(a, eng.Len(p)))
			c.Check(ok, "writes-path", cons+" rest", f.Pos(), "Write writes %s after a shared prefix of %s bytes, not the rest of the path", rest, a)
			c.Check(t.St.Implies(eng.EqInt(toks[1].t, eng.Sub(eng.Len(p), a))), "writes-path", cons+" length", f.Pos(), "Write gives %s as the length of the rest after a prefix of %s", toks[1].t, a)
			c.Check(shared(r, t.St, a, last, p), "prefix-shared", cons, f.Pos(), "Write leaves out the first %s bytes of the path without having compared them all with the last path", a)
			c.Check(t.St.Implies(eng.Le(a, eng.Len(last))) || t.St.Implies(eng.EqInt(a, eng.Int(0))), "prefix-shared", cons+" length", f.Pos(), "the prefix %s may be longer than the last path", a)
			// state for the next one
			nl := final(t.St, lastA, k.paths, k.paths.Field(0).Name())
			c.Check(nl == p, "remembers", cons+" last", f.Pos(), "after Write the last path is %s, not the one written", nl)
			nn := final(t.St, w, k.ws, k.n)
			c.Check(nn == eng.AddK(in(k.n), 1), "remembers", cons+" count", f.Pos(), "after Write the count of paths is %s", nn)
			switch {
			case t.St.Implies(eng.Le(in(k.group), eng.Int(0))):
				starts = len(entries) > 0 // not used with an index
			case t.St.Implies(eng.EqInt(rem, eng.Int(0))):
				c.Check(t.St.Implies(eng.EqInt(a, eng.Int(0))), "group-start", cons, f.Pos(), "at the start of a group Write may leave out a prefix of %s bytes", a)
			case t.St.Implies(eng.Not(eng.EqInt(rem, eng.Int(0)))):
				starts = false
			default:
				c.Viol("group-start", cons, f.Pos(), "Write does not decide whether a group starts here")
				continue
			}
		}
		if starts && !noIndex {
			ok := len(entries) == 1 && len(offs) >= 1 && first[entries[0]]
			if ok {
				ok = false
				for _, o := range offs {
					ok = ok || early[o] && entries[0].Args[1] == eng.Sub(o.Res, in(k.start))
				}
			}
			c.Check(ok, "group-start", cons+" entry", f.Pos(), "at the start of a group Write does not make exactly one index entry, the offset of the path from the start of the list")
		} else {
			c.Check(len(entries) == 0, "group-start", cons+" no entry", f.Pos(), "Write makes an index entry for a path that does not start a group")
		}
		for _, fn := range []string{k.data, k.index, k.ver, k.group, k.start} {
			v := final(t.St, w, k.ws, fn)
			c.Check(v == in(fn), "remembers", cons+" "+fn, f.Pos(), "Write changes %s", fn)
		}
	}
}

// owners checks that only the writer's own methods change it, and that only a
// path writer writes to the name files.
func (k *nameRules) owners() {
	c := k.c
	l := &layouts{c: c, fileRole: map[string]string{}}
	l.buf, _ = c.namedIn("Buffer")
	l.ixw, _ = c.namedIn("IndexWriter")
	if l.buf == nil || l.ixw == nil {
		return
	}
	l.tempFiles()
	for _, f := range c.P.Funcs() {
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if isPtrTo(fa.X.Type(), k.w) && recvNamed(f) != "PathWriter" && f.Name() != "NewPathWriter" {
						c.Viol("writer-owned", fnLabel(f), in.Pos(), "%s changes a path writer's fields", f)
					}
					if isPtrTo(fa.X.Type(), k.rd) && recvNamed(f) != "PathReader" && f.Name() != "NewPathReader" {
						n := k.rs.Field(fa.Field).Name()
						c.Check(n == k.rlimit && recvNamed(f) == "Index", "reader-owned", fnLabel(f)+" "+n, in.Pos(), "%s changes a path reader's %s", f, n)
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil || recvNamed(g) != "Buffer" || recvNamed(f) == "PathWriter" || len(in.Common().Args) == 0 {
						continue
					}
					u, ok := in.Common().Args[0].(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := u.X.(*ssa.FieldAddr)
					if !ok || !isPtrTo(fa.X.Type(), l.ixw) {
						continue
					}
					if ro := l.fileRole[l.ixw.Underlying().(*types.Struct).Field(fa.Field).Name()]; ro != "" && strings.HasPrefix(g.Name(), "Write") {
						c.Viol("writer-owned", fnLabel(f), in.Pos(), "%s writes to the file of the %s other than through the path writer", f, ro)
					}
				}
			}
		}
	}
}

// collect checks that Collect writes each path once, in order.
func (k *nameRules) collect() {
	c := k.c
	f := c.Func("index", "PathWriter.Collect")
	if f == nil {
		return
	}
	ps := params(f)
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "PathWriter" && g.Name() == "Write" }, KeepFacts: true}, ps...)
	cons := "PathWriter.Collect"
	n := 0
	for _, l := range r.Loops {
		if !l.Callback {
			continue
		}
		n++
		for _, b := range l.Backs {
			var ws []*eng.Event
			for _, e := range b.Events(true) {
				if isMethod(e.Name, "PathWriter", "Write") {
					ws = append(ws, e)
				}
			}
			ok := len(ws) == 1 && ws[0].Args[0] == ps[0] && len(l.Params) == 1 && ws[0].Args[1] == l.Params[0]
			c.Check(ok, "collect", cons, f.Pos(), "Collect does not write each path it is given exactly once")
		}
		c.Check(len(l.Backs) > 0, "collect", cons+" all", f.Pos(), "Collect does not go on to the next path")
		for _, e := range l.Exits {
			_ = e
		}
	}
	c.Check(n == 1, "collect", cons+" loop", f.Pos(), "Collect has %d loops over the paths", n)
	for _, t := range r.Terms {
		for _, e := range t.St.Events(false) {
			if isMethod(e.Name, "PathWriter", "Write") && t.Kind == "return" {
				c.Viol("collect", cons, f.Pos(), "Collect writes a path outside of its loop or stops early")
			}
		}
	}
}

// next checks the path reader.
func (k *nameRules) next() {
	c := k.c
	f := c.Func("index", "PathReader.Next")
	if f == nil {
		return
	}
	ps := params(f)
	rd := ps[0]
	r := c.Analyze(f, &eng.Config{KeepFacts: true}, ps...)
	in := func(n string) *eng.Term { return initial(rd, k.rs, n) }
	data, limit := in(k.rdata), in(k.rlimit)
	pathA := fieldAddr(rd, k.rpth)
	old := eng.Mk("ld", "", k.paths.Field(0).Type(), eng.FieldAddr(pathA, k.paths, 0))
	num := types.Typ[types.Uint64]
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		ver := oneOrTwo(t.St, in(k.rver))
		cons := fmt.Sprintf("PathReader.Next v%d", ver)
		st := t.St
		path := final(st, pathA, k.paths, k.paths.Field(0).Name())
		nd := final(st, rd, k.rs, k.rdata)
		nl := final(st, rd, k.rs, k.rlimit)
		// what was decoded, in order
		var dec []*eng.Event
		var zero *eng.Term
		for _, e := range st.Events(false) {
			switch {
			case e.Kind != "call":
			case e.Name == "encoding/binary.Uvarint":
				dec = append(dec, e)
			case (e.Name == "bytes.IndexByte" || e.Name == "bytes.Index") && e.Args[0] == data:
				if e.Args[1] == eng.Int(0) {
					zero = e.Res
				}
			}
		}
		cut := func(off *eng.Term) *eng.Term { return eng.Slice(data, off, eng.Len(data), nil, data.Typ) }
		pos := eng.Int(0)
		var vals, wid []*eng.Term
		good := true
		for _, e := range dec {
			if e.Args[0] != cut(pos) && !(pos == eng.Int(0) && e.Args[0] == data) {
				good = false
				break
			}
			vals = append(vals, eng.Extract(e.Res, 0, num))
			wid = append(wid, eng.Extract(e.Res, 1, types.Typ[types.Int]))
			pos = eng.Add(pos, wid[len(wid)-1])
		}
		if !c.Check(good, "reads-path", cons+" order", f.Pos(), "Next decodes numbers other than one after the other from the start of the data") {
			continue
		}
		ret := t.Rets[0]
		switch {
		case ret == eng.True:
			if !c.Check(ver != 0, "reads-path", cons, f.Pos(), "Next reads a path without regard to the version") {
				continue
			}
			if ver == 1 {
				ok := zero != nil && plainStr(path) == eng.Slice(data, eng.Int(0), zero, nil, data.Typ) && nd == cut(eng.AddK(zero, 1))
				c.Check(ok, "reads-path", cons, f.Pos(), "Next does not take the bytes before the first zero byte as the path and go on behind it")
				c.Check(zero != nil && st.Implies(eng.Lt(eng.Int(0), zero)), "valid-nonempty", cons, f.Pos(), "Next accepts an empty path")
			} else {
				ok := len(vals) == 2
				if ok {
					end := eng.Add(pos, vals[1])
					parts := catParts(path)
					ok = nd == cut(end) && len(parts) == 2 && parts[0] == eng.Slice(old, eng.Int(0), vals[0], nil, old.Typ) && parts[1] == eng.Slice(data, pos, end, nil, data.Typ)
				}
				c.Check(ok, "reads-path", cons, f.Pos(), "Next does not make the path of the prefix of the last one and the bytes that follow the two lengths, and go on behind them")
			}
			ok := nl == limit && st.Implies(eng.Lt(limit, eng.Int(0))) || nl == eng.AddK(limit, -1) && st.Implies(eng.Lt(eng.Int(0), limit))
			c.Check(ok, "counts-limit", cons, f.Pos(), "reading a path changes the limit from %s to %s", limit, nl)
		case ret == eng.False:
			c.Check(path == eng.Str(""), "stops-only-at-end", cons+" invalid", f.Pos(), "Next reports the end but leaves the reader valid, with %s", path)
			ok := st.Implies(eng.EqInt(limit, eng.Int(0)))
			if zero != nil && ver == 1 {
				ok = ok || st.Implies(eng.Le(zero, eng.Int(0)))
			}
			if ver == 2 {
				if len(wid) > 0 {
					ok = ok || st.Implies(eng.Le(wid[0], eng.Int(0)))
					ok = ok || st.Implies(eng.Lt(eng.Len(old), vals[0]))
				}
				if len(wid) > 1 {
					left := eng.Sub(eng.Len(data), pos)
					ok = ok || st.Implies(eng.Le(wid[1], eng.Int(0)))
					ok = ok || st.Implies(eng.Lt(left, vals[1])) || st.Implies(eng.Lt(eng.Conv(left, types.Typ[types.Int], num), vals[1]))
				}
			}
			c.Check(ok, "stops-only-at-end", cons, f.Pos(), "Next reports the end of the list although neither the limit was reached nor the data ended or made no sense (under %v)", lastFacts(st, 3))
		default:
			c.Viol("reads-path", cons, f.Pos(), "what Next returns is not decided: %s", ret)
		}
		v := final(st, rd, k.rs, k.rver)
		c.Check(v == in(k.rver), "reads-path", cons+" version", f.Pos(), "Next changes the version")
	}
}

func lastFacts(st *eng.State, n int) []*eng.Term {
	if len(st.Facts) < n {
		return st.Facts
	}
	return st.Facts[len(st.Facts)-n:]
}

// observers checks Valid and Path.
func (k *nameRules) observers() {
	c := k.c
	for _, name := range []string{"Valid", "Path"} {
		f := c.Func("index", "PathReader."+name)
		if f == nil {
			continue
		}
		ps := params(f)
		r := c.Analyze(f, &eng.Config{}, ps...)
		old := eng.Mk("ld", "", k.paths.Field(0).Type(), eng.FieldAddr(fieldAddr(ps[0], k.rpth), k.paths, 0))
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			if name == "Path" {
				v := eng.FieldVal(t.Rets[0], k.paths, 0)
				c.Check(v == old, "observer", "PathReader.Path", f.Pos(), "Path returns %s, not the current path", v)
				continue
			}
			want := eng.Not(eng.Eq(old, eng.Str(""), old.Typ))
			v := t.Rets[0]
			ok := v == want || v == eng.Lt(eng.Int(0), eng.Len(old)) || v == eng.Not(eng.EqInt(eng.Len(old), eng.Int(0)))
			if v == eng.True {
				ok = t.St.Implies(want) || t.St.Implies(eng.Lt(eng.Int(0), eng.Len(old)))
			}
			if v == eng.False {
				ok = t.St.Implies(eng.Not(want)) || t.St.Implies(eng.EqInt(eng.Len(old), eng.Int(0)))
			}
			c.Check(ok, "observer", "PathReader.Valid", f.Pos(), "Valid returns %s, not whether there is a current path", v)
		}
	}
}

// all checks the iteration over a reader's paths.
func (k *nameRules) all() {
	c := k.c
	f := c.Func("index", "PathReader.All")
	if f == nil {
		return
	}
	if !c.Check(len(f.AnonFuncs) == 1, "iterates", "PathReader.All", f.Pos(), "All does not return one function") {
		return
	}
	g := f.AnonFuncs[0]
	isNext := func(e *eng.Event) bool { return e.Kind == "call" && isMethod(e.Name, "PathReader", "Next") }
	isYield := func(e *eng.Event) bool {
		return e.Kind == "call" && e.Name == "" && len(e.Args) > 0 || e.Kind == "call" && strings.HasPrefix(e.Name, "dyn")
	}
	pathOf := func(st *eng.State, rd *eng.Term) *eng.Term {
		return final(st, fieldAddr(rd, k.rpth), k.paths, k.paths.Field(0).Name())
	}
	valid := func(path *eng.Term) *eng.Term { return eng.Not(eng.Eq(path, eng.Str(""), path.Typ)) }
	var rd *eng.Term
	for _, fv := range g.FreeVars {
		if t := fv.Type(); isPtrTo(t, k.rd) {
			rd = eng.SymOf(fv.Name(), t)
		} else if p, ok := t.(*types.Pointer); ok && isPtrTo(p.Elem(), k.rd) {
			rd = eng.Mk("ld", "", p.Elem(), eng.SymOf(fv.Name(), t))
		}
	}
	r := c.Analyze(g, &eng.Config{
		Opaque:    func(h *ssa.Function) bool { return recvNamed(h) == "PathReader" && h.Name() == "Next" },
		KeepFacts: true,
		// Next gives a new path, and reports whether there is one.
		Model: func(st *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
			rd = e.Args[0]
			fa := eng.FieldAddr(fieldAddr(rd, k.rpth), k.paths, 0)
			p := eng.Mk("opaque", "path:"+lbl, k.paths.Field(0).Type())
			st.Set(fa, p)
			return valid(p), true
		},
		Auto: func(st *eng.State, e *eng.Event) string {
			a := st.Auto
			if a == "" {
				a = "s"
			}
			switch {
			case strings.HasPrefix(a, "x:"):
			case isNext(e):
				if a == "y" {
					return "n"
				}
				return "x:advances over a path that was not shown"
			case isYield(e):
				if a == "s" || a == "n" {
					return "y"
				}
				return "x:shows a path twice"
			}
			return a
		},
	})
	cons := "PathReader.All"
	if !c.Check(rd != nil, "iterates", cons, g.Pos(), "the iteration does not advance the reader") {
		return
	}
	// holds: the condition, which is about the state itself, is implied by
	// what a loop remembers of it.
	var pathPhi *eng.Phi
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Addr != nil && p.Addr == eng.FieldAddr(fieldAddr(rd, k.rpth), k.paths, 0) {
				pathPhi = p
			}
		}
	}
	tracks := func(p *eng.Phi) bool {
		if pathPhi == nil || p.Addr != nil || p.Init != valid(pathPhi.Init) || len(p.Backs) != len(pathPhi.Backs) {
			return false
		}
		for i, b := range p.Backs {
			if b != valid(pathPhi.Backs[i]) {
				return false
			}
		}
		return true
	}
	isValid := func(st *eng.State, want bool) bool {
		path := pathOf(st, rd)
		lit := valid(path)
		alt := eng.Lt(eng.Int(0), eng.Len(path))
		if !want {
			lit, alt = eng.Not(lit), eng.Not(alt)
		}
		if st.Implies(lit) || st.Implies(alt) {
			return true
		}
		if pathPhi == nil || path != pathPhi.Sym {
			return false
		}
		for _, l := range r.Loops {
			for _, p := range l.Phis {
				if tracks(p) && (want && st.Implies(p.Sym) || !want && st.Implies(eng.Not(p.Sym))) {
					return true
				}
			}
		}
		return false
	}
	// wanted: a loop's variable that says whether the last yield asked for
	// more.
	var wanted *eng.Term
	for _, l := range r.Loops {
		for _, p := range l.Phis {
			if p.Addr != nil || p.Init != eng.True || len(p.Backs) == 0 {
				continue
			}
			ok := true
			for i, b := range p.Backs {
				var y *eng.Event
				for _, e := range l.Backs[i].Events(true) {
					if isYield(e) {
						y = e
					}
				}
				ok = ok && y != nil && b == y.Res
			}
			if ok {
				wanted = p.Sym
			}
		}
	}
	check := func(st *eng.State, evs []*eng.Event, end bool) {
		if strings.HasPrefix(st.Auto, "x:") {
			c.Viol("iterates", cons, g.Pos(), "the iteration %s", st.Auto[2:])
		}
		var yield *eng.Event
		for _, e := range evs {
			if isYield(e) {
				c.Check(yield == nil || st.Implies(yield.Res), "iterates", cons+" goes on", g.Pos(), "the iteration goes on although no more paths are wanted")
				yield = e
			}
		}
		if end {
			ok := isValid(st, false) || yield != nil && st.Implies(eng.Not(yield.Res)) || wanted != nil && st.Implies(eng.Not(wanted))
			c.Check(ok, "iterates", cons+" end", g.Pos(), "the iteration ends although more paths are wanted and there is one")
		} else {
			ok := yield == nil || st.Implies(yield.Res) || wanted != nil
			c.Check(ok, "iterates", cons+" goes on", g.Pos(), "the iteration goes on although no more paths are wanted")
		}
	}
	yields := 0
	for _, e := range r.Events {
		if !isYield(e) {
			continue
		}
		yields++
		v := e.Args[len(e.Args)-1]
		ok := e.St != nil && eng.FieldVal(v, k.paths, 0) == pathOf(e.St, rd)
		c.Check(ok, "iterates", cons+" path", g.Pos(), "the iteration shows something other than the current path")
		c.Check(ok && isValid(e.St, true), "iterates", cons+" valid", g.Pos(), "the iteration shows a path although there is none")
		if wanted != nil {
			c.Check(e.St != nil && e.St.Implies(wanted), "iterates", cons+" goes on", g.Pos(), "the iteration goes on although no more paths are wanted")
		}
	}
	for _, l := range r.Loops {
		for _, b := range l.Backs {
			check(b, b.Events(true), false)
		}
	}
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		check(t.St, t.St.Events(false), true)
	}
	c.Check(n > 0 && len(r.Loops) == 1 && yields > 0, "iterates", cons+" loop", g.Pos(), "the iteration over a reader's paths is not one loop")
}

// indexRoles names the fields of an opened index by their place in the
// trailer.
func (c *Ctx) indexRoles() map[string]string {
	out := map[string]string{}
	names := []string{"", "posting index", "name index", "number of posts", "posts", "number of names", "names", "number of roots", "roots"}
	for _, o := range c.opens() {
		if o.ver != 2 {
			continue
		}
		for f, s := range o.slots {
			if s.width == 8 && s.back < int64(len(names)) {
				out[names[s.back]] = f
			}
		}
	}
	return out
}

// namesAt checks random access to the names.
func (k *nameRules) namesAt() {
	c := k.c
	f := c.Func("index", "Index.NamesAt")
	if f == nil || len(f.Params) != 3 {
		return
	}
	roles := c.indexRoles()
	for _, ro := range []string{"names", "name index", "number of names"} {
		if roles[ro] == "" {
			c.Viol("anchor", ro, 0, "Open does not set the %s", ro)
			return
		}
	}
	ixs := k.ix.Underlying().(*types.Struct)
	ps := params(f)
	ix, lo, hi := ps[0], ps[1], ps[2]
	fld := func(ro string) *eng.Term { return initial(ix, ixs, roles[ro]) }
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool {
		return recvNamed(g) == "PathReader" || g.Name() == "NewPathReader" || recvNamed(g) == "Index" && hasResultType(g, "[]byte")
	}, KeepFacts: true, Init: func(st *eng.State) {
		st.Assume(eng.Le(eng.Int(0), lo)) // a number
	}}, ps...)
	nInt := types.Typ[types.Int]
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := t.St
		if v := initial(ix, ixs, "version"); v != nil && st.Decide(eng.EqInt(v, eng.Int(1))) == eng.False && st.Decide(eng.EqInt(v, eng.Int(2))) == eng.False {
			continue // Open sets no other version
		}
		ret := t.Rets[0]
		if !c.Check(isCall(ret, idx+"NewPathReader"), "names-at", "reader", f.Pos(), "NamesAt returns %s, not a new path reader", ret) {
			continue
		}
		vArg, data, limit := ret.Args[0], ret.Args[1], ret.Args[2]
		skips, skipped := eng.Int(0), true
		for _, it := range pathItems(st) {
			if it.ev != nil {
				if isMethod(it.ev.Name, "PathReader", "Next") {
					skips = eng.AddK(skips, 1)
				}
				continue
			}
			n, ok := repeats(r, st, it.loop, func(e *eng.Event) bool { return isMethod(e.Name, "PathReader", "Next") })
			skipped = skipped && ok
			if ok && n != nil {
				skips = eng.Add(skips, n)
			}
		}
		if data == eng.Nil || limit == eng.Int(0) {
			c.Check(st.Implies(eng.Le(fld("number of names"), lo)) || st.Implies(eng.Le(hi, lo)), "names-at", "empty", f.Pos(), "NamesAt returns an empty reader although there may be names in the range")
			continue
		}
		ver := versionOf(st, k.ix)
		cons := fmt.Sprintf("NamesAt v%d", ver)
		if !c.Check(ver != 0 && oneOrTwo(st, vArg) == ver || vArg == initial(ix, ixs, "version"), "names-at", cons, f.Pos(), "NamesAt reads names without regard to the version") {
			continue
		}
		// the table entry
		c.Check(st.Implies(eng.Lt(lo, fld("number of names"))), "names-at", cons+" exists", f.Pos(), "NamesAt looks up a name beyond the number of names")
		var start *eng.Term
		if isSliceCall(data) {
			start = data.Args[1]
		}
		if !c.Check(start != nil, "names-at", cons+" data", f.Pos(), "the names are not read from a part of the index data: %s", data) {
			continue
		}
		entry := eng.Sub(start, fld("names"))
		d, at, w, ok := number(st, entry)
		if ok && isSliceCall(d) {
			at = eng.Add(d.Args[1], at)
		} else {
			d2, at2, w2, ok2 := numberCall(entry)
			d, at, w, ok = d2, at2, w2, ok2
		}
		_ = d
		if !c.Check(ok, "names-at", cons+" entry", f.Pos(), "the names are read from %s, which is not the start of the names plus an entry of the name index", start) {
			continue
		}
		at = eng.Sub(at, fld("name index"))
		if ver == 1 {
			c.Check(at == eng.MulK(lo, w), "names-at", cons+" position", f.Pos(), "the entry of name %s is looked up at %s of the name index", lo, at)
			c.Check(limit == eng.Sub(hi, lo), "names-at", cons+" limit", f.Pos(), "reading names %s to %s is limited to %s names", lo, hi, limit)
			c.Check(skipped && st.Implies(eng.EqInt(skips, eng.Int(0))), "skips", cons, f.Pos(), "NamesAt skips %s names", skips)
			continue
		}
		// at == width * (lo/G)
		g := int64(0)
		if at.Op == "lin" && len(at.Args) == 1 && at.Coef[0] == w && at.K == 0 && at.Args[0].Op == "quo" && at.Args[0].Args[0] == lo && at.Args[0].Args[1].Op == "int" {
			g = at.Args[0].Args[1].K
		}
		if !c.Check(g > 0, "names-at", cons+" position", f.Pos(), "the group of name %s is looked up at %s of the name index", lo, at) {
			continue
		}
		k.groups[g] = f.Pos()
		rem := eng.Bin(token.REM, lo, eng.Int(g), nInt)
		c.Check(limit == eng.Add(eng.Sub(hi, lo), rem) || st.Implies(eng.EqInt(limit, eng.Add(eng.Sub(hi, lo), rem))), "names-at", cons+" limit", f.Pos(), "reading names %s to %s from the start of the group is limited to %s names", lo, hi, limit)
		c.Check(skipped && (skips == rem || skips == eng.Int(0) && st.Implies(eng.Le(rem, eng.Int(0))) || st.Implies(eng.EqInt(skips, rem))), "skips", cons, f.Pos(), "NamesAt skips %s names before the first, not the %s that precede it in its group", skips, rem)
	}
}

// hasResultType reports whether g returns just a value of the type.
func hasResultType(g *ssa.Function, typ string) bool {
	r := g.Signature.Results()
	return r.Len() == 1 && types.TypeString(r.At(0).Type(), nil) == typ
}

// isSliceCall recognises a part of the index's data.
func isSliceCall(t *eng.Term) bool {
	return t.Op == "call" && strings.HasPrefix(t.Aux, "(*"+idx+"Index).") && len(t.Args) >= 2
}

// sliceCallAt recognises a part of the index data, perhaps cut down, and
// gives the index, its start and its length as asked for.
func sliceCallAt(t *eng.Term) (ix, start, n *eng.Term, ok bool) {
	cut := eng.Int(0)
	for t.Op == "slice" && isSliceCall(t.Args[0]) {
		cut = eng.Add(cut, t.Args[1])
		t = t.Args[0]
	}
	if !isSliceCall(t) || len(t.Args) < 3 {
		return
	}
	return t.Args[0], eng.Add(t.Args[1], cut), t.Args[2], true
}

// numberCall recognises a number read from a part of the index data got from
// a function, plus nothing.
func numberCall(t *eng.Term) (d, at *eng.Term, w int64, ok bool) {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	switch {
	case isCall(t, "(encoding/binary.bigEndian).Uint64"):
		w = 8
	case isCall(t, "(encoding/binary.bigEndian).Uint32"):
		w = 4
	default:
		return
	}
	s := t.Args[len(t.Args)-1]
	if !isSliceCall(s) {
		return
	}
	return s, s.Args[1], w, true
}

// repeats says how often a counting loop that st has left performed the
// operation in whole iterations (nil, if the loop does not perform it).
func repeats(r *eng.Run, st *eng.State, l *eng.Loop, op func(*eng.Event) bool) (n *eng.Term, ok bool) {
	any := false
	for _, e := range loopEvents(l, map[*eng.Loop]bool{}) {
		any = any || op(e)
	}
	if !any {
		return nil, true
	}
	for _, b := range l.Backs {
		k := 0
		for _, e := range b.Events(true) {
			if op(e) {
				k++
			}
		}
		if k != 1 {
			return nil, false
		}
	}
	for _, p := range l.Phis {
		up, down := len(p.Backs) > 0, len(p.Backs) > 0
		for _, b := range p.Backs {
			up = up && b == eng.AddK(p.Sym, 1)
			down = down && b == eng.AddK(p.Sym, -1)
		}
		if up {
			return eng.Sub(p.Sym, p.Init), true
		}
		if down {
			return eng.Sub(p.Init, p.Sym), true
		}
	}
	return nil, false
}

// names checks Names: a range of names.
func (k *nameRules) names() {
	c := k.c
	f := c.Func("index", "Index.Names")
	if f == nil || len(f.Params) != 3 {
		return
	}
	ps := params(f)
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool {
		return recvNamed(g) == "PathReader" || recvNamed(g) == "Index" && g != f
	}, KeepFacts: true, Model: func(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
		// the operations used do not change the reader
		return nil, fn != nil && (fn.Name() == "Valid" || fn.Name() == "All" || fn.Name() == "NamesAt") && false
	}}, ps...)
	cons := "Index.Names"
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		ret := t.Rets[0]
		ok := isCall(ret, "(*"+idx+"PathReader).All") && isCall(ret.Args[0], "(*"+idx+"Index).NamesAt")
		if !c.Check(ok, "names", cons, f.Pos(), "Names does not iterate over the reader of the names from its first number on: %s", ret) {
			continue
		}
		at := ret.Args[0]
		ok = len(at.Args) == 3 && at.Args[0] == ps[0] && at.Args[1] == ps[1] && at.Args[2] == ps[2]
		c.Check(ok, "names", cons+" range", f.Pos(), "Names reads %s instead of the names of its range", at)
	}
	// A store to the limit leaves what the range leaves after its first name.
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !isPtrTo(fa.X.Type(), k.rd) {
				continue
			}
			x, ok := s.Val.(*ssa.BinOp)
			good := false
			if ok && x.Op == token.SUB {
				y, ok1 := x.X.(*ssa.BinOp)
				one, ok2 := x.Y.(*ssa.Const)
				good = ok1 && ok2 && one.Int64() == 1 && y.Op == token.SUB && y.X == f.Params[2] && y.Y == f.Params[1]
			}
			c.Check(good, "names", cons+" limit", s.Pos(), "Names sets the number of names left after the first one to something other than the length of the range less one")
		}
	}
}

// name checks Name: one name.
func (k *nameRules) name() {
	c := k.c
	f := c.Func("index", "Index.Name")
	if f == nil || len(f.Params) != 2 {
		return
	}
	ps := params(f)
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool {
		return recvNamed(g) == "PathReader" || recvNamed(g) == "Index" && g != f
	}}, ps...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		ret := t.Rets[0]
		ok := isCall(ret, "(*"+idx+"PathReader).Path") && isCall(ret.Args[0], "(*"+idx+"Index).NamesAt")
		if ok {
			at := ret.Args[0]
			k1, ok1 := eng.DiffConst(at.Args[2], ps[1])
			if !ok1 {
				k1, ok1 = eng.DiffConst(ps[1], at.Args[2])
				k1 = -k1
			}
			ok = at.Args[0] == ps[0] && at.Args[1] == ps[1] && t.St.Implies(eng.Lt(ps[1], at.Args[2]))
			_, _ = k1, ok1
		}
		c.Check(ok, "name", "Index.Name", f.Pos(), "Name does not return the first of the names from its number on: %s", ret)
	}
}

// addName checks how names get their number.
func (k *nameRules) addName() {
	c := k.c
	ixw, ixs := c.namedIn("IndexWriter")
	if ixw == nil {
		return
	}
	cnt := c.counterField("IndexWriter", func(f *ssa.Function) bool { return callsMethod(f, "PathWriter", "Write") })
	if cnt == "" {
		return
	}
	n := 0
	for _, f := range c.P.Funcs() {
		if recvNamed(f) != "IndexWriter" || !callsMethod(f, "PathWriter", "Write") {
			continue
		}
		// Those that write to the writer of the file names.
		ps := params(f)
		r := c.Analyze(f, &eng.Config{Opaque: storageOpaque, KeepFacts: true, Model: func(s *eng.State, e *eng.Event, fn *ssa.Function, lbl string) (*eng.Term, bool) {
			// the path writer does not know the index writer
			return e.Res, recvNamed(fn) == "PathWriter"
		}}, ps...)
		onNames := func(e *eng.Event) bool {
			if e == nil || !isMethod(e.Name, "PathWriter", "Write") {
				return false
			}
			w := e.Args[0]
			return w.Op == "ld" && w.Args[0].Op == "field" && isPtrTo(typOf(w.Args[0].Args[0]), ixw)
		}
		uses := false
		for _, e := range r.Events {
			uses = uses || onNames(e)
		}
		if !uses {
			continue
		}
		if f.Signature.Results().Len() == 0 && len(f.Params) == 1 {
			continue // Flush, which calls the function below
		}
		n++
		var nameP *eng.Term
		for _, p := range ps[1:] {
			if types.Identical(p.Typ, k.path) || p.Op == "struct" {
				nameP = p
			}
		}
		cons := fnLabel(f)
		if !c.Check(nameP != nil && f.Signature.Results().Len() == 1, "numbers", cons, f.Pos(), "%s does not take a path and return its number", f) {
			continue
		}
		old := initial(ps[0], ixs, cnt)
		// the last name
		lastF := ""
		for i := 0; i < ixs.NumFields(); i++ {
			if types.Identical(ixs.Field(i).Type(), k.path) {
				lastF = ixs.Field(i).Name()
			}
		}
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			ws := 0
			var arg *eng.Term
			for _, it := range pathItems(t.St) {
				if it.loop != nil {
					for _, e := range it.evs {
						if onNames(e) {
							ws += 2
						}
					}
				} else if onNames(it.ev) {
					ws++
					arg = it.ev.Args[1]
				}
			}
			str := eng.FieldVal(nameP, k.paths, 0)
			c.Check(ws == 1 && arg != nil && eng.FieldVal(arg, k.paths, 0) == str, "numbers", cons+" written", f.Pos(), "%s does not write the name it is given exactly once", f)
			c.Check(t.Rets[0] == old, "numbers", cons+" number", f.Pos(), "%s returns %s as the number of the name, not the number of names before it", f, t.Rets[0])
			nw := final(t.St, ps[0], ixs, cnt)
			c.Check(nw == eng.AddK(old, 1), "numbers", cons+" count", f.Pos(), "%s leaves %s as the number of names", f, nw)
			l := &layouts{c: c}
			if l.versionIn(t.St) == 1 {
				continue
			}
			// Version 2: the name has been compared.
			c.Check(lastF != "", "sorted", cons+" last", f.Pos(), "%s has no last name to compare with", f)
			if lastF == "" {
				continue
			}
			lastA := fieldAddr(ps[0], lastF)
			last := eng.Mk("ld", "", k.paths.Field(0).Type(), eng.FieldAddr(lastA, k.paths, 0))
			sorted, nonempty := false, false
			for _, fc := range t.St.Facts {
				fc.Walk(func(x *eng.Term) bool {
					if x.Op == "call" && isMethod(x.Aux, "Path", "Compare") && len(x.Args) == 2 {
						a, b := eng.FieldVal(x.Args[0], k.paths, 0), eng.FieldVal(x.Args[1], k.paths, 0)
						if a == str && b == last && t.St.Implies(eng.Lt(eng.Int(0), x)) || a == last && b == str && t.St.Implies(eng.Lt(x, eng.Int(0))) {
							sorted = true
						}
					}
					if x.Op == "call" && isMethod(x.Aux, "Path", "String") && eng.FieldVal(x.Args[0], k.paths, 0) == str {
						nonempty = nonempty || t.St.Implies(eng.Not(eng.Eq(x, eng.Str(""), x.Typ))) || t.St.Implies(eng.Lt(eng.Int(0), eng.Len(x)))
					}
					return true
				})
			}
			nonempty = nonempty || t.St.Implies(eng.Not(eng.Eq(str, eng.Str(""), str.Typ))) || t.St.Implies(eng.Lt(eng.Int(0), eng.Len(str)))
			// The empty path is not greater than any.
			nonempty = nonempty || sorted
			c.Check(sorted, "sorted", cons, f.Pos(), "%s accepts a name without having found it greater than the last one", f)
			c.Check(nonempty, "sorted", cons+" nonempty", f.Pos(), "%s accepts an empty name", f)
			nl := final(t.St, lastA, k.paths, k.paths.Field(0).Name())
			c.Check(nl == str, "sorted", cons+" remembered", f.Pos(), "%s leaves %s as the last name, not the one it added", f, nl)
		}
	}
	c.Check(n == 1, "numbers", "IndexWriter", 0, "%d functions add names to the index", n)
}

// numbers checks that the entries of a file carry the number its name got.
func (k *nameRules) numbers() {
	c := k.c
	ixw, _ := c.namedIn("IndexWriter")
	if ixw == nil {
		return
	}
	adder := func(g *ssa.Function) bool {
		return recvNamed(g) == "IndexWriter" && g.Signature.Results().Len() == 1 && callsMethod(g, "PathWriter", "Write")
	}
	isAdder := func(name string) bool {
		name, _, _ = strings.Cut(name, "@")
		g := fnNamed(c, name)
		return g != nil && adder(g)
	}
	maker := func(g *ssa.Function) bool {
		if fnPkg(g) == nil || fnPkg(g).Path() != load.Module+"/index" || g.Signature.Recv() != nil {
			return false
		}
		r := g.Signature.Results()
		return r.Len() == 1 && strings.HasSuffix(types.TypeString(r.At(0).Type(), nil), ".postEntry")
	}
	n := 0
	for _, f := range c.P.Funcs() {
		if recvNamed(f) != "IndexWriter" || !callsMethod(f, "IndexWriter", adderNames(c, adder)...) {
			continue
		}
		r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return adder(g) || maker(g) || storageOpaque(g) }, Interest: func(e *eng.Event) bool { return e.Kind == "call" }, Join: 4})
		makes := 0
		for _, e := range r.Events {
			if e.Kind != "call" {
				continue
			}
			g := fnNamed(c, e.Name)
			if g == nil || !maker(g) {
				continue
			}
			makes++
			id := e.Args[1]
			src := leaves(r, id)
			ok := len(src) > 0
			for _, s := range src {
				ok = ok && s.Op == "call" && strings.HasPrefix(s.Aux, "(*"+idx+"IndexWriter).") && isAdder(s.Aux)
			}
			c.Check(ok, "number-used", fnLabel(f), e.Instr.Pos(), "the posting entries of a file carry %s as the file's number, not the number its name was given", id)
		}
		if makes == 0 {
			continue
		}
		n++
		// The name is the file's, once for a file.
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			adds := 0
			for _, it := range pathItems(t.St) {
				evs := it.evs
				w := 2
				if it.ev != nil {
					evs, w = []*eng.Event{it.ev}, 1
				}
				for _, e := range evs {
					if g := fnNamed(c, e.Name); e.Kind == "call" && g != nil && adder(g) {
						adds += w
						nm := e.Args[1]
						for isCall(nm, idx+"MakePath") {
							nm = nm.Args[0]
						}
						if nm.Op == "struct" {
							nm = nm.Args[0]
						}
						c.Check(nm == eng.SymOf(f.Params[1].Name(), f.Params[1].Type()), "number-used", fnLabel(f)+" name", e.Instr.Pos(), "a file is entered under the name %s", nm)
					}
				}
			}
			c.Check(adds <= 1, "number-used", fnLabel(f)+" once", f.Pos(), "%s may add more than one name for a file", f)
		}
	}
	c.Check(n >= 1, "number-used", "IndexWriter", 0, "no function makes posting entries of a named file")
}

func adderNames(c *Ctx, is func(*ssa.Function) bool) (out []string) {
	for _, f := range c.P.Funcs() {
		if is(f) {
			out = append(out, f.Name())
		}
	}
	return out
}

// fnNamed finds a function by its full name.
func fnNamed(c *Ctx, name string) *ssa.Function {
	for _, f := range c.P.Funcs() {
		if f.Parent() == nil && fullName(f) == name {
			return f
		}
	}
	return nil
}

// groupSizes compares the group sizes of writers with an index and of readers.
func (k *nameRules) groupSizes() {
	c := k.c
	n := 0
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || fullName(g) != idx+"NewPathWriter" {
					continue
				}
				a := ci.Common().Args
				if x, ok := a[1].(*ssa.Const); ok && x.IsNil() {
					// A list without an index is read from the start.
					continue
				}
				n++
				x, ok := a[3].(*ssa.Const)
				if !c.Check(ok, "group-size", fnLabel(f), ci.Pos(), "the group size of the names written by %s is not a constant", f) {
					continue
				}
				k.groups[x.Int64()] = ci.Pos()
			}
		}
	}
	c.Check(len(k.groups) == 1, "group-size", "writers and readers", 0, "writers and readers of names do not use the same group size: %v", sortedInts(k.groups))
	c.Check(n >= 2, "group-size", "writers", 0, "%d writers of names with an index", n)
}

func sortedInts(m map[int64]token.Pos) (out []int64) {
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}
