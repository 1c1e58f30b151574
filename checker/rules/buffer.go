package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// bufType describes the buffered writer of package index: the struct with an
// *os.File, a byte slice and a file offset.
type bufType struct {
	named           *types.Named
	st              *types.Struct
	file, buf, off  int
	methods         []*ssa.Function
	users           []*ssa.Function // other functions that read the file field
	ptr             types.Type
	fileT, buT, ofT types.Type
}

func (c *Ctx) bufType() *bufType {
	sp := c.P.SPkg["index"]
	if sp == nil {
		c.Viol("anchor", "index", 0, "no package index")
		return nil
	}
	g := graphOf(c.P)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		st, ok := t.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		b := &bufType{st: st, file: -1, buf: -1, off: -1}
		for i := 0; i < st.NumFields(); i++ {
			switch types.TypeString(st.Field(i).Type(), nil) {
			case "*os.File":
				b.file = i
			case "[]byte":
				if b.buf < 0 {
					b.buf = i
				}
			case "int64", "int":
				if b.off < 0 {
					b.off = i
				}
			}
		}
		if b.file < 0 || b.buf < 0 || b.off < 0 {
			continue
		}
		b.named = t.Type().(*types.Named)
		b.ptr = types.NewPointer(b.named)
		b.fileT, b.buT, b.ofT = st.Field(b.file).Type(), st.Field(b.buf).Type(), st.Field(b.off).Type()
		for _, f := range g.fns {
			if r := f.Signature.Recv(); r != nil && types.Identical(r.Type(), b.ptr) && f.Synthetic == "" {
				b.methods = append(b.methods, f)
				continue
			}
			uses := false
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					fa, ok := in.(*ssa.FieldAddr)
					if !ok || fa.Field != b.file || !types.Identical(fa.X.Type(), b.ptr) {
						continue
					}
					for _, ref := range *fa.Referrers() {
						if u, ok := ref.(*ssa.UnOp); ok && u.X == ssa.Value(fa) {
							uses = true
						}
					}
				}
			}
			if uses {
				b.users = append(b.users, f)
			}
		}
		sortFns(b.methods)
		sortFns(b.users)
		return b
	}
	c.Viol("anchor", "index.Buffer", 0, "no buffered writer type found in package index")
	return nil
}

func (b *bufType) fieldAddr(x *eng.Term, i int) *eng.Term { return eng.FieldAddr(x, b.st, i) }

// content expands a byte slice value to the items it is made of; the initial
// contents of the buffer are the item "old".
func (b *bufType) content(st *eng.State, x, t *eng.Term) ([]string, bool) {
	switch {
	case t == eng.Nil:
		return nil, true
	case t.Op == "ld" && t.Args[0] == b.fieldAddr(x, b.buf) && len(t.Args) == 1:
		if st.Implies(eng.EqInt(eng.Len(t), eng.Int(0))) {
			return nil, true
		}
		return []string{"old"}, true
	case t.Op == "slice":
		if t.Args[1].Op == "int" && t.Args[2].Op == "int" && t.Args[1].K == t.Args[2].K {
			return nil, true
		}
		if st.Implies(eng.EqInt(eng.Len(t), eng.Int(0))) {
			return nil, true
		}
	case t.Op == "append" && t.Aux == "elems":
		out, ok := b.content(st, x, t.Args[0])
		for _, a := range t.Args[1:] {
			out = append(out, a.String())
		}
		return out, ok
	case t.Op == "append" && t.Aux == "slice":
		out, ok := b.content(st, x, t.Args[0])
		return append(out, "all of "+t.Args[1].String()), ok
	case isCall(t, "(encoding/binary.bigEndian).AppendUint64"), isCall(t, "(encoding/binary.bigEndian).AppendUint32"):
		n := len(t.Args)
		out, ok := b.content(st, x, t.Args[n-2])
		return append(out, t.Aux+" "+t.Args[n-1].String()), ok
	case isCall(t, "encoding/binary.AppendUvarint"):
		out, ok := b.content(st, x, t.Args[0])
		return append(out, "uvarint "+t.Args[1].String()), ok
	}
	return []string{"all of " + t.String()}, true
}

func init() {
	register(&Rule{
		ID: "C06",
		Explanation: "Typestate and symbolic byte-stream analysis of the index writer's buffered file. For each method, on every path to a return, the bytes handed to the file followed by the bytes left in the buffer must be the old buffer contents followed by the method's output, the output must be the same whichever way the buffer was flushed, " +
			"and the recorded file offset must have grown by exactly the bytes handed to the file. Everywhere else, each use of the underlying file must happen on a path that implies the buffer is empty, a file about to be read back must have been rewound or mapped after that, and the index file must be flushed after its last write before Flush or Merge returns.",
		Assumptions: []string{"os.File.Write writes all of its argument or returns an error (error handling is decided separately)"},
		Run:         runBuffer,
	})
}

func runBuffer(c *Ctx) {
	b := c.bufType()
	if b == nil {
		return
	}
	isFileCall := func(n string) bool { return strings.HasPrefix(n, "(*os.File).Write") }
	c.Check(len(b.methods) >= 8, "methods", "index.Buffer", b.named.Obj().Pos(), "found %d methods of the buffered writer", len(b.methods))
	for _, m := range b.methods {
		x := eng.Sym("b", b.ptr)
		args := []*eng.Term{x}
		for _, p := range m.Params[1:] {
			args = append(args, eng.SymOf(p.Name(), p.Type()))
		}
		r := c.Analyze(m, &eng.Config{
			Interest: func(e *eng.Event) bool {
				if e.Kind != "call" {
					return false
				}
				for _, a := range e.Args {
					if a.Op == "ld" && a.Args[0].Op == "field" && types.Identical(a.Typ, b.fileT) {
						return true
					}
				}
				return false
			},
			Stores: func(a *eng.Term) bool { return a == b.fieldAddr(x, b.file) },
		}, args...)
		outs := map[string]string{}
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			st := t.St
			if len(r.Loops) > 0 {
				c.loopNeutral(b, x, m, args)
				break
			}
			if fa := eng.Mk("ld", "", b.fileT, b.fieldAddr(x, b.file)); st.Implies(eng.Eq(fa, eng.Nil, b.fileT)) {
				used := false
				for _, e := range st.Events(false) {
					used = used || isFileCall(e.Name)
				}
				if used {
					continue // writing to a nil file fails
				}
			}
			var stream []string
			var sum *eng.Term = eng.Int(0)
			undone := false
			for _, e := range st.Events(false) {
				if !isFileCall(e.Name) {
					continue
				}
				it, ok := b.content(st, x, e.Args[1])
				if !ok {
					undone = true
				}
				stream = append(stream, it...)
				sum = eng.Add(sum, eng.Len(e.Args[1]))
			}
			final := st.Load(b.fieldAddr(x, b.buf), b.buT)
			it, ok := b.content(st, x, final)
			if !ok {
				undone = true
			}
			stream = append(stream, it...)
			cons := fnLabel(m)
			if st.Implies(eng.EqInt(eng.Len(eng.Mk("ld", "", b.buT, b.fieldAddr(x, b.buf))), eng.Int(0))) {
				stream = append([]string{"old"}, stream...)
			}
			if !c.Check(!undone && len(stream) > 0 && stream[0] == "old" && !contains(stream[1:], "old"), "stream", cons, m.Pos(), "%s does not keep earlier output exactly once and in order: it leaves %q", m, stream) {
				continue
			}
			// the output may depend on conditions that do not concern the buffer
			k := condKey(b, st, x)
			o := strings.Join(stream[1:], "; ")
			if prev, seen := outs[k]; seen {
				c.Check(prev == o, "same-output", cons, m.Pos(), "%s writes %q or %q depending on the state of the buffer", m, prev, o)
			}
			outs[k] = o
			// offset
			offA := b.fieldAddr(x, b.off)
			d := eng.Sub(st.Load(offA, b.ofT), eng.Mk("ld", "", b.ofT, offA))
			c.Check(d == sum || st.Implies(eng.EqInt(d, sum)), "file-offset", cons, m.Pos(), "%s hands %s bytes to the file but advances the offset by %s", m, sum, d)
		}
		for _, o := range outs {
			c.Note("%s appends [%s]", fnLabel(m), o)
		}
		b.outputArgs(c, m, outs)
	}
	// users of the file
	for _, f := range append(append([]*ssa.Function(nil), b.users...), b.methods...) {
		c.bufferUses(b, f)
	}
	c.bufferEnd(b)
	c.Min("stream", 8)
	c.Min("file-offset", 8)
	c.Min("flushed-before-use", 3)
	c.Min("flushed-at-end", 2)
}

// outputArgs checks that each parameter of a writing method is part of its
// output: a method whose output does not mention its argument loses it.
func (b *bufType) outputArgs(c *Ctx, m *ssa.Function, outs map[string]string) {
	if !m.Object().Exported() || !strings.HasPrefix(m.Name(), "Write") {
		return
	}
	for _, p := range m.Params[1:] {
		for _, o := range outs {
			c.Check(strings.Contains(o, p.Name()), "argument-written", fnLabel(m)+":"+p.Name(), m.Pos(), "on some path %s does not write its argument", m)
		}
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// condKey renders the path conditions that do not mention the buffer.
func condKey(b *bufType, st *eng.State, x *eng.Term) string {
	var ks []string
	for _, f := range st.Facts {
		if f.Any(func(t *eng.Term) bool {
			return t.Op == "ld" && t.Args[0].Op == "field" && t.Args[0].Args[0] == x || t.Op == "call" || t.Op == "extract"
		}) {
			continue
		}
		ks = append(ks, f.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, "&")
}

// loopNeutral: a method with a loop may only call other methods.
func (c *Ctx) loopNeutral(b *bufType, x *eng.Term, m *ssa.Function, args []*eng.Term) {
	own := map[*ssa.Function]bool{}
	for _, f := range b.methods {
		own[f] = f != m
	}
	r := c.Analyze(m, &eng.Config{
		Opaque: func(f *ssa.Function) bool { return own[f] },
		Stores: func(a *eng.Term) bool { return a.Op == "field" && types.Identical(a.Args[0].Typ, b.ptr) },
	}, args...)
	for _, e := range r.Events {
		bad := e.Kind == "store"
		for _, a := range e.Args {
			if e.Kind == "call" && types.Identical(typOf(unwrap(a)), b.fileT) {
				bad = true
			}
		}
		c.Check(!bad, "stream", fnLabel(m), e.Instr.Pos(), "%s changes the buffer inside a method with a loop, where its output cannot be followed", m)
	}
}

// bufferUses checks that the file of a buffer is only used when the buffer is
// empty (or to write the buffer itself).
func (c *Ctx) bufferUses(b *bufType, f *ssa.Function) {
	fileOf := func(t *eng.Term) *eng.Term {
		// the buffer whose file t is
		if t.Op == "ld" && t.Args[0].Op == "field" && types.Identical(t.Typ, b.fileT) && types.Identical(t.Args[0].Args[0].Typ, b.ptr) {
			return t.Args[0].Args[0]
		}
		return nil
	}
	r := c.Analyze(f, &eng.Config{
		Interest: func(e *eng.Event) bool {
			if e.Kind != "call" {
				return false
			}
			for _, a := range e.Args {
				if fileOf(unwrap(a)) != nil {
					return true
				}
			}
			return false
		},
		Target: func(in ssa.Instruction, n string) bool { return strings.HasPrefix(n, "(*os.File).") || n == "io.Copy" },
		Stores: func(a *eng.Term) bool { return false },
	})
	for _, e := range r.Events {
		if e.Name == "(*os.File).Name" || e.Name == "(*os.File).Close" {
			continue
		}
		for i, a := range e.Args {
			bu := fileOf(unwrap(a))
			if bu == nil {
				continue
			}
			buf := e.St.Load(b.fieldAddr(bu, b.buf), b.buT)
			good := e.St.Implies(eng.EqInt(eng.Len(buf), eng.Int(0))) || e.St.Implies(eng.Eq(unwrap(a), eng.Nil, b.fileT))
			if i == 0 && strings.HasPrefix(e.Name, "(*os.File).Write") && e.Args[1] == buf {
				continue // the flush itself
			}
			cons := fnLabel(f) + ":" + e.Name
			if !good {

				c.Check(false, "flushed-before-use", fmt.Sprintf("%s.%d", cons, i), e.Instr.Pos(), "%s uses the file of a buffer that may still hold unwritten data", f)
				continue
			}
			c.Check(true, "flushed-before-use", fmt.Sprintf("%s.%d", cons, i), e.Instr.Pos(), "")
			// reading back from the start
			if e.Name == "io.Copy" && i == 1 {
				rewound := false
				for _, p := range e.St.Events(false) {
					if p.Name == "(*os.File).Seek" && unwrap(p.Args[0]) == unwrap(a) {
						rewound = p.Args[1] == eng.Int(0) && p.Args[2] == eng.Int(0)
					}
				}
				c.Check(rewound, "rewound-before-copy", cons, e.Instr.Pos(), "%s copies a temporary file without rewinding it", f)
			}
		}
		// copying into a buffer's file moves its offset
		if e.Name == "io.Copy" {
			if bu := fileOf(unwrap(e.Args[0])); bu != nil {
				offA := b.fieldAddr(bu, b.off)
				for _, t := range r.Terms {
					if t.Kind != "return" || !onPath(t.St, e) {
						continue
					}
					after := t.St.Load(offA, b.ofT)
					before := e.St.Load(offA, b.ofT)
					n := e.Result(0)
					c.Check(t.St.Implies(eng.EqInt(eng.Sub(after, before), n)), "copy-offset", fnLabel(f)+":"+e.Name, e.Instr.Pos(), "%s copies into a buffer's file without advancing its offset by the bytes copied", f)
				}
			}
		}
	}
}

// bufferEnd checks that the functions that finish an index flush it.
func (c *Ctx) bufferEnd(b *bufType) {
	for _, name := range []string{"IndexWriter.Flush", "Merge"} {
		f := c.Func("index", name)
		if f == nil {
			continue
		}
		isMethod := func(n string) bool { return strings.HasPrefix(n, "("+types.TypeString(b.ptr, nil)+").") }
		r := c.Analyze(f, &eng.Config{
			Opaque: func(h *ssa.Function) bool { return fnPkg(h) != nil && h.Parent() == nil && h.Signature.Recv() != nil },
			Target: func(in ssa.Instruction, n string) bool { return isMethod(n) },
			Interest: func(e *eng.Event) bool {
				if e.Kind != "call" {
					return false
				}
				for _, a := range e.Args {
					if types.Identical(typOf(a), b.ptr) {
						return true
					}
				}
				return false
			},
			Join: 6,
		})
		n := 0
		for _, t := range r.Terms {
			if t.Kind != "return" {
				continue
			}
			last := map[*eng.Term]*eng.Event{}
			strs := map[*eng.Term]bool{}
			for _, e := range t.St.Events(false) {
				for _, a := range e.Args {
					if !types.Identical(typOf(a), b.ptr) {
						continue
					}
					if strings.HasSuffix(e.Name, ".Offset") {
						continue
					}
					last[a] = e
					if strings.HasSuffix(e.Name, ".WriteString") {
						strs[a] = true
					}
				}
			}
			for a := range strs {
				n++
				c.Check(strings.HasSuffix(last[a].Name, ".Flush"), "flushed-at-end", fnLabel(f), last[a].Instr.Pos(), "%s can return with index data still buffered: the last operation on the index file is %s", f, last[a].Name)
			}
		}
		c.Check(n > 0, "flushed-at-end", fnLabel(f)+" paths", f.Pos(), "%s has no path that writes an index", f)
	}
}

// onPath reports whether the recorded event e lies on the path to st.
func onPath(st *eng.State, e *eng.Event) bool {
	for _, p := range st.Events(false) {
		if p == e.Orig || p == e {
			return true
		}
	}
	return false
}

func typOf(t *eng.Term) types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}
