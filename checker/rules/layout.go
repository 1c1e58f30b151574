package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C07",
		Explanation: "Agreement analysis of the index file's layout. Writers: on every path of Flush and of Merge to a return, the sequence of operations on the index file is abstracted to positions (each operation that writes moves on to a new position, Offset names the current one); the regions are identified by what is written there (root list, names, posting lists, and the copies of the two lookup tables made while writing those), " +
			"and each number of the trailer is identified as the start of a region or the number of its entries at the end of its writing. Readers: for every field Open returns, the trailer slot (width and distance from the end) it is read from and the magic string the path has compared the end of the file with; and for every function that reads index data, which fields it computes the place and limits from. A slot must mean the same to both. " +
			"The byte order of the numbers is compared in the bit-slice domain, and every access of Open is shown to be within the file.",
		Assumptions: []string{"encoding/binary", "the writer's buffered output is complete and in order and Offset is exact (decided by C06)"},
		Run:         runLayout,
	})
}

// namedIn returns the named type of package index.
func (c *Ctx) namedIn(name string) (*types.Named, *types.Struct) {
	t, s := c.structOf("index", name)
	n, _ := t.(*types.Named)
	if n == nil || s == nil {
		c.Viol("anchor", "index."+name, 0, "type index.%s not found", name)
	}
	return n, s
}

// recvNamed returns the name of the receiver type of a method of package index.
func recvNamed(f *ssa.Function) string {
	r := f.Signature.Recv()
	if r == nil || fnPkg(f) == nil || fnPkg(f).Path() != load.Module+"/index" {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// direct reports whether f itself calls name.
func direct(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if n, _ := calleeOf(ci); n == name {
					return true
				}
			}
		}
	}
	return false
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

// storageOpaque keeps the operations of the storage layer as events.
func storageOpaque(f *ssa.Function) bool {
	if fnPkg(f) == nil || fnPkg(f).Path() != load.Module+"/index" || f.Parent() != nil {
		return false
	}
	switch recvNamed(f) {
	case "":
	case "IndexWriter":
		return false
	default:
		return true
	}
	switch f.Name() {
	case "NewPathWriter", "NewPathReader", "bufCreate", "Open", "sortPost", "MakePath":
		return true
	}
	return direct(f, "io.Copy")
}

// A written is the layout one path writes.
type written struct {
	fn    *ssa.Function
	magic string
	slots []string // role of each trailer slot
	order []string // regions in file order
	ver   int      // version implied by the path, or 0
}

// pathItem is an event on a path, or a loop with all the events in it.
type pathItem struct {
	ev   *eng.Event
	loop *eng.Loop
	evs  []*eng.Event
}

// loopEvents collects the events of all iterations of l.
func loopEvents(l *eng.Loop, seen map[*eng.Loop]bool) (out []*eng.Event) {
	if seen[l] {
		return nil
	}
	seen[l] = true
	for _, ss := range [][]*eng.State{l.Backs, l.Exits} {
		for _, b := range ss {
			for _, h := range b.Path(true) {
				if h.Ev != nil {
					out = append(out, h.Ev)
				} else if h.Loop != nil && h.Loop != l {
					out = append(out, loopEvents(h.Loop, seen)...)
				}
			}
		}
	}
	return out
}

func pathItems(st *eng.State) (out []pathItem) {
	for _, h := range st.Path(false) {
		if h.Ev != nil {
			out = append(out, pathItem{ev: h.Ev})
		} else if h.Loop != nil {
			out = append(out, pathItem{loop: h.Loop, evs: loopEvents(h.Loop, map[*eng.Loop]bool{})})
		}
	}
	return out
}

// counterField returns the only int field of the named struct that every
// store in the module (outside composite literals) increments by one, chosen
// by being increased in the method that performs the given operation.
func (c *Ctx) counterField(typ string, method func(*ssa.Function) bool) string {
	n, st := c.namedIn(typ)
	if n == nil {
		return ""
	}
	cand := map[int]bool{}
	bad := map[int]bool{}
	for _, f := range c.P.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isPtrTo(fa.X.Type(), n) {
					continue
				}
				bo, ok := s.Val.(*ssa.BinOp)
				inc := false
				if ok && bo.Op.String() == "+" {
					k, okk := bo.Y.(*ssa.Const)
					u, oku := bo.X.(*ssa.UnOp)
					if okk && oku && k.Int64() == 1 {
						fa2, ok2 := u.X.(*ssa.FieldAddr)
						inc = ok2 && fa2.Field == fa.Field && isPtrTo(fa2.X.Type(), n)
					}
				}
				switch {
				case inc && method(f):
					cand[fa.Field] = true
				default:
					bad[fa.Field] = true
				}
			}
		}
	}
	var out []string
	for i := range cand {
		if !bad[i] {
			out = append(out, st.Field(i).Name())
		}
	}
	if len(out) != 1 {
		c.Viol("anchor", "index."+typ+" counter", 0, "%d fields of index.%s count what is written", len(out), typ)
		return ""
	}
	return out[0]
}

// mentions reports whether f calls a method of the named type with the name.
func callsMethod(f *ssa.Function, typ string, names ...string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				g := ci.Common().StaticCallee()
				if g == nil || recvNamed(g) != typ {
					continue
				}
				for _, n := range names {
					if g.Name() == n {
						return true
					}
				}
			}
		}
	}
	return false
}

// does reports whether f calls one of the methods, itself or through other
// methods of its own type.
func does(f *ssa.Function, typ string, names ...string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if callsMethod(f, typ, names...) {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && recvNamed(g) == recvNamed(f) && recvNamed(f) != "" && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

type layouts struct {
	c       *Ctx
	buf     *types.Named
	pw, pd  *types.Named
	ixw     *types.Named
	nameCnt string // counter of names in IndexWriter
	trgCnt  string // counter of lists in postDataWriter
	// roles of the IndexWriter's temporary files
	fileRole map[string]string
	out      []*written
}

// tempFiles finds which of the IndexWriter's files hold the names and their
// index: those its path writer is created on.
func (l *layouts) tempFiles() {
	f := l.c.Func("index", "Create")
	if f == nil {
		return
	}
	r := l.c.Analyze(f, &eng.Config{Opaque: storageOpaque})
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		st := l.ixw.Underlying().(*types.Struct)
		for _, e := range t.St.Events(false) {
			if !strings.HasSuffix(e.Name, ".NewPathWriter") || len(e.Args) < 2 {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				v := t.St.Load(eng.FieldAddr(t.Rets[0], st, i), st.Field(i).Type())
				switch v {
				case e.Args[0]:
					l.fileRole[st.Field(i).Name()] = "names"
				case e.Args[1]:
					l.fileRole[st.Field(i).Name()] = "name index"
				}
			}
		}
	}
	l.c.Check(len(l.fileRole) == 2, "temporary-files", "index.Create", f.Pos(), "the files names are written to were not found: %v", l.fileRole)
}

// roleOf returns what a temporary file holds.
func (l *layouts) roleOf(b *eng.Term, local map[*eng.Term]string) string {
	if r, ok := local[b]; ok {
		return r
	}
	if b.Op == "ld" && b.Args[0].Op == "field" && isPtrTo(typOf(b.Args[0].Args[0]), l.ixw) {
		return l.fileRole[b.Args[0].Aux]
	}
	return ""
}

func (l *layouts) isBuf(t *eng.Term) bool { return t != eng.Nil && isPtrTo(typOf(t), l.buf) }

// writer analyses one function that writes an index.
func (l *layouts) writer(name string, magics map[string]bool) {
	c := l.c
	f := c.Func("index", name)
	if f == nil {
		return
	}
	r := c.Analyze(f, &eng.Config{Opaque: storageOpaque, Join: 6, Entries: 1})
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		w := l.path(f, r, t, magics)
		if w == nil {
			continue
		}
		n++
		l.out = append(l.out, w)
	}
	c.Check(n > 0, "writes-trailer", fnLabel(f), f.Pos(), "%s has no path that writes an index with a known trailer", fnLabel(f))
}

func (l *layouts) path(f *ssa.Function, r *eng.Run, t *eng.Terminal, magics map[string]bool) *written {
	c := l.c
	items := pathItems(t.St)
	// the index file is the one the trailer is written to
	var main *eng.Term
	end := -1
	w := &written{fn: f, ver: l.versionIn(t.St)}
	for i, it := range items {
		if it.ev != nil && it.ev.Kind == "call" && strings.HasSuffix(it.ev.Name, ".WriteString") && l.isBuf(it.ev.Args[0]) && it.ev.Args[1].Op == "str" && magics[it.ev.Args[1].Aux] {
			c.Check(end < 0, "one-trailer", fnLabel(f), it.ev.Instr.Pos(), "%s writes two trailers", fnLabel(f))
			main, end, w.magic = it.ev.Args[0], i, it.ev.Args[1].Aux
		}
	}
	cons := fnLabel(f)
	if !c.Check(end >= 0, "writes-trailer", cons, f.Pos(), "%s can return without having written the trailer of the index", cons) {
		return nil
	}
	where := cons + fmt.Sprintf(" %q", w.magic)
	pos := 0
	offs := map[*eng.Term]int{}
	start := map[string]int{}
	local := map[*eng.Term]string{} // buffers and writers to roles
	writers := map[string]*eng.Term{}
	lastUse := map[string]int{}
	var owner *eng.Term
	region := func(role string, at pathItem, obj *eng.Term) {
		if _, dup := start[role]; dup {
			c.Viol("region-once", where+": "+role, at.ev.Instr.Pos(), "%s writes the %s twice", cons, role)
		}
		start[role] = pos
		w.order = append(w.order, role)
		if obj != nil {
			writers[role] = obj
			local[obj] = role
		}
		owner = obj
	}
	var trailer []*eng.Term
	trailerAt := -1
	pads := true
	for i, it := range items {
		evs := []*eng.Event{it.ev}
		if it.loop != nil {
			evs = it.evs
		}
		var nums []*eng.Term
		for _, e := range evs {
			if e.Kind != "call" {
				continue
			}
			short := e.Name[strings.LastIndex(e.Name, ".")+1:]
			onMain := len(e.Args) > 0 && e.Args[0] == main
			callee := e.Instr.(ssa.CallInstruction).Common().StaticCallee()
			if callee == nil {
				continue
			}
			rn := recvNamed(callee)
			switch {
			case rn == l.buf.Obj().Name() && onMain:
				switch short {
				case "Offset":
					if it.loop == nil {
						offs[e.Res] = pos
					}
				case "Flush":
				case "WriteUint":
					nums = append(nums, e.Args[1])
				case "Align":
					c.Check(i < end, "trailer-last", where, e.Instr.Pos(), "%s pads the index after its trailer", cons)
					if start["posting index"] > 0 {
						k := e.Args[1]
						c.Check(k.Op == "int" && k.K <= 256, "padding", where, e.Instr.Pos(), "the padding after the last table is not known to be less than a block")
					}
					pos++
					owner = nil
				default:
					if i != end && start["posting index"] > 0 {
						pads = false
					}
					if i > end {
						c.Viol("trailer-last", where, e.Instr.Pos(), "%s writes to the index after its trailer", cons)
					}
					pos++
					owner = nil
				}
			case short == "NewPathWriter" && onMain:
				role := "roots"
				if e.Args[1] != eng.Nil {
					role = "names"
					local[e.Args[1]] = "name index"
				}
				if it.loop != nil {
					c.Viol("region-once", where+": "+role, e.Instr.Pos(), "%s writes the %s in a loop", cons, role)
					continue
				}
				region(role, it, e.Res)
			case rn == l.pw.Obj().Name() && (short == "Write" || short == "Collect"):
				role := local[e.Args[0]]
				if role != "" {
					c.Check(owner == e.Args[0], "region-whole", where+": "+role, e.Instr.Pos(), "%s writes part of the %s after something else", cons, role)
					lastUse[role] = i
					pos++
				}
			case rn == l.pd.Obj().Name():
				if len(e.Args) == 3 && e.Args[1] == main && it.loop == nil {
					if l.isBuf(e.Args[2]) {
						local[e.Args[2]] = "posting index"
					}
					region("posts", it, e.Args[0])
				} else if local[e.Args[0]] == "posts" {
					c.Check(owner == e.Args[0], "region-whole", where+": posts", e.Instr.Pos(), "%s writes part of the posting lists after something else", cons)
					lastUse["posts"] = i
				}
				pos++
			case rn == "" || rn != l.buf.Obj().Name():
				// a copy of another file
				var src *eng.Term
				has := false
				for _, a := range e.Args {
					if a == main {
						has = true
					} else if l.isBuf(a) {
						src = a
					}
				}
				if !has {
					continue
				}
				if src == nil {
					pos++
					owner = nil
					continue
				}
				role := l.roleOf(src, local)
				if c.Check(role != "" && it.loop == nil, "region-known", where+": "+src.String(), e.Instr.Pos(), "%s copies a file to the index whose contents are not known", cons) {
					region(role, it, nil)
				}
				pos++
				owner = nil
			}
		}
		if len(nums) > 0 && i < end {
			if trailerAt < 0 {
				trailerAt = pos
			}
			if it.loop != nil {
				nums = l.unroll(it.loop, nums)
				if nums == nil {
					c.Viol("trailer-known", where, it.loop.Pos, "the numbers of the trailer %s writes in a loop are not known", cons)
				}
			}
			trailer = append(trailer, nums...)
		} else if trailerAt >= 0 && i < end && pos != trailerAt {
			// something else was written in between: start again
			trailer, trailerAt = nil, -1
		}
	}
	c.Check(pads, "tables-last", where, f.Pos(), "%s writes something between the last table and the trailer", cons)
	roles := []string{"roots", "names", "posts", "name index", "posting index"}
	for _, ro := range roles {
		_, ok := start[ro]
		c.Check(ok, "region-written", where+": "+ro, f.Pos(), "%s does not write the %s on some path", cons, ro)
	}
	if k := len(w.order); k > 0 {
		c.Check(w.order[k-1] == "posting index", "tables-last", where+" order", f.Pos(), "the posting index is not the last region of the index %s writes: %v", cons, w.order)
	}
	for k, v := range trailer {
		w.slots = append(w.slots, l.meaning(f, t, v, offs, start, writers, lastUse, items))
		c.Note("%s slot %d: %s", where, k, w.slots[k])
	}
	c.Check(len(trailer) > 0, "trailer-known", where, f.Pos(), "%s writes no numbers before the trailer's magic string", cons)
	return w
}

// unroll lists the numbers a loop over all elements of an array writes.
func (l *layouts) unroll(lp *eng.Loop, nums []*eng.Term) []*eng.Term {
	if len(lp.Backs) != 1 || len(lp.Exits) != 1 {
		return nil
	}
	b := lp.Backs[0]
	evs := b.Events(true)
	var vals []*eng.Term
	for _, e := range evs {
		if strings.HasSuffix(e.Name, ".WriteUint") {
			vals = append(vals, e.Args[1])
		}
	}
	if len(vals) != 1 {
		return nil
	}
	v := vals[0]
	var elems []*eng.Term
	var idx *eng.Term
	switch {
	case v.Op == "stridx" && v.Args[0].Op == "arr":
		elems, idx = v.Args[0].Args, v.Args[1]
	case v.Op == "ld" && v.Args[0].Op == "elem":
		base := v.Args[0].Args[0]
		idx = v.Args[0].Args[1]
		n := eng.Len(base)
		if p, ok := typOf(base).Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				n = eng.Int(a.Len())
			}
		}
		if n.Op != "int" {
			return nil
		}
		for i := int64(0); i < n.K; i++ {
			elems = append(elems, lp.Entry.Load(eng.Elem(base, eng.Int(i), v.Args[0].Typ), v.Typ))
		}
	default:
		return nil
	}
	// the index runs over all elements
	for _, p := range lp.Phis {
		d, ok := eng.DiffConst(idx, p.Sym)
		if !ok || p.Init.Op != "int" || p.Init.K+d != 0 || p.Backs[0] != eng.AddK(p.Sym, 1) {
			continue
		}
		x := lp.Exits[0]
		if !x.Implies(eng.Le(eng.Int(int64(len(elems))), idx)) || !b.Implies(eng.Lt(idx, eng.Int(int64(len(elems))))) {
			continue
		}
		return elems
	}
	return nil
}

// meaning says what a number in the trailer is.
func (l *layouts) meaning(f *ssa.Function, t *eng.Terminal, v *eng.Term, offs map[*eng.Term]int, start map[string]int, writers map[string]*eng.Term, lastUse map[string]int, items []pathItem) string {
	if p, ok := offs[v]; ok {
		for ro, q := range start {
			if p == q {
				return "start of " + ro
			}
		}
		return fmt.Sprintf("position of nothing (%s)", v)
	}
	for ro, obj := range writers {
		if isCall(v, "(*"+idx+"PathWriter).Count") && v.Args[0] == obj {
			at := -1
			for i, it := range items {
				if it.ev != nil && it.ev.Res == v {
					at = i
				}
			}
			if at < lastUse[ro] {
				return "number of only some " + ro
			}
			return "number of " + ro
		}
	}
	// a counter, as it is at the end
	field := func(typ *types.Named, name string, obj *eng.Term) bool {
		if obj == nil || name == "" {
			return false
		}
		st := typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return t.St.Load(eng.FieldAddr(obj, st, i), st.Field(i).Type()) == v
			}
		}
		return false
	}
	if isCall(v, "(*"+idx+"PathWriter).Count") && f.Signature.Recv() != nil && l.versionIn(t.St) == 2 {
		if o := v.Args[0]; o.Op == "ld" && o.Args[0].Op == "field" && isPtrTo(typOf(o.Args[0].Args[0]), l.ixw) && len(o.Args) == 1 {
			return "number of names"
		}
	}
	if field(l.pd, l.trgCnt, writers["posts"]) {
		return "number of posts"
	}
	if f.Signature.Recv() != nil && field(l.ixw, l.nameCnt, eng.SymOf(f.Params[0].Name(), f.Params[0].Type())) {
		return "number of names"
	}
	return "unknown: " + v.String()
}

// A slotRef is a number Open reads from the trailer.
type slotRef struct {
	width int64 // bytes
	back  int64 // slots from the end of the numbers
}

// An opened is what Open stores on a path to a return.
type opened struct {
	magic  string
	ver    int64
	fields map[string]*eng.Term
	slots  map[string]slotRef
	data   *eng.Term // the file's bytes
	st     *eng.State
}

// opens analyses Open.
func (c *Ctx) opens() (out []*opened) {
	f := c.Func("index", "Open")
	if f == nil {
		return nil
	}
	ixn, ixs := c.namedIn("Index")
	if ixn == nil {
		return nil
	}
	r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return g.Name() == "mmap" || g.Name() == "mmapFile" }, Indexes: true})
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		o := &opened{fields: map[string]*eng.Term{}, slots: map[string]slotRef{}, st: t.St}
		ret := t.Rets[0]
		for i := 0; i < ixs.NumFields(); i++ {
			v := t.St.Load(eng.FieldAddr(ret, ixs, i), ixs.Field(i).Type())
			o.fields[ixs.Field(i).Name()] = v
			if v.Op == "lin" || v.Op == "conv" || v.Op == "int" || v.Op == "quo" {
				continue
			}
		}
		// the magic string
		for _, fc := range t.St.Facts {
			if m, d := magicFact(fc); m != "" {
				o.magic, o.data = m, d
			}
		}
		cons := fmt.Sprintf("Open %q", o.magic)
		if !c.Check(o.magic != "", "trailer-checked", "Open", f.Pos(), "Open returns an index without having found a trailer's magic string at the very end of the file") {
			continue
		}
		if v := o.fields["version"]; c.Check(v != nil && v.Op == "int", "version-set", cons, f.Pos(), "the version Open sets is not a constant: %v", v) {
			o.ver = v.K
		}
		out = append(out, o)
		for n, v := range o.fields {
			if s, ok := o.slot(v); ok {
				o.slots[n] = s
			}
		}
		// every access within the file
		bounds := func(e *eng.Event) {
			for _, a := range e.Args {
				a.Walk(func(x *eng.Term) bool {
					if x.Op == "slice" && x.Args[0] == o.data {
						lo, hi := x.Args[1], x.Args[2]
						a, _ := eng.DiffConst(lo, eng.Len(o.data))
						b, _ := eng.DiffConst(hi, eng.Len(o.data))
						c.Check(t.St.Implies(eng.Le(eng.Int(0), lo)) && t.St.Implies(eng.Le(hi, eng.Len(o.data))), "within-file", fmt.Sprintf("%s [%d:%d]", cons, a, b), e.Instr.Pos(), "%s reads %s of the file without having checked that the file is that long", cons, x)
					}
					return true
				})
			}
		}
		for _, e := range t.St.Events(false) {
			if e.Kind == "call" {
				bounds(e)
			}
		}
	}
	return out
}

// magicFact recognises the comparison of the end of data with a string.
func magicFact(f *eng.Term) (string, *eng.Term) {
	if (isCall(f, "strings.HasSuffix") || isCall(f, "bytes.HasSuffix")) && len(f.Args) == 2 {
		a, b := f.Args[0], f.Args[1]
		for a.Op == "convstr" || a.Op == "conv" {
			a = a.Args[0]
		}
		for b.Op == "convstr" || b.Op == "conv" || b.Op == "convbytes" {
			b = b.Args[0]
		}
		if b.Op == "str" && b.Aux != "" {
			return b.Aux, a
		}
	}
	if f.Op != "eq" || len(f.Args) != 2 {
		return "", nil
	}
	a, b := f.Args[0], f.Args[1]
	if a.Op == "str" {
		a, b = b, a
	}
	if b.Op != "str" || b.Aux == "" {
		return "", nil
	}
	for a.Op == "convstr" || a.Op == "conv" {
		a = a.Args[0]
	}
	if a.Op != "slice" {
		return "", nil
	}
	d := a.Args[0]
	if a.Args[2] != eng.Len(d) {
		return "", nil
	}
	if k, ok := eng.DiffConst(eng.Len(d), a.Args[1]); !ok || k != int64(len(b.Aux)) {
		return "", nil
	}
	return b.Aux, d
}

// number recognises a big-endian number read from data at an offset.
func number(st *eng.State, t *eng.Term) (data, lo *eng.Term, width int64, ok bool) {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	switch {
	case t.Op == "or" || t.Op == "lin":
		return assembled(st, t)
	case isCall(t, "(encoding/binary.bigEndian).Uint64"):
		width = 8
	case isCall(t, "(encoding/binary.bigEndian).Uint32"):
		width = 4
	default:
		return
	}
	s := t.Args[len(t.Args)-1]
	if s.Op != "slice" {
		return
	}
	return s.Args[0], s.Args[1], width, true
}

// assembled recognises a big-endian number put together from single bytes.
func assembled(st *eng.State, t *eng.Term) (data, lo *eng.Term, width int64, ok bool) {
	bits := bitsOf(st, t, 64)
	n := 64
	for n > 0 && bits[n-1].isConst(0) {
		n--
	}
	if n != 64 && n != 32 {
		return
	}
	width = int64(n / 8)
	for i := 0; i < n; i++ {
		x := bits[i]
		if x.leaf == nil || x.idx != i%8 || x.leaf.Op != "ld" || x.leaf.Args[0].Op != "elem" {
			return
		}
		d, at := x.leaf.Args[0].Args[0], x.leaf.Args[0].Args[1]
		if d.Op == "slice" {
			d, at = d.Args[0], eng.Add(at, d.Args[1])
		}
		at = eng.AddK(at, int64(i/8)-width+1)
		if lo == nil {
			data, lo = d, at
		}
		if d != data || at != lo {
			return nil, nil, 0, false
		}
	}
	return data, lo, width, true
}

func (o *opened) slot(v *eng.Term) (slotRef, bool) {
	d, lo, w, ok := number(o.st, v)
	if !ok || d != o.data {
		return slotRef{}, false
	}
	k, ok := eng.DiffConst(eng.AddK(eng.Len(d), -int64(len(o.magic))), lo)
	if !ok || k <= 0 || k%w != 0 {
		return slotRef{}, false
	}
	return slotRef{w, k / w}, true
}

// indexField returns the Index field t is a load of.
func indexField(t *eng.Term, ixn *types.Named) string {
	if t.Op == "ld" && t.Args[0].Op == "field" && isPtrTo(typOf(t.Args[0].Args[0]), ixn) {
		return t.Args[0].Aux
	}
	return ""
}

// A use is an access to the index data by a reader.
type use struct {
	fields map[string]int64 // Index fields in the start, with coefficients
	lo, hi *eng.Term
	ev     *eng.Event
	st     *eng.State
	v1     int // 1: version 1, 2: version 2, 0: either
}

// usesOf lists the slices of the index data in the arguments of events and in
// terms compared, over all paths of r.
func (c *Ctx) usesOf(r *eng.Run, ixn *types.Named, deep bool) (out []use) {
	seen := map[string]bool{}
	add := func(x *eng.Term, ev *eng.Event, st *eng.State) {
		var d, lo, hi *eng.Term
		switch {
		case x.Op == "slice":
			d, lo, hi = x.Args[0], x.Args[1], x.Args[2]
		case x.Op == "ld" && x.Args[0].Op == "elem":
			d, lo = x.Args[0].Args[0], x.Args[0].Args[1]
			if d.Op == "slice" {
				lo = eng.Add(lo, d.Args[1])
				d = d.Args[0]
			}
		default:
			return
		}
		if !(d.Op == "ld" && strings.HasSuffix(typOf(d).String(), "byte") && d.Args[0].Op == "field") {
			return
		}
		own := d.Args[0].Args[0]
		if own.Op != "field" || !isPtrTo(typOf(own.Args[0]), ixn) {
			return
		}
		u := use{fields: map[string]int64{}, lo: lo, hi: hi, ev: ev, st: st}
		for i, a := range atomsOf(lo) {
			if n := indexField(a, ixn); n != "" {
				u.fields[n] = coefOf(lo, i)
			}
		}
		u.v1 = versionOf(st, ixn)
		k := fmt.Sprintf("%s|%v|%d|%v", lo, hi, u.v1, ev != nil)
		if ev != nil {
			k += ev.Name
		}
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, u)
	}
	walk := func(t *eng.Term, ev *eng.Event, st *eng.State) {
		t.Walk(func(x *eng.Term) bool { add(x, ev, st); return true })
	}
	for _, e := range r.Events {
		for _, a := range e.Args {
			if !deep {
				add(a, e, e.St)
				continue
			}
			walk(a, e, e.St)
		}
	}
	if !deep {
		return
	}
	for _, t := range r.Terms {
		if t.Kind == "return" {
			for _, f := range t.St.Facts {
				walk(f, nil, t.St)
			}
		}
	}
	return out
}

func atomsOf(t *eng.Term) []*eng.Term {
	if t.Op == "lin" {
		return t.Args
	}
	return []*eng.Term{t}
}

func coefOf(t *eng.Term, i int) int64 {
	if t.Op == "lin" {
		return t.Coef[i]
	}
	return 1
}

// versionOf says which version of the index the state is about, or 0.
func versionOf(st *eng.State, ixn *types.Named) int {
	if st == nil {
		return 0
	}
	for _, f := range st.Facts {
		var v *eng.Term
		f.Walk(func(x *eng.Term) bool {
			if indexField(x, ixn) == "version" {
				v = x
			}
			return true
		})
		if k := oneOrTwo(st, v); k != 0 {
			return k
		}
	}
	return 0
}

// oneOrTwo decides a version number.
func oneOrTwo(st *eng.State, v *eng.Term) int {
	if v == nil {
		return 0
	}
	switch {
	case st.Decide(eng.EqInt(v, eng.Int(1))) == eng.True, st.Decide(eng.EqInt(v, eng.Int(2))) == eng.False:
		return 1
	case st.Decide(eng.EqInt(v, eng.Int(1))) == eng.False, st.Decide(eng.EqInt(v, eng.Int(2))) == eng.True:
		return 2
	}
	return 0
}

func runLayout(c *Ctx) {
	l := &layouts{c: c, fileRole: map[string]string{}}
	l.buf, _ = c.namedIn("Buffer")
	l.pw, _ = c.namedIn("PathWriter")
	l.pd, _ = c.namedIn("postDataWriter")
	l.ixw, _ = c.namedIn("IndexWriter")
	ixn, _ := c.namedIn("Index")
	if l.buf == nil || l.pw == nil || l.pd == nil || l.ixw == nil || ixn == nil {
		return
	}
	l.trgCnt = c.counterField("postDataWriter", func(f *ssa.Function) bool { return callsMethod(f, "Buffer", "WriteTrigram") })
	l.nameCnt = c.counterField("IndexWriter", func(f *ssa.Function) bool { return callsMethod(f, "PathWriter", "Write") })
	l.tempFiles()

	os := c.opens()
	magics := map[string]bool{}
	byMagic := map[string]*opened{}
	for _, o := range os {
		magics[o.magic] = true
		if p := byMagic[o.magic]; p != nil {
			c.Check(fmt.Sprint(p.slots) == fmt.Sprint(o.slots), "open-once", o.magic, 0, "Open reads the trailer %q in different ways", o.magic)
		}
		byMagic[o.magic] = o
	}
	l.writer("IndexWriter.Flush", magics)
	l.writer("Merge", magics)

	// what the readers take the fields to be
	role := map[string]map[int]string{} // role -> version -> field
	say := func(ro string, ver int, field, who string, fn *ssa.Function) {
		vs := []int{ver}
		if ver == 0 {
			vs = []int{1, 2}
		}
		for _, v := range vs {
			if role[ro] == nil {
				role[ro] = map[int]string{}
			}
			if old := role[ro][v]; old != "" {
				c.Check(old == field, "one-place", fmt.Sprintf("%s v%d %s", ro, v, who), fn.Pos(), "%s takes the %s (version %d) from field %s, other code from %s", who, ro, v, field, old)
				continue
			}
			role[ro][v] = field
		}
	}
	one := func(u use) (string, bool) {
		if len(u.fields) != 1 {
			return "", false
		}
		for n, k := range u.fields {
			return n, k == 1
		}
		return "", false
	}
	next, start := c.readerMethods()
	_ = next
	type ender struct {
		ro  string
		hi  *eng.Term
		who string
		fn  *ssa.Function
	}
	var enders []ender
	read := func(name string, fn *ssa.Function, op func(*ssa.Function) bool) {
		if fn == nil {
			return
		}
		r := c.Analyze(fn, &eng.Config{Opaque: op, KeepFacts: true})
		n := 0
		for _, u := range c.usesOf(r, ixn, false) {
			fld, ok := one(u)
			ev := ""
			if u.ev != nil {
				ev = u.ev.Name
			}
			ro := ""
			switch {
			case strings.HasSuffix(ev, ".NewPathReader"):
				ro = "start of roots"
				if fn.Signature.Params().Len() > 0 {
					ro = "start of names"
				}
				if u.hi != nil && u.hi != u.ev.Args[1] {
					enders = append(enders, ender{ro, u.hi, name, fn})
				}
				if fn.Signature.Params().Len() == 0 {
					if f := indexField(u.ev.Args[2], ixn); f != "" {
						say("number of roots", u.v1, f, name, fn)
					} else {
						c.Check(false, "count-used", name, u.ev.Instr.Pos(), "%s does not limit the root list to the number of roots", name)
					}
				}
			case strings.Contains(ev, "bigEndian") && name == "NamesAt":
				ro = "start of name index"
			case strings.HasSuffix(ev, "deltaReader).init"):
				ro = "start of posts"
			default:
				continue
			}
			// nested: the start of names is behind a number of the name index
			n++
			if !c.Check(ok, "place-known", name+" "+ro, fn.Pos(), "%s reads the %s at a place computed from %v", name, ro, u.fields) {
				continue
			}
			say(ro, u.v1, fld, name, fn)
		}
		c.Check(n > 0, "place-known", name, fn.Pos(), "%s reads no index data", name)
	}
	pr := func(g *ssa.Function) bool { return g.Name() == "NewPathReader" || recvNamed(g) == "PathReader" }
	read("Roots", c.Func("index", "Index.Roots"), pr)
	read("NamesAt", c.Func("index", "Index.NamesAt"), pr)
	twoInts := func(g *ssa.Function) bool {
		res := g.Signature.Results()
		return res.Len() == 2 && types.TypeString(res.At(0).Type(), nil) == "int" && types.TypeString(res.At(1).Type(), nil) == "int"
	}
	dr := func(g *ssa.Function) bool { return recvNamed(g) == "deltaReader" || twoInts(g) }
	read("postReader", start, dr)
	// every other function that decodes posting lists of an index
	inits := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs() {
		if f == start || !callsMethod(f, "deltaReader", "init") {
			continue
		}
		if rn := recvNamed(f); rn == "postMapReader" {
			inits[f] = true
		}
	}
	var loaders []*ssa.Function
	for f := range inits {
		loaders = append(loaders, f)
	}
	sortFns(loaders)
	c.Check(len(loaders) > 0, "place-known", "merge reader", 0, "the reader of posting lists for merging was not found")
	for _, f := range loaders {
		read(fnLabel(f), f, dr)
	}
	// the posting index: everything else that is read at a place by itself
	table := func(name string, fn *ssa.Function, op func(*ssa.Function) bool) {
		if fn == nil {
			return
		}
		r := c.Analyze(fn, &eng.Config{Opaque: op, KeepFacts: true})
		n := 0
		for _, u := range c.usesOf(r, ixn, true) {
			if u.ev != nil && (strings.HasSuffix(u.ev.Name, "deltaReader).init") || strings.HasSuffix(u.ev.Name, ".NewPathReader")) {
				continue
			}
			fld, ok := one(u)
			if !ok {
				// a limit may be in it too
				continue
			}
			n++
			say("start of posting index", u.v1, fld, name, fn)
		}
		c.Check(n > 0, "place-known", name+" table", fn.Pos(), "%s does not read the posting index", name)
	}
	find := c.tableSearch(start)
	table("search", find, func(g *ssa.Function) bool { return false })
	for _, f := range loaders {
		table(fnLabel(f), f, dr)
	}
	// limits
	l.limits(ixn, loaders, say)

	// agreement
	if len(l.out) == 0 || len(byMagic) == 0 {
		return
	}
	for _, w := range l.out {
		o := byMagic[w.magic]
		if o == nil {
			continue
		}
		ver := int(o.ver)
		width := int64(8)
		if ver == 1 {
			width = 4
		}
		for _, ro := range sortedKeys(role) {
			fld := role[ro][ver]
			if fld == "" {
				continue
			}
			cons := fmt.Sprintf("%s v%d %s", fnLabel(w.fn), ver, ro)
			s, ok := o.slots[fld]
			if !ok {
				l.derived(o, role, ro, ver, fld, width)
				continue
			}
			c.Check(s.width == width, "number-width", cons, w.fn.Pos(), "Open reads the %s as a number of %d bytes in an index of version %d", ro, s.width, ver)
			at := int64(len(w.slots)) - s.back
			got := "nothing"
			if at >= 0 && at < int64(len(w.slots)) {
				got = w.slots[at]
			}
			c.Check(got == ro, "slot", cons, w.fn.Pos(), "Open takes the %s from number %d of the trailer (field %s), where %s writes the %s", ro, at, fld, fnLabel(w.fn), got)
		}
		// how far the readers read
		idxOf := map[string]int{}
		for i, ro := range w.order {
			idxOf["start of "+ro] = i + 1
		}
		fieldRole := map[string]string{}
		for ro, m := range role {
			fieldRole[m[ver]] = ro
		}
		for _, e := range enders {
			for _, f := range []*eng.Term{e.hi} {
				n := indexField(f, ixn)
				if n == "" {
					c.Check(strings.HasPrefix(f.String(), "len("), "region-end", e.who+" "+e.ro, e.fn.Pos(), "%s reads the %s up to %s", e.who, e.ro, f)
					continue
				}
				c.Check(idxOf[fieldRole[n]] > idxOf[e.ro], "region-end", fmt.Sprintf("%s %s %s", fnLabel(w.fn), e.who, e.ro), e.fn.Pos(), "%s reads the list at the %s only up to the %s, which %s writes before it", e.who, e.ro, fieldRole[n], fnLabel(w.fn))
			}
		}
		// versions
		c.Check(l.sameVersion(w, o), "version", fmt.Sprintf("%s %q", fnLabel(w.fn), w.magic), w.fn.Pos(), "the version Open sets for the trailer %q is not the one %s writes with it", w.magic, fnLabel(w.fn))
	}
	l.byteOrder()
	c.Min("slot", 13)
	c.Min("trailer-checked", 1)
	c.Min("within-file", 2)
	c.Min("region-end", 2)
	c.Min("byte-order", 3)
}

// tableSearch finds the function that looks a posting list up: what the
// reader calls for two numbers.
func (c *Ctx) tableSearch(start *ssa.Function) *ssa.Function {
	if start == nil {
		c.Viol("anchor", "index:postReader", 0, "the method that starts reading a posting list was not found")
		return nil
	}
	for _, b := range start.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g != nil && len(g.Blocks) > 0 && g.Signature.Results().Len() == 2 && types.TypeString(g.Signature.Results().At(0).Type(), nil) == "int" {
				return g
			}
		}
	}
	c.Viol("anchor", "index:findList", start.Pos(), "%s looks up no posting list", fnLabel(start))
	return nil
}

// limits finds the fields readers compare numbers of entries with.
func (l *layouts) limits(ixn *types.Named, loaders []*ssa.Function, say func(string, int, string, string, *ssa.Function)) {
	c := l.c
	bound := func(st *eng.State, is func(*eng.Term) bool) (string, bool) {
		for _, f := range st.Facts {
			if f.Op != "le" {
				continue
			}
			x := f.Args[0]
			if x.Op != "lin" || len(x.Args) != 2 {
				continue
			}
			for i := range x.Args {
				n := indexField(x.Args[i], ixn)
				o := x.Args[1-i]
				if n != "" && x.Coef[i] == -1 && x.Coef[1-i] == 1 && is(o) {
					return n, true
				}
			}
		}
		return "", false
	}
	if f := c.Func("index", "Index.NamesAt"); f != nil && len(f.Params) == 3 {
		r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return g.Name() == "NewPathReader" || recvNamed(g) == "PathReader" }})
		for _, e := range r.Events {
			if !strings.HasSuffix(e.Name, ".NewPathReader") {
				continue
			}
			if e.Args[1] == eng.Nil {
				continue
			}
			n, ok := bound(e.St, func(t *eng.Term) bool { return t == r.Params[1] })
			if c.Check(ok, "count-used", "NamesAt", e.Instr.Pos(), "NamesAt reads a name without having compared its number with the number of names") {
				say("number of names", versionOf(e.St, ixn), n, "NamesAt", f)
			}
		}
	}
	for _, f := range loaders {
		r := c.Analyze(f, &eng.Config{Opaque: func(g *ssa.Function) bool { return recvNamed(g) == "deltaReader" }})
		recv := r.Params[0]
		for _, e := range r.Events {
			if !strings.HasSuffix(e.Name, "deltaReader).init") {
				continue
			}
			n, ok := bound(e.St, func(t *eng.Term) bool { return t.Op == "ld" && eng.Root(t.Args[0]) == recv })
			if c.Check(ok, "count-used", fnLabel(f), e.Instr.Pos(), "%s reads a list without having compared its number with the number of lists", fnLabel(f)) {
				say("number of posts", versionOf(e.St, ixn), n, fnLabel(f), f)
			}
		}
	}
	_, start := c.readerMethods()
	if f := c.tableSearch(start); f != nil {
		r := c.Analyze(f, &eng.Config{KeepFacts: true})
		n := 0
		for _, e := range r.Events {
			if e.Name != "sort.Search" && e.Name != "sort.Find" {
				continue
			}
			fld := indexField(e.Args[0], ixn)
			v := versionOf(e.St, ixn)
			if !c.Check(fld != "", "count-used", "search", e.Instr.Pos(), "the posting index is searched for %s entries, not for the number Open found", e.Args[0]) {
				continue
			}
			n++
			if v == 1 {
				say("number of posts", 1, fld, "search", f)
			} else {
				say("number of blocks", 2, fld, "search", f)
			}
		}
		c.Check(n > 0, "count-used", "search", f.Pos(), "the posting index is searched in an unknown way")
	}
}

// derived checks a field that Open computes from others.
func (l *layouts) derived(o *opened, role map[string]map[int]string, ro string, ver int, fld string, width int64) {
	c := l.c
	v := o.fields[fld]
	at := func(ro string) *eng.Term {
		if f := role[ro][ver]; f != "" {
			return o.fields[f]
		}
		return nil
	}
	cons := fmt.Sprintf("Open v%d %s", ver, ro)
	var n int64
	for _, s := range o.slots {
		n = max(n, s.back)
	}
	end := eng.AddK(eng.Len(o.data), -int64(len(o.magic))-n*width)
	quo := func(t *eng.Term) (x *eng.Term, k int64) {
		if t != nil && t.Op == "quo" && t.Args[1].Op == "int" {
			return t.Args[0], t.Args[1].K
		}
		return nil, 0
	}
	pi, ni := at("start of posting index"), at("start of name index")
	ok, want := false, ""
	switch {
	case ro == "number of names" && ver == 1 && pi != nil && ni != nil:
		// the table holds one number per name and one for the end
		x, k := quo(eng.AddK(v, 1))
		ok, want = x == eng.Sub(pi, ni) && k == width, "one less than the numbers in the name index"
	case ro == "number of posts" && ver == 1 && pi != nil:
		x, k := quo(v)
		ok, want = x == eng.Sub(end, pi) && k == 3+2*width, "the entries between the posting index and the trailer"
	case ro == "number of blocks" && pi != nil:
		x, k := quo(v)
		ok, want = x == eng.Sub(end, pi) && k > 0, "the blocks between the posting index and the trailer"
	case ro == "number of roots" && ver == 1:
		ok, want = v.Op == "int" && v.K < 0, "unlimited"
	default:
		want = "read from the trailer"
	}
	c.Check(ok, "slot", cons, 0, "Open sets the %s (field %s) to %s; it should be %s", ro, fld, v, want)
}

// sameVersion compares the version Open sets with the one the path of the
// writer implies.
func (l *layouts) sameVersion(w *written, o *opened) bool {
	return w.ver == 0 || int64(w.ver) == o.ver
}

// numberBytes returns the bytes a method of the buffered writer appends for
// its argument on each path, with the value of the version variable.
type numberBytes struct {
	bytes []*eng.Term
	st    *eng.State
	arg   *eng.Term
	ver   int
}

func (l *layouts) bytesOf(name string) (out []numberBytes) {
	c := l.c
	f := c.Func("index", "Buffer."+name)
	b := c.bufType()
	if f == nil || b == nil {
		return nil
	}
	x := eng.Sym("b", b.ptr)
	args := []*eng.Term{x}
	for _, p := range f.Params[1:] {
		args = append(args, eng.SymOf(p.Name(), p.Type()))
	}
	r := c.Analyze(f, &eng.Config{}, args...)
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		v := t.St.Load(b.fieldAddr(x, b.buf), b.buT)
		nb := numberBytes{st: t.St, arg: args[1], ver: l.versionIn(t.St)}
		for v.Op == "append" && v.Aux == "elems" {
			nb.bytes = append(append([]*eng.Term(nil), v.Args[1:]...), nb.bytes...)
			v = v.Args[0]
		}
		if len(nb.bytes) == 0 && v.Op == "call" {
			nb.bytes = []*eng.Term{v}
		}
		out = append(out, nb)
	}
	return out
}

// versionIn returns the version of the index being written that the state
// implies, or 0.
func (l *layouts) versionIn(st *eng.State) int {
	v := l.verVar()
	if v == nil {
		return 0
	}
	x := st.Load(v, types.Typ[types.Int])
	if x.Op == "int" {
		return int(x.K)
	}
	return oneOrTwo(st, x)
}

// verVar is the address of the package variable that selects the version.
func (l *layouts) verVar() *eng.Term {
	f := l.c.P.Func("index", "Buffer.WriteUint")
	if f == nil {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok {
					return eng.Mk("global", g.RelString(nil), g.Type())
				}
			}
		}
	}
	return nil
}

// byteOrder checks that numbers and trigrams are written most significant
// byte first, as they are read.
func (l *layouts) byteOrder() {
	c := l.c
	for _, m := range []struct {
		name string
		want func(int) int
	}{
		{"WriteUint", func(v int) int {
			if v == 1 {
				return 4
			}
			return 8
		}},
		{"WriteTrigram", func(int) int { return 3 }},
	} {
		for _, nb := range l.bytesOf(m.name) {
			n := m.want(nb.ver)
			cons := fmt.Sprintf("Buffer.%s v%d", m.name, nb.ver)
			if m.name == "WriteUint" && nb.ver == 0 {
				c.Check(false, "byte-order", cons, 0, "%s does not depend on the version of the index", m.name)
				continue
			}
			if len(nb.bytes) == 1 && isCall(nb.bytes[0], fmt.Sprintf("(encoding/binary.bigEndian).AppendUint%d", 8*n)) {
				x := nb.bytes[0].Args[len(nb.bytes[0].Args)-1]
				for x.Op == "conv" {
					x = x.Args[0]
				}
				c.Check(x == nb.arg, "byte-order", cons, 0, "%s does not write its argument but %s", m.name, x)
				continue
			}
			if !c.Check(len(nb.bytes) == n, "byte-order", cons, 0, "%s writes %d bytes; %d are read", m.name, len(nb.bytes), n) {
				continue
			}
			for i, b := range nb.bytes {
				bits := bitsOf(nb.st, b, 8)
				for j, x := range bits {
					c.Check(x.leaf == nb.arg && x.idx == 8*(n-1-i)+j, "byte-order", fmt.Sprintf("%s byte %d bit %d", cons, i, j), 0, "byte %d of the %d that %s writes is not byte %d of the number, counted from the least significant", i, n, m.name, n-1-i)
				}
			}
		}
	}
}
