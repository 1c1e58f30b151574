package rules

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// graph is a whole-module index for flow-insensitive questions.
type graph struct {
	p       *load.Program
	fns     []*ssa.Function // all module functions, closures and synthetic wrappers reachable from them
	in      map[*ssa.Function]bool
	calls   map[*ssa.Function][]ssa.CallInstruction // static call sites of a module function
	stores  map[string][]*ssa.Store                 // by memory class
	makes   map[*ssa.Function][]*ssa.MakeClosure
	methods map[string][]*ssa.Function // module methods by name
	escapes map[*ssa.Function]bool     // function used as a value
}

var graphs = map[*load.Program]*graph{}

func inModulePkg(p *types.Package) bool {
	return p != nil && (p.Path() == load.Module || strings.HasPrefix(p.Path(), load.Module+"/"))
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func fullName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		return o.FullName()
	}
	return f.String()
}

// calleeOf names what a call instruction calls.
func calleeOf(ci ssa.CallInstruction) (name string, fn *ssa.Function) {
	c := ci.Common()
	if f := c.StaticCallee(); f != nil {
		return fullName(f), f
	}
	if c.IsInvoke() {
		return c.Method.FullName(), nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name(), nil
	}
	return "dynamic", nil
}

func graphOf(p *load.Program) *graph {
	if g := graphs[p]; g != nil {
		return g
	}
	g := &graph{p: p, in: map[*ssa.Function]bool{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, stores: map[string][]*ssa.Store{},
		makes: map[*ssa.Function][]*ssa.MakeClosure{}, methods: map[string][]*ssa.Function{}, escapes: map[*ssa.Function]bool{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || g.in[f] || len(f.Blocks) == 0 || !inModulePkg(fnPkg(f)) {
			return
		}
		g.in[f] = true
		g.fns = append(g.fns, f)
		if f.Signature.Recv() != nil {
			g.methods[f.Name()] = append(g.methods[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if callee := ci.Common().StaticCallee(); callee != nil {
						g.calls[callee] = append(g.calls[callee], ci)
						if o := callee.Origin(); o != nil && o != callee {
							g.calls[o] = append(g.calls[o], ci)
						}
						add(callee)
					}
				}
				switch x := in.(type) {
				case *ssa.Store:
					g.stores[addrClass(x.Addr)] = append(g.stores[addrClass(x.Addr)], x)
				case *ssa.MakeClosure:
					fn := x.Fn.(*ssa.Function)
					g.makes[fn] = append(g.makes[fn], x)
				}
				var skip ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					skip = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						add(fn)
						if *op != skip {
							g.escapes[fn] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, f := range p.Funcs() {
		add(f)
	}
	graphs[p] = g
	return g
}

func addrClass(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p := v.X.Type().Underlying().(*types.Pointer).Elem()
		return "F:" + types.TypeString(p, nil) + "." + p.Underlying().(*types.Struct).Field(v.Field).Name()
	case *ssa.Global:
		return "G:" + v.String()
	case *ssa.IndexAddr:
		return "E:" + types.TypeString(v.Type(), nil)
	}
	return "P:" + types.TypeString(v.Type(), nil)
}

// reach computes the module functions reachable from roots (calls, function
// values, interface methods) and the external functions they mention.
type reachSet struct {
	fns map[*ssa.Function]bool
	ext map[string][]ssa.Instruction
}

func (g *graph) reach(roots ...*ssa.Function) *reachSet {
	r := &reachSet{fns: map[*ssa.Function]bool{}, ext: map[string][]ssa.Instruction{}}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || r.fns[f] || !g.in[f] {
			return
		}
		r.fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					name, callee := calleeOf(ci)
					if callee != nil && g.in[callee] {
						visit(callee)
					} else {
						r.ext[name] = append(r.ext[name], in)
					}
					if ci.Common().IsInvoke() {
						for _, m := range g.methods[ci.Common().Method.Name()] {
							if types.Implements(m.Signature.Recv().Type(), ci.Common().Value.Type().Underlying().(*types.Interface)) {
								visit(m)
							}
						}
					}
				}
				var skip ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					skip = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == skip {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if g.in[fn] {
							visit(fn)
						} else {
							r.ext[fullName(fn)] = append(r.ext[fullName(fn)], in)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return r
}

// initsOf lists the package initialisers of the module packages rel imports
// (transitively), including rel itself.
func (g *graph) initsOf(rel string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		if inModulePkg(p) {
			if sp := g.p.SSA.Package(p); sp != nil {
				for _, m := range sp.Members {
					if f, ok := m.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
						out = append(out, f)
					}
				}
			}
			for _, q := range p.Imports() {
				visit(q)
			}
		}
	}
	if q := g.p.Pkgs[rel]; q != nil {
		visit(q.Types)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ---- backward provenance

// A Source is where a value may come from.
type Source struct {
	Kind string // "const", "call", "param", "freevar", "global", "unknown", "alloc"
	Name string // callee, parameter, constant text
	V    ssa.Value
	Fn   *ssa.Function
}

// A Tracer computes flow-insensitive backward provenance.
type Tracer struct {
	g *graph
	// Stop reports whether a call's result is a leaf (by callee name).
	Stop func(name string) bool
	// Through lists external callees whose result carries their arguments.
	Through func(name string) bool
	// Identity traces which object a pointer, slice or map refers to, not
	// what is stored in it.
	Identity bool
	// NoConcat makes the result of an operator a leaf.
	NoConcat bool
	seen     map[ssa.Value]bool
	seenLoad map[ssa.Value]bool
	out      []Source
}

func (t *Tracer) leaf(kind, name string, v ssa.Value) {
	var fn *ssa.Function
	if v != nil {
		fn = v.Parent()
	}
	t.out = append(t.out, Source{kind, name, v, fn})
}

// Trace returns the sources of v.
func (t *Tracer) Trace(v ssa.Value) []Source {
	t.seen = map[ssa.Value]bool{}
	t.seenLoad = map[ssa.Value]bool{}
	t.out = nil
	t.visit(v)
	return t.out
}

func (t *Tracer) visit(v ssa.Value) {
	if v == nil || t.seen[v] {
		return
	}
	t.seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		s := "nil"
		if v.Value != nil {
			s = v.Value.ExactString()
		}
		t.leaf("const", s, v)
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.visit(e)
		}
	case *ssa.BinOp:
		if t.NoConcat {
			t.leaf("op", v.Op.String(), v)
			return
		}
		t.visit(v.X)
		t.visit(v.Y)
	case *ssa.Convert:
		t.visit(v.X)
	case *ssa.ChangeType:
		t.visit(v.X)
	case *ssa.ChangeInterface:
		t.visit(v.X)
	case *ssa.MakeInterface:
		t.visit(v.X)
	case *ssa.TypeAssert:
		t.visit(v.X)
	case *ssa.Slice:
		t.visit(v.X)
	case *ssa.Field:
		// value-struct field: sources of the field class stores and of the value
		st := v.X.Type()
		cls := "F:" + types.TypeString(st, nil) + "." + st.Underlying().(*types.Struct).Field(v.Field).Name()
		t.fieldStores(cls)
		if c, ok := v.X.(*ssa.Call); ok && t.stopCall(c) {
			t.visit(v.X)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			t.call(c, v.Index)
			return
		}
		t.visit(v.Tuple)
	case *ssa.Next:
		t.visit(v.Iter)
	case *ssa.Range:
		t.visit(v.X)
	case *ssa.Lookup:
		t.visit(v.X)
	case *ssa.Index:
		t.visit(v.X)
	case *ssa.Call:
		t.call(v, 0)
	case *ssa.UnOp:
		if v.Op.String() == "*" {
			t.load(v.X)
			return
		}
		t.visit(v.X)
	case *ssa.Alloc:
		if t.Identity {
			t.leaf("alloc", v.Comment, v)
			return
		}
		t.allocStores(v)
	case *ssa.Parameter:
		t.param(v)
	case *ssa.FreeVar:
		fn := v.Parent()
		for i, fv := range fn.FreeVars {
			if fv == v {
				for _, mc := range t.g.makes[fn] {
					t.visit(mc.Bindings[i])
				}
			}
		}
	case *ssa.Global:
		t.leaf("global", v.String(), v)
		if t.Identity {
			return
		}
		for _, s := range t.g.stores["G:"+v.String()] {
			t.visit(s.Val)
		}
	case *ssa.FieldAddr:
		if t.Identity {
			t.visit(v.X)
			return
		}
		t.load(v)
	case *ssa.IndexAddr:
		if t.Identity {
			t.visit(v.X)
			return
		}
		t.load(v)
	case *ssa.MakeSlice, *ssa.MakeMap:
		t.leaf("alloc", "make", v)
		if t.Identity {
			return
		}
		t.containerStores(v)
	case *ssa.Function, *ssa.Builtin, *ssa.MakeClosure:
		t.leaf("func", v.Name(), v)
	default:
		t.leaf("unknown", v.String(), v)
	}
}

// containerStores visits values stored into a locally made slice or map.
func (t *Tracer) containerStores(v ssa.Value) {
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			t.visit(x.Value)
		case *ssa.IndexAddr:
			for _, r2 := range *x.Referrers() {
				if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
					t.visit(s.Val)
				}
			}
		}
	}
}

// allocStores visits everything stored in an allocation.
func (t *Tracer) allocStores(a *ssa.Alloc) {
	n := 0
	var refs func(v ssa.Value)
	refs = func(v ssa.Value) {
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v {
					t.visit(x.Val)
					n++
				}
			case *ssa.FieldAddr:
				refs(x)
			case *ssa.IndexAddr:
				refs(x)
			case *ssa.MakeClosure:
				// captured: stores inside the closure
				for i, b := range x.Bindings {
					if b == v {
						t.freeStores(x.Fn.(*ssa.Function).FreeVars[i], &n)
					}
				}
			}
		}
	}
	refs(a)
	if n == 0 {
		t.leaf("alloc", a.Comment, a)
	}
}

func (t *Tracer) freeStores(fv *ssa.FreeVar, n *int) {
	for _, in := range *fv.Referrers() {
		switch x := in.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				t.visit(x.Val)
				*n++
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == fv {
					t.freeStores(x.Fn.(*ssa.Function).FreeVars[i], n)
				}
			}
		}
	}
}

func (t *Tracer) fieldStores(cls string) {
	ss := t.g.stores[cls]
	if len(ss) == 0 {
		t.leaf("field", cls, nil)
		return
	}
	for _, s := range ss {
		t.visit(s.Val)
	}
}

// load visits the possible contents of an address.
func (t *Tracer) load(addr ssa.Value) {
	if t.Identity {
		if t.seenLoad[addr] {
			return
		}
		t.seenLoad[addr] = true
	}
	switch a := addr.(type) {
	case *ssa.Alloc:
		if t.Identity {
			t.allocStores(a)
			return
		}
		t.visit(a)
	case *ssa.Global:
		if t.Identity {
			t.leaf("global", a.String(), a)
			return
		}
		t.visit(a)
	case *ssa.FieldAddr:
		cls := addrClass(a)
		if len(t.g.stores[cls]) == 0 {
			t.leaf("field", cls, a)
			return
		}
		t.fieldStores(cls)
	case *ssa.IndexAddr:
		if t.Identity {
			// an element of a container: stores to elements of that type
			cls := addrClass(a)
			for _, s := range t.g.stores[cls] {
				t.visit(s.Val)
			}
			t.sharedOnly(a.X)
			return
		}
		t.visit(a.X)
	case *ssa.FreeVar, *ssa.Parameter, *ssa.Phi:
		if t.Identity {
			if fv, ok := a.(*ssa.FreeVar); ok {
				fn := fv.Parent()
				for i, x := range fn.FreeVars {
					if x == fv {
						for _, mc := range t.g.makes[fn] {
							t.load(mc.Bindings[i])
						}
					}
				}
				return
			}
			// *p for a pointer parameter: stores through pointers of that type
			for _, s := range t.g.stores[addrClass(a)] {
				t.visit(s.Val)
			}
			t.sharedOnly(addr)
			return
		}
		t.visit(addr)
	default:
		t.visit(addr)
	}
}

// sharedOnly reports the shared objects v may refer to: what they contain is
// shared too.
func (t *Tracer) sharedOnly(v ssa.Value) {
	u := &Tracer{g: t.g, Stop: t.Stop, Through: t.Through, Identity: true, NoConcat: t.NoConcat, seen: t.seen, seenLoad: t.seenLoad}
	n := len(u.out)
	u.visit(v)
	for _, s := range u.out[n:] {
		if s.Kind != "alloc" {
			t.out = append(t.out, s)
		}
	}
}

func (t *Tracer) stopCall(c *ssa.Call) bool {
	name, _ := calleeOf(c)
	return t.Stop != nil && t.Stop(name)
}

func (t *Tracer) call(c *ssa.Call, idx int) {
	name, fn := calleeOf(c)
	if t.Stop != nil && t.Stop(name) {
		t.leaf("call", name, c)
		return
	}
	if fn != nil && t.g.in[fn] {
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				t.visit(r.Results[idx])
			}
		}
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range c.Call.Args {
				t.visit(a)
			}
		default:
			t.leaf("const", b.Name(), c)
		}
		return
	}
	if t.Through != nil && t.Through(name) {
		for _, a := range c.Call.Args {
			t.visit(a)
		}
		if c.Call.IsInvoke() {
			t.visit(c.Call.Value)
		}
		return
	}
	t.leaf("call", name, c)
}

func (t *Tracer) param(p *ssa.Parameter) {
	fn := p.Parent()
	idx := -1
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	sites := t.g.calls[fn]
	if len(sites) == 0 || t.g.escapes[fn] || t.dynamicallyCalled(fn) {
		t.leaf("param", fn.String()+":"+p.Name(), p)
	}
	for _, s := range sites {
		args := s.Common().Args
		if idx < len(args) {
			t.visit(args[idx])
		}
	}
}

// dynamicallyCalled reports whether fn is a closure that is not only called
// directly.
func (t *Tracer) dynamicallyCalled(fn *ssa.Function) bool {
	for _, mc := range t.g.makes[fn] {
		for _, in := range *mc.Referrers() {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || ci.Common().Value != ssa.Value(mc) {
				return true
			}
			for _, a := range ci.Common().Args {
				if a == ssa.Value(mc) {
					return true
				}
			}
		}
	}
	return false
}
