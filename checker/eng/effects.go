package eng

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects summarises what a function may do to memory.
type Effects struct {
	Mod     map[string]bool // memory classes written
	Ref     map[string]bool // memory classes read
	All     bool            // may write anything (unknown callee)
	Calls   map[string]bool // external functions called (full names)
	Impure  bool            // calls an external function with side effects
	Loops   bool
	Instrs  int
	Callees map[*ssa.Function]bool
}

var effCache = map[*ssa.Function]*Effects{}

func addrClassOf(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p, _ := ptrElem(v.X.Type())
		st := p.Underlying().(*types.Struct)
		return "F:" + types.TypeString(p, nil) + "." + st.Field(v.Field).Name()
	case *ssa.IndexAddr:
		p, _ := ptrElem(v.Type())
		return "E:" + types.TypeString(p, nil)
	}
	if g, ok := v.(*ssa.Global); ok {
		return "G:" + g.RelString(nil)
	}
	if p, ok := ptrElem(v.Type()); ok {
		return "P:" + types.TypeString(p, nil)
	}
	return "P:?"
}

// rootAlloc reports whether the address is inside a local allocation that is
// only ever loaded, stored and selected from (does not escape).
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return !x.Heap
		default:
			return false
		}
	}
}

var addrTaken = map[*ssa.Program]map[string][]*ssa.Function{}

// valuesOf lists the module functions and closures of type t that are used
// as values.
func (r *Run) valuesOf(t types.Type) []*ssa.Function {
	m := addrTaken[r.Prog]
	if m == nil {
		m = map[string][]*ssa.Function{}
		addrTaken[r.Prog] = m
		seen := map[*ssa.Function]bool{}
		taken := map[*ssa.Function]bool{}
		take := func(f *ssa.Function) {
			if !taken[f] && r.inModule(f) {
				taken[f] = true
				k := sigKey(f.Signature)
				m[k] = append(m[k], f)
			}
		}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if f == nil || seen[f] || len(f.Blocks) == 0 || !r.inModule(f) {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var skip ssa.Value
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						skip = ci.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							visit(g)
							if *op != skip {
								take(g)
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						take(mc.Fn.(*ssa.Function))
					}
				}
			}
			for _, a := range f.AnonFuncs {
				visit(a)
			}
		}
		for _, p := range r.Prog.AllPackages() {
			if !strings.HasPrefix(p.Pkg.Path(), r.Cfg.Module) {
				continue
			}
			for _, mem := range p.Members {
				switch mem := mem.(type) {
				case *ssa.Function:
					visit(mem)
				case *ssa.Type:
					if n, ok := mem.Type().(*types.Named); ok {
						for i := 0; i < n.NumMethods(); i++ {
							visit(r.Prog.FuncValue(n.Method(i)))
						}
					}
				}
			}
		}
		for _, fs := range m {
			sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		}
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	return m[sigKey(sig)]
}

func sigKey(sig *types.Signature) string {
	var b strings.Builder
	for i := 0; i < sig.Params().Len(); i++ {
		b.WriteString(types.TypeString(sig.Params().At(i).Type(), nil) + ",")
	}
	b.WriteString(")")
	for i := 0; i < sig.Results().Len(); i++ {
		b.WriteString(types.TypeString(sig.Results().At(i).Type(), nil) + ",")
	}
	return b.String()
}

// EffectsOf computes the transitive effects of fn.
func (r *Run) EffectsOf(fn *ssa.Function) *Effects {
	if e := effCache[fn]; e != nil {
		return e
	}
	// collect the reachable module functions
	reach := map[*ssa.Function]bool{}
	var order []*ssa.Function
	e := &Effects{Mod: map[string]bool{}, Ref: map[string]bool{}, Calls: map[string]bool{}, Callees: reach}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] || len(f.Blocks) == 0 {
			return
		}
		reach[f] = true
		order = append(order, f)
		if len(infoOf(f).loops) > 0 {
			e.Loops = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				e.Instrs++
				switch in := in.(type) {
				case *ssa.Store:
					if localAddr(in.Addr) {
						break
					}
					switch in.Addr.(type) {
					case *ssa.FreeVar, *ssa.Alloc:
						// a captured variable: only the variable itself
						// changes, not what pointers of the same type
						// refer to
						if p, ok := ptrElem(in.Addr.Type()); ok {
							e.Mod["V:"+types.TypeString(p, nil)] = true
						}
					default:
						e.addClass(in.Addr, e.Mod)
					}
				case *ssa.UnOp:
					if in.Op.String() == "*" && !localAddr(in.X) {
						e.addClass(in.X, e.Ref)
					}
				case *ssa.MapUpdate:
					e.Mod["M:"+types.TypeString(in.Map.Type(), nil)] = true
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear":
							if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								e.Mod["E:"+types.TypeString(sl.Elem(), nil)] = true
							}
						case "delete":
							e.Mod["M:"+types.TypeString(c.Args[0].Type(), nil)] = true
						}
						continue
					}
					callee := c.StaticCallee()
					if callee != nil && r.inModule(callee) {
						visit(callee)
						continue
					}
					name := "dynamic"
					if callee != nil {
						name = calleeName(callee)
					} else if c.IsInvoke() {
						name = c.Method.FullName()
					}
					e.Calls[name] = true
					if !r.isPure(name, callee) {
						e.Impure = true
						if name == "dynamic" {
							// any function value of this type in the module
							for _, g := range r.valuesOf(c.Value.Type()) {
								visit(g)
							}
						}
						if !readOnly(name) {
							for _, a := range c.Args {
								e.argClasses(a.Type())
								switch a.(type) {
								case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
									e.addClass(a, e.Mod)
								}
							}
						}
					}
				}
			}
		}
	}
	visit(fn)
	effCache[fn] = e
	return e
}

func (e *Effects) addClass(addr ssa.Value, m map[string]bool) {
	p, ok := ptrElem(addr.Type())
	if ok {
		if st, ok := p.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				m["F:"+types.TypeString(p, nil)+"."+st.Field(i).Name()] = true
			}
		}
	}
	m[addrClassOf(addr)] = true
}

func (e *Effects) argClasses(t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e.Mod["E:"+types.TypeString(u.Elem(), nil)] = true
	case *types.Pointer:
		e.Mod["P:"+types.TypeString(u.Elem(), nil)] = true
		if st, ok := u.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				e.Mod["F:"+types.TypeString(u.Elem(), nil)+"."+st.Field(i).Name()] = true
			}
		}
		if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
			e.Mod["E:"+types.TypeString(sl.Elem(), nil)] = true
		}
	}
}

// Pure reports whether the function neither writes memory nor has external
// side effects.
func (e *Effects) Pure() bool {
	if e.All || e.Impure {
		return false
	}
	return len(e.Mod) == 0
}

// findRelevant computes the functions that can reach a target construct.
func (r *Run) findRelevant() {
	if r.Cfg.Target == nil {
		return
	}
	r.relevant = map[*ssa.Function]bool{}
	has := map[*ssa.Function]bool{}
	preds := map[*ssa.Function][]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		edge := func(g *ssa.Function) {
			preds[g] = append(preds[g], f)
			visit(g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				name := ""
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if callee := c.StaticCallee(); callee != nil {
						name = calleeName(callee)
						if r.inModule(callee) {
							edge(callee)
						}
					} else if c.IsInvoke() {
						name = c.Method.FullName()
					} else if bi, ok := c.Value.(*ssa.Builtin); ok {
						name = bi.Name()
					} else {
						name = "dynamic"
					}
				}
				if r.Cfg.Target(in, name) {
					has[f] = true
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					switch g := (*op).(type) {
					case *ssa.Function:
						if r.inModule(g) {
							edge(g)
						}
					case *ssa.MakeClosure:
						edge(g.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	visit(r.Fn)
	var work []*ssa.Function
	for f := range has {
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if r.relevant[f] {
			continue
		}
		r.relevant[f] = true
		work = append(work, preds[f]...)
	}
}

// inlineWorthy reports whether a module function is inlined.
func (r *Run) inlineWorthy(fn *ssa.Function) bool {
	if r.relevant == nil || r.relevant[fn] {
		return true
	}
	e := r.EffectsOf(fn)
	return !e.Loops && e.Instrs <= 60
}

// applySummary havocs what fn may modify.
func (r *Run) applySummary(s *State, fn *ssa.Function, args []*Term, lbl string) {
	e := r.EffectsOf(fn)
	r.Summarised[fn] = true
	if e.All {
		r.havocAll(s, args, lbl)
		return
	}
	reachable := func(root *Term) bool {
		if !isFresh(root) {
			return true
		}
		for _, a := range args {
			if a.Contains(root) {
				return true
			}
		}
		// a fresh object stored in memory may be reached through memory
		for _, v := range s.heap {
			if v.Contains(root) && v != root {
				return true
			}
			if v == root {
				return true
			}
		}
		return false
	}
	// fresh objects passed to (or stored where they can be found by) the
	// callee: fields it may write become unknown, the others keep the zero
	// value they were made with
	roots := map[*Term]bool{}
	note := func(t *Term) {
		t.Walk(func(x *Term) bool {
			if isFresh(x) {
				roots[x] = true
			}
			return true
		})
	}
	for _, a := range args {
		note(a)
	}
	for a, v := range s.heap {
		note(v)
		if r := Root(a); isFresh(r) {
			roots[r] = true
		}
	}
	for root := range roots {
		if s.dirty[root] || !reachable(root) {
			continue
		}
		p, ok := ptrElem(root.Typ)
		if !ok {
			continue
		}
		st, ok := p.Underlying().(*types.Struct)
		if !ok {
			if e.Mod[class(root)] || e.Mod["V:"+types.TypeString(p, nil)] {
				s.dirty[root] = true
				s.ver["O:"+itoa(root.ID)] = Mk("ver", lbl, nil)
			} else if arr, ok := p.Underlying().(*types.Array); ok && e.Mod["E:"+types.TypeString(arr.Elem(), nil)] {
				s.dirty[root] = true
				s.ver["O:"+itoa(root.ID)] = Mk("ver", lbl, nil)
			}
			continue
		}
		hit := false
		var zero func(base *Term, st *types.Struct)
		zero = func(base *Term, st *types.Struct) {
			for i := 0; i < st.NumFields(); i++ {
				fa := FieldAddr(base, st, i)
				ft := st.Field(i).Type()
				if sub, ok := ft.Underlying().(*types.Struct); ok {
					zero(fa, sub)
					continue
				}
				if e.Mod[class(fa)] || e.Mod["P:"+types.TypeString(ft, nil)] {
					hit = true
					continue
				}
				if arr, ok := ft.Underlying().(*types.Array); ok {
					if e.Mod["E:"+types.TypeString(arr.Elem(), nil)] {
						hit = true
					}
					continue
				}
				if _, ok := s.heap[fa]; !ok {
					s.heap[fa] = zeroValue(ft)
				}
			}
		}
		if st.NumFields() > 24 {
			hit = true
		} else {
			zero(root, st)
		}
		if hit {
			s.dirty[root] = true
			s.ver["O:"+itoa(root.ID)] = Mk("ver", lbl, nil)
		}
	}
	for a := range s.heap {
		cls := class(a)
		root := Root(a)
		// a store through a pointer to a field of that type
		viaPtr := a.Op == "field" && a.Typ != nil && e.Mod["P:"+ptrTo(a.Typ)]
		if e.Mod[cls] || viaPtr || a == root && isFresh(a) && strings.HasPrefix(cls, "P:") && e.Mod["V:"+cls[2:]] {
			if !reachable(root) {
				continue
			}
			delete(s.heap, a)
			if isFresh(root) {
				s.dirty[root] = true
				s.ver["O:"+itoa(root.ID)] = Mk("ver", lbl, nil)
			}
		}
	}
	for c := range e.Mod {
		if strings.HasPrefix(c, "V:") {
			continue
		}
		s.ver[c] = Mk("ver", lbl, nil)
		if strings.HasPrefix(c, "P:") {
			s.ver["PF:"+c[2:]] = Mk("ver", lbl, nil)
		}
	}
}

func ptrTo(t types.Type) string {
	if p, ok := ptrElem(t); ok {
		return types.TypeString(p, nil)
	}
	return "?"
}

func itoa(i int) string { return strconv.Itoa(i) }
