package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

func init() {
	register(&Rule{
		ID: "C24",
		Explanation: "Reachability and effect analysis of everything the index writer and the merge can call: no iteration over a map, no goroutine, select or channel receive, no clock, random number, process or host identity, environment variable, file time, mode or inode, and no formatting or conversion of an address takes part, except where the value only reaches the log; " +
			"no package variable of the index package that is read there is assigned anything but its initial value outside package initialisation, so the output depends on the arguments and file contents alone.",
		Assumptions: []string{"sort functions are used with total orders (decided by C11 and C13)", "names of temporary files do not reach the index"},
		Run:         runDeterminism,
	})
}

func runDeterminism(c *Ctx) {
	g := graphOf(c.P)
	var roots []*ssa.Function
	for _, n := range []string{"Create", "IndexWriter.AddRoots", "IndexWriter.AddFile", "IndexWriter.Add", "IndexWriter.Flush", "Merge"} {
		if f := c.Func("index", n); f != nil {
			roots = append(roots, f)
		}
	}
	if len(roots) < 6 {
		return
	}
	r := g.reach(roots...)
	banned := []struct{ prefix, what string }{
		{"time.", "the clock"}, {"(time.", "the clock"}, {"math/rand", "random numbers"}, {"(*math/rand", "random numbers"}, {"crypto/rand", "random numbers"}, {"hash/maphash", "random hashes"}, {"(*hash/maphash", "random hashes"},
		{"os.Getpid", "the process"}, {"os.Getppid", "the process"}, {"os.Hostname", "the host"}, {"os.Getuid", "the user"}, {"os.Geteuid", "the user"}, {"os/user.", "the user"},
		{"os.Getenv", "the environment"}, {"os.LookupEnv", "the environment"}, {"os.Environ", "the environment"}, {"os.Getwd", "the current directory"},
		{"(io/fs.FileInfo).ModTime", "a file's time"}, {"(io/fs.FileInfo).Sys", "a file's inode"},
		{"(reflect.Value).MapRange", "map order"}, {"(reflect.Value).MapKeys", "map order"}, {"maps.Keys", "map order"}, {"maps.Values", "map order"}, {"maps.All", "map order"},
		{"runtime.Num", "the machine"}, {"runtime.GOMAXPROCS", "the machine"}, {"runtime.ReadMemStats", "memory use"}, {"runtime.Stack", "the run"}, {"runtime/debug.", "the run"},
		{"(*sync.Map).Range", "map order"}, {"(*sync.Pool).Get", "earlier runs"},
	}
	nf := 0
	for f := range r.fns {
		nf++
		c.funcs[f.String()] = true
		ok, pos := true, f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				what := ""
				switch in := in.(type) {
				case *ssa.Range:
					if _, isMap := in.X.Type().Underlying().(*types.Map); isMap {
						what = "iterates over a map"
					}
				case *ssa.Go:
					what = "starts a goroutine"
				case *ssa.Select:
					what = "selects among channels"
				case *ssa.Convert:
					if bt, isB := in.Type().Underlying().(*types.Basic); isB && bt.Kind() == types.Uintptr {
						if from, isF := in.X.Type().Underlying().(*types.Basic); isF && from.Kind() == types.UnsafePointer {
							what = "converts an address to a number"
						}
					}
				}
				if what != "" && !onlyLogged(in) {
					ok = false
					c.Viol("fixed-order", fnLabel(f)+":"+what, in.Pos(), "%s, used to write an index, %s: the order of the result can differ between runs", fnLabel(f), what)
				}
			}
		}
		c.Check(ok, "fixed-order", fnLabel(f), pos, "%s does not do its work in a fixed order", fnLabel(f))
	}
	for _, name := range sortedKeys(r.ext) {
		what := ""
		for _, b := range banned {
			if strings.HasPrefix(name, b.prefix) {
				what = b.what
			}
		}
		for _, in := range r.ext[name] {
			bad := what != "" && !onlyLogged(in)
			c.Check(!bad, "external-inputs", fnLabel(in.Parent())+":"+name, in.Pos(), "the index writer depends on %s through %s", what, name)
		}
	}
	// package variables
	inits := map[*ssa.Function]bool{}
	for _, f := range g.initsOf("index") {
		inits[f] = true
	}
	read := map[*ssa.Global]ssa.Instruction{}
	readers := map[*ssa.Global][]*ssa.Function{}
	for f := range r.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if gv, ok := (*op).(*ssa.Global); ok && gv.Pkg != nil && inModulePkg(gv.Pkg.Pkg) {
						if _, isStore := in.(*ssa.Store); !isStore && returns(f) {
							read[gv] = in
							readers[gv] = append(readers[gv], f)
						}
					}
				}
			}
		}
	}
	for gv, in := range read {
		ok := true
		var initial []string
		for _, st := range g.stores["G:"+gv.String()] {
			if inits[st.Parent()] {
				initial = append(initial, st.Val.String())
			}
		}
		for _, st := range g.stores["G:"+gv.String()] {
			if inits[st.Parent()] {
				continue
			}
			k, isC := st.Val.(*ssa.Const)
			if isC && len(initial) == 1 && k.String() == initial[0] {
				continue
			}
			// set by other code than the writer, e.g. a flag of a command
			if gv.Pkg.Pkg.Path() != load.Module+"/index" && !r.fns[st.Parent()] {
				continue
			}
			if bufferOf(gv, readers[gv], st) {
				continue
			}
			ok = false
			in = st
		}
		c.Check(ok, "history-free", gv.String(), in.Pos(), "what is written to an index depends on %s, which is changed at run time", strings.TrimPrefix(gv.String(), load.Module+"/"))
	}
	c.Check(nf >= 30, "reach", "index writer", 0, "only %d functions are reachable from the index writer", nf)
	c.Min("fixed-order", 30)
	c.Min("external-inputs", 20)
	c.Min("history-free", 1)
}

// onlyLogged reports whether the value made by in only reaches the log.
func onlyLogged(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, u := range *refs {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				name, _ := calleeOf(u)
				if strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
					continue
				}
				if strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") {
					if w, ok := u.(ssa.Value); ok && visit(w) {
						continue
					}
				}
				return false
			case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.Extract, *ssa.Slice:
				if !visit(u.(ssa.Value)) {
					return false
				}
			case *ssa.Store:
				// into a variadic argument array or a local variable
				var base ssa.Value = u.Addr
				if ia, ok := base.(*ssa.IndexAddr); ok {
					base = ia.X
				}
				a, ok := base.(*ssa.Alloc)
				if !ok || u.Val != v || !visitAlloc(a, visit) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return visit(v)
}

func visitAlloc(a *ssa.Alloc, visit func(ssa.Value) bool) bool {
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store, *ssa.DebugRef, *ssa.IndexAddr:
		case *ssa.Slice:
			if !visit(u) {
				return false
			}
		case *ssa.UnOp:
			if !visit(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// returns reports whether f can return (it does not only report an error
// that ends the program).
func returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		ends := false
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				n, _ := calleeOf(in)
				ends = ends || strings.HasPrefix(n, "log.Fatal") || n == "os.Exit"
			case *ssa.Return:
				if !ends {
					return true
				}
			}
		}
	}
	return false
}

// bufferOf reports whether gv is a buffer of plain numbers that is kept
// between calls of one function only to avoid allocating it again: that
// function (whose use of it is decided by C11) is its only user and replaces
// it by a new one when it is too short.
func bufferOf(gv *ssa.Global, readers []*ssa.Function, st *ssa.Store) bool {
	s, ok := gv.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := s.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	if _, ok := st.Val.(*ssa.MakeSlice); !ok {
		return false
	}
	for _, f := range readers {
		if f != st.Parent() {
			return false
		}
	}
	return true
}
