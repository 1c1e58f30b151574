package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var fatalFuncs = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true,
}

// purePkgs are packages whose functions have no side effects that matter
// here and whose results depend only on their arguments.
var purePkgs = map[string]bool{
	"strings": true, "unicode": true, "unicode/utf8": true, "math/bits": true, "math": true,
	"path": true, "path/filepath": true, "html": true, "strconv": true, "errors": false, "cmp": true,
}

// pureFuncs are further functions whose result depends only on their
// arguments (and the contents of argument slices).
var pureFuncs = map[string]bool{
	"bytes.IndexByte": true, "bytes.LastIndex": true, "bytes.Index": true, "bytes.LastIndexByte": true,
	"bytes.Equal": true, "bytes.Compare": true, "bytes.HasPrefix": true, "bytes.Count": true, "bytes.Contains": true,
	"encoding/binary.Uvarint": true, "fmt.Sprintf": true, "fmt.Sprint": true, "os.Getenv": true,
	"(encoding/binary.bigEndian).Uint32": true, "(encoding/binary.bigEndian).Uint64": true,
	"(encoding/binary.littleEndian).Uint32": true, "(encoding/binary.littleEndian).Uint64": true,
	"bytes.Cut": true, "bytes.Split": true, "bytes.SplitAfter": true, "bytes.TrimSpace": true,
	"(os.FileMode).IsRegular": true, "(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true,
	"flag.Args": true, "flag.NArg": true, // after flag.Parse
	"os.IsNotExist": true, "errors.Is": true, "bytes.NewReader": false,
	"(io/fs.FileInfo).Mode": true, "(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Name": true,
	"(io/fs.DirEntry).Name": true, "(error).Error": true, "(*os.File).Name": true, "(*os.File).Fd": true,
	"strings.NewReader": false, "strings.NewReplacer": false,
}

var impure = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Abs": true,
	"path/filepath.Glob": true, "path/filepath.EvalSymlinks": true,
	"strings.NewReader": true, "strings.NewReplacer": true,
}

func (r *Run) runBlock(fr *frame, b *ssa.BasicBlock, st *State, rets *[]exit) []edgeState {
	states := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		r.Steps += len(states)
		if r.Steps > r.Cfg.Budget {
			r.Over = true
			return nil
		}
		switch in := in.(type) {
		case *ssa.If:
			var out []edgeState
			for _, s := range states {
				c := r.val(fr, s, in.Cond)
				if r.condHook != nil {
					r.condHook(c)
				}
				switch s.Decide(c) {
				case True:
					s.Assume(c)
					out = append(out, edgeState{b, b.Succs[0], s})
				case False:
					s.Assume(Not(c))
					out = append(out, edgeState{b, b.Succs[1], s})
				default:
					s2 := s.clone()
					if s.Assume(c) {
						out = append(out, edgeState{b, b.Succs[0], s})
					}
					if s2.Assume(Not(c)) {
						out = append(out, edgeState{b, b.Succs[1], s2})
					}
				}
			}
			return out
		case *ssa.Jump:
			var out []edgeState
			for _, s := range states {
				out = append(out, edgeState{b, b.Succs[0], s})
			}
			return out
		case *ssa.Return:
			for _, s := range states {
				var vs []*Term
				for _, v := range in.Results {
					vs = append(vs, r.val(fr, s, v))
				}
				*rets = append(*rets, exit{s, vs})
			}
			return nil
		case *ssa.Panic:
			for _, s := range states {
				ev := &Event{Kind: "panic", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{r.val(fr, s, in.X)}}
				r.event(s, ev)
				r.terminal("panic", s, nil, ev)
			}
			return nil
		case *ssa.Call:
			var next []*State
			for _, s := range states {
				next = append(next, r.call(fr, s, in, &in.Call, in)...)
			}
			states = next
		case *ssa.RunDefers:
			var next []*State
			for _, s := range states {
				next = append(next, r.runDefers(fr, s)...)
			}
			states = next
		case *ssa.IndexAddr:
			next := states[:0:0]
			_, isSlice := in.X.Type().Underlying().(*types.Slice)
			for _, s := range states {
				r.simple(fr, s, in)
				if isSlice && s.Implies(Le(Len(r.val(fr, s, in.X)), r.val(fr, s, in.Index))) {
					continue // out of range: the program stops here
				}
				next = append(next, s)
			}
			states = next
		default:
			for _, s := range states {
				r.simple(fr, s, in)
			}
		}
		if len(states) == 0 {
			return nil
		}
	}
	return nil
}

func (r *Run) runDefers(fr *frame, s *State) []*State {
	ds := s.defers
	states := []*State{s}
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var next []*State
		for _, x := range states {
			next = append(next, r.invoke(fr, x, d.call, d.call.Common(), nil, d.args, d.fn)...)
		}
		states = next
	}
	return states
}

// simple executes an instruction with one successor state.
func (r *Run) simple(fr *frame, s *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { s.env[v] = t }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := Mk("alloc", r.label(fr, in), in.Type())
		for a := range s.heap {
			if Root(a) == t {
				delete(s.heap, a)
			}
		}
		delete(s.dirty, t)
		delete(s.ver, fmt.Sprintf("O:%d", t.ID))
		set(in, t)
	case *ssa.BinOp:
		t := r.binop(s, in.Op, r.val(fr, s, in.X), r.val(fr, s, in.Y), in.X.Type(), in.Type())
		if in.Op == token.ADD || in.Op == token.SUB || in.Op == token.MUL {
			t = s.wrap(t, in.Type())
		}
		set(in, t)
	case *ssa.ChangeInterface:
		set(in, r.val(fr, s, in.X))
	case *ssa.ChangeType:
		set(in, retype(r.val(fr, s, in.X), in.Type()))
	case *ssa.Convert:
		set(in, r.convert(s, r.val(fr, s, in.X), in.X.Type(), in.Type()))
	case *ssa.Defer:
		var args []*Term
		for _, a := range in.Call.Args {
			args = append(args, r.val(fr, s, a))
		}
		d := &deferred{call: in, args: args, fr: fr}
		if in.Call.IsInvoke() {
			d.fn = r.val(fr, s, in.Call.Value)
		} else {
			d.fn = r.val(fr, s, in.Call.Value)
		}
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], d)
	case *ssa.Extract:
		set(in, Extract(r.val(fr, s, in.Tuple), in.Index, in.Type()))
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		set(in, FieldVal(r.val(fr, s, in.X), st, in.Field))
	case *ssa.FieldAddr:
		p, _ := ptrElem(in.X.Type())
		st := p.Underlying().(*types.Struct)
		set(in, FieldAddr(r.val(fr, s, in.X), st, in.Field))
	case *ssa.Index:
		x, i := r.val(fr, s, in.X), r.val(fr, s, in.Index)
		if x.Op == "str" && i.Op == "int" && i.K >= 0 && int(i.K) < len(x.Aux) {
			set(in, Int(int64(x.Aux[i.K])))
			break
		}
		if r.Cfg.Indexes {
			r.event(s, &Event{Kind: "index", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{x, i}})
		}
		set(in, strIndex(x, i, in.Type()))
	case *ssa.IndexAddr:
		x, i := r.val(fr, s, in.X), r.val(fr, s, in.Index)
		if r.Cfg.Indexes {
			r.event(s, &Event{Kind: "index", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{x, i}})
		}
		if x == Nil {
			x = Mk("nilslice", "", in.X.Type())
		}
		set(in, Elem(x, i, in.Type()))
	case *ssa.Lookup:
		x, i := r.val(fr, s, in.X), r.val(fr, s, in.Index)
		if isString(in.X.Type()) {
			if r.Cfg.Indexes {
				r.event(s, &Event{Kind: "index", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{x, i}})
			}
			if x.Op == "str" && i.Op == "int" && i.K >= 0 && int(i.K) < len(x.Aux) {
				set(in, Int(int64(x.Aux[i.K])))
				break
			}
			set(in, strIndex(x, i, in.Type()))
			break
		}
		args := []*Term{x, i}
		if x == Nil {
			// nothing is in it
			if in.CommaOk {
				set(in, Mk("tuple", "", in.Type(), zeroValue(in.Type().(*types.Tuple).At(0).Type()), False))
			} else {
				set(in, zeroValue(in.Type()))
			}
			r.event(s, &Event{Kind: "lookup", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: args, Res: s.env[in]})
			break
		}
		if v := s.ver["M:"+types.TypeString(in.X.Type(), nil)]; v != nil {
			args = append(args, v)
		}
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			v := Mk("lookup", "", tt.At(0).Type(), args...)
			ok := Mk("lookupok", "", tt.At(1).Type(), args...)
			set(in, Mk("tuple", "", in.Type(), v, ok))
		} else {
			set(in, Mk("lookup", "", in.Type(), args...))
		}
		r.event(s, &Event{Kind: "lookup", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{x, i}, Res: s.env[in]})
	case *ssa.MakeChan:
		set(in, Mk("opaque", r.label(fr, in), in.Type()))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		n := funcName(fn)
		r.funcs[n] = fn
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, r.val(fr, s, b))
		}
		set(in, Mk("closure", n, in.Type(), bs...))
	case *ssa.MakeInterface:
		x := r.val(fr, s, in.X)
		if x.Typ == nil || !types.Identical(x.Typ, in.X.Type()) || x.Op == "int" || x.IsConst() || true {
			x = Mk("iface", types.TypeString(in.X.Type(), nil), in.X.Type(), x)
		}
		set(in, x)
	case *ssa.MakeMap:
		set(in, Mk("makemap", r.label(fr, in), in.Type()))
	case *ssa.MakeSlice:
		l, c := r.val(fr, s, in.Len), r.val(fr, s, in.Cap)
		t := Mk("makeslice", r.label(fr, in), in.Type(), l, c)
		for a := range s.heap {
			if Root(a) == t {
				delete(s.heap, a)
			}
		}
		delete(s.dirty, t)
		set(in, t)
	case *ssa.MapUpdate:
		s.ver["M:"+types.TypeString(in.Map.Type(), nil)] = Mk("ver", r.label(fr, in), nil)
		r.event(s, &Event{Kind: "mapupdate", Instr: in, Fn: fr.fn, Ctx: fr.ctx,
			Args: []*Term{r.val(fr, s, in.Map), r.val(fr, s, in.Key), r.val(fr, s, in.Value)}})
	case *ssa.Next:
		l := r.label(fr, in)
		it := r.val(fr, s, in.Iter)
		tt := in.Type().(*types.Tuple)
		ok := Mk("next", "ok@"+l, tt.At(0).Type(), it)
		k := Mk("next", "k@"+l, tt.At(1).Type(), it)
		v := Mk("next", "v@"+l, tt.At(2).Type(), it)
		// facts about an earlier iteration's element do not apply
		s.dropFacts(func(t *Term) bool { return t == ok || t == k || t == v })
		set(in, Mk("tuple", "", in.Type(), ok, k, v))
	case *ssa.Range:
		set(in, Mk("range", "", in.Type(), r.val(fr, s, in.X)))
	case *ssa.Slice:
		r.slice(fr, s, in)
	case *ssa.SliceToArrayPointer:
		set(in, r.val(fr, s, in.X))
	case *ssa.Store:
		addr, v := r.val(fr, s, in.Addr), r.val(fr, s, in.Val)
		p, _ := ptrElem(in.Addr.Type())
		if r.Cfg.Stores != nil && r.Cfg.Stores(addr) {
			r.event(s, &Event{Kind: "store", Name: class(addr), Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{addr, v}})
		}
		s.store(addr, v, p, r.label(fr, in))
	case *ssa.TypeAssert:
		r.typeAssert(fr, s, in)
	case *ssa.UnOp:
		x := r.val(fr, s, in.X)
		switch in.Op {
		case token.MUL:
			set(in, s.Load(x, in.Type()))
		case token.NOT:
			set(in, Not(x))
		case token.SUB:
			if isInteger(in.Type()) {
				set(in, s.wrap(MulK(x, -1), in.Type()))
			} else {
				set(in, Mk("neg", "", in.Type(), x))
			}
		case token.XOR:
			if x.Op == "int" {
				set(in, truncConst(^x.K, in.Type()))
			} else {
				set(in, Mk("compl", "", in.Type(), x))
			}
		default:
			t := Mk("opaque", r.label(fr, in), in.Type())
			set(in, t)
		}
	case *ssa.Go:
		r.event(s, &Event{Kind: "go", Instr: in, Fn: fr.fn, Ctx: fr.ctx})
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, Mk("opaque", r.label(fr, in), v.Type()))
		}
	}
}

func (s *State) dropFacts(bad func(*Term) bool) {
	var keep []*Term
	for _, f := range s.Facts {
		if !f.Any(bad) {
			keep = append(keep, f)
		}
	}
	s.Facts = keep
}

func strIndex(x, i *Term, typ types.Type) *Term {
	if x.Op == "arr" && i.IsInt() && i.K >= 0 && i.K < int64(len(x.Args)) {
		return x.Args[i.K]
	}
	if x.Op == "slice" {
		return Mk("stridx", "", typ, x.Args[0], Add(i, x.Args[1]))
	}
	return Mk("stridx", "", typ, x, i)
}

// retype gives t the type typ where the term carries a type that matters.
func retype(t *Term, typ types.Type) *Term {
	if t.Op == "struct" {
		return Mk("struct", types.TypeString(typ, nil), typ, t.Args...)
	}
	return t
}

func (r *Run) typeAssert(fr *frame, s *State, in *ssa.TypeAssert) {
	x := r.val(fr, s, in.X)
	var v, ok *Term
	if x.Op == "iface" && !types.IsInterface(in.AssertedType) {
		if types.Identical(x.Typ, in.AssertedType) {
			v, ok = x.Args[0], True
		} else {
			v, ok = zeroValue(in.AssertedType), False
		}
	} else if x == Nil {
		v, ok = zeroValue(in.AssertedType), False
	} else {
		n := types.TypeString(in.AssertedType, nil)
		v = x
		if !types.IsInterface(in.AssertedType) {
			v = Mk("assert", n, in.AssertedType, x)
		}
		ok = Mk("assertok", n, types.Typ[types.Bool], x)
	}
	if in.CommaOk {
		s.env[in] = Mk("tuple", "", in.Type(), v, ok)
	} else {
		s.env[in] = v
	}
}

func (r *Run) slice(fr *frame, s *State, in *ssa.Slice) {
	x := r.val(fr, s, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = r.val(fr, s, in.Low)
	}
	var hi, max *Term
	if in.High != nil {
		hi = r.val(fr, s, in.High)
	} else {
		hi = Len(x)
	}
	if in.Max != nil {
		max = r.val(fr, s, in.Max)
	}
	if r.Cfg.Indexes {
		r.event(s, &Event{Kind: "slice", Instr: in, Fn: fr.fn, Ctx: fr.ctx, Args: []*Term{x, lo, hi}})
	}
	if isString(in.X.Type()) {
		if x.Op == "str" && lo.Op == "int" && hi.Op == "int" && 0 <= lo.K && lo.K <= hi.K && int(hi.K) <= len(x.Aux) {
			s.env[in] = Str(x.Aux[lo.K:hi.K])
			return
		}
		if lo.Op == "int" && lo.K == 0 && hi == Len(x) {
			s.env[in] = x
			return
		}
	}
	s.env[in] = Slice(x, lo, hi, max, in.Type())
}

func (r *Run) binop(s *State, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	switch op {
	case token.EQL:
		return r.cmpEq(x, y, xt)
	case token.NEQ:
		return Not(r.cmpEq(x, y, xt))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInteger(xt) {
			switch op {
			case token.LSS:
				return Lt(x, y)
			case token.LEQ:
				return Le(x, y)
			case token.GTR:
				return Lt(y, x)
			default:
				return Le(y, x)
			}
		}
		switch op {
		case token.LSS:
			return Mk("lt", "", types.Typ[types.Bool], x, y)
		case token.GTR:
			return Mk("lt", "", types.Typ[types.Bool], y, x)
		case token.LEQ:
			return Not(Mk("lt", "", types.Typ[types.Bool], y, x))
		default:
			return Not(Mk("lt", "", types.Typ[types.Bool], x, y))
		}
	}
	// (x / k) etc.
	if op == token.SHR && isInteger(rt) {
		if lo, _, l, _ := s.Range(x); l && lo >= 0 && y.Op == "int" && y.K == 0 {
			return x
		}
	}
	return Bin(op, x, y, rt)
}

func (r *Run) cmpEq(x, y *Term, t types.Type) *Term {
	if x.Op == "iface" && y.Op == "iface" {
		if x.Aux == y.Aux {
			return Eq(x.Args[0], y.Args[0], x.Typ)
		}
		return False
	}
	// slices compare only with nil
	if _, ok := t.Underlying().(*types.Slice); ok {
		if y == Nil {
			return isNil(x)
		}
		if x == Nil {
			return isNil(y)
		}
	}
	return Eq(x, y, t)
}

func isNil(x *Term) *Term {
	if x == Nil {
		return True
	}
	if NonNil(x) {
		return False
	}
	switch x.Op {
	case "slice":
		return isNil(x.Args[0])
	case "append":
		if x.Aux == "elems" && len(x.Args) == 1 {
			return isNil(x.Args[0])
		}
	}
	return Eq(x, Nil, types.Typ[types.UntypedNil])
}

// wrap is the value of the arithmetic result t in the narrow type typ: t itself
// if the type holds all values it can have.
func (s *State) wrap(t *Term, typ types.Type) *Term {
	w, signed := Width(typ)
	if !isInteger(typ) || w > 16 || t.Op == "int" {
		if w <= 16 && isInteger(typ) {
			return truncConst(t.K, typ)
		}
		return t
	}
	min, max := int64(0), int64(1)<<uint(w)-1
	if signed {
		min, max = -1<<uint(w-1), 1<<uint(w-1)-1
	}
	if lo, hi, l, h := s.Range(t); l && h && lo >= min && hi <= max {
		return t
	}
	return Mk("conv", typeName(typ.Underlying()), typ, t)
}

func (r *Run) convert(s *State, x *Term, from, to types.Type) *Term {
	if isInteger(from) && isInteger(to) {
		t := Conv(x, from, to)
		if t.Op == "conv" {
			// value-preserving under the current facts?
			lo, hi, l, h := s.Range(x)
			w, sg := Width(to)
			if l && lo >= 0 {
				if h {
					var max int64 = 1<<63 - 1
					if w < 63 {
						max = int64(1)<<uint(w-boolInt(sg)) - 1
					}
					if hi <= max {
						return x
					}
				}
				if fw, fs := Width(from); fs && w >= fw && !sg || fw == w && fs {
					return x
				}
			}
		}
		return t
	}
	fs, ts := isString(from), isString(to)
	if fs && ts {
		return x
	}
	if ts {
		if isInteger(from) {
			return Mk("runestr", "", to, x)
		}
		if sl, ok := from.Underlying().(*types.Slice); ok {
			kind := "bytes"
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				kind = "runes"
			}
			if x.Op == "convstr" && x.Aux == kind {
				return x.Args[0]
			}
			args := []*Term{x}
			if v := s.ver["E:"+types.TypeString(sl.Elem(), nil)]; v != nil && !isFresh(Root(x)) {
				args = append(args, v)
			}
			return Mk("convstr", kind, to, args...)
		}
	}
	if fs {
		kind := "bytes"
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				kind = "runes"
			}
		}
		return Mk("convstr", kind, to, x)
	}
	if isInteger(from) || isInteger(to) {
		return Mk("convnum", typeName(to), to, x)
	}
	return x
}

// ---- calls

func (r *Run) call(fr *frame, s *State, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value) []*State {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, r.val(fr, s, a))
	}
	fn := r.val(fr, s, c.Value)
	return r.invoke(fr, s, in.(ssa.CallInstruction), c, v, args, fn)
}

func (r *Run) invoke(fr *frame, s *State, in ssa.CallInstruction, c *ssa.CallCommon, v ssa.Value, args []*Term, fv *Term) []*State {
	setRes := func(s *State, t *Term) {
		if v != nil {
			s.env[v] = t
		}
	}
	var callee *ssa.Function
	var bindings []*Term
	var name string
	var resType types.Type = types.NewTuple()
	if v != nil {
		resType = v.Type()
	} else if c.Signature().Results().Len() > 0 {
		resType = c.Signature().Results()
	}
	if c.IsInvoke() {
		recv := fv
		name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		if types.IsInterface(c.Value.Type()) && recv.Op == "iface" {
			if m := r.Prog.LookupMethod(recv.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				args = append([]*Term{recv.Args[0]}, args...)
				name = callee.String()
			}
		}
		if callee == nil {
			// name by the interface that declares the method
			if f := c.Method.FullName(); f != "" {
				name = f
			}
			args = append([]*Term{recv}, args...)
		}
	} else {
		if sc := c.StaticCallee(); sc != nil {
			callee = sc
			if fv.Op == "closure" {
				bindings = fv.Args
			} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					bindings = append(bindings, r.val(fr, s, b))
				}
			}
		} else if fv.Op == "closure" || fv.Op == "func" {
			callee = r.funcs[fv.Aux]
			if fv.Op == "closure" {
				bindings = fv.Args
			}
		}
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			return r.builtin(fr, s, in, c, v, args, bi.Name())
		}
		if callee == nil {
			name = "dynamic"
			args = append([]*Term{fv}, args...)
		} else {
			name = calleeName(callee)
		}
	}

	if callee != nil && r.shouldInline(fr, callee) {
		exits := r.callFunc(s, callee, args, bindings, r.label(fr, in.(ssa.Instruction)), fr.depth+1)
		var out []*State
		for _, e := range exits {
			switch {
			case len(e.rets) == 1:
				setRes(e.st, e.rets[0])
			case len(e.rets) > 1:
				setRes(e.st, Mk("tuple", "", resType, e.rets...))
			}
			out = append(out, e.st)
		}
		return out
	}

	// Kept as an event.
	ev := &Event{Kind: "call", Name: name, Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args}
	lbl := r.label(fr, in.(ssa.Instruction))
	pure := r.isPure(name, callee)
	ev.Pure = pure
	mod := callee != nil && r.inModule(callee) && len(callee.Blocks) > 0
	if mod {
		e := r.EffectsOf(callee)
		pure = e.Pure()
		if pure && len(e.Ref) > 0 {
			for _, a := range args {
				if a.Any(isFresh) {
					pure = false
				}
			}
		}
	}
	if pure {
		as := append([]*Term(nil), args...)
		for _, a := range args {
			if v := r.contentVer(s, a); v != nil {
				as = append(as, v)
			}
		}
		if mod {
			var cs []string
			for c := range r.EffectsOf(callee).Ref {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			for _, c := range cs {
				if v := s.ver[c]; v != nil {
					as = append(as, v)
				}
			}
		}
		ev.Res = Mk("call", name, resType, as...)
	} else {
		ev.Res = Mk("call", name+"@"+lbl, resType, args...)
		// a repeated call of the same site gives a new result
		res := ev.Res
		s.dropFacts(func(t *Term) bool { return t == res })
	}
	switch name {
	case "unicode/utf8.EncodeRune":
		// the number of bytes depends on the rune only; they are written
		ev.Res = Mk("call", name, resType, args[1])
		if sl, ok := args[0].Typ.Underlying().(*types.Slice); ok {
			s.havocElems(args[0], sl.Elem(), lbl)
		}
	case "strings.Contains":
		ev.Res = Not(Lt(Mk("call", "strings.Index", types.Typ[types.Int], args...), Int(0)))
	}
	r.event(s, ev)
	if name == "strings.Cut" {
		// the parts around the first place, or everything
		i := Mk("call", "strings.Index", types.Typ[types.Int], args...)
		s2 := s.clone()
		var out []*State
		if s.Assume(Not(Lt(i, Int(0)))) {
			setRes(s, Mk("tuple", "", resType, Slice(args[0], Int(0), i, nil, args[0].Typ), Slice(args[0], Add(i, Len(args[1])), Len(args[0]), nil, args[0].Typ), True))
			out = append(out, s)
		}
		if s2.Assume(Lt(i, Int(0))) {
			s = s2
			setRes(s, Mk("tuple", "", resType, args[0], Str(""), False))
			out = append(out, s)
		}
		return out
	}
	if fatalFuncs[name] {
		r.terminal("fatal", s, nil, ev)
		return nil
	}
	if out := forkSmall(s, name, args, setRes); out != nil {
		return out
	}
	if mod && r.Cfg.Model != nil {
		if res, ok := r.Cfg.Model(s, ev, callee, lbl); ok {
			if res != nil {
				ev.Res = res
				setRes(s, res)
			}
			return []*State{s}
		}
	}
	setRes(s, ev.Res)
	if !pure {
		if mod {
			r.applySummary(s, callee, args, lbl)
		} else {
			r.havocArgs(s, name, args, lbl)
			if name == "dynamic" && len(fv.Args) == 0 {
				for _, g := range r.valuesOf(c.Value.Type()) {
					r.applySummary(s, g, args, lbl)
				}
			}
		}
	}
	// callbacks
	for _, a := range args {
		for a.Op == "iface" {
			a = a.Args[0]
		}
		if a.Op == "closure" || a.Op == "func" {
			if cb := r.funcs[a.Aux]; cb != nil && r.shouldInline(fr, cb) && callbackOK(name) {
				r.callback(fr, s, ev, cb, a, lbl)
			}
		}
	}
	return []*State{s}
}

func callbackOK(name string) bool { return true }

// forkSmall splits the path over the outcomes of questions about single bytes:
// is the first (last) byte of a string c, is a byte one of a few.
func forkSmall(s *State, name string, args []*Term, setRes func(*State, *Term)) (out []*State) {
	try := func(res *Term, facts ...*Term) {
		s2 := s.clone()
		for _, f := range facts {
			if !s2.Assume(f) {
				return
			}
		}
		setRes(s2, res)
		out = append(out, s2)
	}
	switch name {
	case "strings.HasPrefix", "strings.HasSuffix":
		x, p := args[0], args[1]
		if p.Op != "str" || len(p.Aux) != 1 || x.IsConst() {
			return nil
		}
		n := Len(x)
		at := Int(0)
		if name == "strings.HasSuffix" {
			at = AddK(n, -1)
		}
		is := EqInt(strIndex(x, at, types.Typ[types.Uint8]), Int(int64(p.Aux[0])))
		try(True, Lt(Int(0), n), is)
		try(False, Lt(Int(0), n), Not(is))
		try(False, EqInt(n, Int(0)))
	case "strings.IndexByte", "strings.IndexRune", "strings.ContainsRune":
		x, b := args[0], args[1]
		if x.Op != "str" || len(x.Aux) > 8 || b.IsConst() {
			return nil
		}
		yes := func(i int) *Term {
			if name == "strings.ContainsRune" {
				return True
			}
			return Int(int64(i))
		}
		none := []*Term{}
		for i := 0; i < len(x.Aux); i++ {
			if x.Aux[i] >= 0x80 {
				return nil
			}
			is := EqInt(b, Int(int64(x.Aux[i])))
			try(yes(i), append(append([]*Term(nil), none...), is)...)
			none = append(none, Not(is))
		}
		if name == "strings.ContainsRune" {
			try(False, none...)
		} else {
			try(Int(-1), none...)
		}
	}
	return out
}

// callback models any number of calls of the closure a by the callee.
func (r *Run) callback(fr *frame, s *State, ev *Event, cb *ssa.Function, a *Term, lbl string) {
	key := lbl + "#cb"
	n := r.loopSeq[key]
	r.loopSeq[key]++
	if n > 0 {
		key += fmt.Sprintf("e%d", n)
	}
	lp := &Loop{Key: key, Fn: cb, Ctx: fr.ctx, Callback: true, Pos: cb.Pos()}
	ev.Callback = lp
	bind := a.Args
	r.labelIn[key] = append(append([]string(nil), r.active...), key)
	var last *State
	entry := s.clone()
	r.fixpoint(lp, entry, nil, func(*State, int, *Term) {},
		func(h *State) (backs []*State, vals [][]*Term) {
			if last == nil {
				last = h.clone()
			} else {
				last = h.clone()
			}
			var args []*Term
			for i, p := range cb.Params {
				nm := fmt.Sprintf("%s.%d@%s", p.Name(), i, key)
				args = append(args, SymOf(nm, p.Type()))
			}
			lp.Params = args
			exits := r.callFunc(h, cb, args, bind, lbl+"cb", fr.depth+1)
			for _, e := range exits {
				if len(e.rets) > 0 {
					e.st.addEvent(&Event{Kind: "return", Fn: cb, Ctx: fr.ctx, Args: e.rets, Facts: e.st.Facts})
				}
				backs = append(backs, e.st)
				vals = append(vals, nil)
			}
			return
		}, func() { last = nil })
	// after the call: zero or more iterations have happened
	if last != nil {
		s.heap, s.ver, s.dirty = last.heap, last.ver, last.dirty
		s.Facts = append([]*Term(nil), last.Facts...)
		s.Auto = last.Auto
		s.hist = &Hist{Prev: s.hist, Loop: lp, n: histLen(s.hist) + 1}
	}
}

func (r *Run) inModule(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p == nil && fn.Parent() != nil {
		return r.inModule(fn.Parent())
	}
	if p == nil {
		// wrappers and bound methods
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), r.Cfg.Module)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), r.Cfg.Module)
}

var stdInline = map[string]bool{
	"slices.Values": true, "slices.Collect": true, "slices.AppendSeq": true, "slices.All": true, "slices.Backward": true,
}

func (r *Run) shouldInline(fr *frame, fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || fr.depth >= r.Cfg.MaxDepth {
		return false
	}
	for _, f := range r.stack {
		if f == fn {
			return false
		}
	}
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
	}
	if p := fn.Parent(); p != nil && !r.inModule(fn) {
		for p.Parent() != nil {
			p = p.Parent()
		}
		if o := p.Origin(); o != nil {
			p = o
		}
		return stdInline[p.String()] || r.Cfg.Inline != nil && r.Cfg.Inline(p)
	}
	if !r.inModule(fn) {
		return stdInline[base.String()] || r.Cfg.Inline != nil && r.Cfg.Inline(base)
	}
	if r.Cfg.Opaque != nil && r.Cfg.Opaque(fn) {
		return false
	}
	return r.inlineWorthy(fn)
}

func calleeName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Synthetic != "" && fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func (r *Run) isPure(name string, callee *ssa.Function) bool {
	if impure[name] {
		return false
	}
	if v, ok := pureFuncs[name]; ok {
		return v
	}
	if callee == nil {
		return false
	}
	var pkg string
	if o := callee.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if o := callee.Origin(); o != nil && o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	if purePkgs[pkg] {
		sig := callee.Signature
		if sig.Recv() != nil {
			if _, ok := sig.Recv().Type().(*types.Pointer); ok {
				return false
			}
		}
		return true
	}
	return false
}

// contentVer returns the version of the contents of a slice argument.
func (r *Run) contentVer(s *State, a *Term) *Term {
	if a.Typ == nil {
		return nil
	}
	sl, ok := a.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	root := Root(a)
	if isFresh(root) {
		return s.ver[fmt.Sprintf("O:%d", root.ID)]
	}
	return s.ver["E:"+types.TypeString(sl.Elem(), nil)]
}

// readOnlyArgs lists external functions that do not modify their arguments.
func readOnly(name string) bool {
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "log.") ||
		strings.HasPrefix(name, "os.") || strings.HasPrefix(name, "(*os.File).Write") ||
		strings.HasPrefix(name, "(*bytes.Buffer).Write") || strings.HasPrefix(name, "(io.Writer).") ||
		strings.HasPrefix(name, "syscall.") || strings.HasPrefix(name, "bytes.") ||
		strings.HasPrefix(name, "(net/http.ResponseWriter).") || name == "sort.Search" || name == "encoding/binary.AppendUvarint" ||
		strings.HasPrefix(name, "regexp/syntax.") || strings.HasPrefix(name, "(*regexp/syntax.") ||
		strings.HasPrefix(name, "slices.Clone")
}

func (r *Run) havocArgs(s *State, name string, args []*Term, lbl string) {
	if readOnly(name) {
		return
	}
	for _, a := range args {
		for a.Op == "iface" {
			a = a.Args[0]
		}
		if a.Typ == nil {
			continue
		}
		switch u := a.Typ.Underlying().(type) {
		case *types.Slice:
			s.havocElems(a, u.Elem(), lbl)
		case *types.Pointer:
			if a.Op == "closure" || a.Op == "func" {
				continue
			}
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
				v := s.Load(a, u.Elem())
				s.havocElems(v, sl.Elem(), lbl)
				continue
			}
			if st, ok := u.Elem().Underlying().(*types.Struct); ok {
				// struct holding pointers to slices (sort.Interface adapters)
				for i := 0; i < st.NumFields(); i++ {
					_ = i
				}
			}
			s.havoc(a, lbl)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := FieldVal(a, u, i)
				if f.Typ == nil {
					continue
				}
				if p, ok := f.Typ.Underlying().(*types.Pointer); ok {
					if sl, ok := p.Elem().Underlying().(*types.Slice); ok {
						s.havocElems(s.Load(f, p.Elem()), sl.Elem(), lbl)
					}
				}
			}
		}
	}
}

// havocAll forgets all memory except fresh objects not passed to the callee.
func (r *Run) havocAll(s *State, args []*Term, lbl string) {
	keep := func(root *Term) bool {
		if !isFresh(root) {
			return false
		}
		for _, a := range args {
			if a.Contains(root) {
				return false
			}
		}
		return true
	}
	for a := range s.heap {
		if !keep(Root(a)) {
			if isFresh(Root(a)) {
				s.dirty[Root(a)] = true
				s.ver[fmt.Sprintf("O:%d", Root(a).ID)] = Mk("ver", lbl, nil)
			}
			delete(s.heap, a)
		}
	}
	for c := range s.ver {
		if !strings.HasPrefix(c, "O:") {
			s.ver[c] = Mk("ver", lbl, nil)
		}
	}
	for _, f := range r.moduleClasses() {
		s.ver[f] = Mk("ver", lbl, nil)
	}
}

var modClasses []string

// moduleClasses lists the memory classes of all struct fields, elements and
// variables of the module's types.
func (r *Run) moduleClasses() []string {
	if modClasses != nil {
		return modClasses
	}
	seen := map[string]bool{}
	add := func(c string) {
		if !seen[c] {
			seen[c] = true
			modClasses = append(modClasses, c)
		}
	}
	addType := func(t types.Type) {
		add("P:" + types.TypeString(t, nil))
		switch u := t.Underlying().(type) {
		case *types.Slice:
			add("E:" + types.TypeString(u.Elem(), nil))
		case *types.Array:
			add("E:" + types.TypeString(u.Elem(), nil))
		}
	}
	for _, p := range r.Prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), r.Cfg.Module) {
			continue
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if st, ok := t.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						add("F:" + types.TypeString(t.Type(), nil) + "." + st.Field(i).Name())
						addType(st.Field(i).Type())
					}
				}
				addType(t.Type())
			}
			if g, ok := m.(*ssa.Global); ok {
				add("G:" + g.RelString(nil))
				if e, ok := ptrElem(g.Type()); ok {
					addType(e)
				}
			}
		}
	}
	return modClasses
}

func (r *Run) builtin(fr *frame, s *State, in ssa.CallInstruction, c *ssa.CallCommon, v ssa.Value, args []*Term, name string) []*State {
	set := func(t *Term) {
		if v != nil {
			s.env[v] = t
		}
	}
	lbl := r.label(fr, in.(ssa.Instruction))
	switch name {
	case "len":
		set(Len(args[0]))
	case "cap":
		set(Cap(args[0]))
	case "append":
		t := r.appendTerm(s, args, c, v)
		r.event(s, &Event{Kind: "append", Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args, Res: t})
		if sl, ok := args[0].Typ.(types.Type); ok && args[0] != Nil {
			if u, ok := sl.Underlying().(*types.Slice); ok {
				// may overwrite elements beyond len in the shared array
				_ = u
			}
		}
		set(t)
	case "copy":
		r.event(s, &Event{Kind: "copy", Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args})
		if u, ok := args[0].Typ.Underlying().(*types.Slice); ok {
			s.havocElems(args[0], u.Elem(), lbl)
		}
		n := Mk("copyn", "", types.Typ[types.Int], Len(args[0]), Len(args[1]))
		s.Assume(Le(n, Len(args[0])))
		s.Assume(Le(n, Len(args[1])))
		s.Assume(Le(Int(0), n))
		set(n)
	case "clear":
		r.event(s, &Event{Kind: "call", Name: "clear", Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args})
		if u, ok := args[0].Typ.Underlying().(*types.Slice); ok {
			s.havocElems(args[0], u.Elem(), lbl)
		}
	case "delete":
		s.ver["M:"+types.TypeString(c.Args[0].Type(), nil)] = Mk("ver", lbl, nil)
		r.event(s, &Event{Kind: "mapdelete", Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args})
	case "min", "max":
		if isInteger(v.Type()) {
			t := args[0]
			for _, a := range args[1:] {
				if k, ok := DiffConst(t, a); ok {
					if (k <= 0) == (name == "min") {
						continue
					}
					t = a
					continue
				}
				if s.Implies(Le(t, a)) {
					if name == "max" {
						t = a
					}
					continue
				}
				if s.Implies(Le(a, t)) {
					if name == "min" {
						t = a
					}
					continue
				}
				x, y := t, a
				if x.ID > y.ID {
					x, y = y, x
				}
				t = Mk(name, "", v.Type(), x, y)
				if name == "min" {
					s.Assume(Le(t, x))
					s.Assume(Le(t, y))
				} else {
					s.Assume(Le(x, t))
					s.Assume(Le(y, t))
				}
			}
			set(t)
		} else {
			set(Mk(name, "", v.Type(), args...))
		}
	case "panic":
		ev := &Event{Kind: "panic", Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args}
		r.event(s, ev)
		r.terminal("panic", s, nil, ev)
		return nil
	case "print", "println":
		r.event(s, &Event{Kind: "call", Name: name, Instr: in.(ssa.Instruction), Fn: fr.fn, Ctx: fr.ctx, Args: args})
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		if v != nil {
			set(Mk("opaque", lbl, v.Type()))
		}
	}
	return []*State{s}
}

// appendTerm models append(s, elems...).
func (r *Run) appendTerm(s *State, args []*Term, c *ssa.CallCommon, v ssa.Value) *Term {
	base, tail := args[0], args[1]
	typ := c.Args[0].Type()
	if tail == Nil || tail.Op == "str" && tail.Aux == "" {
		return base
	}
	// variadic literal: slice of a fresh array with constant length
	if tail.Op == "slice" && tail.Args[0].Op == "alloc" && tail.Args[1].Op == "int" && tail.Args[2].Op == "int" {
		sl := typ.Underlying().(*types.Slice)
		var el []*Term
		el = append(el, base)
		if base.Op == "append" && base.Aux == "elems" {
			el = append([]*Term(nil), base.Args...)
		}
		for i := tail.Args[1].K; i < tail.Args[2].K; i++ {
			a := Elem(tail.Args[0], Int(i), types.NewPointer(sl.Elem()))
			el = append(el, s.Load(a, sl.Elem()))
		}
		return Mk("append", "elems", typ, el...)
	}
	as := []*Term{base, tail}
	if vv := r.contentVer(s, tail); vv != nil {
		as = append(as, vv)
	}
	return Mk("append", "slice", typ, as...)
}
