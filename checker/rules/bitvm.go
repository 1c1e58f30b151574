package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

// A bitRun is an abstract interpretation of a function over vectors of
// bits of known origin: each bit of an integer is 0, 1, a named bit of the
// input, or unknown.  Control must depend on known bits only; the caller
// partitions the inputs so that it does.
type bitRun struct {
	c     *Ctx
	steps int
	out   []int // bits written, in order
	calls func(r *bitRun, f *ssa.Function, args []any) (any, bool)
}

// A bvec is an integer: bit i of 64, sign-extended or zero-extended from
// its type's width.
type bvec [64]int

const unkBit = -1

type bitCell struct{ v any }

type bitStruct struct{ f []*bitCell }

type bitArray struct{ e []*bitCell }

type bitSlice struct {
	a      *bitArray
	lo, hi int
}

type bitOpaque struct{ name string }

type bitFail struct{ msg string }

func (f bitFail) Error() string { return f.msg }

func bitErr(format string, args ...any) { panic(bitFail{fmt.Sprintf(format, args...)}) }

func bconst(v uint64) (b bvec) {
	for i := range b {
		b[i] = int(v >> uint(i) & 1)
	}
	return
}

func (b bvec) known() (uint64, bool) {
	var v uint64
	for i, x := range b {
		if x != 0 && x != 1 {
			return 0, false
		}
		v |= uint64(x) << uint(i)
	}
	return v, true
}

// norm cuts b to the width of typ and extends it.
func (b bvec) norm(typ types.Type) bvec {
	w, s := eng.Width(typ)
	for i := w; i < 64; i++ {
		if s {
			b[i] = b[w-1]
		} else {
			b[i] = 0
		}
	}
	return b
}

func (b bvec) bounds(signed bool) (lo, hi uint64) {
	for i, x := range b {
		switch x {
		case 1:
			lo |= 1 << uint(i)
			hi |= 1 << uint(i)
		case 0:
		default:
			hi |= 1 << uint(i)
		}
	}
	if signed {
		if b[63] != 0 && b[63] != 1 {
			bitErr("the sign of a number is not known")
		}
		lo ^= 1 << 63
		hi ^= 1 << 63
	}
	return
}

func zeroOf(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return bvec{}
		}
		if u.Info()&types.IsBoolean != 0 {
			return false
		}
	case *types.Struct:
		s := &bitStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &bitCell{zeroOf(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		if u.Len() <= 4096 {
			a := &bitArray{}
			for i := int64(0); i < u.Len(); i++ {
				a.e = append(a.e, &bitCell{zeroOf(u.Elem())})
			}
			return a
		}
	case *types.Slice:
		return bitSlice{}
	}
	return bitOpaque{"nil"}
}

func copyOf(v any) any {
	switch v := v.(type) {
	case *bitStruct:
		s := &bitStruct{}
		for _, f := range v.f {
			s.f = append(s.f, &bitCell{copyOf(f.v)})
		}
		return s
	case *bitArray:
		a := &bitArray{}
		for _, e := range v.e {
			a.e = append(a.e, &bitCell{copyOf(e.v)})
		}
		return a
	}
	return v
}

// run interprets f; a failure to decide, a panic of f or a reported
// corruption is returned as an error.
func (r *bitRun) run(f *ssa.Function, args []any) (res any, err error) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case bitFail:
			err = x
		default:
			panic(x)
		}
	}()
	return r.call(f, args, 0), nil
}

func (r *bitRun) call(f *ssa.Function, args []any, depth int) any {
	if f.Blocks == nil || depth > 8 {
		bitErr("%s cannot be followed", f)
	}
	env := map[ssa.Value]any{}
	for i, p := range f.Params {
		env[p] = args[i]
	}
	get := func(v ssa.Value) any {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return zeroOf(v.Type())
			}
			switch v.Value.Kind() {
			case constant.Int:
				if u, ok := constant.Uint64Val(v.Value); ok {
					return bconst(u)
				}
				i, _ := constant.Int64Val(v.Value)
				return bconst(uint64(i))
			case constant.Bool:
				return constant.BoolVal(v.Value)
			}
			return bitOpaque{v.String()}
		case *ssa.Function, *ssa.Global, *ssa.Builtin:
			return bitOpaque{v.String()}
		}
		x, ok := env[v]
		if !ok {
			bitErr("%s has no value", v.Name())
		}
		return x
	}
	num := func(v ssa.Value) bvec {
		b, ok := get(v).(bvec)
		if !ok {
			bitErr("%s is not a number", v.Name())
		}
		return b
	}
	kint := func(v ssa.Value, what string) int {
		u, ok := num(v).known()
		if !ok {
			bitErr("%s depends on the data", what)
		}
		return int(int64(u))
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var phis []any
		n := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pb := range b.Preds {
				if pb == prev {
					phis = append(phis, get(p.Edges[i]))
					break
				}
			}
			n++
		}
		for i := 0; i < n; i++ {
			env[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[n:] {
			if r.steps++; r.steps > 200000 {
				bitErr("%s does not end", f)
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				env[in] = r.binop(in, get(in.X), get(in.Y))
			case *ssa.UnOp:
				switch in.Op {
				case token.MUL:
					c, ok := get(in.X).(*bitCell)
					if !ok {
						env[in] = bitOpaque{in.String()}
						break
					}
					env[in] = copyOf(c.v)
				case token.SUB:
					env[in] = bitArith(token.SUB, bvec{}, num(in.X)).norm(in.Type())
				case token.XOR:
					x := num(in.X)
					for i := range x {
						switch x[i] {
						case 0, 1:
							x[i] = 1 - x[i]
						default:
							x[i] = unkBit
						}
					}
					env[in] = x.norm(in.Type())
				case token.NOT:
					x, ok := get(in.X).(bool)
					if !ok {
						bitErr("a condition depends on the data")
					}
					env[in] = !x
				default:
					bitErr("cannot follow %s", in)
				}
			case *ssa.Convert:
				x, ok := get(in.X).(bvec)
				if !ok {
					env[in] = get(in.X)
					break
				}
				env[in] = x.norm(in.Type())
			case *ssa.ChangeType:
				env[in] = get(in.X)
			case *ssa.Alloc:
				env[in] = &bitCell{zeroOf(in.Type().Underlying().(*types.Pointer).Elem())}
			case *ssa.FieldAddr:
				c, ok := get(in.X).(*bitCell)
				if !ok {
					env[in] = bitOpaque{in.String()}
					break
				}
				env[in] = c.v.(*bitStruct).f[in.Field]
			case *ssa.Field:
				s, ok := get(in.X).(*bitStruct)
				if !ok {
					bitErr("cannot follow %s", in)
				}
				env[in] = s.f[in.Field].v
			case *ssa.IndexAddr:
				i := kint(in.Index, "an index")
				switch x := get(in.X).(type) {
				case *bitCell:
					a := x.v.(*bitArray)
					if i < 0 || i >= len(a.e) {
						bitErr("index %d of %d", i, len(a.e))
					}
					env[in] = a.e[i]
				case bitSlice:
					if i < 0 || i >= x.hi-x.lo {
						bitErr("reads byte %d of the %d that are left", i, x.hi-x.lo)
					}
					env[in] = x.a.e[x.lo+i]
				default:
					bitErr("cannot follow %s", in)
				}
			case *ssa.Slice:
				var s bitSlice
				switch x := get(in.X).(type) {
				case *bitCell:
					a := x.v.(*bitArray)
					s = bitSlice{a, 0, len(a.e)}
				case bitSlice:
					s = x
				default:
					bitErr("cannot follow %s", in)
				}
				lo, hi := 0, s.hi-s.lo
				if in.Low != nil {
					lo = kint(in.Low, "a position")
				}
				if in.High != nil {
					hi = kint(in.High, "a position")
				}
				if lo < 0 || lo > hi || s.a == nil && hi > 0 || s.a != nil && s.lo+hi > len(s.a.e) {
					bitErr("slices [%d:%d] of %d bytes", lo, hi, s.hi-s.lo)
				}
				env[in] = bitSlice{s.a, s.lo + lo, s.lo + hi}
			case *ssa.Store:
				c, ok := get(in.Addr).(*bitCell)
				if !ok {
					bitErr("stores to %s", in.Addr)
				}
				c.v = copyOf(get(in.Val))
			case *ssa.MakeSlice:
				n := kint(in.Len, "a length")
				a := &bitArray{}
				for i := 0; i < n; i++ {
					a.e = append(a.e, &bitCell{bvec{}})
				}
				env[in] = bitSlice{a, 0, n}
			case *ssa.Extract:
				t, ok := get(in.Tuple).([]any)
				if !ok {
					bitErr("cannot follow %s", in)
				}
				env[in] = t[in.Index]
			case *ssa.Call:
				env[in] = r.callInstr(in, get, depth)
			case *ssa.MakeInterface:
				env[in] = bitOpaque{in.String()}
			case *ssa.If:
				x, ok := get(in.Cond).(bool)
				if !ok {
					bitErr("a condition depends on the data")
				}
				next = b.Succs[1]
				if x {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return nil
				case 1:
					return get(in.Results[0])
				}
				var t []any
				for _, x := range in.Results {
					t = append(t, get(x))
				}
				return t
			case *ssa.Panic:
				bitErr("%s panics", f.Name())
			default:
				bitErr("cannot follow %s in %s", in, f)
			}
		}
		if next == nil {
			bitErr("%s has no next block", f)
		}
		prev, b = b, next
	}
}

func (r *bitRun) callInstr(in *ssa.Call, get func(ssa.Value) any, depth int) any {
	var args []any
	for _, a := range in.Call.Args {
		args = append(args, get(a))
	}
	if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap":
			if s, ok := args[0].(bitSlice); ok {
				n := s.hi - s.lo
				if bi.Name() == "cap" && s.a != nil {
					n = len(s.a.e) - s.lo
				}
				return bconst(uint64(n))
			}
		case "append":
			s, ok1 := args[0].(bitSlice)
			t, ok2 := args[1].(bitSlice)
			if ok1 && ok2 {
				a := &bitArray{}
				for _, x := range []bitSlice{s, t} {
					for i := x.lo; i < x.hi; i++ {
						a.e = append(a.e, &bitCell{x.a.e[i].v})
					}
				}
				return bitSlice{a, 0, len(a.e)}
			}
		case "min", "max":
			best := args[0].(bvec)
			_, sg := eng.Width(in.Type())
			for _, x := range args[1:] {
				y := x.(bvec)
				u, ok1 := best.known()
				v, ok2 := y.known()
				if !ok1 || !ok2 {
					bitErr("%s depends on the data", bi.Name())
				}
				less := v < u
				if sg {
					less = int64(v) < int64(u)
				}
				if less == (bi.Name() == "min") {
					best = y
				}
			}
			return best
		}
		bitErr("cannot follow %s", in)
	}
	f := in.Call.StaticCallee()
	if f == nil {
		bitErr("cannot follow %s", in)
	}
	if r.calls != nil {
		if v, ok := r.calls(r, f, args); ok {
			return v
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/bits" {
		if x, ok := args[0].(bvec); ok && len(args) == 1 {
			return bitsCall(f.Name(), x)
		}
	}
	return r.call(f, args, depth+1)
}

func bitsCall(name string, x bvec) any {
	w := 64
	for _, k := range []int{8, 16, 32} {
		if n := fmt.Sprint(k); len(name) > len(n) && name[len(name)-len(n):] == n {
			w = k
			name = name[:len(name)-len(n)]
		}
	}
	if len(name) > 2 && name[len(name)-2:] == "64" {
		name = name[:len(name)-2]
	}
	switch name {
	case "Len", "LeadingZeros":
		for i := w - 1; i >= -1; i-- {
			if i == -1 || x[i] == 1 {
				if name == "Len" {
					return bconst(uint64(i + 1))
				}
				return bconst(uint64(w - 1 - i))
			}
			if x[i] != 0 {
				break
			}
		}
	case "TrailingZeros":
		for i := 0; i <= w; i++ {
			if i == w || x[i] == 1 {
				return bconst(uint64(i))
			}
			if x[i] != 0 {
				break
			}
		}
	case "OnesCount":
		if u, ok := x.known(); ok {
			return bconst(uint64(bits.OnesCount64(u)))
		}
	case "Reverse":
		var y bvec
		for i := 0; i < w; i++ {
			y[i] = x[w-1-i]
		}
		return y
	}
	bitErr("bits.%s depends on the data", name)
	return nil
}

// bitArith adds or subtracts.
func bitArith(op token.Token, x, y bvec) bvec {
	u, ok1 := x.known()
	v, ok2 := y.known()
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return bconst(u + v)
		case token.SUB:
			return bconst(u - v)
		case token.MUL:
			return bconst(u * v)
		}
	}
	var z bvec
	switch op {
	case token.ADD: // without carries
		for i := range z {
			switch {
			case x[i] == 0:
				z[i] = y[i]
			case y[i] == 0:
				z[i] = x[i]
			default:
				bitErr("a sum depends on the data")
			}
		}
		return z
	case token.SUB: // without borrows
		for i := range z {
			switch {
			case y[i] == 0:
				z[i] = x[i]
			case x[i] == y[i] && x[i] != unkBit:
				z[i] = 0
			default:
				bitErr("a difference depends on the data")
			}
		}
		return z
	case token.MUL:
		if ok2 && v != 0 && v&(v-1) == 0 {
			k := bits.TrailingZeros64(v)
			for i := k; i < 64; i++ {
				z[i] = x[i-k]
			}
			return z
		}
	}
	bitErr("the result of %s depends on the data", op)
	return z
}

func (r *bitRun) binop(in *ssa.BinOp, xa, ya any) any {
	if p, ok := xa.(bool); ok {
		q, ok := ya.(bool)
		if !ok {
			bitErr("cannot follow %s", in)
		}
		switch in.Op {
		case token.EQL:
			return p == q
		case token.NEQ:
			return p != q
		}
	}
	x, ok1 := xa.(bvec)
	y, ok2 := ya.(bvec)
	if !ok1 || !ok2 {
		bitErr("cannot follow %s", in)
	}
	_, signed := eng.Width(in.X.Type())
	var z bvec
	switch in.Op {
	case token.ADD, token.SUB, token.MUL:
		return bitArith(in.Op, x, y).norm(in.Type())
	case token.QUO, token.REM:
		u, ok1 := x.known()
		v, ok2 := y.known()
		if ok2 && v != 0 && (!signed || int64(u) >= 0 && int64(v) > 0) {
			if ok1 {
				if in.Op == token.QUO {
					return bconst(u / v)
				}
				return bconst(u % v)
			}
			if v&(v-1) == 0 && x[63] == 0 {
				k := bits.TrailingZeros64(v)
				for i := range z {
					switch {
					case in.Op == token.REM && i < k:
						z[i] = x[i]
					case in.Op == token.QUO && i+k < 64:
						z[i] = x[i+k]
					}
				}
				return z
			}
		}
		bitErr("the result of %s depends on the data", in.Op)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := range z {
			a, b := x[i], y[i]
			if in.Op == token.AND_NOT {
				switch b {
				case 0, 1:
					b = 1 - b
				default:
					b = unkBit
				}
			}
			kn := func(v int) bool { return v == 0 || v == 1 }
			switch {
			case kn(a) && kn(b):
				switch in.Op {
				case token.OR:
					z[i] = a | b
				case token.XOR:
					z[i] = a ^ b
				default:
					z[i] = a & b
				}
			case in.Op == token.OR && (a == 1 || b == 1):
				z[i] = 1
			case (in.Op == token.OR || in.Op == token.XOR) && a == 0:
				z[i] = b
			case (in.Op == token.OR || in.Op == token.XOR) && b == 0:
				z[i] = a
			case (in.Op == token.AND || in.Op == token.AND_NOT) && (a == 0 || b == 0):
				z[i] = 0
			case (in.Op == token.AND || in.Op == token.AND_NOT) && a == 1:
				z[i] = b
			case (in.Op == token.AND || in.Op == token.AND_NOT) && b == 1:
				z[i] = a
			case a == b && a != unkBit:
				z[i] = a
				if in.Op == token.XOR {
					z[i] = 0
				}
			default:
				z[i] = unkBit
			}
		}
		return z.norm(in.Type())
	case token.SHL, token.SHR:
		u, ok := y.known()
		if !ok {
			bitErr("the width of a shift depends on the data")
		}
		if _, s := eng.Width(in.Y.Type()); s && int64(u) < 0 {
			bitErr("shifts by a negative number")
		}
		for i := range z {
			switch {
			case in.Op == token.SHL && u <= uint64(i):
				z[i] = x[i-int(u)]
			case in.Op == token.SHR && u < 64 && i+int(u) < 64:
				z[i] = x[i+int(u)]
			case in.Op == token.SHR && signed:
				z[i] = x[63]
			}
		}
		return z.norm(in.Type())
	case token.EQL, token.NEQ:
		same := true
		for i := range x {
			a, b := x[i], y[i]
			if a == 1 && b == 0 || a == 0 && b == 1 {
				return in.Op == token.NEQ
			}
			same = same && a == b && a != unkBit
		}
		if same {
			return in.Op == token.EQL
		}
		bitErr("a comparison depends on the data")
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
			op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		xl, xh := x.bounds(signed)
		yl, yh := y.bounds(signed)
		switch {
		case op == token.LSS && xh < yl, op == token.LEQ && xh <= yl:
			return true
		case op == token.LSS && xl >= yh, op == token.LEQ && xl > yh:
			return false
		}
		bitErr("a comparison depends on the data")
	}
	bitErr("cannot follow %s", in)
	return nil
}
