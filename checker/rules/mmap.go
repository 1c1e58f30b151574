package rules

import (
	"go/constant"
	"os"

	"golang.org/x/tools/go/ssa"
	"verif/checker/eng"
)

func init() {
	register(&Rule{
		ID: "C23",
		Explanation: "Path-sensitive analysis of the function that maps a file, separately for every supported platform (a program is loaded and analysed per GOOS: linux, darwin, freebsd, netbsd, openbsd, windows): on every path that returns, the file's size was obtained without error, the mapping covers at least that many bytes, is read-only, shared and starts at offset 0, its error is known to be nil, and the data returned are the first size bytes of it; no data are returned only for an empty file. " +
			"The result is used for every index: the data of an opened index are the mapping of the file of that name.",
		Assumptions: []string{"the operating system's mapping calls", "files are not truncated while mapped"},
		Run:         runMmap,
	})
}

func runMmap(c *Ctx) {
	f := c.Func("index", "mmapFile")
	if f == nil {
		return
	}
	c.mapping(f)
	if os.Getenv("VCHK_GOOS") == "" {
		c.openedData()
		c.Min("opened-data", 2)
	}
	for _, goos := range []string{"darwin", "freebsd", "netbsd", "openbsd", "windows"} {
		c.onOtherOS(goos)
	}
	c.Min("mapping", 2)
}

func (c *Ctx) mapping(f *ssa.Function) {
	r := c.Analyze(f, &eng.Config{KeepFacts: true})
	cons := fnLabel(f)
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		ret := t.Rets[0]
		if ret.Op != "struct" {
			ret = eng.Mk("struct", "", nil, eng.Nil, ret)
		}
		var data, file *eng.Term
		for _, a := range ret.Args {
			if a == r.Params[0] {
				file = a
			} else {
				data = a
			}
		}
		c.Check(file != nil, "mapping", cons+" file", f.Pos(), "the mapping does not keep the file it was made from")
		if data == nil {
			c.Check(false, "mapping", cons+" data", f.Pos(), "no data are returned")
			continue
		}
		// the size
		var size *eng.Term
		isSize := func(t *eng.Term) bool {
			t = stripConv(t)
			if !isCall(t, "(io/fs.FileInfo).Size") {
				return false
			}
			st := t.Args[0]
			return isResult(st, "(*os.File).Stat", "0") && st.Args[0].Args[0] == r.Params[0]
		}
		for _, e := range t.St.Events(false) {
			if e.Name == "(io/fs.FileInfo).Size" && isSize(e.Res) {
				size = e.Res
			}
			if e.Name == "(*os.File).Stat" {
				c.Check(t.St.Implies(eng.Eq(e.Result(1), eng.Nil, e.Result(1).Typ)), "mapping", cons+" stat", e.Instr.Pos(), "the size of a file is used although it could not be determined")
			}
		}
		if !c.Check(size != nil, "mapping", cons+" size", f.Pos(), "a mapping is returned without determining the size of the file") {
			continue
		}
		if data == eng.Nil || eng.Len(data) == eng.Int(0) {
			c.Check(t.St.Implies(eng.EqInt(size, eng.Int(0))) || t.St.Implies(eng.Le(size, eng.Int(0))), "mapping", cons+" empty", f.Pos(), "a file that is not known to be empty is mapped to no data")
			continue
		}
		ok := data.Op == "slice" && (data.Args[1] == eng.Int(0)) && isSize(eng.Len(data))
		if !c.Check(ok, "mapping", cons+" length", f.Pos(), "the data returned are %s, not the first size bytes of the mapping", data) {
			continue
		}
		base := data.Args[0]
		good := false
		for _, e := range t.St.Events(false) {
			switch e.Name {
			case "syscall.Mmap":
				if base != e.Result(0) {
					continue
				}
				a := e.Args
				good = true
				c.Check(stripConv(a[0]).Op == "call" && isCall(stripConv(a[0]), "(*os.File).Fd") && stripConv(a[0]).Args[0] == r.Params[0], "mapping", cons+" descriptor", e.Instr.Pos(), "another file is mapped")
				c.Check(a[1] == eng.Int(0), "mapping", cons+" offset", e.Instr.Pos(), "the mapping starts at offset %s", a[1])
				c.Check(atLeast(t.St, a[2], size), "mapping", cons+" extent", e.Instr.Pos(), "the mapping covers %s bytes, which may be less than the file", a[2])
				c.Check(a[3] == eng.Int(c.sysConst("PROT_READ", 1)), "mapping", cons+" protection", e.Instr.Pos(), "the protection of the mapping is %s, not read-only", a[3])
				c.Check(a[4] == eng.Int(c.sysConst("MAP_SHARED", 1)) || a[4] == eng.Int(c.sysConst("MAP_PRIVATE", 2)), "mapping", cons+" flags", e.Instr.Pos(), "the flags of the mapping are %s", a[4])
				c.Check(t.St.Implies(eng.Eq(e.Result(1), eng.Nil, e.Result(1).Typ)), "mapping", cons+" error", e.Instr.Pos(), "the mapping is used although it may have failed")
			case "syscall.MapViewOfFile":
				if !base.Any(func(x *eng.Term) bool { return x == e.Result(0) }) {
					continue
				}
				good = true
				c.Check(e.Args[1] == eng.Int(c.sysConst("FILE_MAP_READ", 4)), "mapping", cons+" protection", e.Instr.Pos(), "the access of the view is %s, not read-only", e.Args[1])
				c.Check(e.Args[2] == eng.Int(0) && e.Args[3] == eng.Int(0), "mapping", cons+" offset", e.Instr.Pos(), "the view starts at another offset")
				c.Check(e.Args[4] == eng.Int(0) || atLeast(t.St, e.Args[4], size), "mapping", cons+" extent", e.Instr.Pos(), "the view covers %s bytes, which may be less than the file", e.Args[4])
				c.Check(t.St.Implies(eng.Eq(e.Result(1), eng.Nil, e.Result(1).Typ)), "mapping", cons+" error", e.Instr.Pos(), "the view is used although it may have failed")
				for _, h := range t.St.Events(false) {
					if h.Name != "syscall.CreateFileMapping" {
						continue
					}
					c.Check(e.Args[0] == h.Result(0), "mapping", cons+" handle", e.Instr.Pos(), "the view is of another mapping")
					a := h.Args
					c.Check(isCall(stripConv(a[0]), "(*os.File).Fd") && stripConv(a[0]).Args[0] == r.Params[0], "mapping", cons+" descriptor", h.Instr.Pos(), "another file is mapped")
					c.Check(a[2] == eng.Int(c.sysConst("PAGE_READONLY", 2)), "mapping", cons+" page protection", h.Instr.Pos(), "the protection of the mapping is %s, not read-only", a[2])
					hi, lo := bitsOf(nil, a[3], 32), bitsOf(nil, a[4], 32)
					okS := true
					for i := 0; i < 31; i++ {
						okS = okS && lo[i].leaf != nil && isSize(lo[i].leaf) && lo[i].idx == i
						okS = okS && (hi[i].isConst(0) || hi[i].leaf != nil && isSize(hi[i].leaf) && hi[i].idx == i+32)
					}
					okS = okS || a[3] == eng.Int(0) && a[4] == eng.Int(0)
					c.Check(okS, "mapping", cons+" mapping size", h.Instr.Pos(), "the size of the mapping is not the two halves of the file's size")
					c.Check(t.St.Implies(eng.Eq(h.Result(1), eng.Nil, h.Result(1).Typ)), "mapping", cons+" mapping error", h.Instr.Pos(), "the mapping is used although it may have failed")
				}
			}
		}
		c.Check(good, "mapping", cons+" source", f.Pos(), "the data returned are not those of the mapping: %s", data)
	}
	c.Check(n > 0, "mapping", cons+" returns", f.Pos(), "the mapping function never returns")
}

// atLeast reports whether n covers size bytes: it is size itself or size
// rounded up to a multiple of a power of two.
func atLeast(st *eng.State, n, size *eng.Term) bool {
	n = stripConv(n)
	if n == size || st.Implies(eng.Le(size, n)) {
		return true
	}
	round := func(x, m *eng.Term) bool {
		if m.Op != "int" || m.K < 0 || m.K&(m.K+1) != 0 {
			return false
		}
		d, ok := eng.DiffConst(stripConv(x), size)
		return ok && d >= m.K
	}
	switch {
	case n.Op == "andnot":
		return round(n.Args[0], n.Args[1])
	case n.Op == "and" && len(n.Args) == 2 && n.Args[1].Op == "int":
		return round(n.Args[0], eng.Int(^n.Args[1].K))
	}
	return false
}

// sysConst returns the value of a constant of package syscall, or def.
func (c *Ctx) sysConst(name string, def int64) int64 {
	for _, p := range c.P.SSA.AllPackages() {
		if p.Pkg.Path() != "syscall" {
			continue
		}
		if k, ok := p.Members[name].(*ssa.NamedConst); ok {
			if v, ok := constant.Int64Val(constant.ToInt(k.Value.Value)); ok {
				return v
			}
		}
	}
	return def
}

// openedData checks that an opened index reads the mapping of its own file.
func (c *Ctx) openedData() {
	root := c.Func("index", "Open")
	mf := c.P.Func("index", "mmapFile")
	if root == nil || mf == nil {
		return
	}
	r := c.Analyze(root, &eng.Config{KeepFacts: true, Opaque: func(f *ssa.Function) bool {
		return f == mf || !graphOf(c.P).reach(f).fns[mf]
	}, Target: func(in ssa.Instruction, n string) bool {
		return n == "os.Open" || n == fullName(mf) || n == "os.OpenFile"
	}})
	n := 0
	for _, t := range r.Terms {
		if t.Kind != "return" {
			continue
		}
		n++
		var opened, mapped *eng.Event
		for _, e := range t.St.Events(false) {
			switch e.Name {
			case "os.Open", "os.OpenFile":
				opened = e
			case fullName(mf):
				mapped = e
			}
		}
		if !c.Check(opened != nil && mapped != nil, "opened-data", "index.Open", root.Pos(), "an index is opened without mapping a file") {
			continue
		}
		c.Check(opened.Args[0] == r.Params[0], "opened-data", "index.Open name", opened.Instr.Pos(), "opening an index opens the file %s", opened.Args[0])
		c.Check(mapped.Args[0] == opened.Result(0), "opened-data", "index.Open map", mapped.Instr.Pos(), "opening an index maps another file")
		c.Check(t.St.Implies(eng.Eq(opened.Result(1), eng.Nil, opened.Result(1).Typ)), "opened-data", "index.Open error", opened.Instr.Pos(), "a file that could not be opened is used")
		ret := t.Rets[0]
		has := false
		if ret.Typ != nil {
			for a, v := range heapOf(t.St) {
				if eng.Root(a) == eng.Root(ret) && v.Any(func(x *eng.Term) bool { return x == mapped.Res }) {
					has = true
				}
			}
		}
		c.Check(has, "opened-data", "index.Open result", root.Pos(), "the index returned does not use the mapped data")
	}
	c.Check(n > 0, "opened-data", "index.Open returns", root.Pos(), "opening an index never succeeds")
}

func heapOf(st *eng.State) map[*eng.Term]*eng.Term {
	m := map[*eng.Term]*eng.Term{}
	for _, k := range st.HeapKeys() {
		m[k] = st.HeapAt(k)
	}
	return m
}
