package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F04", "must-dataflow of detected CPU features to every reference of an assembly routine, against the features its instructions need", checkF04)
}

// FS is a set of CPU features; nil stands for "all" (unreachable).
type FS map[string]bool

func fsAnd(a, b FS) FS {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	o := FS{}
	for f := range a {
		if b[f] {
			o[f] = true
		}
	}
	return o
}

func fsOr(a, b FS) FS {
	if a == nil || b == nil {
		return nil
	}
	o := FS{}
	for f := range a {
		o[f] = true
	}
	for f := range b {
		o[f] = true
	}
	return o
}

func fsEq(a, b FS) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for f := range a {
		if !b[f] {
			return false
		}
	}
	return true
}

func (a FS) list() string {
	if a == nil {
		return "all"
	}
	var l []string
	for f := range a {
		l = append(l, f)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

type cellKey struct {
	g    *ssa.Global
	path string
}

type refSite struct {
	in ssa.Instruction
	fn *ssa.Function
}

type featA struct {
	w      *World
	fns    []*ssa.Function
	entry  map[*ssa.Function]FS
	in     map[*ssa.BasicBlock]FS
	refs   map[*ssa.Function][]refSite
	stores map[cellKey][]*ssa.Store
	leak   map[cellKey]bool
	busy   map[interface{}]bool
}

// cellOf resolves an address to a package variable or a field of one.
func cellOf(v ssa.Value) (cellKey, bool) {
	switch v := v.(type) {
	case *ssa.Global:
		return cellKey{v, ""}, true
	case *ssa.FieldAddr:
		k, ok := cellOf(v.X)
		if !ok {
			return k, false
		}
		k.path += "." + fieldName(v)
		return k, true
	}
	return cellKey{}, false
}

func fieldName(v *ssa.FieldAddr) string {
	t := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(v.Field).Name()
}

func newFeatA(w *World) *featA {
	a := &featA{w: w, entry: map[*ssa.Function]FS{}, in: map[*ssa.BasicBlock]FS{}, refs: map[*ssa.Function][]refSite{},
		stores: map[cellKey][]*ssa.Store{}, leak: map[cellKey]bool{}, busy: map[interface{}]bool{}}
	rc := w.reach()
	for _, fn := range rc.order {
		if w.libFn(fn) {
			a.fns = append(a.fns, fn)
		}
	}
	for _, fn := range a.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						a.refs[f] = append(a.refs[f], refSite{in, fn})
					}
				}
				for _, op := range in.Operands(nil) {
					k, ok := cellOf(*op)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == *op {
							a.stores[k] = append(a.stores[k], x)
							if x.Val == *op {
								a.leak[k] = true
							}
							continue
						}
					case *ssa.UnOp:
						if x.Op == token.MUL {
							continue
						}
					case *ssa.FieldAddr:
						continue
					case *ssa.DebugRef:
						continue
					}
					a.leak[k] = true
				}
			}
		}
	}
	return a
}

func (a *featA) leaky(k cellKey) bool {
	for l := range a.leak {
		if l.g == k.g && (strings.HasPrefix(k.path, l.path) || strings.HasPrefix(l.path, k.path)) {
			return true
		}
	}
	// a store to the whole struct
	for s := range a.stores {
		if s.g == k.g && s.path != k.path && (strings.HasPrefix(k.path, s.path) || strings.HasPrefix(s.path, k.path)) {
			return true
		}
	}
	return false
}

func (a *featA) solve() {
	exp := map[*ssa.Function]bool{}
	for _, fn := range a.w.exported() {
		exp[fn] = true
	}
	for round := 0; round < 60; round++ {
		changed := false
		for _, fn := range a.fns {
			// entry
			var e FS
			if exp[fn] || fn.Synthetic != "" || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Signature.Recv() != nil || len(a.refs[fn]) == 0 {
				e = FS{}
			} else {
				for _, s := range a.refs[fn] {
					if a.blockLive(s.in.Block()) {
						e = fsAnd(e, a.in[s.in.Block()])
					}
				}
			}
			if !fsEq(e, a.entry[fn]) {
				a.entry[fn] = e
				changed = true
			}
			for bi, b := range fn.Blocks {
				var f FS
				if bi == 0 || b == fn.Recover {
					f = e
				} else {
					for _, p := range b.Preds {
						f = fsAnd(f, fsOr(a.in[p], a.edge(p, b)))
					}
				}
				if !fsEq(f, a.in[b]) {
					a.in[b] = f
					changed = true
				}
			}
		}
		if !changed {
			return
		}
	}
	fatal("feature facts do not stabilise")
}

func (a *featA) blockLive(b *ssa.BasicBlock) bool { return a.in[b] != nil }

func (a *featA) edge(p, b *ssa.BasicBlock) FS {
	i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok {
		return FS{}
	}
	if p.Succs[0] == p.Succs[1] {
		return FS{}
	}
	return a.truth(i.Cond, p.Succs[0] == b)
}

type busyKey struct {
	v   ssa.Value
	pol bool
}

// truth are the features that must be there when v has the value pol.
func (a *featA) truth(v ssa.Value, pol bool) FS {
	k := busyKey{v, pol}
	if a.busy[k] {
		return nil
	}
	a.busy[k] = true
	defer delete(a.busy, k)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool && constant.BoolVal(v.Value) != pol {
			return nil
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return a.truth(v.X, !pol)
		}
		if v.Op == token.MUL {
			if key, ok := cellOf(v.X); ok {
				return a.cellTruth(key, func(val ssa.Value) FS { return a.truth(val, pol) }, !pol)
			}
		}
	case *ssa.Phi:
		var f FS
		for i, e := range v.Edges {
			p := v.Block().Preds[i]
			f = fsAnd(f, fsOr(a.truth(e, pol), fsOr(a.in[p], a.edge(p, v.Block()))))
		}
		return f
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return FS{}
		}
		if fs, ok := a.detects(fn, &v.Call); ok {
			if pol {
				return fs
			}
			return FS{}
		}
		if a.w.libFn(fn) && len(fn.Blocks) > 0 && fn.Signature.Results().Len() == 1 {
			var f FS
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && fn.Recover != b {
					f = fsAnd(f, fsOr(a.in[b], a.truth(ret.Results[0], pol)))
				}
			}
			return f
		}
	case *ssa.BinOp:
		if isBool(v.X.Type()) && (v.Op == token.EQL || v.Op == token.NEQ) {
			for _, q := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if c, ok := q[1].(*ssa.Const); ok && c.Value != nil {
					return a.truth(q[0], (constant.BoolVal(c.Value) == pol) == (v.Op == token.EQL))
				}
			}
		}
		return a.cmpTruth(v, pol)
	case *ssa.Parameter:
		fn := v.Parent()
		if fn.Object() != nil && fn.Object().Exported() || fn.Signature.Recv() != nil {
			return FS{}
		}
		idx := -1
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		var f FS
		for _, s := range a.refs[fn] {
			ci, ok := s.in.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() != fn {
				return FS{}
			}
			for i, x := range ci.Common().Args {
				if x == ssa.Value(fn) {
					return FS{}
				}
				if i == idx {
					f = fsAnd(f, fsOr(a.in[s.in.Block()], a.truth(x, pol)))
				}
			}
		}
		return f
	}
	return FS{}
}

// cellTruth joins what is known over all values ever stored in a variable.
func (a *featA) cellTruth(k cellKey, of func(ssa.Value) FS, zeroFits bool) FS {
	if a.leaky(k) || k.g.Pkg == nil || !isLib(k.g.Pkg.Pkg.Path()) || k.g.Object() != nil && k.g.Object().Exported() {
		return FS{}
	}
	var f FS
	if zeroFits {
		f = FS{}
	}
	for _, s := range a.stores[k] {
		f = fsAnd(f, fsOr(a.in[s.Block()], of(s.Val)))
	}
	return f
}

// cmpTruth handles "level >= 2" with constants stored in a package variable.
func (a *featA) cmpTruth(v *ssa.BinOp, pol bool) FS {
	x, y, op := v.X, v.Y, v.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return FS{}
	}
	fits := func(q constant.Value) bool {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.Compare(q, op, c.Value) == pol
		}
		return true
	}
	var of func(ssa.Value) FS
	of = func(val ssa.Value) FS {
		switch val := val.(type) {
		case *ssa.Const:
			if val.Value != nil && val.Value.Kind() == constant.Int && !fits(val.Value) {
				return nil
			}
		case *ssa.Phi:
			var f FS
			if a.busy[val] {
				return nil
			}
			a.busy[val] = true
			for i, e := range val.Edges {
				p := val.Block().Preds[i]
				f = fsAnd(f, fsOr(of(e), fsOr(a.in[p], a.edge(p, val.Block()))))
			}
			delete(a.busy, val)
			return f
		case *ssa.Call:
			fn := val.Call.StaticCallee()
			if fn != nil && a.w.libFn(fn) && len(fn.Blocks) > 0 && fn.Signature.Results().Len() == 1 && !a.busy[val] {
				a.busy[val] = true
				var f FS
				for _, b := range fn.Blocks {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && fn.Recover != b {
						f = fsAnd(f, fsOr(a.in[b], of(ret.Results[0])))
					}
				}
				delete(a.busy, val)
				return f
			}
		case *ssa.UnOp:
			if key, ok := cellOf(val.X); ok && val.Op == token.MUL && !a.busy[val] {
				a.busy[val] = true
				f := a.cellTruth(key, of, fits(constant.MakeInt64(0)))
				delete(a.busy, val)
				return f
			}
		}
		return FS{}
	}
	return of(x)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// detects recognises the feature tests of cpuid.
func (a *featA) detects(fn *ssa.Function, c *ssa.CallCommon) (FS, bool) {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/klauspost/cpuid") {
		return nil, false
	}
	if fn.Name() != "Supports" && fn.Name() != "Has" || len(c.Args) != 2 {
		return nil, false
	}
	// the receiver has to be the running CPU
	ld, ok := c.Args[0].(*ssa.UnOp)
	if !ok {
		return FS{}, true
	}
	if g, ok := ld.X.(*ssa.Global); !ok || g.Name() != "CPU" || g.Pkg != fn.Pkg {
		return FS{}, true
	}
	names := map[string]string{}
	sc := fn.Pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		if cst, ok := sc.Lookup(n).(*types.Const); ok {
			if nt, ok := cst.Type().(*types.Named); ok && nt.Obj().Name() == "FeatureID" {
				names[cst.Val().ExactString()] = n
			}
		}
	}
	out := map[string]bool{}
	add := func(v ssa.Value) {
		if cst, ok := v.(*ssa.Const); ok && cst.Value != nil {
			if n := names[cst.Value.ExactString()]; n != "" {
				out[n] = true
			}
		}
	}
	if fn.Name() == "Has" {
		add(c.Args[1])
		return FS(featClosure(out)), true
	}
	sl, ok := c.Args[1].(*ssa.Slice)
	if !ok {
		return FS{}, true
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil || sl.High != nil {
		return FS{}, true
	}
	seen := map[string]int{}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			if ref == ssa.Instruction(sl) {
				continue
			}
			return FS{}, true
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				seen[ia.Index.String()]++
				add(st.Val)
			}
		}
	}
	for _, n := range seen {
		if n != 1 {
			return FS{}, true
		}
	}
	return FS(featClosure(out)), true
}

// asmOf reads the assembly of all library packages of a configuration.
func (w *World) asmOf() map[string]map[string]*AsmFn {
	if w.asm != nil {
		return w.asm
	}
	w.asm = map[string]map[string]*AsmFn{}
	w.asmData = map[string]*AsmFile{}
	for short, p := range w.pkgs {
		m := map[string]*AsmFn{}
		for _, f := range asmFiles(p) {
			af, err := parseAsm(f, asmDefs(w.cfg))
			if err != nil {
				fatal("%v", err)
			}
			for _, fn := range af.fns {
				if m[fn.name] != nil {
					fatal("assembly routine %s is defined twice", fn.name)
				}
				m[fn.name] = fn
				w.asmData[short+"."+fn.name] = af
			}
		}
		w.asm[short] = m
	}
	return w.asm
}

func checkF04(r *Report) {
	r.rule("For every assembly routine of the library the instruction-set extensions its instructions need are computed from its decoded text; a forward must-analysis over the control-flow graphs (through flags and levels kept in package variables, helper predicates, parameters, && and || and early returns) computes the CPU features whose detection has succeeded wherever the routine is referred to (called, or taken as a value); the needed features must be among them.")
	r.assumes("cpuid.CPU.Supports/Has report the running CPU truthfully", "a CPU with a later SIMD extension has the earlier ones (AVX2 > AVX > SSE4.2 > SSE4.1 > SSSE3 > SSE3 > SSE2); amd64 has SSE2 and arm64 has ASIMD")
	for _, c := range []Config{cfgAMD64, cfgARM64, cfgNoasm, {"linux", "386", ""}, {"windows", "amd64", ""}, {"darwin", "arm64", ""}} {
		w := load(c)
		a := newFeatA(w)
		a.solve()
		asm := w.asmOf()
		for short, p := range w.pkgs {
			sp := w.spkg[short]
			for _, file := range p.Syntax {
				for _, d := range file.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Body != nil || fd.Recv != nil {
						continue
					}
					fn := sp.Func(fd.Name.Name)
					af := asm[short][fd.Name.Name]
					if fn == nil || af == nil {
						r.oblige(false, "routine is resolved", short+"."+fd.Name.Name, w.pos(fd.Pos()), "no assembly for %s on %s", fd.Name.Name, c)
						continue
					}
					need := FS{}
					unknown := ""
					for _, in := range af.ins {
						fs, ok := insFeat(c.arch, in)
						if !ok {
							unknown = in.op + " " + strings.Join(in.args, ", ")
							r.oblige(false, "instruction is known", fd.Name.Name+" "+in.op, af.file, "%s:%d: cannot tell which CPUs have %s", filepath.Base(af.file), in.line, unknown)
							continue
						}
						for _, f := range fs {
							need[f] = true
						}
						r.count("instructions", 1)
					}
					need = FS(featClosure(need))
					base := baseFeat(c.arch)
					refs := a.refs[fn]
					for _, s := range refs {
						have := a.in[s.in.Block()]
						if have == nil {
							continue // unreachable
						}
						missing := FS{}
						for f := range need {
							if !have[f] && !base[f] {
								missing[f] = true
							}
						}
						r.oblige(len(missing) == 0, "detected before use", s.fn.Name()+" -> "+fd.Name.Name+" on "+c.String(), w.instrPos(s.in),
							"%s uses %s, which needs %s, where only the detection of %s is certain; missing %s", s.fn.Name(), fd.Name.Name, need.list(), have.list(), missing.list())
					}
					if len(refs) == 0 {
						r.count("routines never used", 1)
					}
					r.count("routines", 1)
				}
			}
		}
	}
	r.atLeast("detected before use", 6)
}
