package main

// Field tables: package-level arrays of constants that are never written.

import (
	"go/ast"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Table struct {
	name string
	dims []int64
	data []int64
	kind string // mul, low, high, log, exp, exp255, ""
	n    int64
}

// table returns the constant contents of a package-level array that is
// initialised by a composite literal of constants and never modified.
func (it *Interp) table(g *ssa.Global) *Table {
	return it.w.tableOf(g)
}

func (w *World) tableOf(g *ssa.Global) *Table {
	if w.tabs == nil {
		w.tabs = map[*ssa.Global]*Table{}
	}
	if t, ok := w.tabs[g]; ok {
		return t
	}
	w.tabs[g] = nil
	t := w.readTable(g)
	if t != nil && !w.immutable(g) {
		t = nil
	}
	w.tabs[g] = t
	return t
}

func (w *World) readTable(g *ssa.Global) *Table {
	if g.Pkg == nil {
		return nil
	}
	var dims []int64
	el := g.Type().(*types.Pointer).Elem()
	isSlice := false
	switch u := el.Underlying().(type) {
	case *types.Array:
	case *types.Slice:
		isSlice = true
		dims = append(dims, 0) // taken from the literal below
		el = u.Elem()
		if _, ok := el.Underlying().(*types.Array); ok {
			return nil
		}
	default:
		return nil
	}
	for {
		a, ok := el.Underlying().(*types.Array)
		if !ok {
			break
		}
		dims = append(dims, a.Len())
		el = a.Elem()
	}
	if b, ok := el.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	for _, p := range w.pkgs {
		if p.Types != g.Pkg.Pkg {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range gd.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for k, n := range vs.Names {
						if p.TypesInfo.Defs[n] != g.Object() || k >= len(vs.Values) {
							continue
						}
						if isSlice {
							n, ok := litLen(p.TypesInfo, vs.Values[k])
							if !ok {
								return nil
							}
							dims[0] = n
						}
						tot := int64(1)
						for _, d := range dims {
							tot *= d
						}
						t := &Table{name: g.Name(), dims: dims, data: make([]int64, tot), n: tot}
						if !fillLit(p.TypesInfo, vs.Values[k], dims, t.data) {
							return nil
						}
						t.kind = recogniseTable(t)
						return t
					}
				}
			}
		}
	}
	return nil
}

// litLen is the length of a slice literal with constant keys.
func litLen(info *types.Info, e ast.Expr) (int64, bool) {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return 0, false
	}
	i, n := int64(0), int64(0)
	for _, el := range cl.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			tv := info.Types[kv.Key]
			if tv.Value == nil {
				return 0, false
			}
			k, ok := constant.Int64Val(constant.ToInt(tv.Value))
			if !ok {
				return 0, false
			}
			i = k
		}
		i++
		if i > n {
			n = i
		}
	}
	return n, n < 1<<24
}

func fillLit(info *types.Info, e ast.Expr, dims []int64, out []int64) bool {
	cl, ok := e.(*ast.CompositeLit)
	if !ok {
		return false
	}
	stride := int64(1)
	for _, d := range dims[1:] {
		stride *= d
	}
	i := int64(0)
	for _, el := range cl.Elts {
		v := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			tv := info.Types[kv.Key]
			if tv.Value == nil {
				return false
			}
			k, ok := constant.Int64Val(constant.ToInt(tv.Value))
			if !ok {
				return false
			}
			i = k
			v = kv.Value
		}
		if i >= dims[0] {
			return false
		}
		if len(dims) > 1 {
			if !fillLit(info, v, dims[1:], out[i*stride:(i+1)*stride]) {
				return false
			}
		} else {
			tv := info.Types[v]
			if tv.Value == nil {
				return false
			}
			k, ok := constant.Int64Val(constant.ToInt(tv.Value))
			if !ok {
				return false
			}
			out[i] = k
		}
		i++
	}
	return true
}

// recogniseTable compares a table with the field's definition (gf.go).
func recogniseTable(t *Table) string {
	is := func(f func(i int64) (int64, bool)) bool {
		for i := range t.data {
			if v, ok := f(int64(i)); ok && v != t.data[i] {
				return false
			}
		}
		return true
	}
	switch {
	case len(t.dims) == 2 && t.dims[0] == 256 && t.dims[1] == 256:
		if is(func(i int64) (int64, bool) { return int64(gfMul(byte(i/256), byte(i%256))), true }) {
			return "mul"
		}
	case len(t.dims) == 2 && t.dims[0] == 256 && t.dims[1] == 16:
		if is(func(i int64) (int64, bool) { return int64(gfMul(byte(i/16), byte(i%16))), true }) {
			return "low"
		}
		if is(func(i int64) (int64, bool) { return int64(gfMul(byte(i/16), byte(i%16)<<4)), true }) {
			return "high"
		}
	case len(t.dims) == 1:
		// log: entries 1..255 are the logarithms; entry 0 is a convention
		if t.n == 256 && is(func(i int64) (int64, bool) {
			if i == 0 {
				return 0, false
			}
			return int64(gfLog[i]), true
		}) {
			return "log"
		}
		if t.n >= 255 && is(func(i int64) (int64, bool) { return int64(gfPow(2, i)), true }) {
			return "exp"
		}
	}
	return ""
}

// immutable: the only uses of the global are loads of elements and slices that
// are themselves only read.
func (w *World) immutable(g *ssa.Global) bool {
	ok := true
	for _, sp := range w.spkg {
		for _, fn := range allFuncs(w.prog, sp) {
			if fn.Synthetic != "" && fn.Name() == "init" {
				// the package initialiser stores the literal itself
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) && !readOnlyUse(in, g, 0) {
							ok = false
						}
					}
				}
			}
		}
	}
	return ok
}

// readOnlyUse: instruction in uses address v only for reading.
func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 8 {
		return false
	}
	allRefs := func(x ssa.Value) bool {
		for _, r := range *x.Referrers() {
			if !readOnlyUse(r, x, depth+1) {
				return false
			}
		}
		return true
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return allRefs(x)
		}
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.IndexAddr:
		return allRefs(x)
	case *ssa.Slice:
		return allRefs(x)
	case *ssa.FieldAddr:
		return allRefs(x)
	case *ssa.Phi:
		if depth > 3 {
			return false
		}
		return allRefs(x)
	case *ssa.Store:
		return x.Addr != v && false
	case *ssa.BinOp:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "copy":
				return x.Call.Args[0] != v
			}
			return false
		}
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false
		}
		if fn.Blocks == nil { // assembly: its stores are checked to go to the output only
			for i, a := range x.Call.Args {
				if a == v && fn.Signature.Params().At(i).Name() == "out" {
					return false
				}
			}
			return fn.Pkg != nil && isLib(fn.Pkg.Pkg.Path())
		}
		for i, a := range x.Call.Args {
			if a == v {
				if i >= len(fn.Params) || !allRefs(fn.Params[i]) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func allFuncs(prog *ssa.Program, sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, name := range sortedKeys(sp.Members) {
		switch m := sp.Members[name].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := prog.MethodValue(ms.At(i))
					if fn != nil && fn.Pkg == sp {
						add(fn)
					}
				}
			}
		}
	}
	return out
}

// tableRead is the value of a table at a flat index.
func tableRead(ctx *Ctx, t *Table, idx *Poly) Value {
	wrap := func(b *BT) Value { return ByteV{b} }
	if k, ok := idx.isConst(); ok {
		if k < 0 || k >= t.n {
			giveUp("table index out of range")
		}
		return wrap(bconst(byte(t.data[k])))
	}
	idx = ctx.simp(idx)
	byteIdx := func(p *Poly) *BT { return mkByte(ctx, p) }
	split := func(w int64) (*Poly, *Poly) { // idx = w*a + b
		a := ctx.simp(divP(idx, konst(w)))
		return a, ctx.simp(sub(idx, scale(a, w)))
	}
	switch t.kind {
	case "mul":
		a, b := split(256)
		return wrap(bmul(byteIdx(a), byteIdx(b)))
	case "low", "high":
		a, b := split(16)
		x := byteIdx(b)
		if t.kind == "high" {
			x = mkOpq("shl", []*BT{x}, []*Poly{konst(4)})
		}
		return wrap(bmul(byteIdx(a), x))
	case "log":
		c := mkEQ(idx)
		b := byteIdx(idx)
		if b.single() == nil || b.single().kind != BInt {
			c = mkBEQ(b)
		}
		switch ctx.decide(c) {
		case 1:
			return wrap(bconst(byte(t.data[0])))
		case 0:
			needSplit(c)
		}
		return wrap(bint(logOf(b)))
	case "exp":
		return wrap(expOf(ctx, idx))
	}
	return wrap(selB("tab:"+t.name, idx))
}

// expOf is 2^p: logarithms among the summands turn back into factors. p may be
// written with "mod 255", which does not change the power.
func expOf(ctx *Ctx, p *Poly) *BT {
	r := bconst(1)
	rest := konst(0)
	for _, t := range p.t {
		if t.c%255 == 0 {
			continue
		}
		var lg *Atom
		e := konst(t.c)
		for _, a := range t.m {
			if a.kind == ALog && lg == nil {
				lg = a
				continue
			}
			e = mul(e, atomPoly(a))
		}
		if lg != nil {
			r = bmul(r, bpow(lg.bs[0], e))
			continue
		}
		if k, ok := e.isConst(); ok && len(t.m) == 0 {
			r = bmul(r, bconst(gfPow(2, k)))
			continue
		}
		rest = add(rest, internPoly([]pterm{t}))
	}
	if _, ok := rest.isConst(); !ok {
		r = bmul(r, bpow(bconst(2), rest))
	}
	return r
}

// errorVar: the package variable g is set to a non-nil error when its package is
// initialised and never changes. (The error variables of dependencies are.)
func (w *World) errorVar(g *ssa.Global) bool {
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return true
	}
	if v, ok := w.errVars[g]; ok {
		return v
	}
	stores, good := 0, w.immutable(g)
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				stores++
				v := s.Val
				if mi, ok := v.(*ssa.MakeInterface); ok {
					_, isConst := mi.X.(*ssa.Const)
					good = good && !isConst
					continue
				}
				c, ok := v.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					good = false
					continue
				}
				n := c.Call.StaticCallee().RelString(nil)
				good = good && (n == "errors.New" || n == "fmt.Errorf")
			}
		}
	}
	if w.errVars == nil {
		w.errVars = map[*ssa.Global]bool{}
	}
	w.errVars[g] = good && stores == 1
	return w.errVars[g]
}
