package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F01", "abstract interpretation over GF(2^8) terms, with recognition of the constant field tables", checkF01)
}

var scalarOps = []string{"GalAdd", "GalSub", "GalMultiply", "GalMultiplyLogExp", "GalDivide", "GalExp"}

func checkF01(r *Report) {
	r.rule("Every package-level integer table of 16 or more entries that the galois and shamir packages read is compared, entry by entry, with the multiplication, partial-product, logarithm or exponential table computed from the definition of GF(2^8)/0x11D. Every exported scalar operation is interpreted over symbolic operands in the term algebra of that field (a table access becomes the field function the table holds; an access outside the table is an alarm); on every path the returned term must equal the definition, and the only panic allowed is the one of a division by zero. Functions of two bytes in the shamir package that read a table must be a sum, product or quotient of the same field.")
	for _, c := range []Config{cfgAMD64, cfgARM64, cfgNoasm, {"linux", "386", ""}} {
		w := load(c)
		fieldTables(r, w)
		for _, n := range scalarOps {
			fn := w.spkg["galois"].Func(n)
			if !r.oblige(fn != nil, "scalar operation exists", "galois."+n, "", "no such function on %s", c) {
				continue
			}
			if !r.oblige(len(fn.Params) == 2 && isByteT(fn.Params[0].Type()) && fn.Signature.Results().Len() == 1 && isByteT(fn.Signature.Results().At(0).Type()), "scalar operation exists", "galois."+n+" signature", w.pos(fn.Pos()), "unexpected signature %s", fn.Signature) {
				continue
			}
			checkScalar(r, w, "galois", fn, []string{n})
		}
		for _, fn := range allFuncs(w.prog, w.spkg["shamir"]) {
			if !byteOp(fn) || !readsTable(w, fn) {
				continue
			}
			checkScalar(r, w, "shamir", fn, []string{"add", "mul", "div"})
		}
	}
	r.atLeast("scalar result", 40)
	r.atLeast("field table", 24)
}

// byteOp: func(byte, byte) byte.
func byteOp(fn *ssa.Function) bool {
	s := fn.Signature
	return fn.Blocks != nil && s.Recv() == nil && len(fn.FreeVars) == 0 && s.Params().Len() == 2 && s.Results().Len() == 1 &&
		isByteT(s.Params().At(0).Type()) && isByteT(s.Params().At(1).Type()) && isByteT(s.Results().At(0).Type())
}

func readsTable(w *World, fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && tableLike(g) {
					return true
				}
			}
		}
	}
	return false
}

func tableLike(g *ssa.Global) bool {
	if g.Pkg == nil || !isLib(g.Pkg.Pkg.Path()) {
		return false
	}
	n := int64(1)
	t := g.Type().(*types.Pointer).Elem()
	for {
		switch u := t.Underlying().(type) {
		case *types.Array:
			n *= u.Len()
			t = u.Elem()
			continue
		case *types.Slice:
			n *= 16
			t = u.Elem()
			continue
		case *types.Basic:
			return n >= 16 && u.Info()&types.IsInteger != 0
		}
		return false
	}
}

// fieldTables checks all tables that reachable code of the field packages refers to.
func fieldTables(r *Report, w *World) {
	rc := w.reach()
	seen := map[*ssa.Global]bool{}
	for _, fn := range rc.order {
		if !w.libFn(fn) || fn.Pkg == nil || fn.Name() == "init" {
			continue
		}
		if p := fn.Pkg.Pkg.Name(); p != "galois" && p != "shamir" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || seen[g] || !tableLike(g) {
						continue
					}
					seen[g] = true
					t := w.tableOf(g)
					if t == nil {
						r.oblige(false, "field table", short(g.String())+" on "+w.cfg.String(), w.prog.Fset.Position(g.Pos()).String(), "is not a literal of constants that is never written")
						continue
					}
					r.count("table entries", len(t.data))
					r.oblige(t.kind != "", "field table", short(g.String())+" on "+w.cfg.String(), w.prog.Fset.Position(g.Pos()).String(), "is not a table of GF(2^8)/0x11D: %s", tableDiff(t))
				}
			}
		}
	}
}

// tableDiff names the first entry that differs from the nearest field table.
func tableDiff(t *Table) string {
	type cand struct {
		name string
		f    func(i int64) int64
	}
	var cs []cand
	switch {
	case len(t.dims) == 2 && t.dims[1] == 256:
		cs = append(cs, cand{"the multiplication table", func(i int64) int64 { return int64(gfMul(byte(i/256), byte(i%256))) }})
	case len(t.dims) == 2 && t.dims[1] == 16:
		cs = append(cs, cand{"the table of low products", func(i int64) int64 { return int64(gfMul(byte(i/16), byte(i%16))) }},
			cand{"the table of high products", func(i int64) int64 { return int64(gfMul(byte(i/16), byte(i%16)<<4)) }})
	default:
		cs = append(cs, cand{"the logarithm table", func(i int64) int64 {
			if i == 0 {
				return t.data[0]
			}
			return int64(gfLog[byte(i)])
		}}, cand{"the exponential table", func(i int64) int64 { return int64(gfPow(2, i)) }})
	}
	best, bestN := "it resembles none", int64(1)<<60
	for _, c := range cs {
		n, first := int64(0), ""
		for i, v := range t.data {
			if want := c.f(int64(i)); v != want {
				if n == 0 {
					first = sprintf("entry %d is %d where %s has %d", i, v, c.name, want)
				}
				n++
			}
		}
		if n > 0 && n < bestN {
			best, bestN = first, n
		}
	}
	return best
}

// checkScalar: the function computes one of the operations on every path.
func checkScalar(r *Report, w *World, home string, fn *ssa.Function, ops []string) {
	it := newInterp(w, home)
	st := newState()
	args := it.entryArgs(st, fn)
	if ops[0] == "GalExp" {
		n := asInt(args[1])
		st.assume(mkGE(n))
	}
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return
	}
	a.noAlarms("scalar operation without run-time error", nil)
	var best []specFail
	bestOp := ""
	for i, op := range ops {
		fs := scalarFails(a, op, args)
		if i == 0 || len(fs) < len(best) {
			best, bestOp = fs, op
		}
	}
	r.oblige(len(a.res) > 0, "scalar result", short(a.name)+" returns", w.pos(fn.Pos()), "no path returns")
	for _, f := range best {
		r.oblige(false, "scalar result", short(a.name)+" as "+bestOp, f.pos, "%s", f.msg)
	}
	if len(best) == 0 {
		for k := range a.res {
			r.oblige(true, "scalar result", sprintf("%s as %s, path %d", short(a.name), bestOp, k+1), "", "")
		}
	}
}

type specFail struct{ pos, msg string }

func scalarFails(a *Ana, op string, args []Value) (fs []specFail) {
	av := asByte(args[0])
	az := mkBEQ(av)
	var cases []specCase // result wanted when
	panicOK := condFalse // a panic is the right outcome when
	panicMay := condFalse
	switch op {
	case "GalAdd", "GalSub", "add":
		cases = []specCase{{condTrue, ByteV{bxor(av, asByte(args[1]))}}}
	case "GalMultiply", "GalMultiplyLogExp", "mul":
		cases = []specCase{{condTrue, ByteV{bmul(av, asByte(args[1]))}}}
	case "GalDivide", "div":
		bv := asByte(args[1])
		bz := mkBEQ(bv)
		cases = []specCase{{notC(bz), ByteV{bmul(av, binv(bv))}}, {andC(bz, notC(az)), nil}}
		panicOK, panicMay = bz, bz
	case "GalExp":
		n := asInt(args[1])
		cases = []specCase{{mkEQ(n), ByteV{bconst(1)}}, {andC(notC(mkEQ(n)), az), ByteV{bconst(0)}}, {andC(notC(mkEQ(n)), notC(az)), ByteV{bpow(av, n)}}}
	}
	_ = panicMay
	for _, r := range a.res {
		x := r.st.ctx
		if r.panic != "" {
			y := x.assume(notC(panicOK))
			if !x.prove(panicOK) && !y.infeasible() {
				fs = append(fs, specFail{r.pos, "panics (" + r.panic + ") although a result is defined: " + fmtCtx(y)})
			}
			continue
		}
		for _, c := range cases {
			y := x.assume(c.when)
			if x.prove(notC(c.when)) || y.infeasible() {
				continue
			}
			if c.want == nil {
				fs = append(fs, specFail{r.pos, "returns " + showV(r.val) + " where it has to panic: " + c.when.String()})
			} else if !eqVal(y, r.val, c.want) {
				fs = append(fs, specFail{r.pos, sprintf("when %s it returns %s, not %s", c.when, showV(r.val), showV(c.want))})
			}
		}
	}
	return fs
}
