package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("F02", "abstract interpretation over GF(2^8) terms of Go and translated assembly, with closed forms of the loops", checkF02)
	register("F03", "abstract interpretation: bounds of every access of Go and translated assembly", checkF03)
}

var vectorOps = []string{"AddVector", "MulConstVector", "AddVectorGeneric", "MulConstVectorGeneric", "AddVectorBatchGeneric"}

const vecText = "Every vector operation is interpreted over vectors of arbitrary length and content on amd64, arm64, the portable build and a 32-bit platform, through every combination of the CPU-feature flags. Assembly routines are translated instruction by instruction into byte-lane assignments and analysed like Go code; loops get closed forms by induction. "

func vectorAnas(r *Report, f func(a *Ana, st *State, fn *ssa.Function, add bool, args []Value)) {
	r.assumes("the two vectors of an addition do not overlap partially", "vectors are shorter than 2^47 bytes")
	for _, c := range []Config{cfgAMD64, cfgARM64, cfgNoasm, {"linux", "386", ""}} {
		w := load(c)
		for _, n := range vectorOps {
			fn := w.spkg["galois"].Func(n)
			if fn == nil {
				if n == "AddVector" || n == "MulConstVector" {
					r.oblige(false, "vector operation exists", "galois."+n, "", "no such function on %s", c)
				}
				continue
			}
			add := strings.HasPrefix(n, "Add")
			good := fn.Signature.Params().Len() == 2 && fn.Signature.Results().Len() == 1 && isByteSlice(fn.Params[1].Type()) &&
				isByteSlice(fn.Signature.Results().At(0).Type()) && (add && isByteSlice(fn.Params[0].Type()) || !add && isByteT(fn.Params[0].Type()))
			if !r.oblige(good, "vector operation exists", "galois."+n+" signature", w.pos(fn.Pos()), "unexpected signature %s", fn.Signature) {
				continue
			}
			it := newInterp(w, "galois")
			st := newState()
			args := it.entryArgs(st, fn)
			a := analyse(r, it, fn, st, args)
			if a.ok {
				r.oblige(len(a.res) > 0, "vector operation returns", short(a.name), w.pos(fn.Pos()), "no path returns")
				f(a, st, fn, add, args)
			}
		}
	}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByteT(s.Elem())
}

// cellsOf visits the content of a slice at an arbitrary index.
func (a *Ana) cellsOf(st *State, s SliceV, i *Poly, f func(x *Ctx, v Value)) {
	x := st.ctx.assume(mkGE(i), mkLT(i, s.ln))
	if x.infeasible() {
		return
	}
	if s.obj == nil {
		return
	}
	for _, c := range cellCases(x, runsMerged(x, st.obj(s.obj)), s.obj.inst, add(s.off, i)) {
		y := x.assume(c.g)
		if y.infeasible() {
			continue
		}
		f(y, c.v)
		x = x.assume(notC(c.g))
		if c.g == condTrue || x.infeasible() {
			return
		}
	}
}

func checkF02(r *Report) {
	r.rule(vecText + "On every path that returns, the result has the length of the operand, and its element at an arbitrary index equals, as a term of GF(2^8), the sum or product of the elements the operands held on entry at that index.")
	vectorAnas(r, (*Ana).vectorSpec)
	r.atLeast("vector element", 24)
}

func checkF03(r *Report) {
	r.rule(vecText + "Every load, store, index and slice expression, in Go and in assembly, must lie within the vector or table it is made from (aligned instructions: at aligned addresses). A path on which an addition is given different lengths must panic with both vectors unchanged; no other path may panic.")
	vectorAnas(r, func(a *Ana, st *State, fn *ssa.Function, isAdd bool, args []Value) {
		a.noAlarms("access within bounds", nil)
		differ := condFalse
		if isAdd {
			differ = mkNE(sub(args[0].(SliceV).ln, args[1].(SliceV).ln))
		}
		for k, res := range a.res {
			nm := sprintf("%s, path %d", short(a.name), k+1)
			x := res.st.ctx
			if res.panic == "" {
				y := x.assume(differ)
				r.oblige(x.prove(notC(differ)) || y.infeasible(), "different lengths panic", nm, res.pos, "returns although the lengths may differ: %s", fmtCtx(y))
				continue
			}
			y := x.assume(notC(differ))
			r.oblige(x.prove(differ) || y.infeasible(), "panics only for different lengths", nm, res.pos, "panics (%s) although the lengths are equal: %s", res.panic, fmtCtx(y))
			for _, v := range args {
				s, ok := v.(SliceV)
				if !ok {
					continue
				}
				same := eqContent(x, res.st.objs[s.obj.site], st.objs[s.obj.site])
				r.oblige(same, "panics before writing", nm, res.pos, "%s was already modified when the operation panics", s.obj.site)
			}
		}
	})
	r.atLeast("access within bounds", 17)
	r.atLeast("different lengths panic", 24)
	r.atLeast("panics only for different lengths", 8)
}

// vectorSpec obliges the result of a vector operation to be the element-wise sum or product.
func (a *Ana) vectorSpec(st *State, fn *ssa.Function, isAdd bool, args []Value) {
	v := args[1].(SliceV)
	i := symP("#i")
	at := func(s SliceV) *BT {
		var out *BT
		a.cellsOf(st, s, i, func(x *Ctx, e Value) { out = asByte(e) })
		return out
	}
	var want *BT
	if isAdd {
		want = bxor(at(args[0].(SliceV)), at(v))
	} else {
		want = bmul(asByte(args[0]), at(v))
	}
	for k, res := range a.res {
		if res.panic != "" {
			continue
		}
		out, ok := res.val.(SliceV)
		nm := sprintf("%s, path %d", short(a.name), k+1)
		if !a.r.oblige(ok && (out.obj != nil || res.st.ctx.prove(mkEQ(v.ln))), "vector result", nm, res.pos, "returns %s", showV(res.val)) {
			continue
		}
		a.r.oblige(res.st.ctx.prove(mkEq(out.ln, v.ln)), "vector length", nm, res.pos, "returns a vector of length %s for one of length %s", out.ln, v.ln)
		bad := ""
		n := 0
		a.cellsOf(res.st, out, i, func(x *Ctx, e Value) {
			n++
			if !eqVal(x, e, ByteV{want}) && bad == "" {
				bad = sprintf("element #i of the result is %s, not %s, when %s", showV(e), want, fmtCtx(x))
			}
		})
		a.r.count("element cases", n)
		a.r.oblige(bad == "", "vector element", nm, res.pos, "%s", bad)
	}
}
