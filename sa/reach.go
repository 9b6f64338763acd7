package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The reference graph of the library: from the exported functions, all
// methods, and the package initialisers, along every function that reachable
// code refers to in any way.

type Reach struct {
	w     *World
	fns   map[*ssa.Function]bool
	via   map[*ssa.Function]*ssa.Function // how it was reached
	order []*ssa.Function
}

func (w *World) libFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.Pkg != nil && isLib(fn.Pkg.Pkg.Path())
}

// exported lists the operations a user of the library can call.
func (w *World) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, sp := range w.spkg {
		for _, fn := range allFuncs(w.prog, sp) {
			if fn.Parent() != nil || fn.Object() == nil || fn.Synthetic != "" {
				continue
			}
			if !fn.Object().Exported() {
				continue
			}
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (w *World) reach() *Reach {
	r := &Reach{w: w, fns: map[*ssa.Function]bool{}, via: map[*ssa.Function]*ssa.Function{}}
	var work []*ssa.Function
	add := func(fn, from *ssa.Function) {
		if fn == nil || r.fns[fn] {
			return
		}
		r.fns[fn] = true
		r.via[fn] = from
		work = append(work, fn)
	}
	for _, fn := range w.exported() {
		add(fn, nil)
	}
	for _, sp := range w.spkg {
		add(sp.Func("init"), nil)
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, pt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := w.prog.MethodSets.MethodSet(pt)
					for i := 0; i < ms.Len(); i++ {
						if f := w.prog.MethodValue(ms.At(i)); f != nil && w.libFn(f) {
							add(f, nil)
						}
					}
				}
			}
		}
	}
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		r.order = append(r.order, fn)
		if !w.libFn(fn) && fn.Synthetic == "" {
			continue
		}
		live := liveBlocks(w, fn)
		for _, b := range fn.Blocks {
			if !live[b] {
				continue
			}
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f, fn)
					}
				}
			}
		}
	}
	return r
}

// fixedBool is the value of a condition that never changes: a constant, or an
// unexported package variable that is never written or passed around.
func (w *World) fixedBool(v ssa.Value) (val, ok bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), true
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			b, ok := w.fixedBool(v.X)
			return !b, ok
		}
		g, isG := v.X.(*ssa.Global)
		if v.Op != token.MUL || !isG || g.Object() == nil || g.Object().Exported() || g.Pkg == nil || !isLib(g.Pkg.Pkg.Path()) {
			return false, false
		}
		set := false
		for _, fn := range allFuncs(w.prog, g.Pkg) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
							continue
						}
						if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) && fn.Name() == "init" && fn.Synthetic != "" {
							if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && !set {
								set = true
								val = constant.BoolVal(c.Value)
								continue
							}
						}
						return false, false
					}
				}
			}
		}
		return val, true
	}
	return false, false
}

// liveBlocks are the blocks of a function that constant conditions do not exclude.
func liveBlocks(w *World, fn *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	if len(fn.Blocks) == 0 {
		return live
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	if fn.Recover != nil {
		work = append(work, fn.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if live[b] {
			continue
		}
		live[b] = true
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := w.fixedBool(i.Cond); ok {
				if v {
					work = append(work, b.Succs[0])
				} else {
					work = append(work, b.Succs[1])
				}
				continue
			}
		}
		work = append(work, b.Succs...)
	}
	return live
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.prog.Fset.Position(p)
	return q.String()
}

// instrPos is a source position for an instruction, or of the nearest one in its block.
func (w *World) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return w.pos(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return w.pos((*op).Pos())
		}
	}
	b := in.Block()
	for _, x := range b.Instrs {
		if x.Pos().IsValid() {
			return w.pos(x.Pos())
		}
	}
	return w.pos(b.Parent().Pos())
}

// chain tells how a function is reached from the interface of the library.
func (r *Reach) chain(fn *ssa.Function) string {
	s := fn.String()
	for n := 0; r.via[fn] != nil && n < 12; n++ {
		fn = r.via[fn]
		s = fn.String() + " -> " + s
	}
	return s
}
