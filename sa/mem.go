package main

// Memory: objects are decision lists of guarded entries over the instance
// symbols #i0.. and the position symbol #j.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func cellSubst(inst []*Poly, idx *Poly) *Subst {
	s := newSubst()
	for k, p := range inst {
		if q := atomPoly(iv(k)); q != p {
			s.sym[iv(k)] = p
		}
	}
	if idx != jP {
		s.sym[jv] = idx
	}
	return s
}

func (st *State) obj(r *Ref) *Obj {
	if r == nil {
		giveUp("access through a nil reference")
	}
	o := st.objs[r.site]
	if o == nil {
		giveUp("unknown object %s", r.site)
	}
	return o
}

type caseV struct {
	g *Cond
	v Value
}

// cellCases lists the guarded values of a cell, newest first; the last has guard true.
func cellCases(ctx *Ctx, o *Obj, inst []*Poly, idx *Poly) []caseV {
	s := cellSubst(inst, idx)
	var out []caseV
	for k := len(o.ents) - 1; k >= 0; k-- {
		g := s.C(o.ents[k].g)
		switch ctx.decide(g) {
		case 1:
			return append(out, caseV{condTrue, substV(s, o.ents[k].val)})
		case -1:
			continue
		}
		out = append(out, caseV{g, substV(s, o.ents[k].val)})
	}
	if o.tab != nil {
		return append(out, caseV{condTrue, tableRead(ctx, o.tab, idx)})
	}
	return append(out, caseV{condTrue, substV(s, o.base)})
}

// cell reads a cell; undecided guards split the path.
func cell(st *State, r *Ref, idx *Poly) Value {
	o := st.obj(r)
	s := cellSubst(r.inst, idx)
	for k := len(o.ents) - 1; k >= 0; k-- {
		g := s.C(o.ents[k].g)
		switch st.ctx.decide(g) {
		case 1:
			return substV(s, o.ents[k].val)
		case -1:
			continue
		}
		if q := st.ctx.quotC(g); q != g {
			switch st.ctx.decide(q) {
			case 1:
				return substV(s, o.ents[k].val)
			case -1:
				continue
			}
			g = q
		}
		needSplit(g)
	}
	if o.tab != nil {
		return tableRead(st.ctx, o.tab, idx)
	}
	if o.base == nil {
		giveUp("read of an undefined cell of %s", o.site)
	}
	return substV(s, o.base)
}

func (f *frame) instGuard(r *Ref) []*Cond {
	var g []*Cond
	for k, p := range r.inst {
		g = append(g, mkEq(atomPoly(iv(k)), p))
	}
	return g
}

// setCell writes one cell.
func (f *frame) setCell(st *State, r *Ref, idx *Poly, v Value, in ssa.Instruction) {
	o := st.obj(r).clone()
	if o.kind == "table" {
		giveUp("write to the table %s", o.site)
	}
	g := f.instGuard(r)
	if !o.ln.isC(1) {
		g = append(g, mkEq(jP, idx))
	}
	gc := andC(g...)
	f.noteWrite(st, o, r, idx, addc(idx, 1), in)
	if gc == condTrue {
		o.ents, o.base = nil, v
	} else {
		o.ents = append(dropShadowed(st.ctx, o.ents, gc), Entry{gc, v})
	}
	st.setObj(o.site, o)
}

// dropShadowed removes entries whose guard equals g.
func dropShadowed(ctx *Ctx, es []Entry, g *Cond) []Entry {
	var out []Entry
	for _, e := range es {
		if e.g != g {
			out = append(out, e)
		}
	}
	return out
}

func (f *frame) noteWrite(st *State, o *Obj, r *Ref, lo, hi *Poly, in ssa.Instruction) {
	if in != nil {
		f.access(st, true, r, lo, hi, in)
		f.note("write:"+o.kind+":"+o.site, in, st, IntV{lo}, IntV{hi}, SliceV{obj: r, off: lo, ln: sub(hi, lo), cp: sub(hi, lo), isNil: condFalse})
	}
}

// load reads a value of type t at pointer p.
func (f *frame) load(st *State, p PtrV, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isModelType(t) {
			break
		}
		r := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, f.load(st, f.fieldPtr(st, p, i, u.Field(i).Type()), u.Field(i).Type()))
		}
		return r
	case *types.Array:
		o := st.obj(p.obj)
		n, _ := flatArray(u)
		return ArrayV{src: &Obj{site: o.site, elem: o.elem, ninst: o.ninst, ln: o.ln, ents: o.ents, base: o.base, tab: o.tab}, inst: p.obj.inst, off: p.idx, n: n}
	}
	return cell(st, p.obj, p.idx)
}

func (f *frame) store(st *State, p PtrV, v Value, t types.Type, in ssa.Instruction) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isModelType(t) {
			break
		}
		s, ok := v.(StructV)
		if !ok {
			giveUp("store of a struct from %T", v)
		}
		for i := 0; i < u.NumFields(); i++ {
			f.store(st, f.fieldPtr(st, p, i, u.Field(i).Type()), s.f[i], u.Field(i).Type(), in)
		}
		return
	case *types.Array:
		a, ok := v.(ArrayV)
		if !ok {
			giveUp("store of an array from %T", v)
		}
		if a.src == nil { // uniform
			f.fill(st, p.obj, p.idx, konst(a.n), a.base, in)
			return
		}
		f.copyFrom(st, p.obj, p.idx, a.src, a.inst, a.off, konst(a.n), in)
		return
	}
	f.setCell(st, p.obj, p.idx, v, in)
}

// fill sets cells [off, off+n) to v (over #j).
func (f *frame) fill(st *State, r *Ref, off, n *Poly, v Value, in ssa.Instruction) {
	o := st.obj(r).clone()
	g := andC(append(f.instGuard(r), mkLE(off, jP), mkLT(jP, add(off, n)))...)
	f.noteWrite(st, o, r, off, add(off, n), in)
	if st.ctx.prove(mkEQ(n)) || g == condFalse {
		return
	}
	v = st.ctx.assume(g).quotV(v)
	o.ents = append(dropShadowed(st.ctx, o.ents, g), Entry{g, v})
	st.setObj(o.site, o)
}

// copyFrom copies n cells of src (instance inst, from soff) to r at off.
func (f *frame) copyFrom(st *State, r *Ref, off *Poly, src *Obj, inst []*Poly, soff, n *Poly, in ssa.Instruction) {
	if st.ctx.prove(mkLE(n, konst(0))) {
		return
	}
	o := st.obj(r).clone()
	rng := append(f.instGuard(r), mkLE(off, jP), mkLT(jP, add(off, n)))
	g := andC(rng...)
	f.noteWrite(st, o, r, off, add(off, n), in)
	var sub1 []*Poly
	for k, p := range inst {
		_ = k
		sub1 = append(sub1, p)
	}
	x := st.ctx.assume(rng...)
	cs := cellCases(x, src, sub1, add(sub(jP, off), soff))
	ents := o.ents
	if len(cs) == 1 {
		ents = dropShadowed(st.ctx, ents, g)
	}
	for k := len(cs) - 1; k >= 0; k-- {
		v := x.assume(cs[k].g).quotV(cs[k].v)
		ents = append(ents, Entry{andC(g, cs[k].g), v})
	}
	o.ents = ents
	st.setObj(o.site, o)
}

// fieldPtr is the address of a struct field.
func (f *frame) fieldPtr(st *State, p PtrV, i int, ft types.Type) PtrV {
	site := fmt.Sprintf("%s.f%d", p.obj.site, i)
	if st.objs[site] == nil {
		o := st.obj(p.obj)
		giveUp("no field %d in object %s (%s)", i, o.site, o.elem)
	}
	q := PtrV{obj: &Ref{site, p.obj.inst}, idx: p.idx, isNil: condFalse}
	if at, ok := ft.Underlying().(*types.Array); ok {
		q.arr = at
		if !p.idx.isC(0) {
			giveUp("array field inside an array of structs")
		}
	}
	return q
}

// alloc creates (an instance of) an object and returns its reference.
func (f *frame) alloc(st *State, site string, et types.Type, ln *Poly, kind string, pos string) *Ref {
	f.allocTree(st, site, et, ln, kind, pos)
	return &Ref{site, append([]*Poly(nil), st.inst...)}
}

func (f *frame) allocTree(st *State, site string, et types.Type, ln *Poly, kind, pos string) {
	if isNamed(et, "sync.WaitGroup") {
		f.allocTree(st, site+".wg", types.Typ[types.Int], ln, kind, pos)
	}
	o := st.objs[site]
	lnI := ln
	s := newSubst()
	for k, p := range st.inst {
		if a := p.single(); a != nil && a.kind == ASym {
			s.sym[a] = atomPoly(iv(k))
		}
	}
	lnI = s.P(ln)
	if at, ok := et.Underlying().(*types.Array); ok {
		n, el := flatArray(at)
		if ln.isC(1) {
			et, lnI = el, konst(n)
		} else {
			et, lnI = el, scale(lnI, n)
		}
	}
	if o == nil {
		o = &Obj{site: site, elem: et, ninst: len(st.inst), ln: lnI, kind: kind, pos: pos}
		o.base = zeroV(et)
		st.setObj(site, o)
	} else if len(st.inst) == 0 {
		// executed again without an enclosing counter (cannot happen for reducible code)
		giveUp("object %s allocated twice", site)
	} else {
		// a further instance: it starts out zeroed
		g := f.instGuard(&Ref{site, st.inst})
		x := st.ctx.assume(g...)
		fresh := true
		for _, e := range o.ents {
			if x.decide(e.g) != -1 {
				if !x.assume(e.g).infeasible() {
					fresh = false
				}
			}
		}
		if o.ln != lnI {
			o = o.clone()
			o.ln = lnI
			st.setObj(site, o)
		}
		if !fresh {
			o = o.clone()
			o.ents = append(o.ents, Entry{andC(g...), zeroV(et)})
			st.setObj(site, o)
		}
	}
	if s2, ok := et.Underlying().(*types.Struct); ok && !isModelType(et) {
		for i := 0; i < s2.NumFields(); i++ {
			f.allocTree(st, fmt.Sprintf("%s.f%d", site, i), s2.Field(i).Type(), ln, kind, pos)
		}
	}
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == name
}

// isModelType: types whose values are handled by models as a whole.
func isModelType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bytes.Reader", "sync.WaitGroup", "sync.Mutex", "sync.RWMutex", "sync.Once", "strings.Builder", "time.Time", "sync.Pool",
		"sync/atomic.Uint64", "sync/atomic.Int64", "sync/atomic.Uint32", "sync/atomic.Int32":
		return true
	}
	return false
}

// evalAt reads the cell of a slice at position i (relative to the slice).
func sliceCell(st *State, s SliceV, i *Poly) Value {
	if s.obj == nil {
		giveUp("read from a nil slice")
	}
	return cell(st, s.obj, add(s.off, i))
}
