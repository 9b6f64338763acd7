package main

import (
	"go/types"
	"strings"
)

// Contracts of library functions, used in place of their bodies when another
// package calls them. Each is decided for the body elsewhere (X03 for the pool).

func contractsFor(w *World) map[string]Model {
	m := map[string]Model{}
	pool := "(*" + modPath + "/utils.BytesBufferPool)."
	m[pool+"Get"] = poolGet
	m[pool+"Put"] = poolPut
	m[rngType+"Read"] = rngRead
	m[rngType+"Perm"] = rngBytes("genperm", func(n *Poly) *Poly { return addc(n, -1) })
	m[rngType+"GetUniqueBytes"] = rngBytes("genuniq", func(n *Poly) *Poly { return konst(254) })
	for _, n := range vectorOps {
		n := n
		if w.spkg["galois"].Func(n) != nil {
			m[modPath+"/galois."+n] = func(f *frame, p *Path, c *callSite) []callRes { return vecContract(f, p, c, n) }
		}
	}
	shamirContracts(m)
	return m
}

// poolGet: a buffer nobody else holds, of unknown length and capacity, holding
// whatever its last user left there.
func poolGet(f *frame, p *Path, c *callSite) []callRes {
	st := p.st
	f.derefCheck(st, c.args[0].(PtrV), c.instr)
	nm := c.site + ".pooled"
	ln, cp := nm+".len", nm+".cap"
	appRange[ln] = [2]*Poly{konst(0), lenMax}
	appRange[cp] = [2]*Poly{konst(0), lenMax}
	n, k := appP(ln, st.inst...), appP(cp, st.inst...)
	st.assume(mkLE(n, k))
	data := f.alloc(st, nm, types.Typ[types.Uint8], k, "pooled", f.pos(c.instr))
	args := append(append([]*Poly(nil), st.inst...), jP)
	f.fill(st, data, konst(0), k, ByteV{selB("stale:"+nm, args...)}, nil)
	buf := f.alloc(st, nm+".buf", modelType(f.it.w, "bytes", "Buffer"), konst(1), "pooled", f.pos(c.instr))
	pt := PtrV{obj: buf, idx: konst(0), isNil: condFalse}
	f.setCell(st, buf, konst(0), bufVal(SliceV{obj: data, off: konst(0), ln: n, cp: k, isNil: condFalse}), nil)
	f.note("pool.get", c.instr, st, pt)
	if st.flags == nil {
		st.flags = map[string]bool{}
	}
	st.flags["got:"+refKey(buf)] = true
	return one(st, pt)
}

func poolPut(f *frame, p *Path, c *callSite) []callRes {
	st := p.st
	f.derefCheck(st, c.args[0].(PtrV), c.instr)
	pt, s := f.bufOf(st, c.args[1], c.instr)
	f.note("pool.put", c.instr, st, pt)
	if st.flags == nil {
		st.flags = map[string]bool{}
	}
	st.flags["released:"+refKey(pt.obj)] = true
	if s.obj != nil {
		st.flags["released:"+refKey(s.obj)] = true
	}
	return one(st, nil)
}

// vecSummary: what a vector operation of package galois does, established by
// analysing its body over arbitrary vectors.
type vecSummary struct {
	rep     *Report
	ok      bool
	inPlace bool // the result is the memory of the second operand
}

func (w *World) vecSum(name string) *vecSummary {
	if s := w.vecs[name]; s != nil {
		return s
	}
	if w.vecs == nil {
		w.vecs = map[string]*vecSummary{}
	}
	s := &vecSummary{rep: newReport("galois."+name, "quick")}
	w.vecs[name] = s
	fn := w.spkg["galois"].Func(name)
	isAdd := strings.HasPrefix(name, "Add")
	good := fn.Signature.Params().Len() == 2 && fn.Signature.Results().Len() == 1 && isByteSlice(fn.Params[1].Type()) &&
		isByteSlice(fn.Signature.Results().At(0).Type()) && (isAdd && isByteSlice(fn.Params[0].Type()) || !isAdd && isByteT(fn.Params[0].Type()))
	if !s.rep.oblige(good, "vector operation exists", "galois."+name+" signature", w.pos(fn.Pos()), "unexpected signature %s", fn.Signature) {
		return s
	}
	it := newInterp(w, "galois")
	it.root = "/sum/" + name
	st := newState()
	args := it.entryArgs(st, fn)
	a := analyse(s.rep, it, fn, st, args)
	if !a.ok {
		return s
	}
	a.noAlarms("vector access within bounds", nil)
	a.vectorSpec(st, fn, isAdd, args)
	v := args[1].(SliceV)
	n := 0
	for k, res := range a.res {
		nm := sprintf("%s, path %d", short(a.name), k+1)
		x := res.st.ctx
		if res.panic != "" {
			differ := condFalse
			if isAdd {
				differ = mkNE(sub(args[0].(SliceV).ln, v.ln))
			}
			s.rep.oblige(x.prove(differ) || x.infeasible(), "panics only for different lengths", nm, res.pos, "panics (%s)", res.panic)
			continue
		}
		out := res.val.(SliceV)
		in := out.obj != nil && out.obj.site == v.obj.site
		if in {
			s.rep.oblige(x.prove(mkEq(out.off, v.off)), "vector result memory", nm, res.pos, "returns another part of its operand's memory")
		}
		n++
		if n > 1 {
			s.rep.oblige(in == s.inPlace, "vector result memory", nm, res.pos, "returns its operand's memory on some paths only")
		}
		s.inPlace = in
		for j, av := range args {
			o, isS := av.(SliceV)
			if !isS || j == 1 && in {
				continue
			}
			s.rep.oblige(eqContent(x, res.st.objs[o.obj.site], st.objs[o.obj.site]), "vector operand unchanged", nm, res.pos, "modifies operand %d", j+1)
		}
	}
	s.ok = n > 0 && len(s.rep.viols) == 0
	return s
}

func vecContract(f *frame, p *Path, c *callSite, name string) []callRes {
	s := f.it.w.vecSum(name)
	f.it.used("galois."+name, s.rep)
	if !s.ok {
		giveUp("galois.%s does not compute what it should", name)
	}
	st := p.st
	isAdd := strings.HasPrefix(name, "Add")
	v := c.args[1].(SliceV)
	if isAdd {
		a := c.args[0].(SliceV)
		f.require(st, mkEq(a.ln, v.ln), "length", c.instr)
		if a.obj != nil {
			f.useCheck(st, a.obj, c.instr)
			if v.obj != nil && a.obj.site == v.obj.site && !disjointInst(st.ctx, a, v) && !st.ctx.prove(mkEq(a.off, v.off)) {
				giveUp("galois.%s of overlapping vectors", name)
			}
		}
	}
	if v.obj == nil {
		if s.inPlace {
			return one(st, v)
		}
		v = SliceV{off: konst(0), ln: konst(0), cp: konst(0), isNil: condFalse}
		return one(st, v)
	}
	f.useCheck(st, v.obj, c.instr)
	// the element at #j of the result
	at := func(s SliceV, rel *Poly, x *Ctx) *BT {
		cs := cellCases(x, st.obj(s.obj), s.obj.inst, add(s.off, rel))
		r := asByte(cs[len(cs)-1].v)
		for k := len(cs) - 2; k >= 0; k-- {
			r = bite(cs[k].g, asByte(cs[k].v), r)
		}
		return r
	}
	elem := func(rel *Poly, x *Ctx) *BT {
		if isAdd {
			a := c.args[0].(SliceV)
			if a.obj == nil {
				return at(v, rel, x)
			}
			return bxor(at(a, rel, x), at(v, rel, x))
		}
		return bmul(asByte(c.args[0]), at(v, rel, x))
	}
	if s.inPlace {
		rel := sub(jP, v.off)
		x := st.ctx.assume(mkLE(v.off, jP), mkLT(jP, add(v.off, v.ln)))
		f.fill(st, v.obj, v.off, v.ln, ByteV{elem(rel, x)}, c.instr)
		return one(st, v)
	}
	x := st.ctx.assume(mkGE(jP), mkLT(jP, v.ln))
	e := elem(jP, x)
	r := f.alloc(st, c.site, types.Typ[types.Uint8], v.ln, "alloc", f.pos(c.instr))
	f.fill(st, r, konst(0), v.ln, ByteV{e}, nil)
	return one(st, SliceV{obj: r, off: konst(0), ln: v.ln, cp: v.ln, isNil: condFalse})
}

// used records that the analysis relied on a contract, whose own obligations
// then belong to the property.
func (it *Interp) used(name string, rep *Report) {
	if it.uses == nil {
		it.uses = map[string]*Report{}
	}
	it.uses[name] = rep
}

const rngType = "(*" + modPath + "/csprng.CSPRNG)."

// rngRead: the buffer is filled with the next bytes of the generator, which
// nobody else gets (R01).
func rngRead(f *frame, p *Path, c *callSite) []callRes {
	st := p.st
	f.derefCheck(st, c.args[0].(PtrV), c.instr)
	s := c.args[1].(SliceV)
	f.randomDraw(p, c, s, "gen")
	return one(st, tup(IntV{s.ln}, nilErr()))
}

// rngBytes: n fresh bytes in memory of their own, pairwise distinct and at most top (R03).
func rngBytes(kind string, top func(n *Poly) *Poly) Model {
	return func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		f.derefCheck(st, c.args[0].(PtrV), c.instr)
		n := asInt(c.args[1])
		f.note("draw:gen", c.instr, st)
		nm := kind + ":" + c.site
		injective[nm] = true
		appRange[nm] = [2]*Poly{konst(0), top(n)}
		cp := c.site + ".cap"
		appRange[cp] = [2]*Poly{konst(0), konst(255)}
		k := appP(cp, st.inst...)
		st.assume(mkLE(n, k))
		r := f.alloc(st, c.site, types.Typ[types.Uint8], k, "alloc", f.pos(c.instr))
		args := append(append([]*Poly(nil), st.inst...), jP)
		f.fill(st, r, konst(0), n, ByteV{bint(appP(nm, args...))}, nil)
		return one(st, SliceV{obj: r, off: konst(0), ln: n, cp: k, isNil: condFalse})
	}
}
