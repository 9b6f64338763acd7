package main

import (
	"go/types"
)

// The erasure code (klauspost/reedsolomon v1.9) and, for other packages, the
// contracts of package shamir.

// opaque byte of the object made at a site: name(inst..., i, k)
func (f *frame) byteMatrix(st *State, site, name string, rows, cols *Poly, inst []*Poly) (*Ref, *Poly) {
	// one instance of the memory object per row
	d := len(st.inst)
	et := types.Typ[types.Uint8]
	o := &Obj{site: site, elem: et, ninst: d + 1, ln: f.overInst(st, cols), kind: "alloc"}
	var args []*Poly
	for k := 0; k <= d; k++ {
		args = append(args, atomPoly(iv(k)))
	}
	o.base = ByteV{selB(name, append(args, jP)...)}
	if st.objs[site] != nil {
		giveUp("object %s allocated twice", site)
	}
	st.setObj(site, o)
	return &Ref{site, append(append([]*Poly(nil), st.inst...), jP)}, cols
}

func (f *frame) overInst(st *State, p *Poly) *Poly {
	s := newSubst()
	for k, q := range st.inst {
		if a := q.single(); a != nil && a.kind == ASym {
			s.sym[a] = atomPoly(iv(k))
		}
	}
	return s.P(p)
}

var sliceOfByte = types.NewSlice(types.Typ[types.Uint8])

// matrix makes a list of rows fresh byte slices of cols bytes with no spare capacity.
func (f *frame) matrix(st *State, site, name string, rows, cols *Poly, pos string) SliceV {
	if len(st.inst) > 0 {
		giveUp("erasure code or secret sharing used in a loop")
	}
	row, _ := f.byteMatrix(st, site+".row", name, rows, cols, nil)
	l := f.alloc(st, site, sliceOfByte, rows, "alloc", pos)
	f.fill(st, l, konst(0), rows, SliceV{obj: row, off: konst(0), ln: cols, cp: cols, isNil: condFalse}, nil)
	return SliceV{obj: l, off: konst(0), ln: rows, cp: rows, isNil: condFalse}
}

func (f *frame) errPath(st *State, n int) callRes {
	t := TupleV{}
	for k := 0; k < n; k++ {
		t = append(t, nilSlice())
	}
	t = append(t, errV())
	if n == 0 {
		return callRes{st: st, val: errV()}
	}
	return callRes{st: st, val: t}
}

func rsModels(m map[string]Model) {
	const pk = "github.com/klauspost/reedsolomon."
	enc := "(" + pk + "Encoder)."
	m[pk+"New"] = func(f *frame, p *Path, c *callSite) []callRes {
		d, q := asInt(c.args[0]), asInt(c.args[1])
		ok := andC(mkGE(addc(d, -1)), mkGE(q), mkGE(sub(konst(256), add(d, q))))
		switch p.st.ctx.decide(ok) {
		case 0:
			needSplit(ok)
		case -1:
			return one(p.st, tup(IfaceV{nilc: condTrue}, errV()))
		}
		f.note("rs.new", c.instr, p.st, IntV{d}, IntV{q})
		return one(p.st, tup(IfaceV{nilc: condFalse, tag: "rs", dyn: OpaqueV{tag: "rs", args: []Value{IntV{d}, IntV{q}}}}, nilErr()))
	}
	code := func(v Value) (d, p *Poly) {
		i, ok := v.(IfaceV)
		if ok {
			if o, ok := i.dyn.(OpaqueV); ok && o.tag == "rs" {
				return asInt(o.args[0]), asInt(o.args[1])
			}
		}
		giveUp("unknown erasure code")
		return nil, nil
	}
	m[enc+"Split"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		d, q := code(c.args[0])
		s := c.args[1].(SliceV)
		c0 := mkGE(addc(s.ln, -1))
		switch st.ctx.decide(c0) {
		case 0:
			needSplit(c0)
		case -1:
			return []callRes{f.errPath(st, 1)}
		}
		if s.obj == nil {
			giveUp("split of unknown memory")
		}
		f.useCheck(st, s.obj, c.instr)
		// it clears d bytes behind the data when there is any spare capacity that
		// already holds all shards; it must hold those, too
		f.require(st, mkGE(sub(s.cp, add(s.ln, d))), "erasure split capacity", c.instr)
		f.note("rs.split", c.instr, st, s, IntV{d}, IntV{q}, ByteV{f.contentTerm(st, s)})
		per := divP(addc(add(s.ln, d), -1), d)
		// the shards use the memory of the data, which the caller gives up
		f.fill(st, s.obj, s.off, s.cp, ByteV{selB("given:"+c.site, jP)}, c.instr)
		if st.flags == nil {
			st.flags = map[string]bool{}
		}
		st.flags["released:"+refKey(s.obj)] = true
		out := f.matrix(st, c.site, "rs:"+c.site, add(d, q), per, f.pos(c.instr))
		if st.obj(s.obj).kind != "alloc" {
			st.objs[c.site+".row"] = func() *Obj { o := st.objs[c.site+".row"].clone(); o.kind = st.obj(s.obj).kind; return o }()
		}
		return one(st, tup(out, nilErr()))
	}
	m[enc+"Encode"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		d, q := code(c.args[0])
		s := c.args[1].(SliceV)
		c0 := mkEq(s.ln, add(d, q))
		switch st.ctx.decide(c0) {
		case 0:
			needSplit(c0)
		case -1:
			return []callRes{f.errPath(st, 0)}
		}
		if s.obj == nil {
			return []callRes{f.errPath(st, 0)}
		}
		j := symP("#rsrow")
		row, ok := sliceCellAny(st, s, j, mkGE(j), mkLT(j, s.ln)).(SliceV)
		if !ok || row.obj == nil || len(row.obj.inst) != 1 || row.obj.inst[0] != j {
			giveUp("erasure encoding of shards that do not come from splitting")
		}
		same := mkGE(addc(row.ln, -1))
		switch st.ctx.decide(same) {
		case 0:
			needSplit(same)
		case -1:
			return []callRes{f.errPath(st, 0)}
		}
		if row.ln.has(j.single()) {
			giveUp("erasure encoding of shards of different lengths")
		}
		f.useCheck(st, row.obj, c.instr)
		f.note("rs.encode", c.instr, st, s, IntV{d}, IntV{q})
		o := st.objs[row.obj.site].clone()
		o.ents = nil
		o.base = ByteV{selB("rsenc:"+row.obj.site, atomPoly(iv(0)), jP)}
		f.noteWrite(st, o, row.obj, row.off, add(row.off, row.ln), c.instr)
		st.setObj(o.site, o)
		return one(st, nilErr())
	}
	m[enc+"ReconstructData"] = func(f *frame, p *Path, c *callSite) []callRes { return rsReconstruct(f, p, c, code) }
	m[enc+"Reconstruct"] = m[enc+"ReconstructData"]
	m[enc+"Join"] = func(f *frame, p *Path, c *callSite) []callRes {
		st := p.st
		d, q := code(c.args[0])
		s := c.args[2].(SliceV)
		n := asInt(c.args[3])
		di, ok := c.args[1].(IfaceV)
		if !ok || di.typ == nil || di.typ.String() != "*bytes.Buffer" {
			giveUp("joining to an unknown writer")
		}
		if s.obj != nil {
			f.useCheck(st, s.obj, c.instr)
		}
		f.require(st, mkGE(n), "erasure join size", c.instr)
		bad := f.errPath(st.clone(), 0)
		if f.it.fail {
			bad.st.flags["failed.join"] = true
		}
		st.assume(mkGE(sub(s.ln, d)))
		f.note("rs.join", c.instr, st, s, IntV{d}, IntV{q}, IntV{n})
		if s.obj == nil {
			return []callRes{bad}
		}
		nm := "rsjoin:" + c.site
		if !st.ctx.prove(mkEQ(n)) {
			f.bufAppend(p, c, di.dyn, n, func(r *Ref, at *Poly) {
				f.fill(st, r, at, n, ByteV{selB(nm, sub(jP, at))}, nil)
			})
		}
		return []callRes{bad, {st: st, val: nilErr()}}
	}
}

// sliceCellAny is the element of a slice at an arbitrary index.
func sliceCellAny(st *State, s SliceV, i *Poly, cs ...*Cond) Value {
	x := st.ctx.assume(cs...)
	l := cellCases(x, st.obj(s.obj), s.obj.inst, add(s.off, i))
	if len(l) != 1 {
		giveUp("element of a list is not the same for every index")
	}
	return l[0].v
}

// rsReconstruct: the code fills in missing shards; present ones stay.
func rsReconstruct(f *frame, p *Path, c *callSite, code func(Value) (*Poly, *Poly)) []callRes {
	st := p.st
	d, q := code(c.args[0])
	s := c.args[1].(SliceV)
	bad := f.errPath(st.clone(), 0)
	c0 := mkEq(s.ln, add(d, q))
	switch st.ctx.decide(c0) {
	case 0:
		needSplit(c0)
	case -1:
		return []callRes{bad}
	}
	if s.obj == nil {
		return []callRes{bad}
	}
	f.useCheck(st, s.obj, c.instr)
	// an empty shard with capacity would be filled in place: it must be missing altogether
	j := symP("#rsrow")
	x := st.ctx.assume(mkGE(j), mkLT(j, s.ln))
	for _, cs := range cellCases(x, st.obj(s.obj), s.obj.inst, add(s.off, j)) {
		y := x.assume(cs.g)
		if y.infeasible() {
			continue
		}
		row, ok := cs.v.(SliceV)
		if !ok {
			giveUp("shard is %T", cs.v)
		}
		if row.obj == nil {
			continue
		}
		f.useCheck(st, row.obj, c.instr)
		if !y.prove(orC(mkGE(addc(row.ln, -1)), mkEQ(row.cp))) {
			if k := st.obj(row.obj).kind; k != "alloc" {
				f.note("write:"+k+":"+row.obj.site, c.instr, st, IntV{row.off}, IntV{add(row.off, row.cp)}, row)
			}
		}
	}
	f.note("rs.reconstruct", c.instr, st, s, IntV{d}, IntV{q})
	st.assume(mkGE(addc(d, -1)))
	// every data shard is present afterwards
	site := c.site + ".rec"
	appRange[site+".len"] = [2]*Poly{konst(1), lenMax}
	row, _ := f.byteMatrix(st, site, "rsrec:"+c.site, d, appP(site+".len"), nil)
	f.fill(st, s.obj, s.off, d, SliceV{obj: row, off: konst(0), ln: appP(site + ".len"), cp: appP(site + ".len"), isNil: condFalse}, c.instr)
	return []callRes{bad, {st: st, val: nilErr()}}
}

// ---------- contracts of package shamir for its callers ----------

func shamirContracts(m map[string]Model) {
	p := modPath + "/shamir."
	for _, n := range []string{"Split", "SplitGeneric", "SplitP", "SplitWithRandomizer", "SplitWithRandomizerOld"} {
		n := n
		m[p+n] = func(f *frame, p *Path, c *callSite) []callRes { return ssSplit(f, p, c, n) }
	}
	m[p+"Combine"] = ssCombine
}

// ssSplit: accepts exactly the valid parameters (P05), returns `parts` fresh
// shares one byte longer than the secret (P06).
func ssSplit(f *frame, p *Path, c *callSite, name string) []callRes {
	st := p.st
	s := c.args[0].(SliceV)
	parts, thr := asInt(c.args[1]), asInt(c.args[2])
	if len(c.args) > 3 {
		f.derefCheck(st, c.args[3].(PtrV), c.instr)
	}
	ok := andC(mkGE(addc(thr, -2)), mkGE(sub(parts, thr)), mkGE(sub(konst(255), parts)), mkGE(addc(s.ln, -1)))
	switch st.ctx.decide(ok) {
	case 0:
		needSplit(ok)
	case -1:
		return []callRes{f.errPath(st, 1)}
	}
	var out []callRes
	if f.it.fail {
		st2 := st.clone()
		st2.flags = cloneFlags(st2.flags)
		st2.flags["failed"] = true
		out = append(out, f.errPath(st2, 1))
	}
	f.useCheck(st, s.obj, c.instr)
	vals := []Value{s, IntV{parts}, IntV{thr}, ByteV{f.contentTerm(st, s)}}
	if len(c.args) > 3 {
		vals = append(vals, c.args[3])
	}
	f.note("ss.split:"+name, c.instr, st, vals...)
	r := f.matrix(st, c.site, "ss:"+c.site, parts, addc(s.ln, 1), f.pos(c.instr))
	return append(out, callRes{st: st, val: tup(r, nilErr())})
}

func cloneFlags(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ssCombine: an error, or one byte less than a share (P07, P08).
func ssCombine(f *frame, p *Path, c *callSite) []callRes {
	st := p.st
	s := c.args[0].(SliceV)
	bad := f.errPath(st.clone(), 1)
	if s.obj == nil {
		return []callRes{bad}
	}
	two := mkGE(addc(s.ln, -2))
	switch st.ctx.decide(two) {
	case 0:
		needSplit(two)
	case -1:
		return []callRes{bad}
	}
	f.useCheck(st, s.obj, c.instr)
	x := st.ctx
	cs := cellCases(x, st.obj(s.obj), s.obj.inst, s.off)
	var n *Poly
	for _, e := range cs {
		r, ok := e.v.(SliceV)
		if !ok || n != nil && !x.prove(mkEq(n, r.ln)) {
			n = nil
			break
		}
		n = r.ln
	}
	if n == nil {
		nm := "ss.len:" + c.site
		appRange[nm] = [2]*Poly{konst(2), lenMax}
		n = appP(nm)
	}
	f.note("ss.combine", c.instr, st, s)
	c1 := mkGE(addc(n, -2))
	switch st.ctx.decide(c1) {
	case 0:
		needSplit(c1)
	case -1:
		return []callRes{bad}
	}
	if len(st.inst) > 0 {
		giveUp("secret sharing used in a loop")
	}
	r := f.alloc(st, c.site, types.Typ[types.Uint8], addc(n, -1), "alloc", f.pos(c.instr))
	f.fill(st, r, konst(0), addc(n, -1), ByteV{selB("sscomb:"+c.site, jP)}, nil)
	return []callRes{bad, {st: st, val: tup(SliceV{obj: r, off: konst(0), ln: addc(n, -1), cp: addc(n, -1), isNil: condFalse}, nilErr())}}
}
