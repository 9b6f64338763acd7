package main

import (
	"strings"
)

// ---------- equality of values and contents under a context ----------

func eqVal(x *Ctx, a, b Value) bool {
	if valKey(a) == valKey(b) {
		return true
	}
	switch v := a.(type) {
	case IntV:
		w, ok := b.(IntV)
		if !ok {
			if wb, ok2 := b.(ByteV); ok2 {
				return x.prove(mkEq(v.p, intOf(wb.b)))
			}
			return false
		}
		return x.prove(mkEq(v.p, w.p))
	case ByteV:
		w, ok := b.(ByteV)
		if !ok {
			return false
		}
		return eqB(x, v.b, w.b)
	case BoolV:
		w, ok := b.(BoolV)
		return ok && eqC(x, v.c, w.c)
	case SliceV:
		w, ok := b.(SliceV)
		if !ok {
			return false
		}
		if v.obj == nil || w.obj == nil {
			return v.obj == w.obj
		}
		return eqRef(x, v.obj, w.obj) && x.prove(mkEq(v.off, w.off)) && x.prove(mkEq(v.ln, w.ln)) && x.prove(mkEq(v.cp, w.cp)) && eqC(x, v.isNil, w.isNil)
	case PtrV:
		w, ok := b.(PtrV)
		if !ok {
			return false
		}
		if v.obj == nil || w.obj == nil {
			return v.obj == w.obj
		}
		return eqRef(x, v.obj, w.obj) && x.prove(mkEq(v.idx, w.idx)) && eqC(x, v.isNil, w.isNil)
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !eqVal(x, v[i], w[i]) {
				return false
			}
		}
		return true
	case StructV:
		w, ok := b.(StructV)
		if !ok || len(v.f) != len(w.f) {
			return false
		}
		for i := range v.f {
			if !eqVal(x, v.f[i], w.f[i]) {
				return false
			}
		}
		return true
	case IfaceV:
		w, ok := b.(IfaceV)
		if !ok {
			return false
		}
		if !eqC(x, v.nilc, w.nilc) {
			return false
		}
		if x.prove(v.nilc) {
			return true
		}
		return v.tag == w.tag && (v.dyn == nil) == (w.dyn == nil) && (v.dyn == nil || eqVal(x, v.dyn, w.dyn))
	case OpaqueV:
		w, ok := b.(OpaqueV)
		if !ok || v.tag != w.tag || len(v.args) != len(w.args) {
			return false
		}
		for i := range v.args {
			if !eqVal(x, v.args[i], w.args[i]) {
				return false
			}
		}
		return true
	}
	return false
}
func eqRef(x *Ctx, a, b *Ref) bool {
	if a.site != b.site || len(a.inst) != len(b.inst) {
		return false
	}
	for i := range a.inst {
		if !x.prove(mkEq(a.inst[i], b.inst[i])) {
			return false
		}
	}
	return true
}
func eqB(x *Ctx, a, b *BT) bool {
	if a == b {
		return true
	}
	d := x.simpB(bxor(a, b))
	if len(d.m) == 0 {
		return true
	}
	if x.simpB(a) == x.simpB(b) {
		return true
	}
	if n := normExp(x, d); len(n.m) == 0 {
		return true
	}
	if pa, pb := peel(x, a, b); pa != a || pb != b {
		return eqB(x, pa, pb)
	}
	if debugEq {
		debugf("eqB left with %s", d)
	}
	// a product with a factor that is zero, integer bytes with equal values
	if pa, pb := a.single(), b.single(); pa != nil && pb != nil && pa.kind == BInt && pb.kind == BInt {
		return x.prove(mkEq(pa.ps[0], pb.ps[0]))
	}
	if c := mkBEQ(d); c.kind == CEQ || c.kind == COr || c.kind == CAnd {
		return x.prove(c)
	}
	if debugEq {
		debugf("eqB splits on %s", d)
	}
	return caseSplitB(x, d, 3)
}

// peel writes sums and products that differ only by a few terms at one end
// with the same range.
func peel(x *Ctx, a, b *BT) (*BT, *BT) {
	var bs []*Atom
	seen := map[*Atom]bool{}
	for _, t := range []*BT{a, b} {
		for _, m := range t.m {
			for _, f := range m.f {
				if (f.a.kind == BSum || f.a.kind == BProd) && !seen[f.a] {
					seen[f.a] = true
					bs = append(bs, f.a)
				}
			}
		}
	}
	// products that are known to be zero
	own := len(bs)
	if own > 0 {
		var known func(c *Cond)
		known = func(c *Cond) {
			switch c.kind {
			case CBEQ:
				for _, m := range c.b.m {
					for _, f := range m.f {
						if f.a.kind == BProd && !seen[f.a] {
							seen[f.a] = true
							bs = append(bs, f.a)
						}
					}
				}
			case COr:
				for _, d := range c.cs {
					known(d)
				}
			}
		}
		for _, b := range x.inf().beqs {
			known(mkBEQ(b))
		}
		for _, c := range x.inf().ors {
			known(c)
		}
	}
	for i, s := range bs {
		for j, l := range bs[:own] {
			if i == j || s.kind != l.kind {
				continue
			}
			c, ok := x.simp(sub(l.ps[1], s.ps[1])).isConst()
			if !ok || c < 1 || c > 8 {
				continue
			}
			if by := peelOne(x, s, l, c); by != nil {
				sb := newSubst()
				sb.bat[l] = by
				return sb.B(a), sb.B(b)
			}
		}
	}
	return a, b
}
func peelOne(x *Ctx, s, l *Atom, c int64) *BT {
	v := symAtom("#p")
	vP := atomPoly(v)
	at := func(a *Atom, p *Poly) *BT { return x.simpB(substB(a.bs[0], a.v, p)) }
	join := func(ts ...*BT) *BT {
		if s.kind == BSum {
			return bxor(ts...)
		}
		return bmulAll(ts...)
	}
	y := x.assume(mkGE(vP), mkLT(vP, s.ps[1]))
	same := func(p, q *BT) bool { return p == q || y.simpB(p) == y.simpB(q) }
	ns, nl := s.ps[1], l.ps[1]
	forms := func(a *Atom, n *Poly) []*BT {
		return []*BT{at(a, vP), at(a, sub(addc(n, -1), vP))}
	}
	fs, fl := forms(s, ns), forms(l, nl)
	for _, p := range fs {
		for k, q := range fl {
			el := func(i *Poly) *BT {
				if k == 1 {
					i = sub(addc(nl, -1), i)
				}
				return at(l, i)
			}
			if same(p, q) {
				ts := []*BT{atomBT(s)}
				for i := int64(0); i < c; i++ {
					ts = append(ts, el(addc(ns, i)))
				}
				return join(ts...)
			}
			if same(p, substB(q, v, addc(vP, c))) {
				ts := []*BT{atomBT(s)}
				for i := int64(0); i < c; i++ {
					ts = append(ts, el(konst(i)))
				}
				return join(ts...)
			}
		}
	}
	return nil
}

// normExp reduces the exponents of non-zero elements modulo the order of the
// multiplicative group.
func normExp(x *Ctx, b *BT) *BT {
	ch := false
	var ms []bmon
	for _, m := range b.m {
		n := bmon{c: m.c}
		for _, f := range m.f {
			e := f.e
			red := false
			for _, t := range e.t {
				red = red || t.c < 0 || t.c >= 255
			}
			if red && f.a.kind != BInd && x.prove(notC(mkBEQ(atomBT(f.a)))) {
				r := konst(0)
				for _, t := range e.t {
					r = add(r, internPoly([]pterm{{((t.c % 255) + 255) % 255, t.m}}))
				}
				e = r
				ch = true
				if e.isC(0) {
					continue
				}
			}
			n.f = append(n.f, bfac{f.a, e})
		}
		ms = append(ms, n)
	}
	if !ch {
		return b
	}
	return x.simpB(internBT(ms))
}

// caseSplitB shows d == 0 by cases on the indicators in it and on atoms that may be zero.
func caseSplitB(x *Ctx, d *BT, depth int) bool {
	if len(d.m) == 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	var pick *Cond
	d.walk(func(a *Atom) {
		if pick == nil && a.kind == BInd && len(a.c.fv) >= 0 && noBound(a.c) {
			pick = a.c
		}
	})
	if pick == nil {
		return false
	}
	for _, c := range []*Cond{pick, notC(pick)} {
		y := x.assume(c)
		if y.infeasible() {
			continue
		}
		e := y.simpB(d)
		if e == d || !caseSplitB(y, e, depth-1) {
			if len(e.m) != 0 {
				return false
			}
		}
	}
	return true
}
func noBound(c *Cond) bool {
	ok := true
	for _, v := range c.fv {
		if strings.HasPrefix(atomArr[v].name, "β") {
			ok = false
		}
	}
	return ok
}

func eqC(x *Ctx, a, b *Cond) bool {
	if a == b {
		return true
	}
	da, db := x.decide(a), x.decide(b)
	if da != 0 || db != 0 {
		return da == db
	}
	sa, sb := x.simpC(a), x.simpC(b)
	if sa == sb {
		return true
	}
	return x.assume(a).prove(b) && x.assume(b).prove(a)
}

// eqContent: equal contents at every cell of the object, for all instances.
func eqContent(x *Ctx, a, b *Obj) bool {
	if a == b || objKey(a) == objKey(b) {
		return true
	}
	if a.kind == "model" || isModelType(a.elem) {
		if len(a.ents) == 0 && len(b.ents) == 0 {
			return eqVal(x, a.base, b.base)
		}
	}
	y := x
	if !strings.HasSuffix(a.site, ".has") && !strings.HasSuffix(a.site, ".val") {
		y = y.assume(mkGE(jP), mkLT(jP, a.ln))
		if a.ln.isC(1) {
			y = y.assume(mkEQ(jP))
		}
	}
	for k := 0; k < a.ninst; k++ {
		y = y.assume(mkGE(atomPoly(iv(k))))
	}
	a, b = runsMerged(y, a), runsMerged(y, b)
	if q, k := quotAndCounter(a, b); q != nil && eqByQuot(y, a, b, q, k) {
		return true
	}
	n := 0
	return eqCases(y, a, len(a.ents)-1, b, len(b.ents)-1, &n)
}

// eqByQuot compares the contents where the quotient of the cell by the stride is
// before, at and after the counter.
func eqByQuot(y *Ctx, a, b *Obj, q, k *Atom) bool {
	d, S := sub(atomPoly(q), atomPoly(k)), q.ps[1]
	if !y.proveGE(addc(S, -1)) {
		return false
	}
	m := sub(q.ps[0], mul(S, atomPoly(k)))
	for _, cs := range [][]*Cond{
		{mkEQ(d), mkGE(m), mkLT(m, S)},
		{mkLT(d, konst(0)), mkLT(m, konst(0))},
		{mkLT(konst(0), d), mkGE(sub(m, S))},
	} {
		n := 300
		z := y.assume(cs...)
		if z.infeasible() {
			continue
		}
		a, b := restrict(z, a), restrict(z, b)
		if !eqCases(z, a, len(a.ents)-1, b, len(b.ents)-1, &n) {
			return false
		}
	}
	return true
}

// quotAndCounter: a quotient of the cell number by a stride, and a loop counter,
// that the guards of two contents compare.
func quotAndCounter(a, b *Obj) (q, k *Atom) {
	for _, o := range []*Obj{a, b} {
		for _, e := range o.ents {
			e.g.walk(func(t *Atom) {
				if t.kind == ADiv && hasAtom(t.ps[0], jv) && (q == nil || t.id < q.id) {
					if _, c := t.ps[1].isConst(); !c {
						q = t
					}
				}
				if t.kind == ASym && strings.HasPrefix(t.name, "κ") && (k == nil || t.id > k.id) {
					k = t
				}
			})
		}
	}
	if q == nil || k == nil {
		return nil, nil
	}
	return q, k
}

// restrict drops the entries that are impossible under x.
func restrict(x *Ctx, o *Obj) *Obj {
	c := o.clone()
	c.ents = nil
	for _, e := range o.ents {
		g := x.simpC(e.g)
		if g == condFalse || x.assume(g).infeasible() {
			continue
		}
		e.g = g
		c.ents = append(c.ents, e)
	}
	return c
}
func eqCases(x *Ctx, a *Obj, ka int, b *Obj, kb int, n *int) bool {
	*n++
	if *n > 400 {
		return false
	}
	if x.infeasible() {
		return true
	}
	var va, vb Value
	for ; ka >= 0; ka-- {
		d := x.decide(a.ents[ka].g)
		if d == 1 {
			va = a.ents[ka].val
			break
		}
		if d == 0 {
			g := a.ents[ka].g
			return eqCases(x.assume(g), a, ka, b, kb, n) && eqCases(x.assume(notC(g)), a, ka, b, kb, n)
		}
	}
	for ; kb >= 0; kb-- {
		d := x.decide(b.ents[kb].g)
		if d == 1 {
			vb = b.ents[kb].val
			break
		}
		if d == 0 {
			g := b.ents[kb].g
			return eqCases(x.assume(g), a, ka, b, kb, n) && eqCases(x.assume(notC(g)), a, ka, b, kb, n)
		}
	}
	if va == nil {
		va = a.base
	}
	if vb == nil {
		vb = b.base
	}
	if valKey(va) == valKey(vb) {
		return true
	}
	if eqVal(x, va, vb) {
		return true
	}
	if p, q := x.quotV(va), x.quotV(vb); (valKey(p) != valKey(va) || valKey(q) != valKey(vb)) && eqVal(x, p, q) {
		return true
	}
	if debugEq {
		debugf("eqCases differ at %s:\n   %s\n   %s", a.site, showV(va), showV(vb))
		if p, ok := va.(ByteV); ok {
			if q, ok := vb.(ByteV); ok {
				debugf("   simplified %s\n   and %s", x.simpB(p.b), x.simpB(q.b))
			}
		}
		for _, c := range x.list() {
			debugf("      | %s", c)
		}
	}
	return false
}

// canonObj replaces the decision list by one value when all its cells agree.
func canonObj(x *Ctx, o *Obj) *Obj {
	if len(o.ents) < 1 || o.tab != nil || o.kind == "map" {
		return o
	}
	y := x.assume(mkGE(jP), mkLT(jP, o.ln))
	if o.ln.isC(1) {
		y = y.assume(mkEQ(jP))
	}
	for k := 0; k < o.ninst; k++ {
		y = y.assume(mkGE(atomPoly(iv(k))))
	}
	newest := o.ents[len(o.ents)-1].val
	if _, ok := newest.(ByteV); !ok {
		return o
	}
	cand := []Value{newest}
	for k := len(o.ents) - 2; k >= 0 && len(cand) < 3; k-- {
		cand = append(cand, o.ents[k].val)
	}
	for _, v := range cand {
		n := &Obj{site: o.site, elem: o.elem, ninst: o.ninst, ln: o.ln, base: v}
		cnt := 0
		if eqCases(y, o, len(o.ents)-1, n, -1, &cnt) {
			c := o.clone()
			c.ents, c.base = nil, v
			return c
		}
	}
	return o
}

// ---------- merging of results ----------

type side struct {
	st  *State
	add []*Cond // facts beyond the common base
}

func factsBeyond(x, base *Ctx) []*Cond {
	have := map[*Cond]bool{}
	for _, c := range base.list() {
		have[c] = true
	}
	var out []*Cond
	for _, c := range x.list() {
		if !have[c] {
			out = append(out, c)
		}
	}
	return out
}

// discriminator finds c true in a and false in b.
func discriminator(a, b *Ctx, fa, fb []*Cond) *Cond {
	for _, c := range fa {
		for _, d := range fb {
			if notC(c) == d {
				return c
			}
		}
	}
	for _, c := range fa {
		if c.kind != CAll && c.kind != CEx && b.prove(notC(c)) {
			return c
		}
	}
	for _, d := range fb {
		if d.kind != CAll && d.kind != CEx && a.prove(notC(d)) {
			return notC(d)
		}
	}
	return nil
}

type merger struct {
	xa, xb *Ctx
	disc   *Cond
	ints   bool // merge integers with indicators
}

func (m *merger) val(a, b Value) (Value, bool) {
	if valKey(a) == valKey(b) {
		return a, true
	}
	switch v := a.(type) {
	case ByteV:
		w, ok := b.(ByteV)
		if !ok {
			return nil, false
		}
		if eqB(m.xb, v.b, w.b) {
			return a, true
		}
		if eqB(m.xa, v.b, w.b) {
			return b, true
		}
		if m.disc == nil {
			return nil, false
		}
		ga, gb := generalise(m.xa, v.b), generalise(m.xb, w.b)
		return ByteV{bite(m.disc, ga, gb)}, true
	case IntV:
		w, ok := b.(IntV)
		if !ok {
			return nil, false
		}
		p, ok := m.int(v.p, w.p)
		return IntV{p}, ok
	case BoolV:
		w, ok := b.(BoolV)
		if !ok {
			return nil, false
		}
		if eqC(m.xb, v.c, w.c) {
			return a, true
		}
		if eqC(m.xa, v.c, w.c) {
			return b, true
		}
		if m.disc == nil {
			return nil, false
		}
		return BoolV{orC(andC(m.disc, v.c), andC(notC(m.disc), w.c))}, true
	case SliceV:
		w, ok := b.(SliceV)
		if !ok || v.obj == nil || w.obj == nil {
			return nil, false
		}
		if eqVal(m.xb, a, b) {
			return a, true
		}
		if eqVal(m.xa, a, b) {
			return b, true
		}
		if refKey(v.obj) != refKey(w.obj) || v.isNil != w.isNil {
			return nil, false
		}
		off, o1 := m.int(v.off, w.off)
		ln, o2 := m.int(v.ln, w.ln)
		cp, o3 := m.int(v.cp, w.cp)
		return SliceV{obj: v.obj, off: off, ln: ln, cp: cp, isNil: v.isNil}, o1 && o2 && o3
	case IfaceV:
		w, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if v.nilc == condFalse && w.nilc == condFalse && isErrLike(v) && isErrLike(w) {
			return IfaceV{nilc: condFalse, tag: "error"}, true
		}
		return nil, false
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v) != len(w) {
			return nil, false
		}
		r := TupleV{}
		for i := range v {
			x, ok := m.val(v[i], w[i])
			if !ok {
				return nil, false
			}
			r = append(r, x)
		}
		return r, true
	case StructV:
		w, ok := b.(StructV)
		if !ok || len(v.f) != len(w.f) {
			return nil, false
		}
		r := StructV{}
		for i := range v.f {
			x, ok := m.val(v.f[i], w.f[i])
			if !ok {
				return nil, false
			}
			r.f = append(r.f, x)
		}
		return r, true
	}
	if eqVal(m.xb, a, b) {
		return a, true
	}
	return nil, false
}
func isErrLike(v IfaceV) bool { return v.dyn == nil }

func (m *merger) int(p, q *Poly) (*Poly, bool) {
	if p == q {
		return p, true
	}
	e := mkEq(p, q)
	if m.xb.prove(e) {
		return p, true
	}
	if m.xa.prove(e) {
		return q, true
	}
	if m.ints && m.disc != nil {
		i := intOf(ind(m.disc))
		return add(q, mul(i, sub(p, q))), true
	}
	return nil, false
}

// generalise replaces a constant that merely restates an equality of the path
// by nothing (kept as is); hook for future use.
func generalise(x *Ctx, b *BT) *BT { return b }

func (m *merger) obj(a, b *Obj) (*Obj, bool) {
	if a == b || objKey(a) == objKey(b) {
		return a, true
	}
	if a.ninst != b.ninst || a.kind != b.kind {
		return nil, false
	}
	ln, ok := m.int(a.ln, b.ln)
	if !ok {
		return nil, false
	}
	if eqContent(m.xb, a, b) {
		c := a.clone()
		c.ln = ln
		return c, true
	}
	if eqContent(m.xa, b, a) {
		c := b.clone()
		c.ln = ln
		return c, true
	}
	if m.disc == nil {
		return nil, false
	}
	// common prefix, then the entries of each side under its condition
	n := 0
	for n < len(a.ents) && n < len(b.ents) && a.ents[n].g == b.ents[n].g && valKey(a.ents[n].val) == valKey(b.ents[n].val) {
		n++
	}
	c := a.clone()
	c.ln = ln
	if valKey(a.base) != valKey(b.base) {
		if len(a.ents) != 0 || len(b.ents) != 0 {
			// different bases: make them entries
			c.base = b.base
			c.ents = append([]Entry(nil), Entry{m.disc, a.base})
			for _, e := range a.ents {
				c.ents = append(c.ents, Entry{andC(e.g, m.disc), e.val})
			}
			for _, e := range b.ents {
				c.ents = append(c.ents, Entry{andC(e.g, notC(m.disc)), e.val})
			}
			return c, true
		}
		v, ok := m.val(a.base, b.base)
		if !ok {
			c.base = b.base
			c.ents = []Entry{{m.disc, a.base}}
			return c, true
		}
		c.base = v
		return c, true
	}
	c.ents = append([]Entry(nil), a.ents[:n]...)
	ra, rb := a.ents[n:], b.ents[n:]
	if len(ra) == 1 && len(rb) == 1 && ra[0].g == rb[0].g {
		if v, ok := m.val(ra[0].val, rb[0].val); ok {
			c.ents = append(c.ents, Entry{ra[0].g, v})
			return c, true
		}
	}
	for _, e := range ra {
		c.ents = append(c.ents, Entry{andC(e.g, m.disc), e.val})
	}
	for _, e := range rb {
		c.ents = append(c.ents, Entry{andC(e.g, notC(m.disc)), e.val})
	}
	return c, true
}

// states merges two states; nil if impossible.
func (m *merger) states(a, b *State, base *Ctx) *State {
	if len(a.flags) > 0 || len(b.flags) > 0 {
		if x, y := outstanding(a), outstanding(b); len(x) > 0 || len(y) > 0 {
			if !sameKeys(x, y) {
				return nil
			}
		}
	}
	n := a.clone()
	for k, o := range b.objs {
		oa := a.objs[k]
		if oa == nil {
			n.objs[k] = o
			continue
		}
		c, ok := m.obj(oa, o)
		if !ok {
			return nil
		}
		n.objs[k] = c
	}
	n.ctx = mergeCtx(a.ctx, b.ctx, base)
	for k, v := range b.flags {
		if n.flags == nil {
			n.flags = map[string]bool{}
		}
		n.flags[k] = n.flags[k] || v
	}
	return n
}

func mergeCtx(a, b, base *Ctx) *Ctx {
	x := base
	for _, c := range factsBeyond(a, base) {
		if b.prove(c) {
			x = x.assume(c)
		}
	}
	for _, c := range factsBeyond(b, base) {
		if !x.inf().has(c) && a.prove(c) {
			x = x.assume(c)
		}
	}
	return x
}

func reachable(st *State, roots []Value, keep func(site string) bool) map[string]bool {
	mark := map[string]bool{}
	var work []string
	addSite := func(s string) {
		if !mark[s] {
			mark[s] = true
			work = append(work, s)
		}
	}
	for k := range st.objs {
		if keep(k) {
			addSite(k)
		}
	}
	for _, v := range roots {
		walkRefs(v, func(r *Ref) { addSite(r.site) })
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if o := st.objs[s]; o != nil {
			for _, e := range o.ents {
				walkRefs(e.val, func(r *Ref) { addSite(r.site) })
			}
			walkRefs(o.base, func(r *Ref) { addSite(r.site) })
			for _, v := range o.attr {
				walkRefs(v, func(r *Ref) { addSite(r.site) })
			}
		}
		for k := range st.objs {
			if strings.HasPrefix(k, s+".") {
				addSite(k)
			}
		}
		// a field keeps its struct alive
		for k := strings.LastIndex(s, ".f"); k > 0; k = strings.LastIndex(s[:k], ".f") {
			if st.objs[s[:k]] != nil {
				addSite(s[:k])
			}
		}
	}
	return mark
}

func (it *Interp) mergeResults(rs []callRes, base *Ctx) []callRes {
	if len(rs) == 0 {
		return rs
	}
	for i := range rs {
		it.canonState(rs[i].st, base)
	}
	old := it.keepFacts
	it.keepFacts = true
	defer func() { it.keepFacts = old }()
	return it.mergeLoop(rs, base, false)
}

// verdict: a value that callers branch on: a failure, or a constant truth value.
func verdict(v Value) bool {
	switch x := v.(type) {
	case BoolV:
		return x.c == condTrue || x.c == condFalse
	case IfaceV:
		return x.nilc == condFalse && x.dyn == nil
	case TupleV:
		return len(x) > 0 && verdict(x[len(x)-1])
	}
	return false
}

func (it *Interp) canonState(st *State, base *Ctx) {
	for k, o := range st.objs {
		if len(o.ents) >= 2 && o.kind != "global" && !it.noCanon[o] {
			if c := canonObj(st.ctx, o); c != o {
				st.objs[k] = c
			} else {
				it.noCanon[o] = true
			}
		}
	}
}

func (it *Interp) mergeLoop(rs []callRes, base *Ctx, ints bool) []callRes {
	// the two sides of one branch first, then results that agree under the facts of one of them
	rs = it.mergePass(rs, base, ints, mpSides)
	rs = it.mergePass(rs, base, ints, mpEqual)
	return it.mergePass(rs, base, ints, mpAny)
}

const (
	mpSides = iota
	mpEqual
	mpAny
)

func (it *Interp) mergePass(rs []callRes, base *Ctx, ints bool, mode int) []callRes {
	for changed := true; changed && len(rs) > 1; {
		changed = false
	outer:
		for i := 0; i < len(rs); i++ {
			for j := i + 1; j < len(rs); j++ {
				if rs[i].panic != "" || rs[j].panic != "" {
					continue
				}
				if m, ok := it.mergeTwo(rs[i], rs[j], base, ints, mode); ok {
					rs[i] = m
					rs = append(rs[:j:j], rs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return rs
}

func shapeOK(a, b Value) bool {
	switch v := a.(type) {
	case IfaceV:
		w, ok := b.(IfaceV)
		return ok && (valKey(a) == valKey(b) || v.nilc == condFalse && w.nilc == condFalse)
	case TupleV:
		w, ok := b.(TupleV)
		if !ok || len(v) != len(w) {
			return false
		}
		for i := range v {
			if !shapeOK(v[i], w[i]) {
				return false
			}
		}
		return true
	case SliceV:
		w, ok := b.(SliceV)
		return ok && (v.obj == nil) == (w.obj == nil) && (v.obj == nil || v.obj.site == w.obj.site)
	case PtrV:
		w, ok := b.(PtrV)
		return ok && (v.obj == nil) == (w.obj == nil) && (v.obj == nil || v.obj.site == w.obj.site)
	}
	return true
}

func (it *Interp) mergeTwo(a, b callRes, base *Ctx, ints bool, mode int) (callRes, bool) {
	if !shapeOK(a.val, b.val) {
		return callRes{}, false
	}
	fa, fb := factsBeyond(a.st.ctx, base), factsBeyond(b.st.ctx, base)
	m := &merger{xa: a.st.ctx, xb: b.st.ctx, ints: ints}
	if mode != mpEqual {
		m.disc = discriminator(a.st.ctx, b.st.ctx, fa, fb)
	}
	if mode == mpSides {
		if m.disc == nil {
			return callRes{}, false
		}
		for _, c := range fa {
			if c != m.disc && !b.st.ctx.prove(c) {
				return callRes{}, false
			}
		}
		nd := notC(m.disc)
		for _, c := range fb {
			if c != nd && !a.st.ctx.prove(c) {
				return callRes{}, false
			}
		}
	}
	if mode != mpSides && it.keepFacts && verdict(a.val) {
		for _, c := range fa {
			if !b.st.ctx.prove(c) {
				return callRes{}, false
			}
		}
		for _, c := range fb {
			if !a.st.ctx.prove(c) {
				return callRes{}, false
			}
		}
	}
	v, ok := m.val(a.val, b.val)
	if !ok {
		return callRes{}, false
	}
	// only reachable objects matter
	dead := func(st *State, val Value) {
		pre := func(s string) bool { return it.curCS == "" || !strings.HasPrefix(s, it.curCS) }
		r := reachable(st, []Value{val}, pre)
		for k := range st.objs {
			if !r[k] {
				delete(st.objs, k)
			}
		}
	}
	sa, sb := a.st, b.st
	if it.curCS != "" {
		sa, sb = sa.clone(), sb.clone()
		dead(sa, a.val)
		dead(sb, b.val)
	}
	n := m.states(sa, sb, base)
	if n == nil {
		return callRes{}, false
	}
	if _, alone := a.val.(IfaceV); alone {
		// a nil error alone: what was tested is all there is to know about it
		lost := func(fs []*Cond, y *Ctx) *Cond {
			var cs []*Cond
			for _, c := range fs {
				if !y.prove(c) {
					cs = append(cs, c)
				}
			}
			if len(cs) > 3 {
				return condTrue
			}
			return andC(cs...)
		}
		if la, lb := lost(fa, sb.ctx), lost(fb, sa.ctx); la != condTrue && lb != condTrue {
			n.ctx = n.ctx.assume(orC(la, lb))
		}
	}
	return callRes{st: n, val: v, pos: a.pos}, true
}

// runsMerged writes consecutive cell writes of one content as one range.
func runsMerged(x *Ctx, o *Obj) *Obj {
	if len(o.ents) < 6 {
		return o
	}
	if m := mergeRuns(x, o.ents); len(m) < len(o.ents) {
		o = o.clone()
		o.ents = m
	}
	return o
}

func sameKeys(a, b map[string]bool) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return len(a) == len(b)
}
