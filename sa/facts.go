package main

import (
	"math"
	"sort"
	"strconv"
)

// Ctx is a persistent conjunction of conditions.
type Ctx struct {
	parent *Ctx
	c      *Cond
	info   *ctxInfo
	split  int
	lvl    int // nesting of bound variables, set where one is introduced
	kids   map[[2]*Poly]*Ctx
}

func (x *Ctx) level() int {
	for y := x; y != nil; y = y.parent {
		if y.lvl > 0 {
			return y.lvl
		}
	}
	return 0
}

// under is x with a variable that ranges over [lo,hi); the same context for
// the same range, so that its results are remembered.
func (x *Ctx) under(lo, hi *Poly) (*Ctx, *Atom) {
	l := x.level() + 1
	v := symAtom("$u" + strconv.Itoa(l))
	if x == nil {
		return x.assume(mkLE(lo, atomPoly(v)), mkLT(atomPoly(v), hi)), v
	}
	k := [2]*Poly{lo, hi}
	if y := x.kids[k]; y != nil {
		return y, v
	}
	y := x.assume(mkLE(lo, atomPoly(v)), mkLT(atomPoly(v), hi))
	if y == x {
		y = &Ctx{parent: x, c: condTrue}
	}
	y.lvl = l
	if x.kids == nil {
		x.kids = map[[2]*Poly]*Ctx{}
	}
	x.kids[k] = y
	return y, v
}

type ctxInfo struct {
	conds  []*Cond
	lin    []*Poly // >= 0
	ors    []*Cond
	alls   []*Cond
	nes    []*Poly
	bnes   []*BT
	eqs    []*Poly
	beqs   []*BT
	atoms  map[*Cond]bool // boolean atoms with value
	lo, hi map[*Atom]int64
	pcache map[*Poly]int8
	ccache map[*Cond]int8
	eqsub  *Subst
	eqInit bool
	divs   []*Atom
	divsOK bool
	simpP  map[*Poly]*Poly
	simpB  map[*BT]*BT
	infeas int8
	busy   int
}

func (x *Ctx) assume(cs ...*Cond) *Ctx {
	for _, c := range cs {
		if c == condTrue {
			continue
		}
		if c.kind == CAnd {
			x = x.assume(c.cs...)
			continue
		}
		if x.inf().has(c) {
			continue
		}
		ors := x.inf().ors
		x = &Ctx{parent: x, c: c}
		for _, o := range ors {
			if d := unitLeft(o, c); d != nil {
				x = x.assume(d)
			}
		}
		if c.kind == CAtom {
			if fn := impliedBy[c.a]; fn != nil {
				x = x.assume(fn(c.as)...)
			}
		}
	}
	return x
}

// unitLeft is the one disjunct of o that c does not refute.
func unitLeft(o, c *Cond) *Cond {
	n := notC(c)
	if len(o.cs) > 4 {
		return nil
	}
	var left *Cond
	for _, d := range o.cs {
		dead := d == n
		if d.kind == CAnd {
			for _, e := range d.cs {
				dead = dead || e == n
			}
		}
		if dead {
			continue
		}
		if left != nil {
			return nil
		}
		left = d
	}
	if left == nil {
		return condFalse
	}
	return left
}
func (i *ctxInfo) has(c *Cond) bool { return i.ccache[c] == 3 }

func (x *Ctx) list() []*Cond {
	var r []*Cond
	for y := x; y != nil; y = y.parent {
		if y.c != nil {
			r = append(r, y.c)
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ranges of application atoms by name
var appRange = map[string][2]*Poly{} // nil = unbounded

var lenMax = konst(1 << 47)

func (x *Ctx) inf() *ctxInfo {
	if x == nil {
		return &ctxInfo{lo: map[*Atom]int64{}, hi: map[*Atom]int64{}, pcache: map[*Poly]int8{}, ccache: map[*Cond]int8{}, atoms: map[*Cond]bool{}, simpP: map[*Poly]*Poly{}, simpB: map[*BT]*BT{}}
	}
	if x.info != nil {
		return x.info
	}
	i := &ctxInfo{lo: map[*Atom]int64{}, hi: map[*Atom]int64{}, pcache: map[*Poly]int8{}, ccache: map[*Cond]int8{}, atoms: map[*Cond]bool{}, simpP: map[*Poly]*Poly{}, simpB: map[*BT]*BT{}}
	x.info = i
	for _, c := range x.list() {
		i.add(c)
	}
	for _, p := range i.nes {
		x.tighten(i, p)
	}
	x.propagate(i)
	return i
}

// tighten: an atom that differs from its bound is beyond it.
func (x *Ctx) tighten(i *ctxInfo, ne *Poly) {
	var a *Atom
	var c, k int64
	for _, t := range ne.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1 && a == nil && (t.c == 1 || t.c == -1):
			a, c = t.m[0], t.c
		default:
			return
		}
	}
	if a == nil {
		return
	}
	v := -k * c
	l, h, kl, kh := x.atomBounds(a)
	if kl && l == v {
		i.lo[a] = v + 1
	}
	if kh && h == v {
		i.hi[a] = v - 1
	}
}

// propagate tightens the bounds of single atoms through the relational facts.
func (x *Ctx) propagate(i *ctxInfo) {
	var rel []*Poly
facts:
	for _, p := range i.lin {
		n := 0
		for _, t := range p.t {
			if len(t.m) > 1 {
				continue facts
			}
			if len(t.m) == 1 {
				if t.m[0].kind == ADiv {
					continue facts
				}
				n++
			}
		}
		if n >= 2 && n <= 4 {
			rel = append(rel, p)
		}
	}
	if len(rel) > 40 {
		rel = rel[:40]
	}
	for round := 0; round < 3; round++ {
		changed := false
		for _, p := range rel {
			for _, t := range p.t {
				if len(t.m) == 0 {
					continue
				}
				// t.c*a >= -(rest); the rest is at most its upper bound
				rest, ok := p.constTerm(), true
				for _, u := range p.t {
					if len(u.m) == 0 || u.m[0] == t.m[0] {
						continue
					}
					l, h, kl, kh := x.atomBounds(u.m[0])
					var v int64
					if u.c > 0 {
						ok = ok && kh
						v = h
					} else {
						ok = ok && kl
						v = l
					}
					if !ok {
						break
					}
					if v, ok = satMul(v, u.c); ok {
						rest, ok = satAdd(rest, v)
					}
					if !ok {
						break
					}
				}
				if !ok || rest == math.MinInt64 {
					continue
				}
				l, h, kl, kh := x.atomBounds(t.m[0])
				if t.c > 0 { // a >= ceil(-rest/c)
					if v := -floorDiv(rest, t.c); !kl || v > l {
						i.lo[t.m[0]] = v
						changed = true
					}
				} else { // a <= floor(rest/|c|)
					if v := floorDiv(rest, -t.c); !kh || v < h {
						i.hi[t.m[0]] = v
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
}
func (i *ctxInfo) add(c *Cond) {
	i.conds = append(i.conds, c)
	i.ccache[c] = 3
	switch c.kind {
	case CFalse:
		i.infeas = 1
	case CGE:
		i.addLin(c.p)
		if d := mkGE(scale(c.p, -1)); i.ccache[d] == 3 {
			i.eqs = append(i.eqs, c.p)
		}
	case CEQ:
		i.addLin(c.p)
		i.addLin(scale(c.p, -1))
		i.eqs = append(i.eqs, c.p)
	case CNE:
		i.nes = append(i.nes, c.p)
	case CBEQ:
		i.beqs = append(i.beqs, c.b)
		if a, k, ok := atomXorConst(c.b); ok {
			p := addc(atomPoly(internAtom(AIntOf, "", nil, []*BT{atomBT(a)}, nil, nil)), -int64(k))
			i.addLin(p)
			i.addLin(scale(p, -1))
		}
	case CBNE:
		i.bnes = append(i.bnes, c.b)
		if a, k, ok := atomXorConst(c.b); ok {
			p := atomPoly(internAtom(AIntOf, "", nil, []*BT{atomBT(a)}, nil, nil))
			if k == 0 {
				i.addLin(addc(p, -1))
			} else if k == 255 {
				i.addLin(sub(konst(254), p))
			} else {
				i.nes = append(i.nes, addc(p, -int64(k)))
			}
		}
	case CAtom, CNAtom:
		i.atoms[c] = true
	case COr:
		i.ors = append(i.ors, c)
	case CAll:
		i.alls = append(i.alls, c)
		// a fact about t+1 that is trivially true of the first index holds from there on
		if b := substC(c.body, c.v, addc(atomPoly(c.v), -1)); substC(b, c.v, c.lo) == condTrue {
			if d := quant(CAll, c.v, c.lo, addc(c.hi, 1), b); d.kind == CAll {
				i.alls = append(i.alls, d)
			}
		}
	}
}
func atomXorConst(b *BT) (*Atom, byte, bool) {
	if a := b.single(); a != nil {
		return a, 0, true
	}
	if len(b.m) == 2 {
		for k := 0; k < 2; k++ {
			if len(b.m[k].f) == 0 {
				o := internBT([]bmon{b.m[1-k]})
				if a := o.single(); a != nil {
					return a, b.m[k].c, true
				}
			}
		}
	}
	return nil, 0, false
}
func (i *ctxInfo) addLin(p *Poly) {
	i.lin = append(i.lin, p)
	// bounds of single atoms
	if len(p.t) <= 2 {
		c := p.constTerm()
		t := p.t[len(p.t)-1]
		if len(t.m) == 1 && (len(p.t) == 1 || len(p.t[0].m) == 0) {
			a := t.m[0]
			if t.c > 0 { // a >= -c/t.c
				v := -floorDiv(c, t.c)
				if o, ok := i.lo[a]; !ok || v > o {
					i.lo[a] = v
				}
			} else { // a <= c/|t.c|
				v := floorDiv(c, -t.c)
				if o, ok := i.hi[a]; !ok || v < o {
					i.hi[a] = v
				}
			}
		}
	}
}

const inf64 = math.MaxInt64

// atomBounds returns static and contextual bounds.
func (x *Ctx) atomBounds(a *Atom) (lo, hi int64, okLo, okHi bool) {
	i := x.inf()
	if v, ok := i.lo[a]; ok {
		lo, okLo = v, true
	}
	if v, ok := i.hi[a]; ok {
		hi, okHi = v, true
	}
	st := func(l, h int64, hasL, hasH bool) {
		if hasL && (!okLo || l > lo) {
			lo, okLo = l, true
		}
		if hasH && (!okHi || h < hi) {
			hi, okHi = h, true
		}
	}
	switch a.kind {
	case AIntOf:
		st(0, 255, true, true)
	case ALog:
		st(0, 254, true, true)
	case AWord:
		if len(a.bs) < 8 {
			st(0, 1<<uint(8*len(a.bs))-1, true, true)
		} else {
			st(0, 0, true, false)
		}
	case AApp:
		if r, ok := appRange[a.name]; ok {
			if r[0] != nil {
				if c, k := r[0].isConst(); k {
					st(c, 0, true, false)
				}
			}
			if r[1] != nil {
				if c, k := r[1].isConst(); k {
					st(0, c, false, true)
				}
			}
		}
	case ASym:
		if r, ok := appRange[a.name]; ok {
			if r[0] != nil {
				if c, k := r[0].isConst(); k {
					st(c, 0, true, false)
				}
			}
			if r[1] != nil {
				if c, k := r[1].isConst(); k {
					st(0, c, false, true)
				}
			}
		}
	case ADiv:
		if i.busy < 6 {
			i.busy++
			l, h, okl, okh := x.bounds(a.ps[0])
			dl, dh, okdl, okdh := x.bounds(a.ps[1])
			i.busy--
			if okdl && dl >= 1 {
				if okl {
					if l >= 0 {
						if okdh {
							st(l/dh, 0, true, false)
						} else {
							st(0, 0, true, false)
						}
					} else {
						st(floorDiv(l, dl), 0, true, false)
					}
				}
				if okh {
					if h >= 0 {
						st(0, h/dl, false, true)
					} else {
						st(0, -1, false, true)
					}
				}
			}
		}
	}
	return
}

func satAdd(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	return s, true
}
func satMul(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || p == math.MinInt64 {
		return 0, false
	}
	return p, true
}

// bounds is interval evaluation of p.
func (x *Ctx) bounds(p *Poly) (lo, hi int64, okLo, okHi bool) {
	okLo, okHi = true, true
	for _, t := range p.t {
		l, h, kl, kh := int64(1), int64(1), true, true
		for _, a := range t.m {
			al, ah, akl, akh := x.atomBounds(a)
			// product of intervals
			if kl && kh && akl && akh {
				var vs []int64
				good := true
				for _, u := range []int64{l, h} {
					for _, w := range []int64{al, ah} {
						v, ok := satMul(u, w)
						good = good && ok
						vs = append(vs, v)
					}
				}
				if good {
					l, h = vs[0], vs[0]
					for _, v := range vs {
						if v < l {
							l = v
						}
						if v > h {
							h = v
						}
					}
					continue
				}
			}
			if kl && l >= 0 && akl && al >= 0 {
				v, ok := satMul(l, al)
				if !ok {
					v = l
				}
				l = v
				kh2 := false
				if kh && akh {
					if w, ok := satMul(h, ah); ok {
						h, kh2 = w, true
					}
				}
				kh = kh2
				continue
			}
			kl, kh = false, false
		}
		var tl, th int64
		var tkl, tkh bool
		if t.c > 0 {
			if kl {
				tl, tkl = satMul(l, t.c)
			}
			if kh {
				th, tkh = satMul(h, t.c)
			}
		} else {
			if kh {
				tl, tkl = satMul(h, t.c)
			}
			if kl {
				th, tkh = satMul(l, t.c)
			}
		}
		if okLo && tkl {
			lo, okLo = satAdd(lo, tl)
		} else {
			okLo = false
		}
		if okHi && tkh {
			hi, okHi = satAdd(hi, th)
		} else {
			okHi = false
		}
	}
	return
}

var proofCount, lpCount int

// proveGE proves p >= 0.
func (x *Ctx) proveGE(p *Poly) bool {
	if c, ok := p.isConst(); ok {
		return c >= 0 || x.infeasibleQuick()
	}
	i := x.inf()
	if v, ok := i.pcache[p]; ok {
		return v == 1
	}
	proofCount++
	i.pcache[p] = 0
	r := x.proveGE1(p)
	if r {
		i.pcache[p] = 1
	} else if i.busy > 0 {
		delete(i.pcache, p) // the search was cut short
	}
	return r
}
func (x *Ctx) infeasibleQuick() bool { return x != nil && x.inf().infeas == 1 }

func (x *Ctx) proveGE1(p *Poly) bool {
	if lo, _, ok, _ := x.bounds(p); ok && lo >= 0 {
		return true
	}
	i := x.inf()
	// a single fact
	for _, f := range i.lin {
		g := sub(p, f)
		if d, ok := g.isConst(); ok && d >= 0 {
			return true
		}
		if len(p.t) > 2 && len(g.t) <= 2 && len(g.t) < len(p.t) {
			if lo, _, ok, _ := x.bounds(g); ok && lo >= 0 {
				return true
			}
		}
	}
	q := x.simp(p)
	if q != p {
		return x.proveGE(q)
	}
	if x.lpProve(p) {
		return true
	}
	// monotone in a Div atom etc.: case split on disjunctive facts
	if i.busy < 2 {
		i.busy++
		defer func() { i.busy-- }()
		n := 0
		for _, o := range i.ors {
			if !shareAtoms(o, p) || len(o.cs) > 3 {
				continue
			}
			n++
			if n > 2 {
				break
			}
			all := true
			for _, d := range o.cs {
				y := x.without(o).assume(d)
				y.inf().busy = i.busy
				if !y.proveGE(p) {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
		// p >= 0 unless p <= -1; use disequalities: p+1 >= 0 and p != -1
		for _, ne := range i.nes {
			d1, d2 := addc(p, 1), scale(addc(p, 1), -1)
			hit := ne == d1 || ne == d2
			if !hit && len(i.eqs) > 0 {
				q := x.simp(ne)
				hit = q == d1 || q == d2
			}
			if hit {
				if x.proveGE(addc(p, 1)) {
					return true
				}
			}
		}
	}
	return false
}
func (x *Ctx) without(c *Cond) *Ctx {
	var y *Ctx
	for _, d := range x.list() {
		if d != c {
			y = &Ctx{parent: y, c: d}
		}
	}
	if y == nil {
		y = &Ctx{}
	}
	return y
}
func shareAtoms(c *Cond, p *Poly) bool {
	m := map[*Atom]bool{}
	for _, t := range p.t {
		for _, a := range t.m {
			m[a] = true
		}
	}
	found := false
	c.walk(func(a *Atom) {
		if m[a] {
			found = true
		}
	})
	return found
}

// lpProve gathers the relevant linear facts and runs the entailment test.
func (x *Ctx) lpProve(p *Poly) bool {
	i := x.inf()
	facts := x.gatherFacts(p, i)
	if len(facts) == 0 {
		return false
	}
	lpCount++
	return lpEntails(p, facts)
}

func (x *Ctx) gatherFacts(p *Poly, i *ctxInfo) []*Poly {
	atoms := map[*Atom]bool{}
	monos := map[string][]*Atom{}
	var facts []*Poly
	seenF := map[*Poly]bool{}
	addMono := func(f *Poly) {
		for _, t := range f.t {
			for _, a := range t.m {
				atoms[a] = true
			}
			if len(t.m) > 1 {
				monos[monoKey(t.m)] = t.m
			}
		}
	}
	addFact := func(f *Poly) bool {
		if seenF[f] || len(f.t) == 0 {
			return false
		}
		if _, ok := f.isConst(); ok {
			return false
		}
		seenF[f] = true
		facts = append(facts, f)
		addMono(f)
		return true
	}
	addMono(p)
	done := map[*Atom]bool{}
	for round := 0; round < 4; round++ {
		changed := false
		var as []*Atom
		for a := range atoms {
			if !done[a] {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(u, v int) bool { return as[u].id < as[v].id })
		for _, a := range as {
			done[a] = true
			lo, hi, okl, okh := x.atomBounds(a)
			if okl {
				changed = addFact(addc(atomPoly(a), -lo)) || changed
			}
			if okh {
				changed = addFact(sub(konst(hi), atomPoly(a))) || changed
			}
			if a.kind == ADiv {
				r, d := a.ps[0], a.ps[1]
				pos := false
				if c, ok := d.isConst(); ok {
					pos = c > 0
				} else if l, _, ok, _ := x.bounds(d); ok && l >= 1 {
					pos = true
				} else if i.busy < 3 {
					i.busy++
					pos = x.proveGE(addc(d, -1))
					i.busy--
				}
				if pos {
					m := sub(r, mul(d, atomPoly(a)))
					changed = addFact(m) || changed
					changed = addFact(sub(addc(d, -1), m)) || changed
					for _, q := range x.divUpper(a, i) {
						changed = addFact(sub(q, atomPoly(a))) || changed
					}
				}
			}
			if a.kind == AApp {
				if q := x.unwrap(a); q != nil {
					changed = addFact(sub(q, atomPoly(a))) || changed
					changed = addFact(sub(atomPoly(a), q)) || changed
				}
				if cn, ok := capOf[a.name]; ok {
					changed = addFact(sub(appP(cn, a.ps...), atomPoly(a))) || changed
				}
				if rg, ok := appRange[a.name]; ok && rg[1] != nil {
					if _, k := rg[1].isConst(); !k {
						changed = addFact(sub(rg[1], atomPoly(a))) || changed
					}
				}
			}
		}
		// quotients of one number by constants, one a multiple of the other
		for _, a := range as {
			if a.kind != ADiv {
				continue
			}
			ka, ok := a.ps[1].isConst()
			if !ok {
				continue
			}
			var bs []*Atom
			for b := range atoms {
				if b.kind == ADiv {
					bs = append(bs, b)
				}
			}
			sort.Slice(bs, func(u, v int) bool { return bs[u].id < bs[v].id })
			for _, b := range bs {
				if b.kind != ADiv || b == a || b.ps[0] != a.ps[0] {
					continue
				}
				kb, ok := b.ps[1].isConst()
				if !ok || ka <= 0 || kb <= 0 {
					continue
				}
				lo, hi, m := a, b, int64(0)
				switch {
				case kb%ka == 0:
					m = kb / ka
				case ka%kb == 0:
					lo, hi, m = b, a, ka/kb
				default:
					continue
				}
				f := sub(atomPoly(lo), scale(atomPoly(hi), m))
				changed = addFact(f) || changed
				changed = addFact(sub(konst(m-1), f)) || changed
			}
		}
		for _, f := range i.lin {
			if seenF[f] || len(facts) > 90 {
				continue
			}
			rel := false
			for _, t := range f.t {
				for _, a := range t.m {
					if atoms[a] {
						rel = true
					}
				}
			}
			if rel {
				changed = addFact(f) || changed
			}
		}
		if !changed {
			break
		}
	}
	// products for the nonlinear monomials
	if len(monos) > 0 {
		base := facts
		added3 := 0
		for _, k := range sortedMonos(monos) {
			m := monos[k]
			if len(m) < 3 {
				continue
			}
			for b := range m {
				if lo, _, ok, _ := x.atomBounds(m[b]); !ok || lo < 0 {
					continue
				}
				rest := append(append([]*Atom(nil), m[:b]...), m[b+1:]...)
				for _, f := range base {
					if len(f.t) > 4 || added3 > 30 || !hasMono(f, rest) {
						continue
					}
					h := tryMul(f, atomPoly(m[b]))
					if h == nil || seenF[h] {
						continue
					}
					seenF[h] = true
					facts = append(facts, h)
					addMono(h)
					added3++
				}
			}
		}
		base = facts
		if len(base) > 60 {
			base = base[:60]
		}
		var keys []string
		for k := range monos {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		added := 0
		for _, k := range keys {
			m := monos[k]
			if len(m) != 2 {
				continue
			}
			for _, f := range base {
				if deg(f) != 1 || !hasAtom(f, m[0]) || len(f.t) > 4 {
					continue
				}
				for _, g := range base {
					if deg(g) != 1 || !hasAtom(g, m[1]) || len(g.t) > 4 {
						continue
					}
					h := tryMul(f, g)
					if h == nil {
						continue
					}
					// all its nonlinear monomials must be known, with one exception
					unknown := 0
					for _, t := range h.t {
						if len(t.m) > 1 {
							if _, ok := monos[monoKey(t.m)]; !ok {
								unknown++
							}
						}
					}
					if unknown <= 1 && !seenF[h] && added < 60 {
						seenF[h] = true
						facts = append(facts, h)
						added++
						if unknown == 0 {
							continue
						}
					}
				}
			}
		}
	}
	return facts
}

func sortedMonos(m map[string][]*Atom) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasMono(p *Poly, m []*Atom) bool {
	k := monoKey(m)
	for _, t := range p.t {
		if len(t.m) == len(m) && monoKey(t.m) == k {
			return true
		}
	}
	return false
}

// divUpper: bounds q of floor(r/d) from facts d*q + c - r >= 0 with c <= 0.
func (x *Ctx) divUpper(a *Atom, i *ctxInfo) []*Poly {
	r, d := a.ps[0], a.ps[1].single()
	if d == nil {
		return nil
	}
	var out []*Poly
	for _, f := range i.lin {
		if len(f.t) > 6 || len(out) >= 4 {
			continue
		}
		u := add(f, r)
		if len(u.t) > 4 {
			continue
		}
		q, ok := konst(0), true
		for _, t := range u.t {
			if len(t.m) == 0 {
				ok = ok && t.c <= 0
				continue
			}
			m, found := konst(t.c), false
			for _, b := range t.m {
				if b == d && !found {
					found = true
					continue
				}
				m = mul(m, atomPoly(b))
			}
			ok = ok && found
			q = add(q, m)
		}
		if !ok || q.has(a) {
			continue
		}
		if u.constTerm() < 0 {
			q = addc(q, -1)
		}
		out = append(out, q)
	}
	return out
}

// tryMul is mul, or nil when a coefficient overflows.
func tryMul(a, b *Poly) (r *Poly) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
			r = nil
		}
	}()
	return mul(a, b)
}

func deg(p *Poly) int {
	d := 0
	for _, t := range p.t {
		if len(t.m) > d {
			d = len(t.m)
		}
	}
	return d
}
func hasAtom(p *Poly, a *Atom) bool {
	for _, t := range p.t {
		for _, b := range t.m {
			if a == b {
				return true
			}
		}
	}
	return false
}

// ---------- equality rewriting ----------

// simp rewrites p using equalities of the context and simplifies div.
func (x *Ctx) simp(p *Poly) *Poly {
	i := x.inf()
	if r, ok := i.simpP[p]; ok {
		return r
	}
	i.simpP[p] = p
	s := x.substEq()
	r := p
	for k := 0; k < 5; k++ {
		q := s.P(r)
		if q == r {
			break
		}
		r = q
	}
	i.simpP[p] = r
	return r
}
func (x *Ctx) simpB(b *BT) *BT {
	i := x.inf()
	if r, ok := i.simpB[b]; ok {
		return r
	}
	i.simpB[b] = b
	s := x.substEq()
	r := b
	for k := 0; k < 5; k++ {
		q := s.B(r)
		if q == r {
			break
		}
		r = q
	}
	i.simpB[b] = r
	return r
}
func (x *Ctx) simpC(c *Cond) *Cond {
	s := x.substEq()
	r := c
	for k := 0; k < 5; k++ {
		q := s.C(r)
		if q == r {
			break
		}
		r = q
	}
	return r
}

func (x *Ctx) substEq() *Subst {
	i := x.inf()
	if i.eqInit {
		// fresh memo tables are needed because proofs may have been cut short; keep the maps
		return i.eqsub
	}
	i.eqInit = true
	s := newSubst()
	i.eqsub = s
	// quotients that are known without the equalities are replaced first: an
	// equality solved for their numerator would hide them
	pre := newSubst()
	pre.dv = func(a *Atom) *Poly { return x.simpDiv(a) }
	for _, p := range i.eqs {
		if hasDivOfOther(p) {
			busy := i.busy
			i.busy = 0
			p = pre.P(p)
			i.busy = busy
			i.pcache = map[*Poly]int8{}
		}
		p = s.P(p)
		if a, by := solveAtom(p); a != nil {
			s.sym[a] = by
			s.reset()
		}
	}
	for _, b := range i.beqs {
		b = s.B(b)
		if a, by := solveByteAtom(b); a != nil {
			s.bat[a] = by
			s.reset()
		}
	}
	s.dv = func(a *Atom) *Poly { return x.simpDiv(a) }
	s.fnp = func(a *Atom) *Poly { return x.rewriteApp(a) }
	s.fn = func(a *Atom) *BT { return x.rewriteSel(a) }
	s.fc = func(c *Cond) *Cond {
		if c == condTrue || c == condFalse {
			return c
		}
		if i.busy > 3 {
			return c
		}
		i.busy++
		defer func() { i.busy-- }()
		switch x.decide(c) {
		case 1:
			return condTrue
		case -1:
			return condFalse
		}
		return c
	}
	s.x = x
	return s
}

// quotC replaces the quotients of a condition that the facts determine.
func (x *Ctx) quotC(c *Cond) *Cond {
	has := false
	c.walk(func(a *Atom) { has = has || a.kind == ADiv })
	if !has || x == nil {
		return c
	}
	s := newSubst()
	s.dv = func(a *Atom) *Poly { return x.simpDiv(a) }
	c = s.C(c)
	if c.kind == CAnd {
		var cs []*Cond
		for _, d := range c.cs {
			if x.decide(d) != 1 {
				cs = append(cs, d)
			}
		}
		c = andC(cs...)
	}
	return c
}

// quotV replaces the quotients of a byte value that the facts determine.
func (x *Ctx) quotV(v Value) Value {
	b, ok := v.(ByteV)
	if !ok || x == nil {
		return v
	}
	has := false
	b.b.walk(func(a *Atom) { has = has || a.kind == ADiv })
	if !has {
		return v
	}
	s := newSubst()
	s.dv = func(a *Atom) *Poly { return x.simpDiv(a) }
	r := s.B(b.b)
	if r != b.b {
		r = x.simpInd(r)
	}
	return ByteV{r}
}

// simpInd decides the indicators of a byte value where the facts do.
func (x *Ctx) simpInd(b *BT) *BT {
	s := newSubst()
	s.fc = func(c *Cond) *Cond {
		switch x.decide(c) {
		case 1:
			return condTrue
		case -1:
			return condFalse
		}
		return c
	}
	return s.B(b)
}

// hasDivOfOther: p has an atom that is also the numerator of a quotient in p.
func hasDivOfOther(p *Poly) bool {
	for _, t := range p.t {
		for _, a := range t.m {
			if a.kind == ADiv {
				for _, u := range p.t {
					if len(u.m) == 1 && a.ps[0].has(u.m[0]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// solveAtom picks the newest atom occurring linearly with coefficient +-1 and not nested elsewhere.
func solveAtom(p *Poly) (*Atom, *Poly) {
	var best *Atom
	var bc int64
	for _, t := range p.t {
		if len(t.m) != 1 || (t.c != 1 && t.c != -1) {
			continue
		}
		a := t.m[0]
		n := 0
		p.walk(func(b *Atom) {
			if a == b {
				n++
			}
		})
		if n != 1 {
			continue
		}
		if best == nil || rank(a) > rank(best) || (rank(a) == rank(best) && a.id > best.id) {
			best, bc = a, t.c
		}
	}
	if best == nil {
		return nil, nil
	}
	rest := sub(p, scale(atomPoly(best), bc))
	return best, scale(rest, -bc)
}
func rank(a *Atom) int {
	switch a.kind {
	case ASym:
		if len(a.name) > 0 && a.name[0] == '$' { // loop counters and fresh symbols go first
			return 3
		}
		return 0
	case ADiv:
		return 1
	}
	return 2
}
func solveByteAtom(b *BT) (*Atom, *BT) {
	if a, k, ok := atomXorConst(b); ok {
		return a, bconst(k)
	}
	var best *Atom
	for _, m := range b.m {
		if m.c != 1 || len(m.f) != 1 || !m.f[0].e.isC(1) {
			continue
		}
		a := m.f[0].a
		if a.kind == BInd {
			continue
		}
		n := 0
		b.walk(func(c *Atom) {
			if a == c {
				n++
			}
		})
		if n == 1 && (best == nil || a.id > best.id) {
			best = a
		}
	}
	if best == nil {
		return nil, nil
	}
	return best, bxor(b, atomBT(best))
}

// simpDiv simplifies a div atom using range facts.
func (x *Ctx) simpDiv(a *Atom) *Poly {
	i := x.inf()
	if i.busy > 4 {
		return nil
	}
	i.busy++
	defer func() { i.busy-- }()
	r, d := a.ps[0], a.ps[1]
	if !x.proveGE(addc(d, -1)) {
		return nil
	}
	if x.proveGE(r) && x.proveGE(addc(sub(d, r), -1)) {
		return konst(0)
	}
	if x.proveGE(addc(scale(r, -1), -1)) && x.proveGE(add(r, d)) {
		return konst(-1)
	}
	if x.proveGE(sub(r, d)) && x.proveGE(addc(sub(scale(d, 2), r), -1)) {
		return konst(1)
	}
	// relative to other div atoms with the same divisor
	for _, o := range x.divAtoms() {
		if o == a || o.ps[1] != d || o.id > a.id {
			continue
		}
		if i.eqsub != nil { // not one that the equalities rewrite further
			old := false
			o.ps[0].walk(func(b *Atom) {
				if i.eqsub.sym[b] != nil {
					old = true
				}
			})
			if old {
				continue
			}
		}
		diff := sub(r, o.ps[0])
		if _, ok := diff.isConst(); !ok && len(diff.t) > 2 {
			continue
		}
		m := add(sub(o.ps[0], mul(d, atomPoly(o))), diff) // r - d*o
		if x.proveGE(m) && x.proveGE(addc(sub(d, m), -1)) {
			return atomPoly(o)
		}
		if x.proveGE(sub(m, d)) && x.proveGE(addc(sub(scale(d, 2), m), -1)) {
			return addc(atomPoly(o), 1)
		}
		if x.proveGE(addc(scale(m, -1), -1)) && x.proveGE(add(m, d)) {
			return addc(atomPoly(o), -1)
		}
	}
	return x.simpDivBy(a, i)
}

// simpDivBy: floor(r/d) is c when some fact says r >= d*c and r < d*(c+1) follows.
func (x *Ctx) simpDivBy(a *Atom, i *ctxInfo) *Poly {
	r, d := a.ps[0], a.ps[1]
	var l *Atom
	for _, t := range d.t {
		if len(t.m) == 1 && t.c == 1 {
			l = t.m[0]
		}
	}
	dc, isC := d.isConst()
	if l == nil && (!isC || dc < 2) {
		return nil
	}
	n := 0
	for _, f := range i.lin {
		if len(f.t) > 6 || n >= 4 {
			continue
		}
		u := sub(r, f)
		if len(u.t) > 5 || l != nil && !hasAtom(u, l) {
			continue
		}
		c, ok := konst(0), true
		for _, t := range u.t {
			if l == nil {
				if len(t.m) > 0 && t.c%dc == 0 {
					c = add(c, internPoly([]pterm{{t.c / dc, t.m}}))
				}
				continue
			}
			m, found := konst(t.c), 0
			for _, b := range t.m {
				if b == l {
					found++
					continue
				}
				m = mul(m, atomPoly(b))
			}
			if found == 1 {
				c = add(c, m)
			}
			ok = ok && found <= 1
		}
		if !ok || c.isC(0) || hasAtom(c, a) || l != nil && hasAtom(c, l) || len(c.t) > 3 {
			continue
		}
		if i.eqsub != nil {
			old := false
			c.walk(func(b *Atom) { old = old || i.eqsub.sym[b] != nil })
			if old {
				continue
			}
		}
		rest := sub(u, mul(c, d)) // u = d*c + rest
		if k, isC := rest.isConst(); !isC || k < 0 {
			continue
		}
		n++
		m := sub(r, mul(d, c))
		if x.proveGE(m) && x.proveGE(addc(sub(d, m), -1)) {
			return c
		}
	}
	return nil
}
func (x *Ctx) divAtoms() []*Atom {
	i := x.inf()
	if i.divsOK {
		return i.divs
	}
	i.divsOK = true
	seen := map[*Atom]bool{}
	for _, c := range i.conds {
		if c.kind == CAll || c.kind == CEx {
			continue
		}
		c.walk(func(a *Atom) {
			if a.kind == ADiv && !seen[a] {
				seen[a] = true
				i.divs = append(i.divs, a)
			}
		})
	}
	return i.divs
}

// rewriteApp uses universally quantified equalities for an application atom.
// unwrap: the argument of a 64-bit wrap-around whose facts keep it within 64 bits.
func (x *Ctx) unwrap(a *Atom) *Poly {
	if len(a.ps) != 1 || a.name != "wrap:int" && a.name != "wrap:int64" {
		return nil
	}
	if _, _, okl, okh := x.bounds(a.ps[0]); okl && okh {
		return a.ps[0]
	}
	return nil
}

func (x *Ctx) rewriteApp(a *Atom) *Poly {
	if a.kind != AApp || len(a.ps) == 0 {
		return nil
	}
	if q := x.unwrap(a); q != nil {
		return q
	}
	i := x.inf()
	for _, f := range i.alls {
		if f.body.kind != CEQ {
			continue
		}
		for _, t := range f.body.p.t {
			if len(t.m) != 1 || (t.c != 1 && t.c != -1) || t.m[0].kind != AApp || t.m[0].name != a.name || len(t.m[0].ps) != len(a.ps) {
				continue
			}
			pat := t.m[0]
			val, ok := matchVar(pat.ps, a.ps, f.v)
			if !ok || !x.inRange(val, f.lo, f.hi) {
				continue
			}
			q := substP(f.body.p, f.v, val) // contains a with coefficient t.c
			rest := sub(q, scale(atomPoly(a), t.c))
			bad := false
			rest.walk(func(b *Atom) {
				if b == a {
					bad = true
				}
			})
			// only rewrite towards terms without the quantified index
			if bad || atomOccurs(rest, a.name, val) {
				continue
			}
			return scale(rest, -t.c)
		}
	}
	return nil
}
func atomOccurs(p *Poly, name string, idx *Poly) bool {
	found := false
	p.walk(func(b *Atom) {
		if b.kind == AApp && b.name == name {
			for _, q := range b.ps {
				if q == idx {
					found = true
				}
			}
		}
	})
	return found
}
func (x *Ctx) inRange(v, lo, hi *Poly) bool {
	return x.proveGE(sub(v, lo)) && x.proveGE(addc(sub(hi, v), -1))
}

// matchVar finds v with pats[v:=val] == args.
func matchVar(pats, args []*Poly, v *Atom) (*Poly, bool) {
	var val *Poly
	for k := range pats {
		if pats[k].has(v) {
			a, b, ok := pats[k].linIn(v)
			if !ok {
				continue
			}
			c, isc := a.isConst()
			if !isc || (c != 1 && c != -1) {
				continue
			}
			val = scale(sub(args[k], b), c)
			break
		}
	}
	if val == nil {
		return nil, false
	}
	for k := range pats {
		if substP(pats[k], v, val) != args[k] {
			return nil, false
		}
	}
	return val, true
}

// rewriteSel uses universally quantified byte equalities  X(v) ^ rest == 0.
func (x *Ctx) rewriteSel(a *Atom) *BT {
	if a.kind != BSel {
		return nil
	}
	i := x.inf()
	for _, f := range i.alls {
		if f.body.kind != CBEQ {
			continue
		}
		for _, m := range f.body.b.m {
			if m.c != 1 || len(m.f) != 1 || !m.f[0].e.isC(1) || m.f[0].a.kind != BSel || m.f[0].a.name != a.name || len(m.f[0].a.ps) != len(a.ps) {
				continue
			}
			val, ok := matchVar(m.f[0].a.ps, a.ps, f.v)
			if !ok || !x.inRange(val, f.lo, f.hi) {
				continue
			}
			rest := bxor(substB(f.body.b, f.v, val), atomBT(a))
			bad := false
			rest.walk(func(b *Atom) {
				if b.kind == BSel && b.name == a.name {
					bad = true
				}
			})
			if !bad {
				return rest
			}
		}
	}
	return nil
}

// ---------- conditions ----------

func (x *Ctx) prove(c *Cond) bool { return x.prove1(c, 0) }

func (x *Ctx) decide(c *Cond) int {
	if c == condTrue {
		return 1
	}
	if c == condFalse {
		return -1
	}
	if x.prove(c) {
		return 1
	}
	if x.prove(notC(c)) {
		return -1
	}
	return 0
}

func (x *Ctx) prove1(c *Cond, depth int) bool {
	i := x.inf()
	if i.infeas == 1 {
		return true
	}
	switch c.kind {
	case CTrue:
		return true
	case CFalse:
		return x.infeasible()
	}
	if v, ok := i.ccache[c]; ok {
		return v == 1 || v == 3
	}
	i.ccache[c] = 0
	r := x.prove2(c, depth)
	if r {
		i.ccache[c] = 1
	} else if i.busy > 0 {
		delete(i.ccache, c) // the search was cut short
	}
	return r
}
func (x *Ctx) prove2(c *Cond, depth int) bool {
	i := x.inf()
	switch c.kind {
	case CGE:
		return x.proveGE(c.p)
	case CEQ:
		if x.simp(c.p).isC(0) {
			return true
		}
		return x.proveGE(c.p) && x.proveGE(scale(c.p, -1))
	case CNE:
		return x.proveNE(c.p)
	case CBEQ:
		b := x.simpB(c.b)
		if len(b.m) == 0 {
			return true
		}
		return false
	case CBNE:
		return x.proveBNE(c.b, depth)
	case CAtom, CNAtom:
		if i.atoms[c] {
			return true
		}
		for _, f := range i.alls {
			if f.body.kind == c.kind && f.body.a == c.a {
				if val, ok := matchVar(f.body.as, c.as, f.v); ok && x.inRange(val, f.lo, f.hi) {
					return true
				}
			}
		}
		return false
	case CAnd:
		for _, d := range c.cs {
			if !x.prove1(d, depth) {
				return false
			}
		}
		return true
	case COr:
		for _, d := range c.cs {
			if x.prove1(d, depth) {
				return true
			}
		}
		if depth < 2 && len(c.cs) <= 4 {
			// assume all but one false
			y := x
			for _, d := range c.cs[:len(c.cs)-1] {
				y = y.assume(notC(d))
			}
			if y != x {
				return y.prove1(c.cs[len(c.cs)-1], depth+1) || y.infeasible()
			}
		}
		return false
	case CAll:
		if x.proveGE(sub(c.lo, c.hi)) {
			return true
		}
		if depth > 3 {
			return false
		}
		// identical body with a larger range
		for _, f := range i.alls {
			if f.body == c.body && f.v == c.v && x.proveGE(sub(c.lo, f.lo)) && x.proveGE(sub(f.hi, c.hi)) {
				return true
			}
		}
		// the same body over all but a few indices at the ends
		for _, f := range i.alls {
			if f.body == c.body && f.v == c.v {
				if es, ok := peeled(sub(f.lo, c.lo), sub(c.hi, f.hi), c.lo, c.hi); ok {
					good := true
					for _, e := range es {
						if !x.prove1(substC(c.body, c.v, e), depth+1) {
							good = false
							break
						}
					}
					if good {
						return true
					}
				}
			}
		}
		y, v := x.under(c.lo, c.hi)
		return y.prove1(substC(c.body, c.v, atomPoly(v)), depth+1)
	case CEx:
		for _, f := range i.conds {
			if f.kind != CEx || f.body != c.body || f.v != c.v {
				continue
			}
			if x.proveGE(sub(f.lo, c.lo)) && x.proveGE(sub(c.hi, f.hi)) {
				return true
			}
			if depth > 3 {
				continue
			}
			if es, ok := peeled(sub(c.lo, f.lo), sub(f.hi, c.hi), f.lo, f.hi); ok {
				good := true
				for _, e := range es {
					if !x.prove1(notC(substC(c.body, c.v, e)), depth+1) {
						good = false
						break
					}
				}
				if good {
					return true
				}
			}
		}
		// a witness at either end
		if depth <= 3 && x.proveGE(addc(sub(c.hi, c.lo), -1)) {
			if x.prove1(substC(c.body, c.v, addc(c.hi, -1)), depth+1) || x.prove1(substC(c.body, c.v, c.lo), depth+1) {
				return true
			}
		}
		return false
	}
	return false
}

// peeled lists the indices of [lo,hi) that a range shorter by a at the front
// and b at the back leaves out, when these are small constants.
func peeled(a, b, lo, hi *Poly) ([]*Poly, bool) {
	na, ok := a.isConst()
	if !ok || na < 0 || na > 2 {
		return nil, false
	}
	nb, ok := b.isConst()
	if !ok || nb < 0 || nb > 2 || na+nb == 0 {
		return nil, false
	}
	var es []*Poly
	for k := int64(0); k < na; k++ {
		es = append(es, addc(lo, k))
	}
	for k := int64(1); k <= nb; k++ {
		es = append(es, addc(hi, -k))
	}
	return es, true
}

func (x *Ctx) proveNE(p *Poly) bool {
	i := x.inf()
	for _, n := range i.nes {
		if n == p || n == scale(p, -1) {
			return true
		}
	}
	if x.proveGE(addc(p, -1)) || x.proveGE(addc(scale(p, -1), -1)) {
		return true
	}
	q := x.simp(p)
	if q != p {
		if c, ok := q.isConst(); ok {
			return c != 0
		}
		if x.simp(q) == q {
			return x.proveNE(q)
		}
	}
	// disequality facts modulo context equalities
	for _, n := range i.nes {
		m := x.simp(n)
		if m == p || m == scale(p, -1) {
			return true
		}
	}
	// injective application
	if len(p.t) == 2 && p.t[0].c == -p.t[1].c && len(p.t[0].m) == 1 && len(p.t[1].m) == 1 {
		a, b := p.t[0].m[0], p.t[1].m[0]
		if a.kind == AApp && b.kind == AApp && a.name == b.name && injective[a.name] {
			return x.proveIdxNE(a.ps, b.ps)
		}
	}
	return x.proveByAll(p, nil)
}

var injective = map[string]bool{}

func (x *Ctx) proveIdxNE(as, bs []*Poly) bool {
	// the prefix (instance) must be equal, the last argument different
	n := len(as)
	for k := 0; k < n-1; k++ {
		if !x.prove(mkEq(as[k], bs[k])) {
			return false
		}
	}
	return x.proveNE(sub(as[n-1], bs[n-1]))
}

// proveByAll matches p != 0 (or b != 0) against universally quantified disequalities.
func (x *Ctx) proveByAll(p *Poly, b *BT) bool {
	i := x.inf()
	for _, f := range i.alls {
		if x.instAll(f, p, b, 0) {
			return true
		}
	}
	if len(i.alls) == 0 || len(i.nes) == 0 || x.splits() >= 2 {
		return false
	}
	// an unordered pair of indices: one is smaller or the other
	in := map[*Atom]bool{}
	if p != nil {
		p.walk(func(a *Atom) { in[a] = true })
	}
	if b != nil {
		b.walk(func(a *Atom) { in[a] = true })
	}
	for _, n := range i.nes {
		n = x.simp(n)
		hit := len(n.t) >= 2
		for _, t := range n.t {
			for _, a := range t.m {
				hit = hit && in[a]
			}
		}
		if !hit {
			continue
		}
		all := true
		for _, c := range []*Cond{mkGE(addc(n, -1)), mkGE(addc(scale(n, -1), -1))} {
			y := &Ctx{parent: x, c: c, split: x.splits() + 1}
			all = all && (y.infeasibleQuick() || y.proveByAll(p, b))
		}
		if all {
			return true
		}
	}
	return false
}

func (x *Ctx) instAll(f *Cond, p *Poly, b *BT, depth int) bool {
	// open the quantifiers
	type q struct {
		v      *Atom
		lo, hi *Poly
	}
	var qs []q
	body := f
	for body.kind == CAll {
		nv := freshSym("$q")
		qs = append(qs, q{nv, body.lo, body.hi})
		nb := substC(body.body, body.v, atomPoly(nv))
		body = nb
	}
	try := func(vals map[*Atom]*Poly) bool {
		s := newSubst()
		for v, t := range vals {
			s.sym[v] = t
		}
		inst := s.C(body)
		hit := false
		switch inst.kind {
		case CNE:
			hit = p != nil && (inst.p == p || inst.p == scale(p, -1) || x.simp(inst.p) == p || x.simp(inst.p) == scale(p, -1))
		case CBNE:
			hit = b != nil && (inst.b == b || x.simpB(inst.b) == x.simpB(b))
		case CGE:
			hit = p != nil && (inst.p == addc(p, -1) || inst.p == addc(scale(p, -1), -1))
		}
		if !hit {
			return false
		}
		for _, qq := range qs {
			if !x.inRange(vals[qq.v], s.P(qq.lo), s.P(qq.hi)) {
				return false
			}
		}
		return true
	}
	// candidate values per variable: match selector/application atoms by name
	var pats, targets []*Atom
	collect := func(out *[]*Atom) func(*Atom) {
		return func(a *Atom) {
			if (a.kind == BSel || a.kind == AApp) && len(a.ps) > 0 {
				*out = append(*out, a)
			}
		}
	}
	body.walk(collect(&pats))
	if p != nil {
		p.walk(collect(&targets))
	}
	if b != nil {
		b.walk(collect(&targets))
	}
	var rec func(k int, vals map[*Atom]*Poly) bool
	steps := 0
	rec = func(k int, vals map[*Atom]*Poly) bool {
		steps++
		if steps > 200 {
			return false
		}
		if k == len(qs) {
			return try(vals)
		}
		v := qs[k].v
		tried := map[*Poly]bool{}
		for _, pa := range pats {
			if !hasFV(pa.fv, int32(v.id)) {
				continue
			}
			for _, ta := range targets {
				if ta.kind != pa.kind || ta.name != pa.name || len(ta.ps) != len(pa.ps) {
					continue
				}
				for m := range pa.ps {
					if !pa.ps[m].has(v) {
						continue
					}
					s := newSubst()
					for vv, t := range vals {
						s.sym[vv] = t
					}
					a, bb, ok := s.P(pa.ps[m]).linIn(v)
					if !ok {
						continue
					}
					c, isc := a.isConst()
					if !isc || (c != 1 && c != -1) {
						continue
					}
					val := scale(sub(ta.ps[m], bb), c)
					if tried[val] {
						continue
					}
					tried[val] = true
					bad := false
					for _, q2 := range qs[k+1:] {
						if val.has(q2.v) {
							bad = true
						}
					}
					if bad {
						continue
					}
					vals[v] = val
					if rec(k+1, vals) {
						return true
					}
					delete(vals, v)
				}
			}
		}
		return false
	}
	// try variables in both orders
	if rec(0, map[*Atom]*Poly{}) {
		return true
	}
	if len(qs) == 2 {
		qs[0], qs[1] = qs[1], qs[0]
		return rec(0, map[*Atom]*Poly{})
	}
	return false
}

// proveBNE proves b != 0.
func (x *Ctx) proveBNE(b *BT, depth int) bool {
	if c, ok := b.isConst(); ok {
		return c != 0
	}
	i := x.inf()
	for _, n := range i.bnes {
		if n == b {
			return true
		}
	}
	sb := x.simpB(b)
	if sb != b {
		return x.proveBNE(sb, depth)
	}
	for _, n := range i.bnes {
		if x.simpB(n) == b {
			return true
		}
	}
	if len(b.m) == 1 {
		all := true
		for _, f := range b.m[0].f {
			base := atomBT(f.a)
			switch f.a.kind {
			case BPoly:
				base = f.a.bs[0]
			case BInd:
				if !x.prove1(f.a.c, depth+1) {
					all = false
				}
				continue
			case BProd:
				y, v := x.under(konst(0), f.a.ps[1])
				if !y.proveBNE(substB(f.a.bs[0], f.a.v, atomPoly(v)), depth+1) {
					all = false
				}
				continue
			case BInt:
				if !x.proveNE(f.a.ps[0]) {
					all = false
				}
				continue
			}
			if base == b {
				all = false
				// integer view
				if x.proveNE1(intOf(b)) {
					return true
				}
				break
			}
			if !x.proveBNE(base, depth+1) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	// integer view of two terms
	if len(b.m) == 2 {
		l, r := internBT(b.m[:1]), internBT(b.m[1:])
		li, ri := intOf(l), intOf(r)
		if x.proveNE1(sub(li, ri)) {
			return true
		}
	}
	if x.proveByAll(nil, b) {
		return true
	}
	return false
}

// proveNE1 is proveNE without going back to bytes.
func (x *Ctx) proveNE1(p *Poly) bool {
	if c, ok := p.isConst(); ok {
		return c != 0
	}
	i := x.inf()
	for _, n := range i.nes {
		if n == p || n == scale(p, -1) {
			return true
		}
	}
	if x.proveGE(addc(p, -1)) || x.proveGE(addc(scale(p, -1), -1)) {
		return true
	}
	if len(p.t) == 2 && p.t[0].c == -p.t[1].c && len(p.t[0].m) == 1 && len(p.t[1].m) == 1 {
		a, b := p.t[0].m[0], p.t[1].m[0]
		if a.kind == AApp && b.kind == AApp && a.name == b.name && injective[a.name] {
			return x.proveIdxNE(a.ps, b.ps)
		}
	}
	return x.proveByAll(p, nil)
}

// infeasible reports whether the context is contradictory.
func (x *Ctx) infeasible() bool {
	if x == nil {
		return false
	}
	i := x.inf()
	if i.infeas != 0 {
		return i.infeas == 1
	}
	i.infeas = 2
	r := x.infeasible1()
	if r {
		i.infeas = 1
	}
	return r
}

// splits is the number of case distinctions that led to x.
func (x *Ctx) splits() int {
	for ; x != nil; x = x.parent {
		if x.split > 0 {
			return x.split
		}
	}
	return 0
}
func (x *Ctx) infeasible1() bool {
	i := x.inf()
	for c := range i.atoms {
		if i.atoms[notC(c)] {
			return true
		}
	}
	for _, a := range i.atomsLoHi() {
		lo, hi, okl, okh := x.atomBounds(a)
		if okl && okh && lo > hi {
			return true
		}
	}
	for _, n := range i.nes {
		if x.prove(mkEQ(n)) {
			return true
		}
	}
	for _, b := range i.bnes {
		if len(x.simpB(b).m) == 0 {
			return true
		}
	}
	for _, b := range i.beqs {
		if s := x.simpB(b); len(s.m) > 0 {
			if _, ok := s.isConst(); ok {
				return true
			}
		}
		if x.proveBNE1(b) {
			return true
		}
	}
	for _, c := range i.conds {
		switch c.kind {
		case CAtom, CNAtom, CEx, COr:
			n := notC(c)
			i.ccache[c] = 3
			if x.proveFrom(n) {
				return true
			}
		}
	}
	for _, p := range i.eqs {
		if c, ok := x.simp(p).isConst(); ok && c != 0 {
			return true
		}
	}
	// disjunctions with a single disjunct left
	for _, c := range i.conds {
		if c.kind != COr || len(c.cs) > 6 {
			continue
		}
		var left *Cond
		n := 0
		for _, d := range c.cs {
			if x.decide(d) != -1 {
				n++
				left = d
			}
		}
		if n == 1 && !i.has(left) {
			return x.assume(left).infeasible()
		}
	}
	if x.splits() < 3 {
		for _, c := range i.conds {
			if c.kind != COr || len(c.cs) > 4 {
				continue
			}
			var left []*Cond
			for _, d := range c.cs {
				if i.has(d) {
					left = nil
					break
				}
				if x.decide(d) != -1 {
					left = append(left, d)
				}
			}
			if len(left) == 2 && len(left[0].cs) == 0 && len(left[1].cs) == 0 {
				all := true
				for _, d := range left {
					y := &Ctx{parent: x, c: d, split: x.splits() + 1}
					all = all && y.infeasible()
				}
				if all {
					return true
				}
			}
		}
	}
	// linear infeasibility per connected component: try the negation of each recent fact
	n := len(i.lin)
	for k := n - 1; k >= 0 && k >= n-6; k-- {
		if x.lpProve(addc(scale(i.lin[k], -1), -1)) {
			return true
		}
	}
	return false
}

// proveBNE1: b != 0 by quantified facts or integers (b itself is assumed zero in x).
func (x *Ctx) proveBNE1(b *BT) bool {
	i := x.inf()
	for _, n := range i.bnes {
		if n == b {
			return true
		}
	}
	if x.proveByAll(nil, b) {
		return true
	}
	if len(b.m) == 2 {
		p := sub(intOf(internBT(b.m[:1])), intOf(internBT(b.m[1:])))
		if x.proveByAll(p, nil) {
			return true
		}
		if len(p.t) == 2 && len(p.t[0].m) == 1 && len(p.t[1].m) == 1 {
			a, c := p.t[0].m[0], p.t[1].m[0]
			if a.kind == AApp && c.kind == AApp && a.name == c.name && injective[a.name] {
				return x.proveIdxNE(a.ps, c.ps)
			}
		}
	}
	return false
}

// proveFrom proves c using only the other facts.
func (x *Ctx) proveFrom(c *Cond) bool {
	i := x.inf()
	switch c.kind {
	case CAtom, CNAtom:
		for _, f := range i.alls {
			if f.body.kind == c.kind && f.body.a == c.a {
				if val, ok := matchVar(f.body.as, c.as, f.v); ok && x.inRange(val, f.lo, f.hi) {
					return true
				}
			}
		}
		return false
	case CAll:
		return x.prove2(c, 1)
	case CAnd:
		for _, d := range c.cs {
			if !x.prove1(d, 1) {
				return false
			}
		}
		return true
	}
	return false
}
func (i *ctxInfo) atomsLoHi() []*Atom {
	var r []*Atom
	for a := range i.lo {
		r = append(r, a)
	}
	sort.Slice(r, func(u, v int) bool { return r[u].id < r[v].id })
	return r
}
