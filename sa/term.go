package main

// Hash-consed terms of the abstract domain.
//
//	Poly  integer polynomials over atoms (ideal integers)
//	BT    byte terms: polynomials over GF(2^8)/0x11D in XOR-normal form
//	Cond  conditions over both
//
// Structural equality is pointer equality.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type undecided struct{ msg string }

func giveUp(format string, a ...interface{}) { panic(undecided{fmt.Sprintf(format, a...)}) }

type Kind int

const (
	ASym   Kind = iota // integer symbol (parameter, loop counter, bound variable)
	ADiv               // floor(ps[0]/ps[1])
	AIntOf             // integer value of byte term bs[0]
	AApp               // uninterpreted integer function name(ps...)
	AWord              // little endian word of bs lanes
	ALog               // discrete logarithm of bs[0] in [0,254]
	BSel               // uninterpreted byte function name(ps...)
	BInt               // byte of integer ps[0]
	BSum               // XOR over v in [ps[0],ps[1]) of bs[0]
	BProd              // product
	BPoly              // a sum used as factor
	BInd               // indicator of condition
	BOpq               // opaque byte function of bs and ps
)

type Atom struct {
	id   int
	kind Kind
	name string
	ps   []*Poly
	bs   []*BT
	c    *Cond
	v    *Atom
	h    int // binder height
	fv   []int32
	deps []*Atom // all atoms reachable (excluding self), lazily
}

func (a *Atom) isByte() bool { return a.kind >= BSel }

var (
	atomTab = map[string]*Atom{}
	polyTab = map[string]*Poly{}
	btTab   = map[string]*BT{}
	condTab = map[string]*Cond{}
	atomArr []*Atom
)

func mergeFV(ls ...[]int32) []int32 {
	var out []int32
	switch len(ls) {
	case 0:
		return nil
	case 1:
		return ls[0]
	}
	nonempty := 0
	for _, l := range ls {
		if len(l) > 0 {
			nonempty++
			out = l
		}
	}
	if nonempty <= 1 {
		return out
	}
	seen := map[int32]bool{}
	out = nil
	for _, l := range ls {
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
func removeFV(l []int32, x int32) []int32 {
	var out []int32
	for _, y := range l {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}
func hasFV(l []int32, x int32) bool {
	i := sort.Search(len(l), func(i int) bool { return l[i] >= x })
	return i < len(l) && l[i] == x
}

func internAtom(kind Kind, name string, ps []*Poly, bs []*BT, c *Cond, v *Atom) *Atom {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(kind)))
	sb.WriteByte('|')
	sb.WriteString(name)
	for _, p := range ps {
		sb.WriteString("|p")
		sb.WriteString(strconv.Itoa(p.id))
	}
	for _, b := range bs {
		sb.WriteString("|b")
		sb.WriteString(strconv.Itoa(b.id))
	}
	if c != nil {
		sb.WriteString("|c")
		sb.WriteString(strconv.Itoa(c.id))
	}
	if v != nil {
		sb.WriteString("|v")
		sb.WriteString(strconv.Itoa(v.id))
	}
	k := sb.String()
	if a := atomTab[k]; a != nil {
		return a
	}
	a := &Atom{id: len(atomArr), kind: kind, name: name, ps: ps, bs: bs, c: c, v: v}
	var fvs [][]int32
	for _, p := range ps {
		fvs = append(fvs, p.fv)
		if p.h > a.h {
			a.h = p.h
		}
	}
	for _, b := range bs {
		f := b.fv
		if v != nil {
			f = removeFV(f, int32(v.id))
		}
		fvs = append(fvs, f)
		if b.h > a.h {
			a.h = b.h
		}
	}
	if c != nil {
		fvs = append(fvs, c.fv)
		if c.h > a.h {
			a.h = c.h
		}
	}
	if v != nil {
		a.h++
	}
	if kind == ASym {
		a.fv = []int32{int32(a.id)}
	} else {
		a.fv = mergeFV(fvs...)
	}
	atomArr = append(atomArr, a)
	atomTab[k] = a
	return a
}

var freshN int

func symAtom(name string) *Atom           { return internAtom(ASym, name, nil, nil, nil, nil) }
func symP(name string) *Poly              { return atomPoly(symAtom(name)) }
func freshSym(base string) *Atom          { freshN++; return symAtom(fmt.Sprintf("%s'%d", base, freshN)) }
func boundSym(h int) *Atom                { return symAtom(fmt.Sprintf("β%d", h)) }
func appP(name string, ps ...*Poly) *Poly { return atomPoly(internAtom(AApp, name, ps, nil, nil, nil)) }
func selB(name string, ps ...*Poly) *BT   { return atomBT(internAtom(BSel, name, ps, nil, nil, nil)) }

// ---------- Poly ----------

type pterm struct {
	c int64
	m []*Atom
}
type Poly struct {
	id int
	t  []pterm // sorted by key; constant first
	fv []int32
	h  int
}

func monoKey(m []*Atom) string {
	var sb strings.Builder
	for _, a := range m {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('.')
	}
	return sb.String()
}
func monoLess(a, b []*Atom) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}
func monoEq(a, b []*Atom) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func cadd(a, b int64) int64 {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		giveUp("coefficient overflow")
	}
	return s
}
func cmul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		giveUp("coefficient overflow")
	}
	return p
}

func internPoly(ts []pterm) *Poly {
	sort.SliceStable(ts, func(i, j int) bool { return monoLess(ts[i].m, ts[j].m) })
	var out []pterm
	for _, t := range ts {
		if n := len(out); n > 0 && monoEq(out[n-1].m, t.m) {
			out[n-1].c = cadd(out[n-1].c, t.c)
			if out[n-1].c == 0 {
				out = out[:n-1]
			}
			continue
		}
		if t.c != 0 {
			out = append(out, t)
		}
	}
	var sb strings.Builder
	for _, t := range out {
		sb.WriteString(strconv.FormatInt(t.c, 10))
		sb.WriteByte('*')
		sb.WriteString(monoKey(t.m))
		sb.WriteByte('+')
	}
	k := sb.String()
	if p := polyTab[k]; p != nil {
		return p
	}
	p := &Poly{id: len(polyTab), t: out}
	var fvs [][]int32
	for _, t := range out {
		for _, a := range t.m {
			fvs = append(fvs, a.fv)
			if a.h > p.h {
				p.h = a.h
			}
		}
	}
	p.fv = mergeFV(fvs...)
	polyTab[k] = p
	return p
}

func konst(c int64) *Poly {
	if c == 0 {
		return internPoly(nil)
	}
	return internPoly([]pterm{{c, nil}})
}
func atomPoly(a *Atom) *Poly { return internPoly([]pterm{{1, []*Atom{a}}}) }

func (p *Poly) isConst() (int64, bool) {
	if len(p.t) == 0 {
		return 0, true
	}
	if len(p.t) == 1 && len(p.t[0].m) == 0 {
		return p.t[0].c, true
	}
	return 0, false
}
func (p *Poly) isC(c int64) bool { k, ok := p.isConst(); return ok && k == c }
func (p *Poly) single() *Atom {
	if len(p.t) == 1 && p.t[0].c == 1 && len(p.t[0].m) == 1 {
		return p.t[0].m[0]
	}
	return nil
}
func (p *Poly) constTerm() int64 {
	if len(p.t) > 0 && len(p.t[0].m) == 0 {
		return p.t[0].c
	}
	return 0
}
func add(a, b *Poly) *Poly {
	if len(a.t) == 0 {
		return b
	}
	if len(b.t) == 0 {
		return a
	}
	ts := make([]pterm, 0, len(a.t)+len(b.t))
	ts = append(ts, a.t...)
	ts = append(ts, b.t...)
	return internPoly(ts)
}
func scale(a *Poly, c int64) *Poly {
	if c == 1 {
		return a
	}
	ts := make([]pterm, len(a.t))
	for i, t := range a.t {
		ts[i] = pterm{cmul(t.c, c), t.m}
	}
	return internPoly(ts)
}
func sub(a, b *Poly) *Poly        { return add(a, scale(b, -1)) }
func addc(a *Poly, c int64) *Poly { return add(a, konst(c)) }
func sum(ps ...*Poly) *Poly {
	r := konst(0)
	for _, p := range ps {
		r = add(r, p)
	}
	return r
}
func mulMono(a, b []*Atom) []*Atom {
	m := make([]*Atom, 0, len(a)+len(b))
	m = append(m, a...)
	m = append(m, b...)
	sort.Slice(m, func(i, j int) bool { return m[i].id < m[j].id })
	return m
}
func mul(a, b *Poly) *Poly {
	if c, ok := a.isConst(); ok {
		return scale(b, c)
	}
	if c, ok := b.isConst(); ok {
		return scale(a, c)
	}
	var ts []pterm
	for _, x := range a.t {
		for _, y := range b.t {
			ts = append(ts, pterm{cmul(x.c, y.c), mulMono(x.m, y.m)})
		}
	}
	if len(ts) > 400 {
		giveUp("polynomial too large")
	}
	return internPoly(ts)
}

// monoDiv divides monomial a by b.
func monoDiv(a, b []*Atom) ([]*Atom, bool) {
	var out []*Atom
	i := 0
	for _, x := range a {
		if i < len(b) && b[i] == x {
			i++
			continue
		}
		out = append(out, x)
	}
	return out, i == len(b)
}

// divmodPoly returns q, r with p = q*d + r by polynomial long division.
func divmodPoly(p, d *Poly) (*Poly, *Poly) {
	if c, ok := d.isConst(); ok {
		if c <= 0 {
			return konst(0), p
		}
		var q, r []pterm
		for _, t := range p.t {
			qq := t.c / c
			rr := t.c % c
			if rr < 0 {
				rr += c
				qq--
			}
			if qq != 0 {
				q = append(q, pterm{qq, t.m})
			}
			if rr != 0 {
				r = append(r, pterm{rr, t.m})
			}
		}
		return internPoly(q), internPoly(r)
	}
	lead := d.t[len(d.t)-1]
	q := konst(0)
	r := p
	for iter := 0; iter < 50; iter++ {
		done := true
		for i := len(r.t) - 1; i >= 0; i-- {
			t := r.t[i]
			if m, ok := monoDiv(t.m, lead.m); ok && t.c%lead.c == 0 {
				f := internPoly([]pterm{{t.c / lead.c, m}})
				nr := sub(r, mul(f, d))
				q = add(q, f)
				r = nr
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	return q, r
}

// divP is floor(p/d) for d > 0.
func divP(p, d *Poly) *Poly {
	if d.isC(1) {
		return p
	}
	q, r := divmodPoly(p, d)
	if c, ok := d.isConst(); ok {
		if rc, ok := r.isConst(); ok && rc >= 0 && rc < c {
			return q
		}
		// floor(floor(x/a)/c) is kept as it is
		// if all coefficients but the constant share a factor with c, reduce
		g := c
		for _, t := range r.t {
			if len(t.m) > 0 {
				g = gcd(g, abs64(t.c))
			}
		}
		if g > 1 {
			var ts []pterm
			for _, t := range r.t {
				if len(t.m) > 0 {
					ts = append(ts, pterm{t.c / g, t.m})
				} else {
					ts = append(ts, pterm{floorDiv(t.c, g), nil})
				}
			}
			return add(q, divP(internPoly(ts), konst(c/g)))
		}
	} else if len(r.t) == 0 {
		return q
	}
	return add(q, atomPoly(internAtom(ADiv, "", []*Poly{r, d}, nil, nil, nil)))
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func modP(p, d *Poly) *Poly { return sub(p, mul(d, divP(p, d))) }
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return abs64(a)
}

// linear coefficient of symbol v in p: p = a*v + b with a, b free of v. ok=false if not linear.
func (p *Poly) linIn(v *Atom) (a, b *Poly, ok bool) {
	var ta, tb []pterm
	for _, t := range p.t {
		cnt := 0
		var rest []*Atom
		for _, x := range t.m {
			if x == v {
				cnt++
			} else {
				if hasFV(x.fv, int32(v.id)) {
					return nil, nil, false
				}
				rest = append(rest, x)
			}
		}
		switch cnt {
		case 0:
			tb = append(tb, t)
		case 1:
			ta = append(ta, pterm{t.c, rest})
		default:
			return nil, nil, false
		}
	}
	return internPoly(ta), internPoly(tb), true
}
func (p *Poly) has(v *Atom) bool { return hasFV(p.fv, int32(v.id)) }

// ---------- BT ----------

type bfac struct {
	a *Atom
	e *Poly // exponent
}
type bmon struct {
	c byte
	f []bfac // sorted by atom id
}
type BT struct {
	id int
	m  []bmon
	fv []int32
	h  int
}

func bmonKey(f []bfac) string {
	var sb strings.Builder
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(x.e.id))
		sb.WriteByte('.')
	}
	return sb.String()
}

func internBT(ms []bmon) *BT {
	type km struct {
		k string
		m bmon
	}
	acc := map[string]*km{}
	var order []string
	for _, m := range ms {
		if m.c == 0 {
			continue
		}
		k := bmonKey(m.f)
		if e := acc[k]; e != nil {
			e.m.c ^= m.c
		} else {
			acc[k] = &km{k, m}
			order = append(order, k)
		}
	}
	sort.Strings(order)
	var out []bmon
	var sb strings.Builder
	for _, k := range order {
		if acc[k].m.c == 0 {
			continue
		}
		out = append(out, acc[k].m)
		sb.WriteString(strconv.Itoa(int(acc[k].m.c)))
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
	}
	if len(out) > 4000 {
		giveUp("byte term too large")
	}
	key := sb.String()
	if b := btTab[key]; b != nil {
		return b
	}
	b := &BT{id: len(btTab), m: out}
	var fvs [][]int32
	for _, m := range out {
		for _, f := range m.f {
			fvs = append(fvs, f.a.fv, f.e.fv)
			if f.a.h > b.h {
				b.h = f.a.h
			}
			if f.e.h > b.h {
				b.h = f.e.h
			}
		}
	}
	b.fv = mergeFV(fvs...)
	btTab[key] = b
	return b
}
func bconst(c byte) *BT {
	if c == 0 {
		return internBT(nil)
	}
	return internBT([]bmon{{c, nil}})
}
func atomBT(a *Atom) *BT { return internBT([]bmon{{1, []bfac{{a, konst(1)}}}}) }
func (b *BT) isConst() (byte, bool) {
	if len(b.m) == 0 {
		return 0, true
	}
	if len(b.m) == 1 && len(b.m[0].f) == 0 {
		return b.m[0].c, true
	}
	return 0, false
}
func (b *BT) single() *Atom {
	if len(b.m) == 1 && b.m[0].c == 1 && len(b.m[0].f) == 1 && b.m[0].f[0].e.isC(1) {
		return b.m[0].f[0].a
	}
	return nil
}
func (b *BT) has(v *Atom) bool { return hasFV(b.fv, int32(v.id)) }

func bxor(xs ...*BT) *BT {
	var ms []bmon
	for _, x := range xs {
		ms = append(ms, x.m...)
	}
	return internBT(ms)
}
func mulFac(a, b []bfac) ([]bfac, bool) {
	var out []bfac
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			out = append(out, b[j])
			j++
		default:
			x := a[i].a
			if x.kind == BInd {
				out = append(out, bfac{x, konst(1)})
			} else {
				e := add(a[i].e, b[j].e)
				if !e.isC(0) {
					out = append(out, bfac{x, e})
				}
			}
			i++
			j++
		}
	}
	// an indicator of a product being zero next to some of its factors
	for i := 0; i < len(out); i++ {
		c := out[i].a.c
		if out[i].a.kind != BInd || c.kind != CBEQ || len(c.b.m) != 1 {
			continue
		}
		var keep []bfac
		for _, g := range c.b.m[0].f {
			present := false
			if g.a.kind != BInd {
				for _, h := range out {
					if h.a == g.a {
						if e, ok := h.e.isConst(); ok && e != 0 {
							present = true
						}
					}
				}
			}
			if !present {
				keep = append(keep, g)
			}
		}
		if len(keep) == len(c.b.m[0].f) {
			continue
		}
		if len(keep) == 0 {
			return nil, false
		}
		rest := append(append([]bfac(nil), out[:i]...), out[i+1:]...)
		n := ind(mkBEQ(internBT([]bmon{{1, keep}})))
		if len(n.m) == 0 {
			return nil, false
		}
		if len(n.m) == 1 && n.m[0].c == 1 {
			return mulFac(rest, n.m[0].f)
		}
	}
	// contradictory indicators
	for i := range out {
		if out[i].a.kind != BInd {
			continue
		}
		for j := i + 1; j < len(out); j++ {
			if out[j].a.kind == BInd && out[j].a.c == notC(out[i].a.c) {
				return nil, false
			}
		}
	}
	return out, true
}
func bmul(x, y *BT) *BT {
	var ms []bmon
	for _, a := range x.m {
		for _, b := range y.m {
			f, ok := mulFac(a.f, b.f)
			if ok {
				ms = append(ms, bmon{gfMul(a.c, b.c), f})
			}
		}
	}
	if len(ms) > 20000 {
		giveUp("byte term too large")
	}
	return internBT(ms)
}
func bmulAll(xs ...*BT) *BT {
	r := bconst(1)
	for _, x := range xs {
		r = bmul(r, x)
	}
	return r
}

// bpow is x^e. Negative exponents mean inverses (x != 0 is an obligation of the caller).
func bpow(x *BT, e *Poly) *BT {
	if c, ok := e.isConst(); ok {
		if c == 0 {
			return bconst(1)
		}
		if c == 1 {
			return x
		}
	}
	if k, ok := x.isConst(); ok {
		if k == 1 {
			return x
		}
		if c, ok := e.isConst(); ok {
			if k == 0 {
				return x
			}
			return bconst(gfPow(k, c))
		}
	}
	if len(x.m) == 1 {
		m := x.m[0]
		var fs []bfac
		for _, f := range m.f {
			if f.a.kind == BInd {
				fs = append(fs, f)
				continue
			}
			ne := mul(f.e, e)
			if !ne.isC(0) {
				fs = append(fs, bfac{f.a, ne})
			}
		}
		c := byte(1)
		if m.c != 1 {
			if k, ok := e.isConst(); ok {
				c = gfPow(m.c, k)
			} else {
				fs = insertFac(fs, bfac{internAtom(BPoly, "", nil, []*BT{bconst(m.c)}, nil, nil), e})
			}
		}
		return internBT([]bmon{{c, fs}})
	}
	if c, ok := e.isConst(); ok && c > 1 && c <= 4 {
		r := x
		for i := int64(1); i < c; i++ {
			r = bmul(r, x)
		}
		return r
	}
	return internBT([]bmon{{1, []bfac{{internAtom(BPoly, "", nil, []*BT{x}, nil, nil), e}}}})
}
func insertFac(fs []bfac, f bfac) []bfac {
	out, _ := mulFac(fs, []bfac{f})
	return out
}
func binv(x *BT) *BT { return bpow(x, konst(-1)) }

func bint(p *Poly) *BT {
	if c, ok := p.isConst(); ok {
		return bconst(byte(c))
	}
	if a := p.single(); a != nil && a.kind == AIntOf {
		return a.bs[0]
	}
	return atomBT(internAtom(BInt, "", []*Poly{p}, nil, nil, nil))
}
func intOf(b *BT) *Poly {
	if c, ok := b.isConst(); ok {
		return konst(int64(c))
	}
	if a := b.single(); a != nil && a.kind == BInt {
		return a.ps[0]
	}
	return atomPoly(internAtom(AIntOf, "", nil, []*BT{b}, nil, nil))
}

// ind is the indicator of c as a field element; negations become 1+ind so that
// the normal form is unique up to propositional structure.
func ind(c *Cond) *BT {
	switch c.kind {
	case CTrue:
		return bconst(1)
	case CFalse:
		return bconst(0)
	case CNE, CBNE, CNAtom, CAll:
		return bxor(bconst(1), ind(notC(c)))
	case CAnd:
		r := bconst(1)
		for _, x := range c.cs {
			r = bmul(r, ind(x))
		}
		return r
	case COr:
		r := bconst(1)
		for _, x := range c.cs {
			r = bmul(r, ind(notC(x)))
		}
		return bxor(bconst(1), r)
	case CGE:
		n := notC(c)
		if n.id < c.id {
			return bxor(bconst(1), ind(n))
		}
	}
	return atomBT(internAtom(BInd, "", nil, nil, c, nil))
}
func bite(c *Cond, a, b *BT) *BT {
	if a == b {
		return a
	}
	i := ind(c)
	return bxor(bmul(i, a), bmul(bxor(bconst(1), i), b))
}

// bsum is the XOR of body over v in [lo,hi).
// pinned: the only value of v >= 0 for which an indicator in the monomial holds.
func pinned(v *Atom, m bmon) *Poly {
	for _, f := range m.f {
		if f.a.kind != BInd || !hasFV(f.a.fv, int32(v.id)) {
			continue
		}
		c := f.a.c
		switch c.kind {
		case CEQ:
			a, b, ok := c.p.linIn(v)
			if ok && !b.has(v) && a.isC(1) {
				return scale(b, -1)
			}
			if ok && !b.has(v) && a.isC(-1) {
				return b
			}
		case CGE:
			if c.p == scale(atomPoly(v), -1) {
				return konst(0)
			}
		}
	}
	return nil
}

func bsum(v *Atom, lo, hi, bodyHi *Poly, body *BT) *BT {
	_ = bodyHi
	if len(body.m) == 0 || lo == hi {
		return bconst(0)
	}
	if d, ok := sub(hi, lo).isConst(); ok && d >= 0 && d <= 8 {
		r := bconst(0)
		for i := int64(0); i < d; i++ {
			r = bxor(r, substB(body, v, addc(lo, i)))
		}
		return r
	}
	// normalise the range to [0,n)
	n := sub(hi, lo)
	body = substB(body, v, add(lo, atomPoly(v)))
	r := bconst(0)
	for _, m := range body.m {
		if at := pinned(v, m); at != nil {
			one := substB(internBT([]bmon{m}), v, at)
			r = bxor(r, bmulAll(one, ind(mkGE(at)), ind(mkGE(addc(sub(n, at), -1)))))
			continue
		}
		out := bmon{m.c, nil}
		in := bmon{1, nil}
		for _, f := range m.f {
			if !hasFV(f.a.fv, int32(v.id)) {
				if !f.e.has(v) {
					out.f = append(out.f, f)
					continue
				}
				// pull out the part of the exponent that is free of v
				if a, b, ok := f.e.linIn(v); ok && f.a.kind != BInd && !b.isC(0) {
					out.f = append(out.f, bfac{f.a, b})
					f = bfac{f.a, mul(a, atomPoly(v))}
				}
			}
			in.f = append(in.f, f)
		}
		inner := internBT([]bmon{in})
		rest := internBT([]bmon{out})
		var s *BT
		if !inner.has(v) {
			s = bmul(inner, ind(mkEQ(sub(modP(n, konst(2)), konst(1)))))
		} else {
			s = mkBinder(BSum, v, n, inner)
		}
		r = bxor(r, bmul(rest, s))
	}
	return r
}

// endTerms splits off the monomials with an indicator that holds for the first
// or the last value of the range only.
func endTerms(x *Ctx, v *Atom, lo, hi *Poly, body *BT) (*BT, *BT) {
	r := bconst(0)
	var left []bmon
	for _, m := range body.m {
		var at *Poly
		for _, f := range m.f {
			if f.a.kind != BInd || f.a.c.kind != CGE {
				continue
			}
			a, b, ok := f.a.c.p.linIn(v)
			if !ok || b.has(v) || !(a.isC(1) || a.isC(-1)) {
				continue
			}
			// v >= -b, or v <= b
			if a.isC(1) && x.prove(mkEQ(add(addc(hi, -1), b))) {
				at = addc(hi, -1)
			}
			if a.isC(-1) && x.prove(mkEQ(sub(b, lo))) {
				at = lo
			}
		}
		if at == nil || !x.proveGE(addc(sub(hi, lo), -1)) {
			left = append(left, m)
			continue
		}
		r = bxor(r, x.simpB(substB(internBT([]bmon{m}), v, at)))
	}
	if len(left) == len(body.m) {
		return r, body
	}
	return r, internBT(left)
}

func mkBinder(kind Kind, v *Atom, n *Poly, body *BT) *BT {
	mk := func(b *BT) *Atom {
		bv := boundSym(b.h)
		if bv != v {
			b = substB(b, v, atomPoly(bv))
		}
		return internAtom(kind, "", []*Poly{konst(0), n}, []*BT{b}, nil, bv)
	}
	a := mk(body)
	// reflection: v -> n-1-v ; keep the smaller one
	refl := substB(body, v, sub(addc(n, -1), atomPoly(v)))
	if refl != body {
		// the exponent of a reflected geometric factor may contain a v-free part
		if len(refl.m) == 1 && kind == BSum {
			var outF, inF []bfac
			for _, f := range refl.m[0].f {
				if !hasFV(f.a.fv, int32(v.id)) && f.e.has(v) && f.a.kind != BInd {
					if x, y, ok := f.e.linIn(v); ok && !y.isC(0) {
						outF = append(outF, bfac{f.a, y})
						f = bfac{f.a, mul(x, atomPoly(v))}
					}
				}
				inF = append(inF, f)
			}
			in := internBT([]bmon{{refl.m[0].c, inF}})
			b := mk(in)
			if b.bodyKey() < a.bodyKey() {
				return bmul(internBT([]bmon{{1, outF}}), atomBT(b))
			}
			return atomBT(a)
		}
		b := mk(refl)
		if b.bodyKey() < a.bodyKey() {
			return atomBT(b)
		}
	}
	return atomBT(a)
}
func (a *Atom) bodyKey() string {
	s := a.bs[0].String()
	return fmt.Sprintf("%06d%s", len(s), s)
}

// bprod is the product of body over v in [lo,hi); the caller has split off special cases.
func bprod(v *Atom, lo, hi *Poly, body *BT) *BT {
	if lo == hi {
		return bconst(1)
	}
	n := sub(hi, lo)
	if d, ok := n.isConst(); ok && d >= 0 && d <= 8 {
		r := bconst(1)
		for i := int64(0); i < d; i++ {
			r = bmul(r, substB(body, v, addc(lo, i)))
		}
		return r
	}
	if !body.has(v) {
		return bpow(body, n)
	}
	body = substB(body, v, add(lo, atomPoly(v)))
	if len(body.m) == 1 {
		r := bconst(1)
		m := body.m[0]
		if m.c != 1 {
			r = bpow(bconst(m.c), n)
		}
		for _, f := range m.f {
			one := internBT([]bmon{{1, []bfac{f}}})
			if !one.has(v) {
				r = bmul(r, bpow(one, n))
				continue
			}
			if !f.e.has(v) {
				x := internBT([]bmon{{1, []bfac{{f.a, konst(1)}}}})
				if f.a.kind == BPoly {
					x = f.a.bs[0]
				}
				r = bmul(r, bpow(mkBinder(BProd, v, n, x), f.e))
				continue
			}
			r = bmul(r, mkBinder(BProd, v, n, one))
		}
		return r
	}
	return mkBinder(BProd, v, n, body)
}

// ---------- Cond ----------

type CK int

const (
	CTrue CK = iota
	CFalse
	CGE // p >= 0
	CEQ // p == 0
	CNE
	CBEQ // b == 0
	CBNE
	CAtom // boolean atom
	CNAtom
	CAnd
	COr
	CAll // forall v in [lo,hi): body
	CEx
)

type Cond struct {
	id     int
	kind   CK
	p      *Poly
	b      *BT
	a      string // boolean atom name
	as     []*Poly
	cs     []*Cond
	v      *Atom
	lo, hi *Poly
	body   *Cond
	fv     []int32
	h      int
	neg    *Cond
}

func internCond(c Cond) *Cond {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(c.kind)))
	var fvs [][]int32
	if c.p != nil {
		fmt.Fprintf(&sb, "|p%d", c.p.id)
		fvs = append(fvs, c.p.fv)
		c.h = maxi(c.h, c.p.h)
	}
	if c.b != nil {
		fmt.Fprintf(&sb, "|b%d", c.b.id)
		fvs = append(fvs, c.b.fv)
		c.h = maxi(c.h, c.b.h)
	}
	sb.WriteString("|" + c.a)
	for _, x := range c.as {
		fmt.Fprintf(&sb, "|a%d", x.id)
		fvs = append(fvs, x.fv)
		c.h = maxi(c.h, x.h)
	}
	for _, x := range c.cs {
		fmt.Fprintf(&sb, "|c%d", x.id)
		fvs = append(fvs, x.fv)
		c.h = maxi(c.h, x.h)
	}
	if c.v != nil {
		fmt.Fprintf(&sb, "|v%d,%d,%d,%d", c.v.id, c.lo.id, c.hi.id, c.body.id)
		fvs = append(fvs, c.lo.fv, c.hi.fv, removeFV(c.body.fv, int32(c.v.id)))
		c.h = maxi(maxi(c.h, c.body.h+1), maxi(c.lo.h, c.hi.h))
	}
	k := sb.String()
	if x := condTab[k]; x != nil {
		return x
	}
	c.id = len(condTab)
	c.fv = mergeFV(fvs...)
	cc := c
	condTab[k] = &cc
	return &cc
}
func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

var condTrue = internCond(Cond{kind: CTrue})
var condFalse = internCond(Cond{kind: CFalse})

func boolC(b bool) *Cond {
	if b {
		return condTrue
	}
	return condFalse
}

func mkGE(p *Poly) *Cond { // p >= 0
	if c, ok := p.isConst(); ok {
		return boolC(c >= 0)
	}
	g := int64(0)
	for _, t := range p.t {
		if len(t.m) > 0 {
			g = gcd(g, abs64(t.c))
		}
	}
	if g > 1 {
		var ts []pterm
		for _, t := range p.t {
			if len(t.m) > 0 {
				ts = append(ts, pterm{t.c / g, t.m})
			} else {
				ts = append(ts, pterm{floorDiv(t.c, g), nil})
			}
		}
		p = internPoly(ts)
	}
	return internCond(Cond{kind: CGE, p: p})
}
func mkLT(a, b *Poly) *Cond { return mkGE(addc(sub(b, a), -1)) }
func mkLE(a, b *Poly) *Cond { return mkGE(sub(b, a)) }
func mkEQ(p *Poly) *Cond { // p == 0
	if c, ok := p.isConst(); ok {
		return boolC(c == 0)
	}
	g := int64(0)
	for _, t := range p.t {
		if len(t.m) > 0 {
			g = gcd(g, abs64(t.c))
		}
	}
	if p.constTerm()%g != 0 {
		return condFalse
	}
	if p.t[len(p.t)-1].c < 0 {
		g = -g
	}
	if g != 1 {
		var ts []pterm
		for _, t := range p.t {
			ts = append(ts, pterm{t.c / g, t.m})
		}
		p = internPoly(ts)
	}
	// difference of two byte values
	if len(p.t) == 2 && p.t[0].c == -p.t[1].c && len(p.t[0].m) == 1 && len(p.t[1].m) == 1 &&
		p.t[0].m[0].kind == AIntOf && p.t[1].m[0].kind == AIntOf && abs64(p.t[0].c) == 1 {
		return mkBEQ(bxor(p.t[0].m[0].bs[0], p.t[1].m[0].bs[0]))
	}
	if len(p.t) == 1 && len(p.t[0].m) == 1 && p.t[0].m[0].kind == AIntOf {
		return mkBEQ(p.t[0].m[0].bs[0])
	}
	if len(p.t) == 2 && len(p.t[0].m) == 0 && len(p.t[1].m) == 1 && p.t[1].c == 1 && p.t[1].m[0].kind == AIntOf {
		k := -p.t[0].c
		if k < 0 || k > 255 {
			return condFalse
		}
		return mkBEQ(bxor(bconst(byte(k)), p.t[1].m[0].bs[0]))
	}
	// a | b == 0
	if len(p.t) == 1 && len(p.t[0].m) == 1 && p.t[0].m[0].kind == AApp && p.t[0].m[0].name == "bits|" {
		a := p.t[0].m[0]
		return andC(mkEQ(a.ps[0]), mkEQ(a.ps[1]))
	}
	return internCond(Cond{kind: CEQ, p: p})
}
func mkEq(a, b *Poly) *Cond { return mkEQ(sub(a, b)) }
func mkNE(p *Poly) *Cond    { return notC(mkEQ(p)) }

// indZero is the condition that a polynomial of indicators alone is zero.
func indZero(b *BT) *Cond {
	var c *Cond
	n := 0
	for _, m := range b.m {
		if m.c != 1 {
			return nil
		}
		for _, f := range m.f {
			if f.a.kind != BInd || f.a.c.kind == CAll {
				return nil
			}
			if c == nil {
				c = f.a.c
			}
			n++
		}
	}
	if c == nil || n > 12 {
		return nil
	}
	var yes, no []bmon
	for _, m := range b.m {
		o := bmon{c: 1}
		has := false
		for _, f := range m.f {
			if f.a.c == c {
				has = true
			} else {
				o.f = append(o.f, f)
			}
		}
		yes = append(yes, o)
		if !has {
			no = append(no, o)
		}
	}
	cy, cn := mkBEQ(internBT(yes)), mkBEQ(internBT(no))
	switch {
	case cy == condTrue:
		return orC(c, cn)
	case cn == condTrue:
		return orC(notC(c), cy)
	case cy == condFalse:
		return andC(notC(c), cn)
	case cn == condFalse:
		return andC(c, cy)
	}
	return orC(andC(c, cy), andC(notC(c), cn))
}

func mkBEQ(b *BT) *Cond {
	if c, ok := b.isConst(); ok {
		return boolC(c == 0)
	}
	if c := indZero(b); c != nil {
		return c
	}
	// b = BInt(p) ^ rest
	if len(b.m) <= 2 {
		for i, m := range b.m {
			if m.c == 1 && len(m.f) == 1 && m.f[0].a.kind == BInt && m.f[0].e.isC(1) {
				p := m.f[0].a.ps[0]
				rest := bconst(0)
				if len(b.m) == 2 {
					rest = internBT([]bmon{b.m[1-i]})
				}
				q := intOf(rest)
				if x := q.single(); x == nil || x.kind != AIntOf || true {
					// avoid endless recursion with mkEQ: both sides IntOf never happens here
					return internEQ(sub(p, q))
				}
			}
		}
	}
	if len(b.m) == 1 {
		// a product is zero iff a factor is (exponents positive)
		m := b.m[0]
		ok := true
		for _, f := range m.f {
			if c, k := f.e.isConst(); !k || c <= 0 {
				ok = false
			}
		}
		if ok && (len(m.f) > 1 || m.c != 1 || !m.f[0].e.isC(1)) {
			var cs []*Cond
			for _, f := range m.f {
				x := atomBT(f.a)
				if f.a.kind == BPoly {
					x = f.a.bs[0]
				}
				if f.a.kind == BInd {
					cs = append(cs, notC(f.a.c))
				} else {
					cs = append(cs, mkBEQ(x))
				}
			}
			return orC(cs...)
		}
	}
	if len(b.m) > 1 {
		// a common factor: the product is zero iff the factor or the rest is
		for _, f := range b.m[0].f {
			lo, ok := f.e.isConst()
			if !ok || lo <= 0 {
				continue
			}
			for _, m := range b.m[1:] {
				e := int64(0)
				for _, g := range m.f {
					if g.a == f.a {
						if k, c := g.e.isConst(); c {
							e = k
						}
					}
				}
				if e < lo {
					lo = e
				}
			}
			if lo <= 0 {
				continue
			}
			var rest []bmon
			for _, m := range b.m {
				n := bmon{c: m.c}
				for _, g := range m.f {
					if g.a != f.a {
						n.f = append(n.f, g)
					} else if e := addc(g.e, -lo); !e.isC(0) {
						n.f = append(n.f, bfac{g.a, e})
					}
				}
				rest = append(rest, n)
			}
			return orC(mkBEQ(atomBT(f.a)), mkBEQ(internBT(rest)))
		}
		// BPoly: its element
	} else if len(b.m) == 1 && len(b.m[0].f) == 1 && b.m[0].f[0].a.kind == BPoly && b.m[0].f[0].e.isC(1) {
		return mkBEQ(b.m[0].f[0].a.bs[0])
	}
	return internCond(Cond{kind: CBEQ, b: b})
}
func internEQ(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return boolC(c == 0)
	}
	return mkEQ(p)
}
func atomC(name string, as ...*Poly) *Cond { return internCond(Cond{kind: CAtom, a: name, as: as}) }

func notC(c *Cond) *Cond {
	if c.neg != nil {
		return c.neg
	}
	var r *Cond
	switch c.kind {
	case CTrue:
		r = condFalse
	case CFalse:
		r = condTrue
	case CGE:
		r = mkGE(addc(scale(c.p, -1), -1))
	case CEQ:
		r = internCond(Cond{kind: CNE, p: c.p})
	case CNE:
		r = internCond(Cond{kind: CEQ, p: c.p})
	case CBEQ:
		r = internCond(Cond{kind: CBNE, b: c.b})
	case CBNE:
		r = internCond(Cond{kind: CBEQ, b: c.b})
	case CAtom:
		r = internCond(Cond{kind: CNAtom, a: c.a, as: c.as})
	case CNAtom:
		r = internCond(Cond{kind: CAtom, a: c.a, as: c.as})
	case CAnd, COr:
		var cs []*Cond
		for _, x := range c.cs {
			cs = append(cs, notC(x))
		}
		if c.kind == CAnd {
			r = orC(cs...)
		} else {
			r = andC(cs...)
		}
	case CAll:
		r = internCond(Cond{kind: CEx, v: c.v, lo: c.lo, hi: c.hi, body: notC(c.body)})
	case CEx:
		r = internCond(Cond{kind: CAll, v: c.v, lo: c.lo, hi: c.hi, body: notC(c.body)})
	}
	c.neg = r
	if r.neg == nil {
		r.neg = c
	}
	return r
}
func andC(cs ...*Cond) *Cond { return nary(CAnd, cs) }
func orC(cs ...*Cond) *Cond  { return nary(COr, cs) }
func nary(k CK, cs []*Cond) *Cond {
	unit, zero := condTrue, condFalse
	if k == COr {
		unit, zero = condFalse, condTrue
	}
	m := map[*Cond]bool{}
	var out []*Cond
	var addAll func([]*Cond) bool
	addAll = func(cs []*Cond) bool {
		for _, c := range cs {
			if c == zero {
				return false
			}
			if c == unit || m[c] {
				continue
			}
			if c.kind == k {
				if !addAll(c.cs) {
					return false
				}
				continue
			}
			if m[notC(c)] {
				return false
			}
			m[c] = true
			out = append(out, c)
		}
		return true
	}
	if !addAll(cs) {
		return zero
	}
	if k == CAnd {
		// p >= 0 and -p >= 0
		for i, c := range out {
			if c.kind != CGE {
				continue
			}
			d := mkGE(scale(c.p, -1))
			if !m[d] || d == c {
				continue
			}
			rest := []*Cond{mkEQ(c.p)}
			for j, e := range out {
				if j != i && e != d {
					rest = append(rest, e)
				}
			}
			return nary(k, rest)
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return internCond(Cond{kind: k, cs: out})
}

// quant builds forall/exists v in [lo,hi): body.
func quant(k CK, v *Atom, lo, hi *Poly, body *Cond) *Cond {
	if body == condTrue && k == CAll {
		return condTrue
	}
	if body == condFalse && k == CEx {
		return condFalse
	}
	if d, ok := sub(hi, lo).isConst(); ok && d <= 0 {
		return boolC(k == CAll)
	} else if ok && d == 1 {
		return substC(body, v, lo)
	}
	if k == CAll && body.kind == CAnd {
		var cs []*Cond
		for _, c := range body.cs {
			cs = append(cs, quant(k, v, lo, hi, c))
		}
		return andC(cs...)
	}
	if k == CEx && body.kind == COr {
		var cs []*Cond
		for _, c := range body.cs {
			cs = append(cs, quant(k, v, lo, hi, c))
		}
		return orC(cs...)
	}
	bv := boundSym(body.h)
	if bv != v {
		body = substC(body, v, atomPoly(bv))
	}
	return internCond(Cond{kind: k, v: bv, lo: lo, hi: hi, body: body})
}

// ---------- substitution ----------

type Subst struct {
	sym map[*Atom]*Poly // integer atoms (symbols or any integer atom)
	bat map[*Atom]*BT   // byte atoms
	cnd map[*Cond]*Cond // boolean atoms
	fn  func(*Atom) *BT // rewriting of byte atoms after their arguments
	fnp func(*Atom) *Poly
	dv  func(*Atom) *Poly // simplification of div atoms
	fc  func(*Cond) *Cond // decision of conditions under indicators
	x   *Ctx              // context for bound variables
	mp  map[*Poly]*Poly
	mb  map[*BT]*BT
	mc  map[*Cond]*Cond
	ma  map[*Atom]*Poly
	mab map[*Atom]*BT
}

func newSubst() *Subst {
	return &Subst{sym: map[*Atom]*Poly{}, bat: map[*Atom]*BT{}, cnd: map[*Cond]*Cond{}, mp: map[*Poly]*Poly{}, mb: map[*BT]*BT{}, mc: map[*Cond]*Cond{}, ma: map[*Atom]*Poly{}, mab: map[*Atom]*BT{}}
}
func (s *Subst) onlySyms() bool {
	if s.fn != nil || s.fnp != nil || s.dv != nil || len(s.bat) > 0 || len(s.cnd) > 0 {
		return false
	}
	for a := range s.sym {
		if a.kind != ASym {
			return false
		}
	}
	return true
}
func (s *Subst) reset() {
	s.mp, s.mb, s.mc = map[*Poly]*Poly{}, map[*BT]*BT{}, map[*Cond]*Cond{}
	s.ma, s.mab = map[*Atom]*Poly{}, map[*Atom]*BT{}
}
func (s *Subst) touches(fv []int32) bool {
	for a := range s.sym {
		if hasFV(fv, int32(a.id)) {
			return true
		}
	}
	return false
}

func (s *Subst) P(p *Poly) *Poly {
	if s.onlySyms() && !s.touches(p.fv) {
		return p
	}
	if r, ok := s.mp[p]; ok {
		return r
	}
	r := konst(0)
	var same []pterm
	for _, t := range p.t {
		ch := false
		for _, a := range t.m {
			if s.intAtom(a) != atomPoly(a) {
				ch = true
			}
		}
		if !ch {
			same = append(same, t)
			continue
		}
		x := konst(t.c)
		for _, a := range t.m {
			x = mul(x, s.intAtom(a))
		}
		r = add(r, x)
	}
	r = add(r, internPoly(same))
	s.mp[p] = r
	return r
}
func (s *Subst) intAtom(a *Atom) *Poly {
	if r, ok := s.sym[a]; ok {
		return r
	}
	if a.kind == ASym {
		return atomPoly(a)
	}
	if s.onlySyms() && !s.touches(a.fv) {
		return atomPoly(a)
	}
	if r, ok := s.ma[a]; ok {
		return r
	}
	var r *Poly
	ps := make([]*Poly, len(a.ps))
	for i, p := range a.ps {
		ps[i] = s.P(p)
	}
	bs := make([]*BT, len(a.bs))
	for i, b := range a.bs {
		bs[i] = s.B(b)
	}
	switch a.kind {
	case ADiv:
		r = divP(ps[0], ps[1])
		if s.dv != nil {
			if d := r.single(); d != nil && d.kind == ADiv {
				if q := s.dv(d); q != nil {
					r = q
				}
			}
		}
	case AIntOf:
		r = intOf(bs[0])
	case ALog:
		r = logOf(bs[0])
	case AWord:
		r = wordP(bs)
	default:
		na := internAtom(a.kind, a.name, ps, bs, nil, nil)
		if q, ok := s.sym[na]; ok && na != a {
			r = q
		} else {
			r = atomPoly(na)
		}
		if s.fnp != nil {
			if q := s.fnp(na); q != nil {
				r = q
			}
		}
	}
	s.ma[a] = r
	return r
}
func (s *Subst) B(b *BT) *BT {
	if s.onlySyms() && !s.touches(b.fv) {
		return b
	}
	if r, ok := s.mb[b]; ok {
		return r
	}
	r := bconst(0)
	var same []bmon
	for _, m := range b.m {
		ch := false
		for _, f := range m.f {
			if s.byteAtom(f.a) != atomBT(f.a) || s.P(f.e) != f.e {
				ch = true
			}
		}
		if !ch {
			same = append(same, m)
			continue
		}
		x := bconst(m.c)
		for _, f := range m.f {
			x = bmul(x, bpow(s.byteAtom(f.a), s.P(f.e)))
		}
		r = bxor(r, x)
	}
	r = bxor(r, internBT(same))
	s.mb[b] = r
	return r
}
func (s *Subst) byteAtom(a *Atom) *BT {
	if r, ok := s.bat[a]; ok {
		return r
	}
	if s.onlySyms() && !s.touches(a.fv) {
		return atomBT(a)
	}
	if r, ok := s.mab[a]; ok {
		return r
	}
	ps := make([]*Poly, len(a.ps))
	for i, p := range a.ps {
		ps[i] = s.P(p)
	}
	var r *BT
	switch a.kind {
	case BSum, BProd:
		var nv *Atom
		var body *BT
		if s.x != nil && s.x.level() < 2 {
			var y *Ctx
			y, nv = s.x.under(ps[0], ps[1])
			body = y.simpB(substB(a.bs[0], a.v, atomPoly(nv)))
		} else {
			nv = freshSym("$v")
			body = s.B(substB(a.bs[0], a.v, atomPoly(nv)))
		}
		if a.kind == BSum {
			if s.x != nil {
				r, body = endTerms(s.x, nv, ps[0], ps[1], body)
				r = bxor(r, bsum(nv, ps[0], ps[1], nil, body))
			} else {
				r = bsum(nv, ps[0], ps[1], nil, body)
			}
		} else {
			if s.x != nil {
				r = prodSplit(s.x, nv, ps[0], ps[1], body)
			} else {
				r = bprod(nv, ps[0], ps[1], body)
			}
		}
	case BInd:
		c := s.C(a.c)
		if s.fc != nil {
			c = s.fc(c)
		}
		r = ind(c)
	default:
		bs := make([]*BT, len(a.bs))
		for i, b := range a.bs {
			bs[i] = s.B(b)
		}
		switch a.kind {
		case BInt:
			r = bint(ps[0])
		case BPoly:
			r = bs[0]
		case BOpq:
			r = mkOpq(a.name, bs, ps)
		default:
			na := internAtom(a.kind, a.name, ps, bs, nil, nil)
			if q, ok := s.bat[na]; ok && na != a {
				r = q
			} else {
				r = atomBT(na)
			}
			if s.fn != nil {
				if q := s.fn(na); q != nil {
					r = q
				}
			}
		}
	}
	s.mab[a] = r
	return r
}
func (s *Subst) C(c *Cond) *Cond {
	if s.onlySyms() && !s.touches(c.fv) {
		return c
	}
	if r, ok := s.mc[c]; ok {
		return r
	}
	if r, ok := s.cnd[c]; ok {
		return r
	}
	var r *Cond
	switch c.kind {
	case CTrue, CFalse:
		r = c
	case CGE:
		r = mkGE(s.P(c.p))
	case CEQ:
		r = mkEQ(s.P(c.p))
	case CNE:
		r = mkNE(s.P(c.p))
	case CBEQ:
		r = mkBEQ(s.B(c.b))
	case CBNE:
		r = notC(mkBEQ(s.B(c.b)))
	case CAtom, CNAtom:
		as := make([]*Poly, len(c.as))
		for i, p := range c.as {
			as[i] = s.P(p)
		}
		r = atomC(c.a, as...)
		if q, ok := s.cnd[r]; ok {
			r = q
		}
		if c.kind == CNAtom {
			r = notC(r)
		}
	case CAnd, COr:
		cs := make([]*Cond, len(c.cs))
		for i, x := range c.cs {
			cs[i] = s.C(x)
		}
		r = nary(c.kind, cs)
	case CAll, CEx:
		nv := freshSym("$v")
		r = quant(c.kind, nv, s.P(c.lo), s.P(c.hi), s.C(substC(c.body, c.v, atomPoly(nv))))
	}
	s.mc[c] = r
	return r
}

func substP(p *Poly, v *Atom, by *Poly) *Poly {
	if v.kind == ASym && !p.has(v) {
		return p
	}
	s := newSubst()
	s.sym[v] = by
	return s.P(p)
}
func substB(b *BT, v *Atom, by *Poly) *BT {
	if v.kind == ASym && !b.has(v) {
		return b
	}
	s := newSubst()
	s.sym[v] = by
	return s.B(b)
}
func substC(c *Cond, v *Atom, by *Poly) *Cond {
	if v.kind == ASym && !hasFV(c.fv, int32(v.id)) {
		return c
	}
	s := newSubst()
	s.sym[v] = by
	return s.C(c)
}

// ---------- special constructors ----------

// logOf is the discrete logarithm (generator 2) of a byte term, with log 0 = 0 as in the tables.
func logOf(b *BT) *Poly {
	if c, ok := b.isConst(); ok {
		return konst(int64(gfLog[c]))
	}
	return atomPoly(internAtom(ALog, "", nil, []*BT{b}, nil, nil))
}

// wordP is the little endian word made of the lanes.
func wordP(bs []*BT) *Poly {
	all := true
	for _, b := range bs {
		if _, ok := b.isConst(); !ok {
			all = false
		}
	}
	if all && len(bs) <= 4 {
		var w int64
		for i, b := range bs {
			c, _ := b.isConst()
			w |= int64(c) << (8 * i)
		}
		return konst(w)
	}
	// recombination of the bytes of one integer
	if a := bs[0].single(); a != nil && a.kind == BOpq && a.name == "byteof" && a.ps[1].isC(0) && a.ps[2].isC(int64(len(bs))) {
		p := a.ps[0]
		ok := true
		for i, b := range bs {
			x := b.single()
			if x == nil || x.kind != BOpq || x.name != "byteof" || x.ps[0] != p || !x.ps[1].isC(int64(i)) {
				ok = false
			}
		}
		if ok {
			return p
		}
	}
	return atomPoly(internAtom(AWord, "", nil, bs, nil, nil))
}

// mkOpq builds opaque byte operations with a few algebraic simplifications.
func mkOpq(name string, bs []*BT, ps []*Poly) *BT {
	switch name {
	case "and": // bs[0] & const mask in ps[0]
		m, _ := ps[0].isConst()
		mask := byte(m)
		if c, ok := bs[0].isConst(); ok {
			return bconst(c & mask)
		}
		if mask == 0 {
			return bconst(0)
		}
		if mask == 0xff {
			return bs[0]
		}
		if a := bs[0].single(); a != nil && a.kind == BOpq && a.name == "and" {
			m2, _ := a.ps[0].isConst()
			return mkOpq("and", a.bs, []*Poly{konst(int64(mask & byte(m2)))})
		}
		if a := bs[0].single(); a != nil && a.kind == BOpq && a.name == "shr" {
			k, _ := a.ps[0].isConst()
			if 0xff>>uint(k)&^mask == 0 {
				return bs[0]
			}
			return mkOpq("shr", []*BT{mkOpq("and", a.bs, []*Poly{konst(int64(mask << uint(k)))})}, a.ps)
		}
		if a := bs[0].single(); a != nil && a.kind == BOpq && a.name == "shl" {
			k, _ := a.ps[0].isConst()
			if mask&0x80 == 0 {
				return mkOpq("shl", []*BT{mkOpq("and", a.bs, []*Poly{konst(int64(mask >> uint(k)))})}, a.ps)
			}
		}
		// normal form: masks with bit 7 clear
		if mask&0x80 != 0 {
			return bxor(bs[0], mkOpq("and", bs, []*Poly{konst(int64(^mask))}))
		}
		// linear in XOR
		if len(bs[0].m) > 1 {
			r := bconst(0)
			for _, m := range bs[0].m {
				r = bxor(r, mkOpq("and", []*BT{internBT([]bmon{m})}, ps))
			}
			return r
		}
	case "shr":
		k, _ := ps[0].isConst()
		if c, ok := bs[0].isConst(); ok {
			return bconst(c >> uint(k))
		}
		if k == 0 {
			return bs[0]
		}
		if k >= 8 {
			return bconst(0)
		}
		// drop masked-out low bits
		if a := bs[0].single(); a != nil && a.kind == BOpq && a.name == "and" {
			m, _ := a.ps[0].isConst()
			if byte(m)>>uint(k) == 0 {
				return bconst(0)
			}
			if byte(m)>>uint(k) == 0xff>>uint(k) {
				return mkOpq("shr", a.bs, ps)
			}
		}
		if len(bs[0].m) > 1 {
			r := bconst(0)
			for _, m := range bs[0].m {
				r = bxor(r, mkOpq("shr", []*BT{internBT([]bmon{m})}, ps))
			}
			return r
		}
	case "shl":
		k, _ := ps[0].isConst()
		if c, ok := bs[0].isConst(); ok {
			return bconst(c << uint(k))
		}
		if k == 0 {
			return bs[0]
		}
		if k >= 8 {
			return bconst(0)
		}
		if a := bs[0].single(); a != nil && a.kind == BOpq {
			switch a.name {
			case "and":
				m, _ := a.ps[0].isConst()
				if byte(m)<<uint(k) == 0 {
					return bconst(0)
				}
				if byte(m)<<uint(k) == byte(0xff<<uint(k)) {
					return mkOpq("shl", a.bs, ps)
				}
			case "shr":
				if j, _ := a.ps[0].isConst(); j == k {
					return bxor(a.bs[0], mkOpq("and", a.bs, []*Poly{konst(int64(1)<<uint(k) - 1)}))
				}
			}
		}
		if len(bs[0].m) > 1 {
			r := bconst(0)
			for _, m := range bs[0].m {
				r = bxor(r, mkOpq("shl", []*BT{internBT([]bmon{m})}, ps))
			}
			return r
		}
	case "byteof": // byte ps[1] of integer ps[0] seen as a word of ps[2] bytes
		if c, ok := ps[0].isConst(); ok {
			k, _ := ps[1].isConst()
			return bconst(byte(c >> uint(8*k)))
		}
		if a := ps[0].single(); a != nil && a.kind == AWord {
			k, _ := ps[1].isConst()
			if int(k) < len(a.bs) {
				return a.bs[k]
			}
			return bconst(0)
		}
	}
	return atomBT(internAtom(BOpq, name, ps, bs, nil, nil))
}

// ---------- walking ----------

var walkStop func(a *Atom) bool

// opaqueAtoms runs f with walks that do not look inside the atoms for which stop holds.
func opaqueAtoms(stop func(a *Atom) bool, f func()) {
	old := walkStop
	walkStop = stop
	defer func() { walkStop = old }()
	f()
}

func (a *Atom) children(f func(*Atom)) {
	if walkStop != nil && walkStop(a) {
		return
	}
	for _, p := range a.ps {
		p.walk(f)
	}
	for _, b := range a.bs {
		b.walk(f)
	}
	if a.c != nil {
		a.c.walk(f)
	}
}

// walk visits every atom (transitively).
func (p *Poly) walk(f func(*Atom)) {
	for _, t := range p.t {
		for _, a := range t.m {
			f(a)
			a.children(f)
		}
	}
}
func (b *BT) walk(f func(*Atom)) {
	for _, m := range b.m {
		for _, x := range m.f {
			f(x.a)
			x.a.children(f)
			x.e.walk(f)
		}
	}
}
func (c *Cond) walk(f func(*Atom)) {
	if c.p != nil {
		c.p.walk(f)
	}
	if c.b != nil {
		c.b.walk(f)
	}
	for _, p := range c.as {
		p.walk(f)
	}
	for _, x := range c.cs {
		x.walk(f)
	}
	if c.v != nil {
		c.lo.walk(f)
		c.hi.walk(f)
		c.body.walk(f)
	}
}

// ---------- printing ----------

func (a *Atom) String() string {
	args := func() string {
		var s []string
		for _, b := range a.bs {
			s = append(s, b.String())
		}
		for _, p := range a.ps {
			s = append(s, p.String())
		}
		return strings.Join(s, ",")
	}
	switch a.kind {
	case ASym:
		return a.name
	case ADiv:
		return "(" + a.ps[0].String() + " div " + a.ps[1].String() + ")"
	case AIntOf:
		return "int<" + a.bs[0].String() + ">"
	case ALog:
		return "log<" + a.bs[0].String() + ">"
	case AWord:
		return "word<" + args() + ">"
	case BInt:
		return "byte<" + a.ps[0].String() + ">"
	case BSum:
		return "Σ{" + a.v.name + "<" + a.ps[1].String() + "}(" + a.bs[0].String() + ")"
	case BProd:
		return "Π{" + a.v.name + "<" + a.ps[1].String() + "}(" + a.bs[0].String() + ")"
	case BPoly:
		return "(" + a.bs[0].String() + ")"
	case BInd:
		return "[" + a.c.String() + "]"
	}
	if len(a.ps) == 0 && len(a.bs) == 0 {
		return a.name
	}
	return a.name + "(" + args() + ")"
}
func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var parts []string
	for i := len(p.t) - 1; i >= 0; i-- {
		t := p.t[i]
		var ms []string
		for _, a := range t.m {
			ms = append(ms, a.String())
		}
		s := strings.Join(ms, "*")
		switch {
		case s == "":
			s = strconv.FormatInt(t.c, 10)
		case t.c == 1:
		case t.c == -1:
			s = "-" + s
		default:
			s = strconv.FormatInt(t.c, 10) + "*" + s
		}
		parts = append(parts, s)
	}
	r := strings.Join(parts, "+")
	return strings.ReplaceAll(r, "+-", "-")
}
func (b *BT) String() string {
	if len(b.m) == 0 {
		return "0"
	}
	var parts []string
	for _, m := range b.m {
		var fs []string
		if m.c != 1 || len(m.f) == 0 {
			fs = append(fs, strconv.Itoa(int(m.c)))
		}
		for _, f := range m.f {
			s := f.a.String()
			if !f.e.isC(1) {
				s += "^{" + f.e.String() + "}"
			}
			fs = append(fs, s)
		}
		parts = append(parts, strings.Join(fs, "·"))
	}
	return strings.Join(parts, " ⊕ ")
}
func (c *Cond) String() string {
	switch c.kind {
	case CTrue:
		return "true"
	case CFalse:
		return "false"
	case CGE:
		return c.p.String() + ">=0"
	case CEQ:
		return c.p.String() + "==0"
	case CNE:
		return c.p.String() + "!=0"
	case CBEQ:
		return c.b.String() + "==0"
	case CBNE:
		return c.b.String() + "!=0"
	case CAtom, CNAtom:
		s := c.a
		if len(c.as) > 0 {
			var x []string
			for _, p := range c.as {
				x = append(x, p.String())
			}
			s += "(" + strings.Join(x, ",") + ")"
		}
		if c.kind == CNAtom {
			return "!" + s
		}
		return s
	case CAnd, COr:
		var x []string
		for _, d := range c.cs {
			x = append(x, d.String())
		}
		if c.kind == CAnd {
			return "(" + strings.Join(x, " && ") + ")"
		}
		return "(" + strings.Join(x, " || ") + ")"
	case CAll:
		return fmt.Sprintf("∀%s∈[%s,%s):%s", c.v.name, c.lo, c.hi, c.body)
	case CEx:
		return fmt.Sprintf("∃%s∈[%s,%s):%s", c.v.name, c.lo, c.hi, c.body)
	}
	return "?"
}
