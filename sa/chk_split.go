package main

import "strings"

// P01-P06: splitting into Shamir shares.

func init() {
	const tech = "abstract interpretation with a relational domain of integer and GF(2^8) terms, summarised loops"
	for _, id := range []string{"P02", "P03", "P04", "P05", "P06"} {
		id := id
		register(id, tech, func(r *Report) { checkSplits(r, id) })
	}
	register("P01", tech, checkP01)
}

type splitEntry struct {
	name string
	gen  bool // takes a generator
}

var splitEntries = []splitEntry{{"Split", false}, {"SplitGeneric", false}, {"SplitP", false}, {"SplitWithRandomizer", true}, {"SplitWithRandomizerOld", true}}

var splitRules = map[string]string{
	"P02": "On every successful path of every splitting entry point, the last byte of an arbitrary share is non-zero and differs from that of an arbitrary other share, whatever the random source returns.",
	"P03": "On every successful path of every splitting entry point, for an arbitrary share i and byte k, the byte equals, as a term of GF(2^8), secret[k] + sum over 1<=s<threshold of tag_i^s * A(s,k), where A is read off the term of the byte, mentions no share, and is the same for any two shares.",
	"P04": "On every successful path of every splitting entry point, the coefficient A(s,k) of an arbitrary byte k and power s is one byte of a draw made in this call from the operating system's secure source or the caller's generator, and the coefficients of two different (s,k) are different bytes of draws. What a buffer held before, a statistical generator, or a failed draw does not count.",
	"P05": "On every path of every splitting entry point, a nil error implies 2 <= threshold <= parts <= 255 and a non-empty secret, and a non-nil error contradicts their conjunction and comes with nil data; no path panics and every index, slice, division and make size is within bounds.",
	"P06": "On every successful path of every splitting entry point, the result has `parts` elements; an arbitrary share is len(secret)+1 bytes long with no spare capacity that could overlap another share, is in memory allocated in this call which neither the arguments, package variables nor pooled buffers can reach, and two arbitrary shares are in different memory.",
}

func checkSplits(r *Report, ids ...string) {
	for _, id := range ids {
		r.rule(splitRules[id])
	}
	r.rule(engineText)
	var names []string
	for _, c := range shamirConfigs(r) {
		for _, e := range splitEntries {
			names = append(names, c.String()+"/"+e.name)
		}
	}
	r.parts(names, func(s *Report, name string) {
		for _, c := range shamirConfigs(s) {
			for _, e := range splitEntries {
				if c.String()+"/"+e.name == name {
					splitPart(s, c, e, ids)
				}
			}
		}
	})
	n := len(splitEntries)
	for _, id := range ids {
		switch id {
		case "P02":
			r.atLeast("tag is not zero", n)
			r.atLeast("tags are distinct", n)
		case "P03":
			r.atLeast("share byte is on the polynomial", n)
		case "P04":
			r.atLeast("coefficient is a secure draw", n)
			r.atLeast("coefficients are different draws", n)
		case "P05":
			r.atLeast("an error is returned only for invalid input", n)
		case "P06":
			r.atLeast("share length", n)
			r.atLeast("shares do not overlap", n)
		}
	}
}

func splitPart(r *Report, c Config, e splitEntry, ids []string) {
	w := load(c)
	ps := []string{"[]byte", "int", "int"}
	if e.gen {
		ps = append(ps, "*"+modPath+"/csprng.CSPRNG")
	}
	fn := w.fnOf(r, "shamir."+e.name, ps...)
	if fn == nil {
		return
	}
	fieldTables(r, w)
	it := newInterp(w, "shamir")
	st := newState()
	args := it.entryArgs(st, fn)
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return
	}
	q := &splitQ{a: a, r: r, e: e, st0: st, secret: args[0].(SliceV), parts: asInt(args[1]), thr: asInt(args[2])}
	a.noAlarms("no run-time panic", nil)
	pre := []specFact{
		{"threshold is at least 2", mkGE(addc(q.thr, -2))},
		{"parts is at least threshold", mkGE(sub(q.parts, q.thr))},
		{"parts is at most 255", mkGE(sub(konst(255), q.parts))},
		{"the secret is not empty", mkGE(addc(q.secret.ln, -1))},
	}
	for _, id := range ids {
		if id == "P05" {
			a.noPanics()
			a.accepts(pre)
		}
	}
	ok := 0
	a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
		if !isNil {
			return
		}
		for _, p := range pre {
			x = x.assume(p.c)
		}
		if x.infeasible() {
			return
		}
		out, isS := data[0].(SliceV)
		if !r.oblige(isS && out.obj != nil, "shares", nm, res.pos, "returns %s", showV(data[0])) {
			return
		}
		ok++
		q.nm, q.res, q.out = nm, res, out
		if !r.oblige(x.prove(mkEq(out.ln, q.parts)), "number of shares", nm, res.pos, "returns %s shares for %s parts", out.ln, q.parts) {
			return
		}
		for _, id := range ids {
			switch id {
			case "P02":
				q.tags(x)
			case "P03":
				q.poly(x)
			case "P04":
				q.coeffs(x)
			case "P06":
				q.shape(x)
			}
		}
	})
	r.oblige(ok > 0, "shares", short(a.name), w.pos(fn.Pos()), "no path returns shares")
}

type splitQ struct {
	a          *Ana
	r          *Report
	e          splitEntry
	st0        *State
	secret     SliceV
	parts, thr *Poly
	nm         string
	res        callRes
	out        SliceV
}

// share enumerates the values of share i.
func (q *splitQ) share(x *Ctx, i *Poly, f func(x *Ctx, s SliceV)) {
	n := 0
	q.a.casesOf(x, q.res.st, q.out, i, func(x *Ctx, e Value) {
		n++
		s, ok := e.(SliceV)
		if q.r.oblige(ok && s.obj != nil, "share", q.nm, q.res.pos, "a share is %s when %s", showV(e), fmtCtx(x)) {
			f(x, s)
		}
	})
	if n == 0 {
		q.r.oblige(false, "share", q.nm, q.res.pos, "the result has no elements")
	}
}

// tag enumerates the values of the last byte of share i.
func (q *splitQ) tag(x *Ctx, i *Poly, f func(x *Ctx, s SliceV, t *BT)) {
	q.share(x, i, func(x *Ctx, s SliceV) {
		if !q.r.oblige(x.prove(mkEq(s.ln, addc(q.secret.ln, 1))), "share length", q.nm, q.res.pos, "a share has %s bytes for a secret of %s", s.ln, q.secret.ln) {
			return
		}
		q.a.casesOf(x, q.res.st, s, q.secret.ln, func(x *Ctx, t Value) { f(x, s, asByte(x.quotV(t))) })
	})
}

func (q *splitQ) tags(x *Ctx) {
	i, j := symP("#p"), symP("#q")
	x = x.assume(mkGE(i), mkLT(i, q.parts))
	q.tag(x, i, func(x *Ctx, s SliceV, t *BT) {
		q.r.oblige(x.prove(notC(mkBEQ(t))), "tag is not zero", q.nm, q.res.pos, "the tag %s may be zero", t)
		q.tag(x.assume(mkGE(j), mkLT(j, i)), j, func(x *Ctx, s2 SliceV, u *BT) {
			q.r.oblige(x.prove(notC(mkBEQ(bxor(t, u)))), "tags are distinct", q.nm, q.res.pos, "two tags may be equal: %s and %s", t, u)
		})
	})
}

// byteAt enumerates the bytes of share i at position k, with its tag and the candidate coefficient.
func (q *splitQ) byteAt(x *Ctx, i, k, s *Poly, f func(x *Ctx, v, t *BT, as []*BT)) {
	q.tag(x, i, func(x *Ctx, sh SliceV, t *BT) {
		q.a.casesOf(x, q.res.st, sh, k, func(x *Ctx, v Value) {
			b := asByte(x.quotV(v))
			as := coefficients(x, b, t, s, q.thr)
			if !q.r.oblige(len(as) > 0, "share byte is a polynomial in the tag", q.nm, q.res.pos, "the byte is %s with tag %s", b, t) {
				return
			}
			f(x, b, t, as)
		})
	})
}

func (q *splitQ) secretAt(k *Poly) *BT {
	s := q.secret
	return asByte(sliceCell(q.st0, s, k))
}

// onPoly: v = secret[k] + sum of t^s * A(s), with A one of the candidates.
func (q *splitQ) onPoly(x *Ctx, v, t *BT, k, s *Poly, as []*BT) *BT {
	sv := s.single()
	u, uP := vvar("pw")
	for _, a := range as {
		at := func(p *Poly) *BT { return substB(a, sv, p) }
		pw := func(p *Poly) *BT { return bmul(bpow(t, p), at(p)) }
		sum := func(lo, hi *Poly) *BT { return bsum(u, lo, hi, nil, pw(uP)) }
		n := addc(q.thr, -1)
		// the same sum with its ends written in different ways
		for _, want := range []*BT{
			bxor(at(konst(0)), sum(konst(0), n), pw(n)),
			bsum(u, konst(0), n, nil, pw(addc(uP, 1))),
			bxor(at(konst(0)), sum(konst(0), q.thr)),
			bxor(pw(konst(1)), sum(konst(2), q.thr)),
			bxor(sum(konst(1), n), pw(n)),
		} {
			if eqB(x, v, bxor(q.secretAt(k), want)) {
				return a
			}
		}
	}
	return nil
}

func (q *splitQ) poly(x *Ctx) {
	i, j, k, s := symP("#p"), symP("#q"), symP("#k"), symP("#s")
	x = x.assume(mkGE(i), mkLT(i, q.parts), mkGE(k), mkLT(k, q.secret.ln))
	q.byteAt(x, i, k, s, func(x *Ctx, v, t *BT, as []*BT) {
		a := q.onPoly(x, v, t, k, s, as)
		if !q.r.oblige(a != nil, "share byte is on the polynomial", q.nm, q.res.pos, "the byte of a share is %s, which is not a polynomial of degree threshold-1 through secret[k] at its tag %s, when %s", v, t, fmtCtx(x)) {
			return
		}
		q.r.oblige(!a.has(i.single()), "coefficients do not depend on the share", q.nm, q.res.pos, "the coefficient is %s", a)
		y := x.assume(mkGE(j), mkLT(j, q.parts), mkGE(addc(s, -1)), mkLT(s, q.thr))
		q.byteAt(y, j, k, s, func(y *Ctx, v2, t2 *BT, bs []*BT) {
			ok := false
			for _, b := range bs {
				ok = ok || eqB(y, a, b)
			}
			q.r.oblige(ok, "two shares have the same polynomial", q.nm, q.res.pos, "coefficients %s and %v", a, bs)
		})
	})
}

func (q *splitQ) coeffs(x *Ctx) {
	i, k, s, k2, s2 := symP("#p"), symP("#k"), symP("#s"), symP("#k'"), symP("#s'")
	x = x.assume(mkGE(i), mkLT(i, q.parts), mkGE(k), mkLT(k, q.secret.ln))
	in := func(x *Ctx, s *Poly) *Ctx { return x.assume(mkGE(addc(s, -1)), mkLT(s, q.thr)) }
	q.byteAt(x, i, k, s, func(x *Ctx, v, t *BT, as []*BT) {
		a := q.onPoly(x, v, t, k, s, as)
		if !q.r.oblige(a != nil, "share byte is on the polynomial", q.nm, q.res.pos, "the byte of a share is %s with tag %s when %s", v, t, fmtCtx(x)) {
			return
		}
		at := drawAtom(a)
		if !q.r.oblige(at != nil, "coefficient is a secure draw", q.nm, q.res.pos, "the coefficient of the s-th power is %s", a) {
			return
		}
		// another power of the same byte
		y := in(in(x, s), s2).assume(mkLT(s, s2))
		b := substB(a, s.single(), s2).single()
		q.r.oblige(b != nil && drawsDiffer(y, at, b), "coefficients are different draws", q.nm, q.res.pos, "two powers of one byte may have the same coefficient: %s and %s", a, substB(a, s.single(), s2))
		// another byte
		z := x.assume(mkGE(k2), mkLT(k2, k))
		// products of facts that are known
		z = z.assume(mkGE(mul(sub(addc(k, -1), k2), q.thr)), mkGE(mul(sub(addc(k, -1), k2), addc(q.thr, -1))))
		q.byteAt(z, i, k2, s2, func(z *Ctx, v, t *BT, as []*BT) {
			a2 := q.onPoly(z, v, t, k2, s2, as)
			if a2 == nil {
				return // reported above
			}
			b := drawAtom(a2)
			z = in(in(z, s), s2)
			q.r.oblige(b != nil && drawsDiffer(z, at, b), "coefficients are different draws", q.nm, q.res.pos, "two bytes may have the same coefficient: %s and %s when %s", a, a2, fmtCtx(z))
		})
	})
}

// drawAtom: the value is one byte of a draw from a secure source.
func drawAtom(b *BT) *Atom {
	a := b.single()
	if a == nil || a.kind != BSel || !(strings.HasPrefix(a.name, "sec:") || strings.HasPrefix(a.name, "gen:")) {
		return nil
	}
	return a
}

func drawsDiffer(x *Ctx, a, b *Atom) bool {
	if a.name != b.name || len(a.ps) != len(b.ps) || x.infeasible() || x.proveIdxNE(a.ps, b.ps) {
		return true
	}
	for k := range a.ps {
		x = x.assume(mkEq(a.ps[k], b.ps[k]))
	}
	return x.infeasible()
}

// coefficients of t^s in v, for the symbol s with 1 <= s < n: candidates, each
// valid under some condition on s.
func coefficients(x *Ctx, v, t *BT, s, n *Poly) []*BT {
	ta := t.single()
	if ta == nil {
		return nil
	}
	type term struct {
		c   *Cond
		val *BT
	}
	var ts []term
	ok := true
	var walk func(m bmon, e *Poly, rest *BT, c *Cond, depth int)
	walk = func(m bmon, e *Poly, rest *BT, c *Cond, depth int) {
		rest = bmul(rest, bconst(m.c))
		var sum *Atom
		for _, f := range m.f {
			switch {
			case f.a == ta:
				e = add(e, f.e)
			case f.a.kind == BSum && mentions(f.a, ta) && sum == nil && f.e.isC(1):
				sum = f.a
			case mentions(f.a, ta):
				ok = false
			default:
				rest = bmul(rest, internBT([]bmon{{1, []bfac{f}}}))
			}
		}
		if sum == nil {
			ts = append(ts, term{andC(c, mkEq(e, s)), rest})
			return
		}
		if depth > 0 {
			ok = false
			return
		}
		for _, bm := range sum.bs[0].m {
			// exponent a*v + b of t in the body
			eb := konst(0)
			for _, f := range bm.f {
				if f.a == ta {
					eb = add(eb, f.e)
				}
			}
			a, b, lin := eb.linIn(sum.v)
			if !lin || b.has(sum.v) || !(a.isC(1) || a.isC(-1)) {
				ok = false
				return
			}
			// a*v + b + e = s
			at := mul(a, sub(s, add(b, e)))
			in := andC(mkGE(sub(at, sum.ps[0])), mkLT(at, sum.ps[1]))
			one := substB(internBT([]bmon{bm}), sum.v, at)
			for _, om := range one.m {
				var fs []bfac
				for _, f := range om.f {
					if f.a != ta {
						fs = append(fs, f)
					}
				}
				ts = append(ts, term{andC(c, in), bmul(rest, internBT([]bmon{{om.c, fs}}))})
			}
		}
	}
	for _, m := range v.m {
		walk(m, konst(0), bconst(1), condTrue, 0)
	}
	if !ok {
		return nil
	}
	var out []*BT
	seen := map[*BT]bool{}
	y := x.assume(mkGE(addc(s, -1)), mkLT(s, n))
	var cases func(x *Ctx, k int, acc *BT)
	cases = func(x *Ctx, k int, acc *BT) {
		if x.infeasible() {
			return
		}
		for ; k < len(ts); k++ {
			d := x.decide(ts[k].c)
			if d == 1 {
				acc = bxor(acc, ts[k].val)
			}
			if d == 0 {
				cases(x.assume(ts[k].c), k+1, bxor(acc, ts[k].val))
				cases(x.assume(notC(ts[k].c)), k+1, acc)
				return
			}
		}
		for _, a := range []*BT{acc, x.simpB(acc)} {
			if !seen[a] && len(out) < 12 {
				seen[a] = true
				out = append(out, a)
			}
		}
	}
	cases(y, 0, bconst(0))
	return out
}

func mentions(a, t *Atom) bool {
	found := false
	atomBT(a).walk(func(b *Atom) { found = found || b == t })
	return found
}

func (q *splitQ) shape(x *Ctx) {
	r := q.r
	i, j := symP("#p"), symP("#q")
	x = x.assume(mkGE(i), mkLT(i, q.parts))
	reach := q.reachable()
	r.oblige(q.out.obj.site != "" && q.res.st.obj(q.out.obj).kind == "alloc" && !reach[q.out.obj.site], "result memory is new", q.nm, q.res.pos, "the list of shares is %s", showV(q.out))
	q.tag(x, i, func(x *Ctx, s SliceV, t *BT) {
		o := q.res.st.obj(s.obj)
		r.oblige(o.kind == "alloc" && !reach[s.obj.site], "share memory is new", q.nm, q.res.pos, "a share is in memory (%s) that others can reach: %s", o.kind, showV(s))
		q.tag(x.assume(mkGE(j), mkLT(j, i)), j, func(x *Ctx, s2 SliceV, u *BT) {
			full := func(s SliceV) SliceV { s.ln = s.cp; return s }
			r.oblige(s.obj.site != s2.obj.site || disjointInst(x, full(s), full(s2)), "shares do not overlap", q.nm, q.res.pos, "two shares, or the spare capacity behind one, may share memory: %s and %s", showV(s), showV(s2))
		})
	})
}

// reachable: the objects that arguments, package variables and pooled memory
// refer to, or that have been released to a pool.
func (q *splitQ) reachable() map[string]bool {
	st := q.res.st
	out := map[string]bool{}
	var work []string
	add := func(s string) {
		if !out[s] {
			out[s] = true
			work = append(work, s)
		}
	}
	for _, k := range sortedKeys(st.objs) {
		o := st.objs[k]
		if strings.HasPrefix(k, "g:") || o.kind == "pooled" || o.kind != "alloc" && o.kind != "map" && o.kind != "chan" && o.kind != "model" {
			add(k)
		}
	}
	for f, on := range st.flags {
		if on && strings.HasPrefix(f, "released:") {
			f = strings.TrimPrefix(f, "released:")
			if n := strings.IndexByte(f, '['); n > 0 && st.objs[f] == nil {
				f = f[:n]
			}
			add(f)
		}
	}
	for len(work) > 0 {
		o := st.objs[work[0]]
		work = work[1:]
		if o == nil {
			continue
		}
		refs(o.base, add)
		for _, e := range o.ents {
			refs(e.val, add)
		}
	}
	return out
}

// refs calls f with the objects a value refers to.
func refs(v Value, f func(site string)) {
	switch x := v.(type) {
	case SliceV:
		if x.obj != nil {
			f(x.obj.site)
		}
	case PtrV:
		if x.obj != nil {
			f(x.obj.site)
		}
	case TupleV:
		for _, y := range x {
			refs(y, f)
		}
	case OpaqueV:
		for _, y := range x.args {
			refs(y, f)
		}
	case IfaceV:
		refs(x.dyn, f)
	case StructV:
		for _, y := range x.f {
			refs(y, f)
		}
	case FuncV:
		for _, y := range x.binds {
			refs(y, f)
		}
	case MapV:
		if x.obj != nil {
			f(x.obj.site + ".val")
			f(x.obj.site)
		}
	case ChanV:
		if x.obj != nil {
			f(x.obj.site)
		}
	case ArrayV:
		refs(x.base, f)
		if x.src != nil {
			f(x.src.site)
		}
	}
}

func checkP01(r *Report) {
	r.rule("Recovery is decided by its parts: on every splitting path the tags are distinct and non-zero (P02) and each byte of each share is the value at its tag of one polynomial of degree below threshold through the secret byte (P03); combining accepts exactly the well-formed lists (P07) and returns the value at zero of the lowest-degree polynomial through all given points (P08); at least threshold points determine the sharing polynomial, whatever their order. The field operations and vector operations used are those of GF(2^8) (F01, F02, included).")
	checkSplits(r, "P02", "P03", "P06")
	r.parts([]string{"combine"}, func(s *Report, _ string) {
		checkP08(s)
	})
	r.atLeast("combined byte", 1)
}
