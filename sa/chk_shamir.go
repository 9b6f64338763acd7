package main

import "golang.org/x/tools/go/ssa"

// P07, P08, P09: combining and regenerating Shamir shares.

func init() {
	const tech = "abstract interpretation with a relational domain of integer and GF(2^8) terms, summarised loops"
	register("P07", tech, checkP07)
	register("P08", tech, checkP08)
	register("P09", tech, checkP09)
}

// shareList describes a [][]byte argument on entry.
type shareList struct {
	n  *Poly
	ln func(i *Poly) *Poly
	at func(i, j *Poly) *BT
}

func shareListOf(st *State, v Value) shareList {
	s := v.(SliceV)
	return shareList{
		n:  s.ln,
		ln: func(i *Poly) *Poly { return sliceCell(st, s, i).(SliceV).ln },
		at: func(i, j *Poly) *BT { return asByte(sliceCell(st, sliceCell(st, s, i).(SliceV), j)) },
	}
}

func (s shareList) size() *Poly                { return s.ln(konst(0)) }
func (s shareList) tag(i *Poly) *BT            { return s.at(i, addc(s.size(), -1)) }
func vvar(n string) (*Atom, *Poly)             { a := symAtom("#" + n); return a, atomPoly(a) }
func all(v *Atom, lo, hi *Poly, c *Cond) *Cond { return quant(CAll, v, lo, hi, c) }

// valid: at least two shares, of one length of at least 2, with distinct tags.
func (s shareList) valid() []specFact {
	a, i := vvar("va")
	b, j := vvar("vb")
	return []specFact{
		{"there are at least two shares", mkGE(addc(s.n, -2))},
		{"shares have at least two bytes", mkGE(addc(s.size(), -2))},
		{"shares have equal lengths", all(a, konst(0), s.n, mkEq(s.ln(i), s.size()))},
		{"tags are distinct", all(a, konst(0), s.n, all(b, konst(0), i, notC(mkBEQ(bxor(s.tag(i), s.tag(j))))))},
	}
}

type specFact struct {
	what string
	c    *Cond
}

// lagrange: the value at x of the polynomial of lowest degree through the points (tag_i, y_i),
// in the equal forms a computation of it may take.
func (s shareList) lagrange(x *BT, k *Poly) []*BT {
	av, a := vvar("la")
	bv, b := vvar("lb")
	num := func(m *Poly) *BT { return bxor(x, s.tag(m)) }
	den := func(m *Poly) *BT { return bxor(s.tag(a), s.tag(m)) }
	both := func(f func(m *Poly) *BT) *BT {
		return bmul(bprod(bv, konst(0), a, f(b)), bprod(bv, konst(0), sub(addc(s.n, -1), a), f(add(addc(a, 1), b))))
	}
	var out []*BT
	for _, e := range []int64{254, -1} {
		inv := konst(e)
		for _, basis := range []*BT{
			both(func(m *Poly) *BT { return bmul(num(m), bpow(den(m), inv)) }),
			bmul(both(num), both(func(m *Poly) *BT { return bpow(den(m), inv) })),
			bmul(both(num), bpow(both(den), inv)),
		} {
			out = append(out, bsum(av, konst(0), s.n, nil, bmul(s.at(a, k), basis)))
		}
	}
	return out
}

// splitErr: the outcomes of a path by whether the error (last result) is nil.
func (a *Ana) outcomes(f func(nm string, x *Ctx, res callRes, isNil bool, data []Value)) {
	for k, res := range a.res {
		nm := sprintf("%s, path %d", short(a.name), k+1)
		if res.panic != "" {
			continue
		}
		tv, ok := res.val.(TupleV)
		if !ok || len(tv) < 2 {
			a.r.oblige(false, "data and error are returned", nm, res.pos, "returns %s", showV(res.val))
			continue
		}
		e, ok := tv[len(tv)-1].(IfaceV)
		if !a.r.oblige(ok, "data and error are returned", nm, res.pos, "returns %s as the error", showV(tv[len(tv)-1])) {
			continue
		}
		for _, isNil := range []bool{true, false} {
			c := e.nilc
			if !isNil {
				c = notC(c)
			}
			x := res.st.ctx.assume(c)
			if x.infeasible() || x.prove(notC(c)) {
				continue
			}
			f(nm, x, res, isNil, tv[:len(tv)-1])
		}
	}
}

func (a *Ana) noPanics() {
	for k, res := range a.res {
		if res.panic == "" {
			continue
		}
		a.r.oblige(res.st.ctx.infeasible(), "no panic", sprintf("%s, path %d", short(a.name), k+1), res.pos, "panics (%s) when %s", res.panic, fmtCtx(res.st.ctx))
	}
	a.r.oblige(true, "no panic", short(a.name), "", "")
}

// nilData: v is a nil slice.
func nilData(x *Ctx, v Value) bool {
	s, ok := v.(SliceV)
	return ok && (s.obj == nil || x.prove(s.isNil))
}

func nonNilData(x *Ctx, v Value) bool {
	s, ok := v.(SliceV)
	return ok && s.obj != nil && x.prove(notC(s.isNil))
}

// accepts: the function returns an error, with nil data, exactly when one of the facts fails.
func (a *Ana) accepts(pre []specFact) {
	var cs []*Cond
	for _, p := range pre {
		cs = append(cs, p.c)
	}
	a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
		if isNil {
			for _, p := range pre {
				a.r.oblige(x.prove(p.c), "success only if "+p.what, nm, res.pos, "returns no error although it is not known that %s: %s", p.what, fmtCtx(x))
			}
			for _, d := range data {
				a.r.oblige(nonNilData(x, d), "success returns data", nm, res.pos, "returns %s", showV(d))
			}
			return
		}
		y := x.assume(cs...)
		a.r.oblige(y.infeasible(), "an error is returned only for invalid input", nm, res.pos, "returns an error for input that may be valid: %s", fmtCtx(x))
		for _, d := range data {
			a.r.oblige(nilData(x, d), "no data with an error", nm, res.pos, "returns %s with an error", showV(d))
		}
	})
}

func (w *World) fnOf(r *Report, name string, params ...string) *ssa.Function {
	fn := w.findFn(name)
	if !r.oblige(fn != nil, "entry point exists", name, "", "no such function on %s", w.cfg) {
		return nil
	}
	ok := len(fn.Params) == len(params)
	for i := 0; ok && i < len(params); i++ {
		ok = fn.Params[i].Type().String() == params[i]
	}
	if !r.oblige(ok, "entry point exists", name+" signature", w.pos(fn.Pos()), "unexpected signature %s", fn.Signature) {
		return nil
	}
	return fn
}

func shamirConfigs(r *Report) []Config {
	if r.tier == "thorough" {
		return []Config{cfgAMD64, cfgARM64, cfgNoasm}
	}
	return []Config{cfgAMD64}
}

const bs2 = "[][]byte"

func combineAna(r *Report, c Config) (*Ana, shareList) {
	w := load(c)
	fn := w.fnOf(r, "shamir.Combine", bs2)
	if fn == nil {
		return nil, shareList{}
	}
	it := newInterp(w, "shamir")
	st := newState()
	args := it.entryArgs(st, fn)
	sl := shareListOf(st, args[0])
	return analyse(r, it, fn, st, args), sl
}

func regenAna(r *Report, c Config) (*Ana, shareList, *Poly) {
	w := load(c)
	fn := w.fnOf(r, "shamir.Regenerate", bs2, "int")
	if fn == nil {
		return nil, shareList{}, nil
	}
	it := newInterp(w, "shamir")
	st := newState()
	args := it.entryArgs(st, fn)
	sl := shareListOf(st, args[0])
	return analyse(r, it, fn, st, args), sl, asInt(args[1])
}

func (s shareList) countOK(m *Poly) []specFact {
	return []specFact{
		{"the count is not negative", mkGE(m)},
		{"given and new shares are at most 255", mkGE(sub(konst(255), add(m, s.n)))},
	}
}

const engineText = "The function is interpreted over symbolic shares, with all functions of its package inlined, loops summarised by inductive facts that are verified for an arbitrary iteration, and every run-time check (index, slice bound, division, make size) a proof obligation. "

func checkP07(r *Report) {
	r.rule(engineText + "On every path of shamir.Combine and shamir.Regenerate, a nil error implies each part of the validity of the share list (at least two shares, of one length of at least two, with distinct tags), and a non-nil error contradicts their conjunction (and, for Regenerate, the admissible counts) and comes with nil data. No path panics.")
	var names []string
	for _, c := range shamirConfigs(r) {
		names = append(names, c.String()+"/Combine", c.String()+"/Regenerate")
	}
	r.parts(names, func(r *Report, name string) {
		for _, c := range shamirConfigs(r) {
			if name == c.String()+"/Combine" {
				if a, sl := combineAna(r, c); a != nil {
					a.noAlarms("no run-time panic", nil)
					a.noPanics()
					a.accepts(sl.valid())
				}
			}
			if name == c.String()+"/Regenerate" {
				if b, sl, m := regenAna(r, c); b != nil {
					b.noAlarms("no run-time panic", nil)
					b.noPanics()
					b.accepts(append(sl.valid(), sl.countOK(m)...))
				}
			}
		}
	})
	r.atLeast("an error is returned only for invalid input", 2)
	r.atLeast("success returns data", 2)
}

func checkP08(r *Report) {
	r.rule(engineText + "On every path of shamir.Combine that returns no error, the result is one byte shorter than a share, and its byte at an arbitrary position equals, as a term of GF(2^8), the Lagrange sum at zero over all the points (tag, byte) of the given shares; the sum is symmetric in the shares.")
	for _, c := range shamirConfigs(r) {
		fieldTables(r, load(c))
		a, sl := combineAna(r, c)
		if a == nil {
			continue
		}
		a.noAlarms("no run-time panic", nil)
		a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
			if !isNil {
				return
			}
			out, ok := data[0].(SliceV)
			if !r.oblige(ok && out.obj != nil, "combined secret", nm, res.pos, "returns %s", showV(data[0])) {
				return
			}
			r.oblige(x.prove(mkEq(out.ln, addc(sl.size(), -1))), "combined length", nm, res.pos, "returns %s bytes for shares of %s", out.ln, sl.size())
			k := symP("#k")
			y := x.assume(mkGE(k), mkLT(k, out.ln))
			a.elements(y, res, out, k, nm, "combined byte", sl.lagrange(bconst(0), k))
		})
	}
	r.atLeast("combined byte", 1)
}

// elements: the element of out at index k equals want in every case.
func (a *Ana) elements(x *Ctx, res callRes, out SliceV, k *Poly, nm, rule string, want []*BT) {
	n := 0
	a.casesOf(x, res.st, out, k, func(y *Ctx, e Value) {
		n++
		ok := false
		for _, b := range want {
			ok = ok || eqVal(y, e, ByteV{b})
		}
		a.r.oblige(ok, rule, sprintf("%s, case %d", nm, n), res.pos, "the byte is %s, not %s, when %s", showV(e), want[0], fmtCtx(y))
	})
	a.r.oblige(n > 0, rule, nm, res.pos, "the element has no value")
}

// casesOf enumerates the guarded values of an element under x.
func (a *Ana) casesOf(x *Ctx, st *State, s SliceV, i *Poly, f func(x *Ctx, v Value)) {
	for _, c := range cellCases(x, runsMerged(x, st.obj(s.obj)), s.obj.inst, add(s.off, i)) {
		y := x.assume(c.g)
		if y.infeasible() {
			continue
		}
		f(y, c.v)
		x = x.assume(notC(c.g))
		if c.g == condTrue || x.infeasible() {
			return
		}
	}
}

func checkP09(r *Report) {
	r.rule(engineText + "On every path of shamir.Regenerate that returns no error, the result holds exactly the requested number of new shares of the length of the given ones, each in memory of its own; the last byte of an arbitrary new share is non-zero, differs from the tag of an arbitrary given share and from that of an arbitrary other new share, for every outcome of the random source; each other byte equals the Lagrange sum at that tag over all given shares. Errors as in P07, for every count.")
	for _, c := range shamirConfigs(r) {
		fieldTables(r, load(c))
		a, sl, m := regenAna(r, c)
		if a == nil {
			continue
		}
		a.noAlarms("no run-time panic", nil)
		a.noPanics()
		a.accepts(append(sl.valid(), sl.countOK(m)...))
		a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
			if !isNil {
				return
			}
			out, ok := data[0].(SliceV)
			if !r.oblige(ok && out.obj != nil, "new shares", nm, res.pos, "returns %s", showV(data[0])) {
				return
			}
			r.oblige(x.prove(mkEq(out.ln, m)), "number of new shares", nm, res.pos, "returns %s shares for a count of %s", out.ln, m)
			p, q, k, g := symP("#p"), symP("#q"), symP("#k"), symP("#g")
			x = x.assume(mkGE(p), mkLT(p, m))
			y := x.assume(mkGE(q), mkLT(q, p))
			last := addc(sl.size(), -1)
			if x.infeasible() {
				return
			}
			shares := 0
			a.casesOf(x, res.st, out, p, func(x *Ctx, e Value) {
				sh, ok := e.(SliceV)
				if !r.oblige(ok && sh.obj != nil, "new share", nm, res.pos, "holds %s", showV(e)) {
					return
				}
				shares++
				r.oblige(x.prove(mkEq(sh.ln, sl.size())), "new share length", nm, res.pos, "a new share has %s bytes, not %s", sh.ln, sl.size())
				a.casesOf(x, res.st, sh, last, func(x *Ctx, t Value) {
					tag := asByte(t)
					r.oblige(x.prove(notC(mkBEQ(tag))), "new tag is not zero", nm, res.pos, "a new tag may be zero: %s", tag)
					z := x.assume(mkGE(g), mkLT(g, sl.n))
					r.oblige(z.prove(notC(mkBEQ(bxor(tag, sl.tag(g))))), "new tag differs from given tags", nm, res.pos, "a new tag may be that of a given share: %s", fmtCtx(z))
					z = x.assume(mkGE(k), mkLT(k, last))
					a.elements(z, res, sh, k, nm, "new share byte", sl.lagrange(tag, k))
				})
			})
			// two new shares q < p
			a.casesOf(y, res.st, out, p, func(y *Ctx, e Value) {
				a.casesOf(y, res.st, out, q, func(y *Ctx, e2 Value) {
					s1, ok1 := e.(SliceV)
					s2, ok2 := e2.(SliceV)
					if !ok1 || !ok2 || s1.obj == nil || s2.obj == nil {
						return
					}
					r.oblige(s1.obj.site != s2.obj.site || disjointInst(y, s1, s2), "new shares do not overlap", nm, res.pos, "two new shares may share memory: %s and %s", showV(e), showV(e2))
					a.casesOf(y, res.st, s1, last, func(y *Ctx, t1 Value) {
						a.casesOf(y, res.st, s2, last, func(y *Ctx, t2 Value) {
							r.oblige(y.prove(notC(mkBEQ(bxor(asByte(t1), asByte(t2))))), "new tags are distinct", nm, res.pos, "two new tags may be equal: %s and %s", showV(t1), showV(t2))
						})
					})
				})
			})
			r.oblige(shares > 0, "new share", nm, res.pos, "the result has no elements")
		})
	}
	r.atLeast("new share byte", 1)
	r.atLeast("new tags are distinct", 1)
}

// disjointInst: the slices are in different instances of an object, or in disjoint ranges.
func disjointInst(x *Ctx, a, b SliceV) bool {
	for k := range a.obj.inst {
		if k < len(b.obj.inst) && x.prove(mkNE(sub(a.obj.inst[k], b.obj.inst[k]))) {
			return true
		}
	}
	return x.prove(mkLE(add(a.off, a.ln), b.off)) || x.prove(mkLE(add(b.off, b.ln), a.off))
}
