package main

import (
	"strings"
)

// K02, K04: splitting into short shares.

func init() {
	const tech = "abstract interpretation with a relational domain of integer, byte and key-stream terms, summarised loops"
	register("K02", tech, func(r *Report) { checkShortSplits(r, "K02") })
	register("K04", tech, func(r *Report) { checkShortSplits(r, "K04") })
	register("R02", tech, checkR02)
}

var shortEntries = []splitEntry{{"Split", false}, {"SplitWithRandomizer", true}}

var shortRules = map[string]string{
	"K02": "On every path of every short-share splitting entry point, a nil error implies 2 <= threshold <= parts <= 255 and a secret of 1 to 2^32-1 bytes, and a non-nil error contradicts their conjunction and comes with nil data; no path panics; on success there are `parts` shares and an arbitrary one has floor((len(secret)-1)/threshold)+23 bytes.",
	"R02": "On every path of every short-share splitting entry point that encrypts, the key of each cipher is 16 bytes, each a different byte of draws made in this call from the operating system's secure source or the caller's generator. Each generator's key and IV are the bytes given to its constructor or 32 different bytes drawn from the secure source, and it hands out the AES-CTR key stream of that key and IV. Each polynomial coefficient is one such draw (the rule of P04).",
	"K04": "On every successful path of every short-share splitting entry point: the data handed to the erasure code is, byte by byte, the secret xored with the key stream of a cipher at pairwise different positions, followed by constants; the key is 16 bytes, each a different byte of draws made in this call from the operating system's secure source or the caller's generator; one cipher stream is made with it; an arbitrary byte of an arbitrary share is a byte of an erasure-coded fragment, of a Shamir share, or a number that depends on neither secret nor key; the Shamir shares are those of the key and of numbers, split with the same parts and threshold; and no argument, package variable or pooled buffer holds anything that depends on the key afterwards.",
}

func checkShortSplits(r *Report, id string) {
	r.rule(shortRules[id])
	r.rule(engineText)
	r.assumes("the contracts of package shamir (P03-P06) and of reedsolomon v1.9.15, crypto/aes and crypto/cipher")
	for _, c := range shamirConfigs(r) {
		for _, e := range shortEntries {
			shortSplitPart(r, c, e, id)
		}
	}
	n := len(shortEntries)
	switch id {
	case "K02":
		r.atLeast("an error is returned only for invalid input", n)
		r.atLeast("share length", n)
	case "R02":
		r.atLeast("the key is drawn in full", n)
	case "K04":
		r.atLeast("share byte carries no plaintext", n)
		r.atLeast("the code sees only ciphertext", n)
		r.atLeast("the key is drawn in full", n)
		r.atLeast("only the key and numbers are secret-shared", n)
	}
}

// checkR02: where keys, IVs and coefficients come from.
func checkR02(r *Report) {
	checkShortSplits(r, "R02")
	checkSplits(r, "P04")
	for _, c := range shamirConfigs(r) {
		w := load(c)
		csprngGen.stream(r, w)
		randomizerGen.stream(r, w)
	}
	r.atLeast("the key is drawn from the secure source", 2)
	r.atLeast("the IV is drawn from the secure source", 2)
}

type shortSplit struct {
	a          *Ana
	r          *Report
	st0        *State
	secret     SliceV
	parts, thr *Poly
}

func shortSplitAna(r *Report, c Config, e splitEntry) *shortSplit {
	w := load(c)
	ps := []string{"[]byte", "int", "int"}
	if e.gen {
		ps = append(ps, "*"+modPath+"/csprng.CSPRNG")
	}
	fn := w.fnOf(r, "krawczyk."+e.name, ps...)
	if fn == nil {
		return nil
	}
	it := newInterp(w, "krawczyk")
	st := newState()
	args := it.entryArgs(st, fn)
	a := analyse(r, it, fn, st, args)
	if !a.ok {
		return nil
	}
	return &shortSplit{a: a, r: r, st0: st, secret: args[0].(SliceV), parts: asInt(args[1]), thr: asInt(args[2])}
}

func (q *shortSplit) valid() []specFact {
	return []specFact{
		{"threshold is at least 2", mkGE(addc(q.thr, -2))},
		{"parts is at least threshold", mkGE(sub(q.parts, q.thr))},
		{"parts is at most 255", mkGE(sub(konst(255), q.parts))},
		{"the secret is not empty", mkGE(addc(q.secret.ln, -1))},
		{"the secret is below 4 GiB", mkGE(sub(konst(1<<32-1), q.secret.ln))},
	}
}

func shortSplitPart(r *Report, c Config, e splitEntry, id string) {
	q := shortSplitAna(r, c, e)
	if q == nil {
		return
	}
	a := q.a
	if id == "R02" {
		q.cipherKeys()
		return
	}
	a.noAlarms("no run-time panic", nil)
	if id == "K02" {
		a.noPanics()
		a.accepts(q.valid())
	}
	ok := 0
	a.outcomes(func(nm string, x *Ctx, res callRes, isNil bool, data []Value) {
		if !isNil {
			return
		}
		for _, p := range q.valid() {
			x = x.assume(p.c)
		}
		if x.infeasible() {
			return
		}
		out, isS := data[0].(SliceV)
		if !r.oblige(isS && out.obj != nil, "shares", nm, res.pos, "returns %s", showV(data[0])) {
			return
		}
		ok++
		i, k := symP("#p"), symP("#k")
		r.oblige(x.prove(mkEq(out.ln, q.parts)), "number of shares", nm, res.pos, "returns %s shares for %s parts", out.ln, q.parts)
		x = x.assume(mkGE(i), mkLT(i, q.parts))
		n := 0
		a.casesOf(x, res.st, out, i, func(x *Ctx, v Value) {
			n++
			s, isS := v.(SliceV)
			if !r.oblige(isS && s.obj != nil, "share", nm, res.pos, "a share is %s when %s", showV(v), fmtCtx(x)) {
				return
			}
			size := addc(divP(addc(q.secret.ln, -1), q.thr), 23)
			r.oblige(x.prove(mkEq(s.ln, size)), "share length", nm, res.pos, "a share has %s bytes, not %s", s.ln, size)
			if id != "K04" {
				return
			}
			y := x.assume(mkGE(k), mkLT(k, s.ln))
			a.casesOf(y, res.st, s, k, func(y *Ctx, v Value) {
				b := asByte(y.quotV(v))
				bad := carries(b, func(t *Atom) bool {
					return strings.HasPrefix(t.name, "ss:") || strings.HasPrefix(t.name, "rsenc:")
				})
				r.oblige(bad == nil, "share byte carries no plaintext", nm, res.pos, "a byte of a share is %s when %s", b, fmtCtx(y))
			})
		})
		r.oblige(n > 0, "share", nm, res.pos, "the result has no elements")
		if id == "K04" {
			q.keyStays(nm, x, res)
		}
	})
	r.oblige(ok > 0, "shares", short(a.name), q.a.w.pos(q.a.fn.Pos()), "no path returns shares")
	if id == "K04" {
		q.crypto(e)
	}
}

// carries finds an atom of b, other than the allowed ones, that is a byte of memory or of a draw.
func carries(b *BT, allowed func(a *Atom) bool) *Atom {
	var bad *Atom
	b.walk(func(a *Atom) {
		if bad != nil {
			return
		}
		switch a.kind {
		case BSel, BOpq:
			if a.name != "byteof" && !allowed(a) {
				bad = a
			}
		case ASym, AApp:
			if strings.HasPrefix(a.name, "hv:") || strings.HasPrefix(a.name, "$") {
				bad = a
			}
		}
	})
	return bad
}

// cipherKeys: every cipher is keyed in full from draws of this call.
func (q *shortSplit) cipherKeys() {
	r, a := q.r, q.a
	nm := short(a.name)
	ciphers := 0
	for _, key := range sortedKeys(a.it.notes) {
		n := a.it.notes[key]
		if !strings.HasPrefix(n.kind, "cipher:") {
			continue
		}
		x := n.ctx
		for _, p := range q.valid() {
			x = x.assume(p.c)
		}
		if x.infeasible() {
			continue
		}
		ciphers++
		kl := asInt(n.vals[1])
		r.oblige(x.prove(mkEq(kl, konst(16))), "the key has 128 bits", nm, n.pos, "the key has %s bytes", kl)
		q.fullDraw(x, nm, n.pos, n.vals[0].(ByteV).b, konst(16))
	}
	r.oblige(ciphers > 0, "the secret is encrypted", nm, q.a.w.pos(q.a.fn.Pos()), "no cipher stream is made")
}

// crypto: what the ciphers, the erasure code and the secret sharing are given.
func (q *shortSplit) crypto(e splitEntry) {
	r, a := q.r, q.a
	nm := short(a.name)
	kb := atomPoly(kbv)
	ciphers, codes, shares := 0, 0, 0
	var made []*Ctx
	for _, key := range sortedKeys(a.it.notes) {
		n := a.it.notes[key]
		x := n.ctx
		for _, p := range q.valid() {
			x = x.assume(p.c)
		}
		if x.infeasible() {
			continue
		}
		switch {
		case strings.HasPrefix(n.kind, "cipher:"):
			ciphers++
			r.oblige(len(n.st.inst) == 0, "one stream is made with the key", nm, n.pos, "a stream is made in a loop")
			for _, m := range made {
				y := m
				for _, c := range x.list() {
					y = y.assume(c)
				}
				r.oblige(y.infeasible(), "one stream is made with the key", nm, n.pos, "several streams may be made on one path")
			}
			made = append(made, x)
			ks := n.vals[0].(ByteV).b
			kl := asInt(n.vals[1])
			r.oblige(x.prove(mkEq(kl, konst(16))), "the key has 128 bits", nm, n.pos, "the key has %s bytes", kl)
			q.fullDraw(x, nm, n.pos, ks, konst(16))
		case strings.HasPrefix(n.kind, "key:"):
		case n.kind == "rs.split":
			codes++
			s := n.vals[0].(SliceV)
			data := n.vals[3].(ByteV).b
			y := x.assume(mkGE(kb), mkLT(kb, s.ln))
			q.ciphertext(y, nm, n.pos, data)
		case strings.HasPrefix(n.kind, "ss.split:"):
			shares++
			s := n.vals[0].(SliceV)
			data := n.vals[3].(ByteV).b
			r.oblige(x.prove(mkEq(asInt(n.vals[1]), q.parts)) && x.prove(mkEq(asInt(n.vals[2]), q.thr)), "the key is shared with the same parameters", nm, n.pos, "the key is split into %s shares with threshold %s", showV(n.vals[1]), showV(n.vals[2]))
			if e.gen {
				ok := len(n.vals) > 4
				if ok {
					p, isP := n.vals[4].(PtrV)
					ok = isP && p.obj != nil && strings.HasPrefix(p.obj.site, "in:")
				}
				r.oblige(ok, "the key is shared with the caller's generator", nm, n.pos, "the key is split by %s", n.kind)
			}
			y := x.assume(mkGE(kb), mkLT(kb, s.ln))
			bad := carries(y.simpB(data), func(t *Atom) bool { return drawAtom(atomBT(t)) != nil })
			r.oblige(bad == nil, "only the key and numbers are secret-shared", nm, n.pos, "what is secret-shared holds %s", data)
		}
	}
	r.oblige(ciphers > 0, "one stream is made with the key", nm, "", "no cipher stream is made")
	r.oblige(codes > 0, "the secret is erasure-coded", nm, "", "the erasure code is not used")
	r.oblige(shares > 0, "the key is secret-shared", nm, "", "the key is not secret-shared")
}

// fullDraw: every byte below n of the content is a different byte of draws.
func (q *shortSplit) fullDraw(x *Ctx, nm, pos string, b *BT, n *Poly) {
	kb, o := atomPoly(kbv), symP("#other")
	y := x.assume(mkGE(kb), mkLT(kb, n))
	v := y.simpB(b)
	d := drawAtom(v)
	if !q.r.oblige(d != nil, "the key is drawn in full", nm, pos, "byte #kb of the key is %s", v) {
		return
	}
	z := y.assume(mkGE(o), mkLT(o, kb))
	d2 := drawAtom(z.simpB(substB(b, kbv, o)))
	q.r.oblige(d2 != nil && drawsDiffer(z, d, d2), "the key bytes are different draws", nm, pos, "two bytes of the key may be the same draw: %s", v)
}

// ciphertext: the content is secret ⊕ key stream at injective positions, or constant.
func (q *shortSplit) ciphertext(x *Ctx, nm, pos string, data *BT) {
	kb, o := atomPoly(kbv), symP("#other")
	sec := x.assume(mkLT(kb, q.secret.ln))
	ks := func(x *Ctx, i *Poly) *Atom {
		b := x.simpB(bxor(substB(data, kbv, i), asByte(sliceCell(q.st0, q.secret, i))))
		t := b.single()
		if t == nil || !strings.HasPrefix(t.name, "ks:") || len(t.ps) != 1 {
			return nil
		}
		return t
	}
	t := ks(sec, kb)
	if !q.r.oblige(t != nil, "the code sees only ciphertext", nm, pos, "byte #kb of the coded data is %s", sec.simpB(data)) {
		return
	}
	two := sec.assume(mkGE(o), mkLT(o, kb))
	u := ks(two, o)
	q.r.oblige(u != nil && u.name == t.name && two.prove(mkNE(sub(t.ps[0], u.ps[0]))), "no part of the key stream is used twice", nm, pos, "two bytes may be encrypted with the same key stream byte")
	rest := x.assume(mkGE(sub(kb, q.secret.ln)))
	if !rest.infeasible() {
		b := rest.simpB(data)
		q.r.oblige(carries(b, func(*Atom) bool { return false }) == nil, "the code sees only ciphertext", nm+" padding", pos, "the padding is %s", b)
	}
}

// keyStays: nothing that outlives the call depends on the key.
func (q *shortSplit) keyStays(nm string, x *Ctx, res callRes) {
	qq := &splitQ{a: q.a, r: q.r, res: res}
	reach := qq.reachable()
	for _, k := range sortedKeys(reach) {
		o := res.st.objs[k]
		if o == nil || strings.HasPrefix(k, "in:") && q.st0.objs[k] == o {
			continue
		}
		var bad *Atom
		see := func(v Value) {
			opaqueAtoms(isKeyStream, func() {
				walkAtoms(v, func(a *Atom) {
					if strings.HasPrefix(a.name, "sec:") || strings.HasPrefix(a.name, "gen:") {
						bad = a
					}
				})
			})
		}
		see(o.base)
		for _, e := range o.ents {
			see(e.val)
		}
		q.r.oblige(bad == nil, "the key leaves only in Shamir shares", nm+" "+k, res.pos, "%s holds %s", k, bad)
	}
	q.r.oblige(true, "the key leaves only in Shamir shares", nm, "", "")
}

// isKeyStream: a byte of key stream tells nothing about the key (the cipher is assumed sound).
func isKeyStream(a *Atom) bool { return strings.HasPrefix(a.name, "ks:") }
