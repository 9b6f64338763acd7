package main

// Farkas-style entailment test of the polyhedral domain: is goal >= 0 a
// non-negative combination of the facts (plus a constant > -1)?

type rat struct{ n, d int64 }

type lpOverflow struct{}

func rnew(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd(n, d)
	return rat{n / g, d / g}
}
func lmul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	p := a * b
	if p/b != a || p == -1<<63 {
		panic(lpOverflow{})
	}
	return p
}
func ladd(a, b int64) int64 {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		panic(lpOverflow{})
	}
	return s
}
func radd(a, b rat) rat {
	if a.n == 0 {
		return b
	}
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		return rat{ladd(a.n, b.n), 1}
	}
	g := gcd(a.d, b.d)
	return rnew(ladd(lmul(a.n, b.d/g), lmul(b.n, a.d/g)), lmul(a.d, b.d/g))
}
func rmul(a, b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{lmul(a.n, b.n), 1}
	}
	g1, g2 := gcd(a.n, b.d), gcd(b.n, a.d)
	return rnew(lmul(a.n/g1, b.n/g2), lmul(a.d/g2, b.d/g1))
}
func rneg(a rat) rat      { return rat{-a.n, a.d} }
func rdiv(a, b rat) rat   { return rmul(a, rnew(b.d, b.n)) }
func rsub(a, b rat) rat   { return radd(a, rneg(b)) }
func rless(a, b rat) bool { return rsub(a, b).n < 0 }

// lpEntails reports whether goal >= 0 follows from facts (all polys >= 0) over the
// integers by a rational combination; monomials are treated as variables.
var nBig int

func lpEntails(goal *Poly, facts []*Poly) (res bool) {
	res, over := lpEntails1(goal, facts)
	if over {
		// retry without the facts that carry huge constants
		var fs []*Poly
		for _, f := range facts {
			big := false
			for _, t := range f.t {
				if t.c > 1<<33 || t.c < -(1<<33) {
					big = true
				}
			}
			if !big {
				fs = append(fs, f)
			}
		}
		again := true
		if len(fs) < len(facts) {
			res, again = lpEntails1(goal, fs)
		}
		if !res && again {
			res, _ = lpEntails1(goal, smallFacts(goal, facts))
		}
		huge := false
		for _, t := range goal.t {
			huge = huge || t.c > 1<<33 || t.c < -(1<<33)
		}
		if !res && huge {
			nBig++
			res, _ = lpEntailsBig(goal, facts)
		}
	}
	return res
}

// smallFacts keeps the facts with small coefficients about the monomials of the goal.
func smallFacts(goal *Poly, facts []*Poly) []*Poly {
	in := map[string]bool{}
	for _, t := range goal.t {
		in[monoKey(t.m)] = true
	}
	var fs []*Poly
	for _, f := range facts {
		ok := true
		for _, t := range f.t {
			ok = ok && t.c <= 1<<16 && t.c >= -(1<<16) && (len(t.m) == 0 || in[monoKey(t.m)])
		}
		if ok {
			fs = append(fs, f)
		}
	}
	return fs
}

func lpEntails1(goal *Poly, facts []*Poly) (res, over bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(lpOverflow); ok {
				res, over = false, true
				return
			}
			panic(r)
		}
	}()
	// rows: monomials; columns: facts
	rowOf := map[string]int{}
	var nrow int
	addRow := func(m []*Atom) int {
		k := monoKey(m)
		if i, ok := rowOf[k]; ok {
			return i
		}
		rowOf[k] = nrow
		nrow++
		return nrow - 1
	}
	for _, t := range goal.t {
		if len(t.m) > 0 {
			addRow(t.m)
		}
	}
	for _, f := range facts {
		for _, t := range f.t {
			if len(t.m) > 0 {
				addRow(t.m)
			}
		}
	}
	nf := len(facts)
	// tableau with nrow rows; columns: nf facts + nrow artificials + rhs
	// phase 1: minimise the sum of the artificials; phase 2: minimise sum lambda*const(f)
	W := nf + nrow + 1
	T := make([][]rat, nrow)
	for i := range T {
		T[i] = make([]rat, W)
		for j := range T[i] {
			T[i][j] = rat{0, 1}
		}
	}
	cost2 := make([]rat, W)
	for j := range cost2 {
		cost2[j] = rat{0, 1}
	}
	for j, f := range facts {
		for _, t := range f.t {
			if len(t.m) == 0 {
				cost2[j] = rat{t.c, 1}
				continue
			}
			T[rowOf[monoKey(t.m)]][j] = rat{t.c, 1}
		}
	}
	g0 := rat{0, 1}
	for _, t := range goal.t {
		if len(t.m) == 0 {
			g0 = rat{t.c, 1}
			continue
		}
		T[rowOf[monoKey(t.m)]][W-1] = rat{t.c, 1}
	}
	basis := make([]int, nrow)
	for i := range T {
		if T[i][W-1].n < 0 {
			for j := range T[i] {
				T[i][j] = rneg(T[i][j])
			}
		}
		T[i][nf+i] = rat{1, 1}
		basis[i] = nf + i
	}
	// reduced costs for phase 1
	z1 := make([]rat, W)
	for j := range z1 {
		z1[j] = rat{0, 1}
		if j >= nf && j < nf+nrow {
			continue
		}
		s := rat{0, 1}
		for i := range T {
			s = radd(s, T[i][j])
		}
		z1[j] = rneg(s)
	}
	z2 := make([]rat, W)
	copy(z2, cost2)
	pivot := func(r, c int, zs ...[]rat) {
		p := T[r][c]
		if !(p.n == 1 && p.d == 1) {
			for j := range T[r] {
				if T[r][j].n != 0 {
					T[r][j] = rdiv(T[r][j], p)
				}
			}
		}
		elim := func(row []rat) {
			f := row[c]
			if f.n == 0 {
				return
			}
			for j := range row {
				if T[r][j].n != 0 {
					row[j] = rsub(row[j], rmul(f, T[r][j]))
				}
			}
		}
		for i := range T {
			if i != r {
				elim(T[i])
			}
		}
		for _, z := range zs {
			elim(z)
		}
		basis[r] = c
	}
	run := func(z []rat, lim int, others ...[]rat) (unbounded bool) {
		zs := append([][]rat{z}, others...)
		for iter := 0; iter < 400; iter++ {
			c := -1
			if iter < 60 {
				best := rat{0, 1}
				for j := 0; j < lim; j++ {
					if z[j].n < 0 && rless(z[j], best) {
						best = z[j]
						c = j
					}
				}
			} else {
				for j := 0; j < lim; j++ {
					if z[j].n < 0 {
						c = j
						break
					}
				}
			}
			if c < 0 {
				return false
			}
			r := -1
			var bestR rat
			for i := range T {
				if T[i][c].n > 0 {
					q := rdiv(T[i][W-1], T[i][c])
					if r < 0 || rless(q, bestR) || (!rless(bestR, q) && basis[i] < basis[r]) {
						r, bestR = i, q
					}
				}
			}
			if r < 0 {
				return true
			}
			pivot(r, c, zs...)
		}
		panic(lpOverflow{})
	}
	run(z1, nf, z2)
	if z1[W-1].n != 0 {
		return false, false // -(sum of artificials) != 0: not representable
	}
	// remove artificials from the basis where possible
	for i := range T {
		if basis[i] >= nf {
			for j := 0; j < nf; j++ {
				if T[i][j].n != 0 {
					pivot(i, j, z1, z2)
					break
				}
			}
		}
	}
	if run(z2, nf) {
		return true, false // unbounded: facts are contradictory
	}
	// minimal value of sum lambda*const is -z2[rhs]
	min := rneg(z2[W-1])
	c0 := rsub(g0, min)
	// need c0 > -1
	return radd(c0, rat{1, 1}).n > 0, false
}
