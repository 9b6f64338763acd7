package main

import "math/big"

func bnew(n int64) *big.Rat        { return new(big.Rat).SetInt64(n) }
func bneg(a *big.Rat) *big.Rat     { return new(big.Rat).Neg(a) }
func badd(a, b *big.Rat) *big.Rat  { return new(big.Rat).Add(a, b) }
func bsub(a, b *big.Rat) *big.Rat  { return new(big.Rat).Sub(a, b) }
func bmulr(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func bdiv(a, b *big.Rat) *big.Rat  { return new(big.Rat).Quo(a, b) }
func bless(a, b *big.Rat) bool     { return a.Cmp(b) < 0 }

// lpEntailsBig is lpEntails1 in arbitrary precision.
func lpEntailsBig(goal *Poly, facts []*Poly) (res, over bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(lpOverflow); ok {
				res, over = false, true
				return
			}
			panic(r)
		}
	}()
	// rows: monomials; columns: facts
	rowOf := map[string]int{}
	var nrow int
	addRow := func(m []*Atom) int {
		k := monoKey(m)
		if i, ok := rowOf[k]; ok {
			return i
		}
		rowOf[k] = nrow
		nrow++
		return nrow - 1
	}
	for _, t := range goal.t {
		if len(t.m) > 0 {
			addRow(t.m)
		}
	}
	for _, f := range facts {
		for _, t := range f.t {
			if len(t.m) > 0 {
				addRow(t.m)
			}
		}
	}
	nf := len(facts)
	// tableau with nrow rows; columns: nf facts + nrow artificials + rhs
	// phase 1: minimise the sum of the artificials; phase 2: minimise sum lambda*const(f)
	W := nf + nrow + 1
	T := make([][]*big.Rat, nrow)
	for i := range T {
		T[i] = make([]*big.Rat, W)
		for j := range T[i] {
			T[i][j] = bnew(0)
		}
	}
	cost2 := make([]*big.Rat, W)
	for j := range cost2 {
		cost2[j] = bnew(0)
	}
	for j, f := range facts {
		for _, t := range f.t {
			if len(t.m) == 0 {
				cost2[j] = bnew(t.c)
				continue
			}
			T[rowOf[monoKey(t.m)]][j] = bnew(t.c)
		}
	}
	g0 := bnew(0)
	for _, t := range goal.t {
		if len(t.m) == 0 {
			g0 = bnew(t.c)
			continue
		}
		T[rowOf[monoKey(t.m)]][W-1] = bnew(t.c)
	}
	basis := make([]int, nrow)
	for i := range T {
		if T[i][W-1].Sign() < 0 {
			for j := range T[i] {
				T[i][j] = bneg(T[i][j])
			}
		}
		T[i][nf+i] = bnew(1)
		basis[i] = nf + i
	}
	// reduced costs for phase 1
	z1 := make([]*big.Rat, W)
	for j := range z1 {
		z1[j] = bnew(0)
		if j >= nf && j < nf+nrow {
			continue
		}
		s := bnew(0)
		for i := range T {
			s = badd(s, T[i][j])
		}
		z1[j] = bneg(s)
	}
	z2 := make([]*big.Rat, W)
	copy(z2, cost2)
	pivot := func(r, c int, zs ...[]*big.Rat) {
		p := T[r][c]
		if !(p.Cmp(bnew(1)) == 0) {
			for j := range T[r] {
				if T[r][j].Sign() != 0 {
					T[r][j] = bdiv(T[r][j], p)
				}
			}
		}
		elim := func(row []*big.Rat) {
			f := row[c]
			if f.Sign() == 0 {
				return
			}
			for j := range row {
				if T[r][j].Sign() != 0 {
					row[j] = bsub(row[j], bmulr(f, T[r][j]))
				}
			}
		}
		for i := range T {
			if i != r {
				elim(T[i])
			}
		}
		for _, z := range zs {
			elim(z)
		}
		basis[r] = c
	}
	run := func(z []*big.Rat, lim int, others ...[]*big.Rat) (unbounded bool) {
		zs := append([][]*big.Rat{z}, others...)
		for iter := 0; iter < 400; iter++ {
			c := -1
			if iter < 60 {
				best := bnew(0)
				for j := 0; j < lim; j++ {
					if z[j].Sign() < 0 && bless(z[j], best) {
						best = z[j]
						c = j
					}
				}
			} else {
				for j := 0; j < lim; j++ {
					if z[j].Sign() < 0 {
						c = j
						break
					}
				}
			}
			if c < 0 {
				return false
			}
			r := -1
			var bestR *big.Rat
			for i := range T {
				if T[i][c].Sign() > 0 {
					q := bdiv(T[i][W-1], T[i][c])
					if r < 0 || bless(q, bestR) || (!bless(bestR, q) && basis[i] < basis[r]) {
						r, bestR = i, q
					}
				}
			}
			if r < 0 {
				return true
			}
			pivot(r, c, zs...)
		}
		panic(lpOverflow{})
	}
	run(z1, nf, z2)
	if z1[W-1].Sign() != 0 {
		return false, false // -(sum of artificials) != 0: not representable
	}
	// remove artificials from the basis where possible
	for i := range T {
		if basis[i] >= nf {
			for j := 0; j < nf; j++ {
				if T[i][j].Sign() != 0 {
					pivot(i, j, z1, z2)
					break
				}
			}
		}
	}
	if run(z2, nf) {
		return true, false // unbounded: facts are contradictory
	}
	// minimal value of sum lambda*const is -z2[rhs]
	min := bneg(z2[W-1])
	c0 := bsub(g0, min)
	// need c0 > -1
	return badd(c0, bnew(1)).Sign() > 0, false
}
