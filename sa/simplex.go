package main

import "math/big"

type term2 struct {
	r int
	k int64
}

const (
	lpOptimal = iota
	lpUnbounded
	lpInfeasible
	lpFail
)

// frac is a small exact rational; overflow falls back to lpFail through errOverflow
type frac struct{ n, d int64 }

func mkFrac(n, d int64) frac {
	if n == 0 {
		return frac{0, 1}
	}
	if d < 0 {
		n, d = -n, -d
	}
	g := gcdI(n, d)
	return frac{n / g, d / g}
}
func (a frac) add(b frac) frac {
	if a.n == 0 {
		return b
	}
	if b.n == 0 {
		return a
	}
	if a.d == 1 && b.d == 1 {
		return frac{addI(a.n, b.n), 1}
	}
	return mkFrac(addI(mulI(a.n, b.d), mulI(b.n, a.d)), mulI(a.d, b.d))
}
func (a frac) mul(b frac) frac {
	if a.n == 0 || b.n == 0 {
		return frac{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return frac{mulI(a.n, b.n), 1}
	}
	g1 := gcdI(a.n, b.d)
	g2 := gcdI(b.n, a.d)
	return mkFrac(mulI(a.n/g1, b.n/g2), mulI(a.d/g2, b.d/g1))
}
func (a frac) negf() frac { return frac{-a.n, a.d} }
func (a frac) inv() frac {
	if a.n < 0 {
		return frac{-a.d, -a.n}
	}
	return frac{a.d, a.n}
}
func (a frac) cmp(b frac) int {
	d := a.add(b.negf())
	switch {
	case d.n < 0:
		return -1
	case d.n > 0:
		return 1
	}
	return 0
}

// simplexMin minimises cost.l subject to A l = rhs, l >= 0 (columns given sparsely).
func simplexMin(m int, cols [][]term2, cost []int64, rhs []int64) (v *big.Rat, status int) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(errOverflow); ok {
				v, status = nil, lpFail
				return
			}
			panic(r)
		}
	}()
	nc := len(cols)
	w := nc + m // columns incl. artificial
	zero := frac{0, 1}
	// tableau rows: m rows of w+1
	T := make([][]frac, m)
	for i := range T {
		T[i] = make([]frac, w+1)
		for j := range T[i] {
			T[i][j] = zero
		}
	}
	for j, c := range cols {
		for _, t := range c {
			T[t.r][j] = frac{t.k, 1}
		}
	}
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		T[i][w] = frac{rhs[i], 1}
		if rhs[i] < 0 {
			for j := 0; j < nc; j++ {
				T[i][j] = T[i][j].negf()
			}
			T[i][w] = T[i][w].negf()
		}
		T[i][nc+i] = frac{1, 1}
		basis[i] = nc + i
	}
	pivot := func(obj []frac, r, c int) {
		iv := T[r][c].inv()
		for j := 0; j <= w; j++ {
			if T[r][j].n != 0 {
				T[r][j] = T[r][j].mul(iv)
			}
		}
		for i := 0; i < m; i++ {
			if i == r || T[i][c].n == 0 {
				continue
			}
			f := T[i][c].negf()
			for j := 0; j <= w; j++ {
				if T[r][j].n != 0 {
					T[i][j] = T[i][j].add(f.mul(T[r][j]))
				}
			}
		}
		if obj[c].n != 0 {
			f := obj[c].negf()
			for j := 0; j <= w; j++ {
				if T[r][j].n != 0 {
					obj[j] = obj[j].add(f.mul(T[r][j]))
				}
			}
		}
		basis[r] = c
	}
	run := func(obj []frac, lim int) int {
		for it := 0; it < 5000; it++ {
			c := -1
			for j := 0; j < lim; j++ { // Bland
				if obj[j].n < 0 {
					c = j
					break
				}
			}
			if c < 0 {
				return lpOptimal
			}
			r := -1
			var best frac
			for i := 0; i < m; i++ {
				if T[i][c].n > 0 {
					q := T[i][w].mul(T[i][c].inv())
					if r < 0 || q.cmp(best) < 0 || (q.cmp(best) == 0 && basis[i] < basis[r]) {
						r, best = i, q
					}
				}
			}
			if r < 0 {
				return lpUnbounded
			}
			pivot(obj, r, c)
		}
		return lpFail
	}
	// phase 1: minimise the sum of artificials
	obj := make([]frac, w+1)
	for j := range obj {
		obj[j] = zero
	}
	for i := 0; i < m; i++ {
		for j := 0; j <= w; j++ {
			if j < nc || j == w {
				obj[j] = obj[j].add(T[i][j].negf())
			}
		}
	}
	if st := run(obj, nc); st != lpOptimal {
		return nil, lpFail
	}
	if obj[w].n != 0 {
		return nil, lpInfeasible
	}
	// drive artificials out
	for i := 0; i < m; i++ {
		if basis[i] >= nc {
			for j := 0; j < nc; j++ {
				if T[i][j].n != 0 {
					pivot(obj, i, j)
					break
				}
			}
		}
	}
	// phase 2
	for j := range obj {
		obj[j] = zero
	}
	for j := 0; j < nc; j++ {
		obj[j] = frac{cost[j], 1}
	}
	for i := 0; i < m; i++ {
		if b := basis[i]; b < nc && obj[b].n != 0 {
			f := obj[b].negf()
			for j := 0; j <= w; j++ {
				if T[i][j].n != 0 {
					obj[j] = obj[j].add(f.mul(T[i][j]))
				}
			}
		}
	}
	if st := run(obj, nc); st != lpOptimal {
		return nil, st
	}
	val := obj[w].negf()
	return big.NewRat(val.n, val.d), lpOptimal
}
