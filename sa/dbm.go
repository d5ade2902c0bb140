package main

// dbmMin computes min of e (without constant) over the difference constraints of cs by shortest paths.
// exact tells whether every constraint was one; has is false when there is no bound.
func dbmMin(e Lin, cs []Lin) (v int64, has, exact bool) {
	var from, to Sym // min(from - to) = -shortest(from -> to)
	switch len(e.t) {
	case 1:
		switch e.t[0].k {
		case 1:
			from = e.t[0].s
		case -1:
			to = e.t[0].s
		default:
			return 0, false, false
		}
	case 2:
		a, b := e.t[0], e.t[1]
		switch {
		case a.k == 1 && b.k == -1:
			from, to = a.s, b.s
		case a.k == -1 && b.k == 1:
			from, to = b.s, a.s
		default:
			return 0, false, false
		}
	default:
		return 0, false, false
	}
	type edge struct {
		x, y int
		w    int64
	}
	idx := map[Sym]int{0: 0}
	id := func(s Sym) int {
		i, ok := idx[s]
		if !ok {
			i = len(idx)
			idx[s] = i
		}
		return i
	}
	exact = true
	edges := make([]edge, 0, len(cs))
	for _, c := range cs {
		switch len(c.t) {
		case 1:
			switch c.t[0].k {
			case 1: // x + c >= 0: 0 - x <= c
				edges = append(edges, edge{id(c.t[0].s), 0, c.c})
			case -1: // x - 0 <= c
				edges = append(edges, edge{0, id(c.t[0].s), c.c})
			default:
				exact = false
			}
		case 2:
			a, b := c.t[0], c.t[1]
			switch {
			case a.k == 1 && b.k == -1: // b - a <= c
				edges = append(edges, edge{id(a.s), id(b.s), c.c})
			case a.k == -1 && b.k == 1:
				edges = append(edges, edge{id(b.s), id(a.s), c.c})
			default:
				exact = false
			}
		default:
			exact = false
		}
	}
	src, dst := id(from), id(to)
	n := len(idx)
	const inf = int64(1) << 62
	dist := make([]int64, n)
	for i := range dist {
		dist[i] = inf
	}
	dist[src] = 0
	for it := 0; ; it++ {
		ch := false
		for _, g := range edges {
			if dist[g.x] == inf {
				continue
			}
			if d := dist[g.x] + g.w; d < dist[g.y] {
				if d < -(1<<61) || d > 1<<61 {
					return 0, false, false
				}
				dist[g.y] = d
				ch = true
			}
		}
		if !ch {
			break
		}
		if it > n+1 {
			return 0, false, false // a negative cycle: left to the general method
		}
	}
	if dist[dst] == inf {
		return 0, false, exact
	}
	return -dist[dst], true, exact
}
