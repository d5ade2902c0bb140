package main

import (
	"math/big"
	"sort"
)

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func (b *ByteSet) has(v int) bool { return b[v>>6]>>(uint(v)&63)&1 == 1 }
func (b *ByteSet) set(v int)      { b[v>>6] |= 1 << (uint(v) & 63) }
func (b *ByteSet) clr(v int)      { b[v>>6] &^= 1 << (uint(v) & 63) }

func rangeSet(lo, hi int) ByteSet {
	var b ByteSet
	for i := lo; i <= hi; i++ {
		b.set(i)
	}
	return b
}

var allBytes = rangeSet(0, 255)

func (b ByteSet) and(c ByteSet) ByteSet {
	for i := range b {
		b[i] &= c[i]
	}
	return b
}
func (b ByteSet) or(c ByteSet) ByteSet {
	for i := range b {
		b[i] |= c[i]
	}
	return b
}
func (b ByteSet) not() ByteSet {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b ByteSet) empty() bool           { return b == ByteSet{} }
func (b ByteSet) subset(c ByteSet) bool { return b.and(c) == b }
func (b ByteSet) min() int {
	for i := 0; i < 256; i++ {
		if b.has(i) {
			return i
		}
	}
	return 256
}
func (b ByteSet) max() int {
	for i := 255; i >= 0; i-- {
		if b.has(i) {
			return i
		}
	}
	return -1
}
func (b ByteSet) String() string {
	s := "{"
	for i := 0; i < 256; {
		if !b.has(i) {
			i++
			continue
		}
		j := i
		for j < 255 && b.has(j+1) {
			j++
		}
		if len(s) > 1 {
			s += ","
		}
		s += itoa(i)
		if j > i {
			s += "-" + itoa(j)
		}
		i = j + 1
	}
	return s + "}"
}

// Num is the numeric part of a state: solved equalities, inequalities (>= 0), disequalities (!= 0)
// and byte sets. Copy before modify.
type Num struct {
	eqs   map[Sym]Lin // s = e, e over symbols that are not solved
	ineq  []Lin
	neq   []Lin
	sets  map[Sym]ByteSet
	bot   bool
	cache map[string]bound
}

type bound struct {
	v  int64
	ok bool
}

func newNum() *Num { return &Num{eqs: map[Sym]Lin{}, sets: map[Sym]ByteSet{}} }

func (n *Num) clone() *Num {
	m := &Num{eqs: make(map[Sym]Lin, len(n.eqs)), sets: make(map[Sym]ByteSet, len(n.sets)), bot: n.bot}
	for k, v := range n.eqs {
		m.eqs[k] = v
	}
	for k, v := range n.sets {
		m.sets[k] = v
	}
	m.ineq = append([]Lin(nil), n.ineq...)
	m.neq = append([]Lin(nil), n.neq...)
	return m
}

func (n *Num) norm(e Lin) Lin {
	for _, t := range e.t {
		if r, ok := n.eqs[t.s]; ok {
			e = e.subst(t.s, r)
		}
	}
	return e
}

// addGE adds e >= 0. n must be owned.
func (n *Num) addGE(e Lin) {
	if n.bot {
		return
	}
	e = n.norm(e).tighten()
	if e.isConst() {
		if e.c < 0 {
			n.bot = true
		}
		return
	}
	if len(e.t) == 1 {
		if bs, ok := n.sets[e.t[0].s]; ok {
			// k*s + c >= 0
			nb := bs
			for v := 0; v < 256; v++ {
				if bs.has(v) && e.t[0].k*int64(v)+e.c < 0 {
					nb.clr(v)
				}
			}
			if nb != bs {
				n.sets[e.t[0].s] = nb
				n.cache = nil
				n.syncSet(e.t[0].s)
				if !n.bot {
					n.recheckNeq()
				}
			}
			return
		}
	}
	dk := e.dirKey()
	for i, o := range n.ineq {
		if o.dirKey() == dk {
			if o.c <= e.c {
				return
			}
			n.ineq = append(append([]Lin(nil), n.ineq[:i]...), n.ineq[i+1:]...)
			break
		}
	}
	// opposite: -e' with sum of constants
	ndk := e.neg().dirKey()
	for _, o := range n.ineq {
		if o.dirKey() == ndk {
			switch s := o.c + e.c; {
			case s < 0:
				n.bot = true
				return
			case s == 0:
				n.cache = nil
				n.addEQ(e)
				return
			}
		}
	}
	if b, ok := n.minOf(e.neg()); ok && b > 0 { // e < 0 always
		n.bot = true
		return
	}
	n.ineq = append(append([]Lin(nil), n.ineq...), e)
	n.cache = nil
	n.recheckNeq()
}

// syncSet mirrors the hull of a byte set into the inequalities
func (n *Num) syncSet(s Sym) {
	bs := n.sets[s]
	if bs.empty() {
		n.bot = true
		return
	}
	lo, hi := int64(bs.min()), int64(bs.max())
	if lo == hi {
		if _, ok := n.eqs[s]; !ok {
			n.addEQ(symL(s).addC(-lo))
		}
		return
	}
}

// setBounds appends the bounds that the byte sets give
func (n *Num) setBounds(cs []Lin, syms []Sym) []Lin {
	for _, s := range syms {
		if bs, ok := n.sets[s]; ok && !bs.empty() {
			cs = append(cs, symL(s).addC(-int64(bs.min())), symL(s).neg().addC(int64(bs.max())))
		}
	}
	return cs
}

func (n *Num) rawGE(e Lin) {
	dk := e.dirKey()
	for i, o := range n.ineq {
		if o.dirKey() == dk {
			if o.c <= e.c {
				return
			}
			n.ineq = append(append([]Lin(nil), n.ineq[:i]...), n.ineq[i+1:]...)
			break
		}
	}
	n.ineq = append(append([]Lin(nil), n.ineq...), e)
	n.cache = nil
}

func (n *Num) recheckNeq() {
	if len(n.neq) == 0 {
		return
	}
	old := n.neq
	n.neq = nil
	for i, e := range old {
		if n.bot {
			return
		}
		e = n.norm(e)
		if e.isConst() {
			if e.c == 0 {
				n.bot = true
			}
			continue
		}
		if n.entailsGE(e) {
			n.neq = append(n.neq, old[i+1:]...)
			n.addGE(e.addC(-1))
			return
		}
		if n.entailsGE(e.neg()) {
			n.neq = append(n.neq, old[i+1:]...)
			n.addGE(e.neg().addC(-1))
			return
		}
		n.neq = append(n.neq, e)
	}
}

// addEQ adds e == 0
func (n *Num) addEQ(e Lin) {
	if n.bot {
		return
	}
	e = n.norm(e)
	if e.isConst() {
		if e.c != 0 {
			n.bot = true
		}
		return
	}
	g := int64(0)
	for _, t := range e.t {
		g = gcdI(g, t.k)
	}
	if e.c%g != 0 {
		n.bot = true
		return
	}
	if g > 1 {
		r := Lin{c: e.c / g, t: make([]term, len(e.t))}
		for i, t := range e.t {
			r.t[i] = term{t.s, t.k / g}
		}
		e = r
	}
	// pivot on the youngest symbol with unit coefficient
	pv := -1
	for i, t := range e.t {
		if t.k == 1 || t.k == -1 {
			pv = i
		}
	}
	if pv < 0 {
		// no unit pivot: keep as two inequalities
		n.rawGE(e)
		n.rawGE(e.neg())
		n.checkFeasible()
		return
	}
	s, k := e.t[pv].s, e.t[pv].k
	r := e.addMul(symL(s), -k).scale(-k) // s = -(rest)/k, k=+-1
	n.solve(s, r)
}

func (n *Num) solve(s Sym, r Lin) {
	bs, hasSet := n.sets[s]
	delete(n.sets, s)
	for k, v := range n.eqs {
		if v.coef(s) != 0 {
			n.eqs[k] = v.subst(s, r)
		}
	}
	n.eqs[s] = r
	old := n.ineq
	n.ineq = nil
	n.cache = nil
	var changed []Lin
	for _, o := range old {
		if o.coef(s) != 0 {
			changed = append(changed, o)
		} else {
			n.ineq = append(n.ineq, o)
		}
	}
	for _, o := range changed {
		n.addGE(o)
		if n.bot {
			return
		}
	}
	if hasSet {
		n.addSet(r, bs)
	}
	if n.bot {
		return
	}
	n.checkFeasible()
	n.recheckNeq()
}

// addSet constrains the value of e to bs (or leaves it out when e is not a shifted symbol)
func (n *Num) addSet(e Lin, bs ByteSet) {
	e = n.norm(e)
	if e.isConst() {
		if e.c < 0 || e.c > 255 || !bs.has(int(e.c)) {
			n.bot = true
		}
		return
	}
	if s, ok := e.isSym(); ok {
		old, ok := n.sets[s]
		if !ok {
			old = allBytes
			for v := 0; v < 256; v++ {
				if lo, ok := n.lowest(symL(s)); ok && int64(v) < lo {
					old.clr(v)
				}
			}
		}
		nb := old.and(bs)
		if nb != old || !ok {
			n.sets[s] = nb
			n.cache = nil
			n.syncSet(s)
		}
		return
	}
	// hull only
	if bs.empty() {
		n.bot = true
		return
	}
	n.addGE(e.addC(-int64(bs.min())))
	n.addGE(e.neg().addC(int64(bs.max())))
}

func (n *Num) lowest(e Lin) (int64, bool) { return n.minOf(e) }

// setOf returns the byte values e may have
func (n *Num) setOf(e Lin) (ByteSet, bool) {
	e = n.norm(e)
	if e.isConst() {
		if e.c < 0 || e.c > 255 {
			return ByteSet{}, false
		}
		var b ByteSet
		b.set(int(e.c))
		return b, true
	}
	r := allBytes
	if s, ok := e.isSym(); ok {
		if b, ok := n.sets[s]; ok {
			r = b
		}
	}
	lo, ok1 := n.minOf(e)
	hi, ok2 := n.maxOf(e)
	if !ok1 || !ok2 || lo < 0 || hi > 255 {
		return r, false
	}
	return r.and(rangeSet(int(lo), int(hi))), true
}

func (n *Num) addNE(e Lin) {
	if n.bot {
		return
	}
	e = n.norm(e)
	if e.isConst() {
		if e.c == 0 {
			n.bot = true
		}
		return
	}
	if len(e.t) == 1 && (e.t[0].k == 1 || e.t[0].k == -1) {
		s := e.t[0].s
		v := -e.c * e.t[0].k
		if bs, ok := n.sets[s]; ok {
			if v >= 0 && v < 256 && bs.has(int(v)) {
				bs.clr(int(v))
				n.sets[s] = bs
				n.cache = nil
				n.syncSet(s)
			}
			return
		}
	}
	if n.entailsGE(e) {
		n.addGE(e.addC(-1))
		return
	}
	if n.entailsGE(e.neg()) {
		n.addGE(e.neg().addC(-1))
		return
	}
	for _, o := range n.neq {
		if o.eq(e) || o.eq(e.neg()) {
			return
		}
	}
	n.neq = append(append([]Lin(nil), n.neq...), e)
}

func (n *Num) entailsGE(e Lin) bool {
	if n.bot {
		return true
	}
	e = n.norm(e)
	if len(e.t) > 0 && len(e.t) <= 2 {
		if _, ok := n.cache[e.dirKey()]; !ok {
			d := Lin{0, e.t}
			cs, _ := n.relevant(e.t)
			if v, has, _ := dbmMin(d, cs); has && v+e.c >= 0 {
				return true
			}
		}
	}
	b, ok := n.minOf(e)
	return ok && b >= 0
}

func (n *Num) entailsEQ(e Lin) bool {
	e = n.norm(e)
	if e.isConst() {
		return e.c == 0
	}
	return n.entailsGE(e) && n.entailsGE(e.neg())
}

func (n *Num) entailsNE(e Lin) bool {
	e = n.norm(e)
	if e.isConst() {
		return e.c != 0
	}
	for _, o := range n.neq {
		o = n.norm(o)
		if o.eq(e) || o.eq(e.neg()) {
			return true
		}
	}
	if len(e.t) == 1 && (e.t[0].k == 1 || e.t[0].k == -1) {
		if bs, ok := n.sets[e.t[0].s]; ok {
			v := -e.c * e.t[0].k
			if v < 0 || v > 255 || !bs.has(int(v)) {
				return true
			}
		}
	}
	return n.entailsGE(e.addC(-1)) || n.entailsGE(e.neg().addC(-1))
}

func (n *Num) maxOf(e Lin) (int64, bool) {
	v, ok := n.minOf(e.neg())
	return -v, ok
}

// minOf returns a lower bound of e (the exact rational minimum rounded up)
func (n *Num) minOf(e Lin) (int64, bool) {
	e = n.norm(e)
	if e.isConst() {
		return e.c, true
	}
	dk := e.dirKey()
	if n.cache == nil {
		n.cache = map[string]bound{}
	}
	if b, ok := n.cache[dk]; ok {
		if !b.ok {
			return 0, false
		}
		return addI(b.v, e.c), true
	}
	// an integer combination: the common factor is taken out before rounding
	d := Lin{0, e.t}
	g := int64(0)
	for _, t := range e.t {
		g = gcdI(g, t.k)
	}
	if g > 1 {
		d.t = append([]term(nil), e.t...)
		for i := range d.t {
			d.t[i].k /= g
		}
	} else {
		g = 1
	}
	v, ok := n.lpMin(d)
	if ok {
		v = mulI(v, g)
	}
	n.cache[dk] = bound{v, ok}
	if !ok {
		return 0, false
	}
	return addI(v, e.c), true
}

// within tells whether lo <= e <= hi, using also the static bounds of the symbols (lengths)
func (n *Num) within(e Lin, lo, hi int64) bool {
	e = n.norm(e)
	a, ok1 := n.minOf(e)
	b, ok2 := n.maxOf(e)
	if ok1 && ok2 && a >= lo && b <= hi {
		return true
	}
	m := n.static(e)
	a, ok1 = m.minOf(e)
	if !ok1 || a < lo {
		return false
	}
	b, ok2 = m.maxOf(e)
	return ok2 && b <= hi
}

// static adds the static bounds of the symbols connected to e
func (n *Num) static(e Lin) *Num {
	cs, syms := n.relevant(e.t)
	m := &Num{eqs: n.eqs, sets: n.sets}
	m.ineq = append([]Lin(nil), cs...)
	for _, s := range syms {
		if symTab[s].hi != 0 {
			m.ineq = append(m.ineq, symL(s).addC(-symTab[s].lo), symL(s).neg().addC(symTab[s].hi))
		}
	}
	return m
}

func (n *Num) checkFeasible() {
	if n.bot || len(n.ineq) == 0 {
		return
	}
	if n.infeasible(nil) {
		n.bot = true
	}
}

// relevant returns the inequalities connected to the symbols of e (all when e is nil)
func (n *Num) relevant(e []term) ([]Lin, []Sym) {
	in := map[Sym]bool{}
	for _, t := range e {
		in[t.s] = true
	}
	used := make([]bool, len(n.ineq))
	var out []Lin
	for again := true; again; {
		again = false
		for i, c := range n.ineq {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range c.t {
				if in[t.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for _, t := range c.t {
					if !in[t.s] {
						in[t.s] = true
					}
				}
				again = true
			}
		}
	}
	syms := sortedSyms(in)
	return n.setBounds(out, syms), syms
}

var lpCount int

// lpMin computes min of e (constant part 0) over the inequalities, by the Farkas dual:
// max -sum l_i c_i  subject to sum l_i a_i = coef(e), l >= 0
func (n *Num) lpMin(e Lin) (int64, bool) {
	// fast path: a single constraint in the same direction and no other
	cs, syms := n.relevant(e.t)
	if len(cs) == 0 {
		return 0, false
	}
	if v, has, exact := dbmMin(e, cs); exact {
		return v, has
	}
	lpCount++
	row := map[Sym]int{}
	for i, s := range syms {
		row[s] = i
	}
	m := len(syms)
	rhs := make([]int64, m)
	for _, t := range e.t {
		rhs[row[t.s]] = t.k
	}
	cols := make([][]term2, len(cs))
	cost := make([]int64, len(cs))
	for j, c := range cs {
		for _, t := range c.t {
			cols[j] = append(cols[j], term2{row[t.s], t.k})
		}
		cost[j] = c.c // minimise sum l c  => min e = -that
	}
	v, st := simplexMin(m, cols, cost, rhs)
	if st != lpOptimal {
		return 0, false
	}
	// min e = -v ; round up
	r := new(big.Rat).Neg(v)
	return ratCeil(r)
}

func ratCeil(r *big.Rat) (int64, bool) {
	num := new(big.Int).Set(r.Num())
	den := r.Denom()
	q, m := new(big.Int).DivMod(num, den, new(big.Int))
	if m.Sign() != 0 {
		q.Add(q, big.NewInt(1))
	}
	if !q.IsInt64() {
		return 0, false
	}
	v := q.Int64()
	if v > 1<<61 || v < -(1<<61) {
		// keep room for constants
		if v > 1<<62 || v < -(1<<62) {
			return 0, false
		}
	}
	return v, true
}

// infeasible: exists l>=0 with sum l a = 0 and sum l c < 0
func (n *Num) infeasible(extra []Lin) bool {
	cs := append(append([]Lin(nil), n.ineq...), extra...)
	syms := sortedSyms(linSyms(cs...))
	cs = n.setBounds(cs, syms)
	row := map[Sym]int{}
	for i, s := range syms {
		row[s] = i
	}
	m := len(syms)
	cols := make([][]term2, len(cs))
	cost := make([]int64, len(cs))
	for j, c := range cs {
		for _, t := range c.t {
			cols[j] = append(cols[j], term2{row[t.s], t.k})
		}
		cost[j] = c.c
	}
	_, st := simplexMin(m, cols, cost, make([]int64, m))
	return st == lpUnbounded
}

// project keeps only what is about the symbols of keep (weakening). n must be owned.
func (n *Num) project(keep map[Sym]bool) {
	if n.bot {
		return
	}
	// solved symbols that are dropped vanish; kept solved symbols keep their equation if it is about kept symbols
	for again := true; again; {
		again = false
		for _, s := range eqOrder(n.eqs) {
			e := n.eqs[s]
			if !keep[s] {
				delete(n.eqs, s)
				continue
			}
			// re-pivot on a dropped symbol with unit coefficient
			for _, t := range e.t {
				if !keep[t.s] && (t.k == 1 || t.k == -1) {
					// s = e  =>  t.s = (s - rest)/k
					rest := e.addMul(symL(t.s), -t.k)
					r := symL(s).sub(rest).scale(t.k)
					delete(n.eqs, s)
					d := t.s
					bs, hs := n.sets[d]
					delete(n.sets, d)
					for k, v := range n.eqs {
						if v.coef(d) != 0 {
							n.eqs[k] = v.subst(d, r)
						}
					}
					for i, c := range n.ineq {
						if c.coef(d) != 0 {
							n.ineq[i] = c.subst(d, r)
						}
					}
					for i, c := range n.neq {
						if c.coef(d) != 0 {
							n.neq[i] = c.subst(d, r)
						}
					}
					n.cache = nil
					if hs {
						n.addSet(r, bs)
					}
					again = true
					break
				}
			}
		}
	}
	for s, e := range n.eqs {
		for _, t := range e.t {
			if !keep[t.s] {
				// non unit: becomes two inequalities, eliminated below
				n.ineq = append(n.ineq, symL(s).sub(e), e.sub(symL(s)))
				delete(n.eqs, s)
				break
			}
		}
	}
	// eliminate dropped symbols of the inequalities (Fourier-Motzkin, bounded)
	drop := map[Sym]bool{}
	for _, c := range n.ineq {
		for _, t := range c.t {
			if !keep[t.s] {
				drop[t.s] = true
			}
		}
	}
	ds := sortedSyms(drop)
	n.ineq = n.setBounds(n.ineq, ds)
	for len(ds) > 0 {
		// cheapest first
		best, bc := 0, int(1<<30)
		for i, d := range ds {
			p, q := 0, 0
			for _, c := range n.ineq {
				if k := c.coef(d); k > 0 {
					p++
				} else if k < 0 {
					q++
				}
			}
			if p*q-p-q < bc {
				bc, best = p*q-p-q, i
			}
		}
		d := ds[best]
		ds = append(ds[:best], ds[best+1:]...)
		var pos, neg, rest []Lin
		for _, c := range n.ineq {
			switch k := c.coef(d); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		n.ineq = rest
		n.cache = nil
		if len(pos)*len(neg) <= 400 {
			for _, p := range pos {
				for _, q := range neg {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(errOverflow); !ok {
									panic(r)
								}
							}
						}()
						e := p.scale(-q.coef(d)).add(q.scale(p.coef(d))).tighten()
						if e.isConst() {
							return
						}
						if len(n.ineq) < 200 {
							n.dedupGE(e)
						}
					}()
				}
			}
		}
	}
	for s := range n.sets {
		if !keep[s] {
			delete(n.sets, s)
		}
	}
	var nn []Lin
	for _, e := range n.neq {
		ok := true
		for _, t := range e.t {
			if !keep[t.s] {
				ok = false
			}
		}
		if ok {
			nn = append(nn, e)
		}
	}
	n.neq = nn
	n.cache = nil
	n.dropBytes()
	if len(n.ineq) > 40 {
		n.reduce()
	}
}

// dedupGE appends e unless a constraint of the same direction is at least as strong
func (n *Num) dedupGE(e Lin) {
	dk := e.dirKey()
	for i, o := range n.ineq {
		if o.dirKey() == dk {
			if o.c > e.c {
				n.ineq[i] = e
			}
			return
		}
	}
	n.ineq = append(n.ineq, e)
}

// dropBytes drops the inequalities that the byte sets imply
func (n *Num) dropBytes() {
	var r []Lin
	for _, e := range n.ineq {
		low, implied := e.c, len(e.t) > 1
		for _, t := range e.t {
			bs, ok := n.sets[t.s]
			if !ok || bs.empty() {
				implied = false
				break
			}
			if t.k > 0 {
				low += t.k * int64(bs.min())
			} else {
				low += t.k * int64(bs.max())
			}
		}
		if !implied || low < 0 {
			r = append(r, e)
		}
	}
	if len(r) < len(n.ineq) {
		n.ineq = r
		n.cache = nil
	}
}

// reduce drops redundant inequalities
func (n *Num) reduce() {
	for i := len(n.ineq) - 1; i >= 0; i-- {
		e := n.ineq[i]
		m := &Num{eqs: map[Sym]Lin{}, sets: map[Sym]ByteSet{}}
		m.ineq = append(append([]Lin(nil), n.ineq[:i]...), n.ineq[i+1:]...)
		if m.entailsGE(e) {
			n.ineq = m.ineq
		}
	}
	n.cache = nil
}

func eqOrder(m map[Sym]Lin) []Sym {
	r := make([]Sym, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// implicitEqs turns opposite inequalities in equalities
func (n *Num) implicitEqs() {
	for again := true; again && !n.bot; {
		again = false
		m := map[string]Lin{}
		for _, c := range n.ineq {
			m[c.dirKey()] = c
		}
		for _, c := range n.ineq {
			unit := false
			for _, t := range c.t {
				if t.k == 1 || t.k == -1 {
					unit = true
				}
			}
			if !unit {
				continue
			}
			if o, ok := m[c.neg().dirKey()]; ok && o.c+c.c == 0 {
				n.addEQ(c)
				again = true
				break
			}
		}
	}
}
