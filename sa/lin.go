package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Sym is a symbolic integer of the abstract domain.
type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is an affine expression c + sum k*s, terms sorted by symbol, no zero coefficient. Immutable.
type Lin struct {
	c int64
	t []term
}

// errOverflow is raised (and recovered by the numeric domain) when exact arithmetic is lost.
type errOverflow struct{}

func addI(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		panic(errOverflow{})
	}
	return r
}

func mulI(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo > math.MaxInt64 {
		panic(errOverflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func gcdI(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func konst(c int64) Lin { return Lin{c: c} }
func symL(s Sym) Lin    { return Lin{t: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) isSym() (Sym, bool) {
	if a.c == 0 && len(a.t) == 1 && a.t[0].k == 1 {
		return a.t[0].s, true
	}
	return 0, false
}

func (a Lin) coef(s Sym) int64 {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (a Lin) add(b Lin) Lin { return a.addMul(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.addMul(b, -1) }
func (a Lin) neg() Lin      { return Lin{}.addMul(a, -1) }
func (a Lin) addC(c int64) Lin {
	return Lin{addI(a.c, c), a.t}
}

// addMul returns a + k*b
func (a Lin) addMul(b Lin, k int64) Lin {
	if k == 0 {
		return a
	}
	r := Lin{c: addI(a.c, mulI(k, b.c))}
	if len(b.t) == 0 {
		r.t = a.t
		return r
	}
	r.t = make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s):
			r.t = append(r.t, a.t[i])
			i++
		case i == len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, term{b.t[j].s, mulI(k, b.t[j].k)})
			j++
		default:
			c := addI(a.t[i].k, mulI(k, b.t[j].k))
			if c != 0 {
				r.t = append(r.t, term{a.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) scale(k int64) Lin { return Lin{}.addMul(a, k) }

// subst replaces s by e
func (a Lin) subst(s Sym, e Lin) Lin {
	k := a.coef(s)
	if k == 0 {
		return a
	}
	return a.addMul(symL(s), -k).addMul(e, k)
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	b := make([]byte, 0, 8+12*len(a.t))
	b = strconv.AppendInt(b, a.c, 10)
	for _, t := range a.t {
		b = append(b, ',')
		b = strconv.AppendInt(b, t.k, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.s), 10)
	}
	return string(b)
}

func (a Lin) dirKey() string { return Lin{0, a.t}.key() }

// tighten divides by the gcd of the coefficients, the constant rounded down (valid for a >= 0 over integers)
func (a Lin) tighten() Lin {
	if len(a.t) == 0 {
		return a
	}
	g := int64(0)
	for _, t := range a.t {
		g = gcdI(g, t.k)
	}
	if g <= 1 {
		return a
	}
	r := Lin{c: floorDiv(a.c, g), t: make([]term, len(a.t))}
	for i, t := range a.t {
		r.t[i] = term{t.s, t.k / g}
	}
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return fmt.Sprint(a.c)
	}
	var sb strings.Builder
	for i, t := range a.t {
		switch {
		case t.k == 1 && i == 0:
		case t.k == 1:
			sb.WriteString("+")
		case t.k == -1:
			sb.WriteString("-")
		case t.k > 0 && i > 0:
			fmt.Fprintf(&sb, "+%d", t.k)
		default:
			fmt.Fprintf(&sb, "%d", t.k)
		}
		sb.WriteString(symName(t.s))
	}
	if a.c != 0 {
		fmt.Fprintf(&sb, "%+d", a.c)
	}
	return sb.String()
}

// symbols

type symInfo struct {
	name   string
	lo, hi int64 // values of the type, used only to bound overflow
}

var symTab = []symInfo{{name: "?0"}}

func newSym(name string) Sym {
	symTab = append(symTab, symInfo{name: name})
	return Sym(len(symTab) - 1)
}

func symName(s Sym) string { return fmt.Sprintf("%s_%d", symTab[s].name, s) }

func linSyms(ls ...Lin) map[Sym]bool {
	m := map[Sym]bool{}
	for _, l := range ls {
		for _, t := range l.t {
			m[t.s] = true
		}
	}
	return m
}

func sortedSyms(m map[Sym]bool) []Sym {
	r := make([]Sym, 0, len(m))
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
