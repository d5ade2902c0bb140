package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// base objects exist before the analysis of an entry point (globals and what they reach)
var baseObj, baseUnk int
var baseObjs map[int]*Obj

func sortedRegs(f *Frame) []ssa.Value {
	ks := make([]ssa.Value, 0, len(f.regs))
	for k := range f.regs {
		ks = append(ks, k)
	}
	idx := valueIndex(f.fn)
	sort.Slice(ks, func(i, j int) bool { return idx[ks[i]] < idx[ks[j]] })
	return ks
}

func sortedGhost(m map[string]Val) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// canonicalisation

type canon struct {
	s    *State
	sb   strings.Builder
	num  map[int]int
	unk  map[int]int
	work []int
}

func (s *State) key() string {
	c := &canon{s: s, num: map[int]int{}, unk: map[int]int{}}
	for _, f := range s.frames {
		c.sb.WriteString("F" + f.fn.String())
		if f.panicking {
			c.sb.WriteString("!")
		}
		if f.recovered {
			c.sb.WriteString("r")
		}
		fmt.Fprintf(&c.sb, "%d", f.inDefer)
		for _, r := range sortedRegs(f) {
			c.sb.WriteString(r.Name() + "=")
			c.val(f.regs[r])
			c.sb.WriteString(";")
		}
		for _, d := range f.defers {
			fmt.Fprintf(&c.sb, "D%p", d.pos)
			c.val(d.fn)
			for _, a := range d.args {
				c.val(a)
			}
		}
		c.val(f.panicVal)
	}
	for _, g := range sortedGhost(s.ghost) {
		c.sb.WriteString("G" + g + "=")
		c.val(s.ghost[g])
	}
	for i := 0; i < len(c.work); i++ {
		c.obj(c.work[i])
	}
	for _, id := range s.modifiedBase() {
		if _, ok := c.num[id]; !ok {
			c.ref(id)
		}
	}
	for i := 0; i < len(c.work); i++ {
		c.obj(c.work[i])
	}
	return c.sb.String()
}

func (s *State) modifiedBase() []int {
	var r []int
	for id, o := range baseObjs {
		if p, ok := s.objs[id]; ok && p != o && (o.arr == nil || !o.arr.content) {
			r = append(r, id)
		}
	}
	sort.Ints(r)
	return r
}

func (c *canon) ref(id int) {
	if id <= baseObj && c.s.objs[id] == baseObjs[id] {
		fmt.Fprintf(&c.sb, "b%d", id)
		return
	}
	n, ok := c.num[id]
	if !ok {
		n = len(c.num)
		c.num[id] = n
		c.work = append(c.work, id)
		if id <= baseObj {
			fmt.Fprintf(&c.sb, "B%d", id)
		}
	}
	fmt.Fprintf(&c.sb, "#%d", n)
}

func (c *canon) obj(id int) {
	if c.done(id) {
		return
	}
	o := c.s.objs[id]
	if o == nil {
		return
	}
	fmt.Fprintf(&c.sb, "\nO%d:%d", c.num[id], o.kind)
	switch o.kind {
	case kCell:
		c.val(o.val)
	case kArr:
		a := o.arr
		if a.zero {
			c.sb.WriteString("z")
		}
		for _, p := range c.s.structPts(o) {
			fmt.Fprintf(&c.sb, "[%d]", c.s.num.norm(p.lo).c)
			c.val(p.v)
		}
	case kMap:
		if o.exact {
			fmt.Fprintf(&c.sb, "m%d", len(o.ents))
			for _, e := range o.ents {
				if s, ok := e.k.(StrV); ok {
					if l, ok := c.s.litOf(s); ok {
						fmt.Fprintf(&c.sb, "%q", l)
					}
				}
				c.val(e.k)
				c.val(e.v)
			}
		}
	}
	for _, g := range sortedGhost(o.ghost) {
		c.sb.WriteString("g" + g + "=")
		c.val(o.ghost[g])
	}
}

var objDone map[int]bool

func (c *canon) done(id int) bool { return false }

// structPts returns the points that belong to the shape of an array: known positions of a small array of references
func (s *State) structPts(o *Obj) []Fact {
	a := o.arr
	if a.content && exactKeys < 2 || isByte(o.typ) || isIntT(o.typ) {
		return nil
	}
	n := s.num.norm(a.n)
	few := false
	if exactKeys < 2 && (!n.isConst() || n.c > 32) {
		if few = joinMarks && !n.isConst(); !few {
			return nil
		}
	}
	var r []Fact
	for _, f := range a.facts {
		if f.k == fPt && s.num.norm(f.lo).isConst() {
			r = append(r, f)
		}
	}
	if few && len(r) > 3 {
		return nil
	}
	sort.Slice(r, func(i, j int) bool { return s.num.norm(r[i].lo).c < s.num.norm(r[j].lo).c })
	return r
}

// exactKeys: known integers (2), or only known lengths of nothing (1), are part of the shape of a state
var exactKeys int

func (c *canon) lin(e Lin) {
	if n := c.s.num.norm(e); n.isConst() {
		fmt.Fprintf(&c.sb, ",%d", n.c)
	}
}

func (c *canon) val(v Val) {
	v = c.s.resolve(v)
	switch v := v.(type) {
	case nil:
		c.sb.WriteString("_")
	case IntV:
		c.sb.WriteString("i")
		if exactKeys == 2 {
			c.lin(v.e)
		}
	case BoolV:
		op := v.c.op
		if op != cTrue && op != cFalse {
			// decided conditions are part of the shape
			if t, ok := c.s.decide(v.c); ok {
				op = cFalse
				if t {
					op = cTrue
				}
			}
		}
		fmt.Fprintf(&c.sb, "c%d", op)
	case NilV:
		c.sb.WriteString("N")
	case UnkV:
		if v.id <= baseUnk {
			fmt.Fprintf(&c.sb, "U%d", v.id)
			return
		}
		n, ok := c.unk[v.id]
		if !ok {
			n = len(c.unk)
			c.unk[v.id] = n
		}
		fmt.Fprintf(&c.sb, "u%d%v", n, v.nonnil)
	case PtrV:
		c.sb.WriteString("p")
		c.ref(v.obj)
		fmt.Fprintf(&c.sb, "%v%v", v.elem, v.path)
	case SliceV:
		c.sb.WriteString("s")
		c.ref(v.obj)
		switch exactKeys {
		case 2:
			c.lin(v.off)
			c.lin(v.len)
		case 1:
			if n := c.s.num.norm(v.len); n.isConst() && n.c == 0 {
				c.sb.WriteString(",0")
			}
		}
	case StrV:
		c.sb.WriteString("S")
	case IfaceV:
		c.sb.WriteString("I" + types.TypeString(v.typ, nil) + "(")
		c.val(v.v)
		c.sb.WriteString(")")
	case FuncV:
		c.sb.WriteString("f" + v.fn.String() + "(")
		for _, x := range v.free {
			c.val(x)
		}
		c.sb.WriteString(")")
	case StructV:
		c.sb.WriteString("{")
		for _, x := range v.f {
			c.val(x)
			c.sb.WriteString(",")
		}
		c.sb.WriteString("}")
	case TupleV:
		c.sb.WriteString("(")
		for _, x := range v.f {
			c.val(x)
			c.sb.WriteString(",")
		}
		c.sb.WriteString(")")
	case ArrV:
		c.sb.WriteString("a")
		c.ref(v.obj)
	case RefV:
		c.sb.WriteString("r")
		c.ref(v.obj)
	case BuiltinV:
		c.sb.WriteString("b" + v.name)
	default:
		panic(fmt.Sprintf("key of %T", v))
	}
}

// pairing of two states of the same key

type pairing struct {
	a, b  *State
	leq   bool // subsumption: a is the head, b the candidate
	widen bool
	hard  bool // nothing new is kept
	ok    bool

	om        map[[2]int]int // objects a,b -> result
	order     [][2]int
	um        map[[2]int]UnkV
	lm        map[string]Lin // joined affine expressions
	pairs     []linPair
	out       *State
	seen      map[[2]int]bool
	slices    [][3]SliceV
	windowsOf map[int][]Lin // the starts of the slices of a buffer
	inv       []Lin         // never negative
	ext       []Lin         // the ends of contents
	anch      map[Sym]bool  // symbols of the structure that are the same on both sides
}

type linPair struct{ a, b, r Lin }

func (p *pairing) lin(x, y Lin) Lin {
	x, y = p.a.num.norm(x), p.b.num.norm(y)
	k := x.key() + "|" + y.key()
	if r, ok := p.lm[k]; ok {
		return r
	}
	var r Lin
	if x.eq(y) {
		r = x
		p.pairs = append(p.pairs, linPair{x, y, r})
	} else if p.leq {
		r = x
		p.pairs = append(p.pairs, linPair{x, y, r})
	} else {
		r = symL(newSym("j"))
		p.pairs = append(p.pairs, linPair{x, y, r})
	}
	p.lm[k] = r
	return r
}

// sum relates the ends of two slices
func (p *pairing) sum(x, y, r Lin) {
	x, y = p.a.num.norm(x), p.b.num.norm(y)
	k := x.key() + "|" + y.key()
	if _, ok := p.lm[k]; ok {
		return
	}
	if x.eq(y) {
		r = x
	}
	p.lm[k] = r
	p.pairs = append(p.pairs, linPair{x, y, r})
}

func (p *pairing) obj(x, y int) int {
	k := [2]int{x, y}
	if r, ok := p.om[k]; ok {
		return r
	}
	if x == y && x <= baseObj && p.a.objs[x] == p.b.objs[x] && p.a.objs[x] == baseObjs[x] {
		p.om[k] = x
		p.out.objs[x] = p.a.objs[x]
		return x
	}
	ax, by := p.a.objs[x], p.b.objs[y]
	if ax == nil || by == nil {
		panic(fmt.Sprintf("join: object %d %v %d %v base %d %v", x, ax, y, by, baseObj, baseObjs[x]))
	}
	r := x
	if ax.arr != nil && ax.arr.content && x != y {
		objCount++
		r = objCount
	}
	p.om[k] = r
	p.order = append(p.order, k)
	_ = by
	return r
}

func (p *pairing) val(x, y Val) Val {
	x, y = p.a.resolve(x), p.b.resolve(y)
	switch x := x.(type) {
	case nil:
		return nil
	case IntV:
		return IntV{p.lin(x.e, y.(IntV).e)}
	case BoolV:
		yb := y.(BoolV)
		ta, oka := p.a.decide(x.c)
		tb, okb := p.b.decide(yb.c)
		if oka && okb && ta == tb {
			return boolC(ta)
		}
		switch x.c.op {
		case cGE, cEQ, cNE:
			if x.c.op == yb.c.op {
				return BoolV{Cond{op: x.c.op, e: p.lin(x.c.e, yb.c.e)}}
			}
		case cStrEQ, cStrNE:
			if x.c.op == yb.c.op {
				return BoolV{Cond{op: x.c.op, a: p.val(x.c.a, yb.c.a).(StrV), b: p.val(x.c.b, yb.c.b).(StrV)}}
			}
		}
		if p.leq {
			p.ok = false
		}
		return p.out.freshBool("jb")
	case NilV:
		return x
	case UnkV:
		yu := y.(UnkV)
		if x.id == yu.id {
			return x
		}
		k := [2]int{x.id, yu.id}
		if r, ok := p.um[k]; ok {
			return r
		}
		var r UnkV
		if p.leq {
			r = x
		} else {
			r = newUnk(x.typ, x.nonnil && yu.nonnil)
		}
		p.um[k] = r
		return r
	case PtrV:
		yp := y.(PtrV)
		r := x
		r.obj = p.obj(x.obj, yp.obj)
		if x.elem {
			r.idx = p.lin(x.idx, yp.idx)
		}
		return r
	case SliceV:
		ys := y.(SliceV)
		r := SliceV{p.obj(x.obj, ys.obj), p.lin(x.off, ys.off), p.lin(x.len, ys.len), p.lin(x.cap, ys.cap)}
		p.inv = append(p.inv, r.len, r.cap.sub(r.len))
		if o := p.a.objs[x.obj]; !isByte(o.typ) || !o.arr.content && o.arr.n.isConst() {
			p.sum(x.off.add(x.len), ys.off.add(ys.len), r.off.add(r.len))
		}
		if joinMarks && x.obj == ys.obj && !x.off.eq(konst(0)) && x.off.eq(ys.off) {
			p.windowsOf[x.obj] = append(p.windowsOf[x.obj], x.off)
		}
		if o := p.a.objs[x.obj]; isIntT(o.typ) && !isByte(o.typ) && !o.arr.content {
			p.slices = append(p.slices, [3]SliceV{x, ys, r})
		}
		return r
	case StrV:
		ys := y.(StrV)
		if joinMarks && x.obj != ys.obj {
			// nothing is a part of any string
			if xe, ye := p.a.num.norm(x.len).eq(konst(0)), p.b.num.norm(ys.len).eq(konst(0)); xe && !ye && p.a.objs[ys.obj] != nil && p.b.num.norm(ys.off).isConst() {
				x.obj, x.off = ys.obj, p.b.num.norm(ys.off)
			} else if ye && !xe && p.b.objs[x.obj] != nil && p.a.num.norm(x.off).isConst() {
				ys.obj, ys.off = x.obj, p.a.num.norm(x.off)
			}
		}
		r := StrV{p.obj(x.obj, ys.obj), p.lin(x.off, ys.off), p.lin(x.len, ys.len)}
		p.inv = append(p.inv, r.len)
		return r
	case IfaceV:
		return IfaceV{x.typ, p.val(x.v, y.(IfaceV).v)}
	case FuncV:
		yf := y.(FuncV)
		r := FuncV{x.fn, make([]Val, len(x.free))}
		for i := range x.free {
			r.free[i] = p.val(x.free[i], yf.free[i])
		}
		return r
	case StructV:
		yf := y.(StructV)
		r := StructV{make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = p.val(x.f[i], yf.f[i])
		}
		return r
	case TupleV:
		yf := y.(TupleV)
		r := TupleV{make([]Val, len(x.f))}
		for i := range x.f {
			r.f[i] = p.val(x.f[i], yf.f[i])
		}
		return r
	case ArrV:
		return ArrV{p.obj(x.obj, y.(ArrV).obj)}
	case RefV:
		return RefV{p.obj(x.obj, y.(RefV).obj)}
	case BuiltinV:
		return x
	}
	panic(fmt.Sprintf("pairing of %T", x))
}

func (p *pairing) ghosts(x, y map[string]Val) map[string]Val {
	r := make(map[string]Val, len(x))
	for _, k := range sortedGhost(x) {
		r[k] = p.val(x[k], y[k])
	}
	return r
}

// structure walks the shape and fills the frames and the cells of the result
func (p *pairing) structure() {
	for i, fa := range p.a.frames {
		fb := p.b.frames[i]
		f := &Frame{fn: fa.fn, site: fa.site, regs: make(map[ssa.Value]Val, len(fa.regs)), panicking: fa.panicking, recovered: fa.recovered, inDefer: fa.inDefer}
		for _, k := range sortedRegs(fa) {
			f.regs[k] = p.val(fa.regs[k], fb.regs[k])
		}
		for j, d := range fa.defers {
			e := fb.defers[j]
			n := Deferred{call: d.call, pos: d.pos, fn: p.val(d.fn, e.fn)}
			for k := range d.args {
				n.args = append(n.args, p.val(d.args[k], e.args[k]))
			}
			f.defers = append(f.defers, n)
		}
		f.panicVal = p.val(fa.panicVal, fb.panicVal)
		p.out.frames = append(p.out.frames, f)
	}
	p.out.ghost = p.ghosts(p.a.ghost, p.b.ghost)
	i := 0
	drain := func() {
		for ; i < len(p.order); i++ {
			k := p.order[i]
			oa, ob := p.a.objs[k[0]], p.b.objs[k[1]]
			r := frozenClone(oa, ob)
			switch oa.kind {
			case kCell:
				r.val = p.val(oa.val, ob.val)
			case kArr:
				p.arrShape(r, oa, ob)
			case kMap:
				r.exact = oa.exact && ob.exact && len(oa.ents) == len(ob.ents)
				r.ents = nil
				if r.exact {
					for j := range oa.ents {
						r.ents = append(r.ents, mapEnt{p.val(oa.ents[j].k, ob.ents[j].k), p.val(oa.ents[j].v, ob.ents[j].v)})
					}
				}
			}
			r.ghost = p.ghosts(oa.ghost, ob.ghost)
			p.out.objs[p.om[k]] = r
		}
	}
	drain()
	mb := map[int]bool{}
	for _, id := range p.a.modifiedBase() {
		mb[id] = true
	}
	for _, id := range p.b.modifiedBase() {
		mb[id] = true
	}
	var ids []int
	for id := range mb {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		p.obj(id, id)
	}
	drain()
	for id, o := range baseObjs {
		if _, ok := p.out.objs[id]; !ok {
			if p.a.objs[id] == p.b.objs[id] && p.a.objs[id] != nil {
				p.out.objs[id] = p.a.objs[id]
			} else {
				p.out.objs[id] = o
			}
		}
	}
}

// arrShape joins the structural part of arrays; the facts are joined afterwards
func (p *pairing) arrShape(r, oa, ob *Obj) {
	a, b := oa.arr, ob.arr
	n := &Arr{n: p.lin(a.n, b.n), content: a.content, zero: a.zero && b.zero}
	if n.zero && oa != ob && (len(a.facts) > 0 || len(b.facts) > 0) {
		n.zero = len(p.a.structPts(oa)) == len(a.facts) && len(p.b.structPts(ob)) == len(b.facts) && len(a.facts) == len(b.facts)
		if !n.zero && p.leq {
			p.ok = false
		}
	}
	if oa == ob {
		n.isLit, n.lit, n.desc = a.isLit, a.lit, a.desc
	} else {
		if a.desc != nil && a.desc == b.desc {
			n.desc = a.desc
		}
		if a.isLit && b.isLit && a.lit == b.lit {
			n.isLit, n.lit = true, a.lit
		}
	}
	pa, pb := p.a.structPts(oa), p.b.structPts(ob)
	keep := map[int64]bool{}
	if len(pa) == len(pb) {
		for i := range pa {
			keep[p.a.num.norm(pa[i].lo).c] = true
			n.facts = append(n.facts, Fact{k: fPt, lo: pa[i].lo, hi: pa[i].hi, v: p.val(pa[i].v, pb[i].v)})
		}
	}
	refs := !isByte(oa.typ) && !isIntT(oa.typ)
	n.hasTmpl = a.hasTmpl && b.hasTmpl
	if n.hasTmpl && refs {
		for _, t := range a.tmpl {
			n.tmpl = addTmpl(n.tmpl, t)
		}
		for _, t := range b.tmpl {
			n.tmpl = addTmpl(n.tmpl, t)
		}
		drop := func(s *State, x *Arr) {
			for _, f := range x.facts {
				if f.k != fPt {
					continue
				}
				l := s.num.norm(f.lo)
				if l.isConst() && keep[l.c] {
					continue
				}
				n.tmpl = addTmpl(n.tmpl, s.template(f.v))
			}
		}
		drop(p.a, a)
		drop(p.b, b)
		if p.leq {
			if len(n.tmpl) != len(a.tmpl) {
				// the head must already have the shapes of the candidate
				have := map[string]bool{}
				for _, t := range a.tmpl {
					have[tmplKey(t)] = true
				}
				for _, f := range a.facts {
					if f.k == fPt {
						have[tmplKey(p.a.template(f.v))] = true
					}
				}
				for _, t := range n.tmpl {
					if !have[tmplKey(t)] {
						p.ok = false
					}
				}
			}
		}
	} else if p.leq && a.hasTmpl && !b.hasTmpl {
		p.ok = false
	}
	r.arr = n
}

// translate gives the expressions of the other state that may correspond to x
func (p *pairing) translate(x Lin, fromA bool) []linPair {
	var r []linPair
	from := p.a
	if !fromA {
		from = p.b
	}
	x = from.num.norm(x)
	dup := map[string]bool{}
	add := func(l linPair) {
		k := l.a.key() + "|" + l.b.key()
		if !dup[k] && len(r) < 24 {
			dup[k] = true
			r = append(r, l)
		}
	}
	for _, q := range p.pairs {
		f, t := q.a, q.b
		if !fromA {
			f, t = q.b, q.a
		}
		d := x.sub(f)
		if d.isConst() {
			// far away constants are coincidences
			if d.c > 2 || d.c < -2 {
				if !x.isConst() || !f.isConst() {
					continue
				}
				continue
			}
			if fromA {
				add(linPair{f.addC(d.c), t.addC(d.c), q.r.addC(d.c)})
			} else {
				add(linPair{t.addC(d.c), f.addC(d.c), q.r.addC(d.c)})
			}
		}
	}
	if len(r) == 0 {
		// the sum of two known expressions
		side := func(q linPair) (f, t Lin) {
			if fromA {
				return q.a, q.b
			}
			return q.b, q.a
		}
		for i, q := range p.pairs {
			f, t := side(q)
			if f.isConst() || i > 80 {
				continue
			}
			d := x.sub(f)
			if len(d.t) > 1 {
				continue
			}
			for _, q2 := range p.pairs {
				f2, t2 := side(q2)
				if f2.isConst() || !f2.eq(d) {
					continue
				}
				if fromA {
					add(linPair{x, p.b.num.norm(t.add(t2)), q.r.add(q2.r)})
				} else {
					add(linPair{p.a.num.norm(t.add(t2)), x, q.r.add(q2.r)})
				}
				break
			}
		}
	}
	// identity, of what is used elsewhere than in facts
	id := true
	for _, t := range x.t {
		if !p.anch[t.s] {
			id = false
		}
	}
	if id {
		add(linPair{x, x, x})
	}
	return r
}

// facts joins the facts of every pair of objects
func (p *pairing) facts() {
	p.anch = map[Sym]bool{}
	for _, q := range p.pairs {
		if q.a.eq(q.b) {
			for _, t := range q.a.t {
				p.anch[t.s] = true
			}
		}
	}
	for i := 0; i < len(p.order); i++ {
		k := p.order[i]
		oa, ob := p.a.objs[k[0]], p.b.objs[k[1]]
		if oa.kind != kArr {
			continue
		}
		if oa.arr.isLit && (oa == ob || ob.arr.isLit && oa.arr.lit == ob.arr.lit) {
			if p.out.objs[p.om[k]] == nil {
				p.out.objs[p.om[k]] = oa
			}
			continue
		}
		rid := p.om[k]
		if p.out.objs[rid] == nil {
			// reached through facts only
			r := frozenClone(oa, ob)
			p.arrShape(r, oa, ob)
			p.out.objs[rid] = r
		}
		var got []Fact
		have := func(f Fact) bool {
			for _, g := range got {
				if f.k == fPt && g.k == fPt && g.lo.eq(f.lo) {
					return true
				}
				if g.k == f.k && g.lo.eq(f.lo) && g.hi.eq(f.hi) && g.src == f.src && g.set == f.set && g.delta.eq(f.delta) && (f.k != fPt || sameInt(g.v, f.v)) {
					return true
				}
			}
			return false
		}
		// the parts of a same immutable content
		same := map[int]bool{}
		nsegs := 0
		if fa, fb := segsOf(oa.arr), segsOf(ob.arr); joinMarks && k[0] == k[1] && oa.arr.content && len(fa) > 0 && len(fa) == len(fb) && !p.leq {
			// one by one
			for i, f := range fa {
				g := fb[i]
				if f.src != g.src {
					continue
				}
				if _, ok := p.om[[2]int{f.src, f.src}]; !ok {
					p.obj(f.src, f.src)
				}
				if p.om[[2]int{f.src, f.src}] == f.src {
					got = append(got, Fact{k: fSeg, lo: p.lin(f.lo, g.lo), hi: p.lin(f.hi, g.hi), src: f.src, delta: p.lin(f.delta, g.delta)})
					same[len(same)] = true
				}
			}
		} else if k[0] == k[1] && oa.arr.content {
			for _, f := range oa.arr.facts {
				if f.k == fSeg {
					nsegs++
				}
				for j, g := range ob.arr.facts {
					if f.k != fSeg || g.k != fSeg || f.src != g.src || same[j] {
						continue
					}
					if f.lo.eq(g.lo) && f.hi.eq(g.hi) && f.delta.eq(g.delta) {
						if _, ok := p.om[[2]int{f.src, f.src}]; !ok {
							p.obj(f.src, f.src)
						}
						if p.om[[2]int{f.src, f.src}] != f.src {
							continue
						}
						got = append(got, Fact{k: fSeg, lo: p.lin(f.lo, f.lo), hi: p.lin(f.hi, f.hi), src: f.src, delta: p.lin(f.delta, f.delta)})
						same[j] = true
						break
					}
				}
			}
		}
		if !oa.arr.content && !p.leq && !p.hard {
			p.ends(oa, ob)
		}
		for side := 0; side < 2; side++ {
			fromA := side == 0
			if p.hard && !fromA {
				break
			}
			src, other, so, oo := p.a, p.b, oa, k[1]
			if !fromA {
				src, other, so, oo = p.b, p.a, ob, k[0]
			}
			for _, f := range so.arr.facts {
				if f.k == fMin || f.k == fMax {
					continue // found again by bounds
				}
				if f.k == fSeg && k[0] == k[1] && oa.arr.content && len(same) > 0 && (len(same) >= nsegs || !joinMarks) {
					continue
				}
				before := len(got)
				if f.k == fPt {
					if _, ok := f.v.(IntV); !ok {
						continue
					}
				}
				for _, lp := range p.translate(f.lo, fromA) {
					if p.hard && len(got) > before {
						break
					}
					lo2 := lp.b
					if !fromA {
						lo2 = lp.a
					}
					if f.k == fPt {
						if have(Fact{k: fPt, lo: lp.r}) {
							continue
						}
						v2, ok := other.knownAt(oo, lo2, 0)
						if !ok {
							continue
						}
						var v Val
						if fromA {
							v = p.val(f.v, v2)
						} else {
							v = p.val(v2, f.v)
						}
						g := Fact{k: fPt, lo: lp.r, hi: lp.r.addC(1), v: v}
						if !have(g) {
							got = append(got, g)
						}
						continue
					}
					for _, hp := range p.translate(f.hi, fromA) {
						if p.hard && len(got) > before {
							break
						}
						hi2 := hp.b
						if !fromA {
							hi2 = hp.a
						}
						g := Fact{k: f.k, lo: lp.r, hi: hp.r, src: f.src, delta: f.delta, set: f.set, g: f.g}
						if lp.r.sub(hp.r).isConst() && lp.r.sub(hp.r).c >= 0 {
							continue
						}
						switch f.k {
						case fSeg:
							rs, rd, ok := p.segIn(other, oo, f, lo2, hi2, fromA)
							if !ok {
								continue
							}
							g.src, g.delta = rs, rd
						case fSet:
							if !other.ge(lo2, hi2) {
								b := other.bytesIn(oo, lo2, hi2, 0)
								if !b.subset(f.set) {
									u := b.or(f.set)
									if u == allBytes || (p.widen && fromA) {
										continue
									}
									g.set = u
								}
							}
						case fSorted:
							if !other.sortedIn(oo, lo2, hi2, f.g) {
								continue
							}
						}
						if d := g.hi.sub(g.lo); g.k == fSorted && d.isConst() && d.c < 2 {
							continue
						}
						if !have(g) {
							got = append(got, g)
						}
					}
				}
			}
			_ = src
		}
		if len(got) > 0 {
			o := p.out.objs[rid].clone()
			a := o.arr.clone()
			a.facts = append(a.facts, got...)
			o.arr = a
			p.out.objs[rid] = o
		}
	}
}

// ends names the ends of the parts of two buffers that have the same source and start
func (p *pairing) ends(oa, ob *Obj) {
	only := func(fs []Fact, f Fact) bool {
		n := 0
		for _, g := range fs {
			if g.k == fSeg && g.src == f.src {
				n++
			}
		}
		return n == 1
	}
	for _, f := range oa.arr.facts {
		if f.k != fSeg || !only(oa.arr.facts, f) {
			continue
		}
		for _, g := range ob.arr.facts {
			if g.k != fSeg || g.src != f.src || !only(ob.arr.facts, g) {
				continue
			}
			if p.a.num.norm(f.hi).eq(p.b.num.norm(g.hi)) && len(p.translate(f.hi, true)) > 0 {
				continue
			}
			for _, lp := range p.translate(f.lo, true) {
				if p.b.num.norm(lp.b.sub(g.lo)).isConst() && p.b.num.norm(lp.b.sub(g.lo)).c == 0 {
					p.ext = append(p.ext, p.lin(f.hi, g.hi))
					break
				}
			}
		}
	}
}

// joinMarks: the place of the single literal bytes in the buffers is of interest
var joinMarks bool

func segsOf(a *Arr) (r []Fact) {
	for _, f := range a.facts {
		if f.k == fSeg {
			r = append(r, f)
		}
	}
	return
}

// singleLit tells whether a fact is that there is a literal of one byte
func singleLit(s *State, f Fact) bool {
	if f.k != fSeg || len(f.lo.t) > 8 || !f.hi.sub(f.lo).isConst() || f.hi.sub(f.lo).c != 1 {
		return false
	}
	src := s.objs[f.src]
	return src != nil && src.arr != nil && src.arr.isLit
}

func sortedObjs(s *State) []int {
	ids := make([]int, 0, len(s.objs))
	for id := range s.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

// marks compares the integers that change with the place of the single literal bytes
func (p *pairing) marks(np int) {
	var places []Lin
	seen := map[string]bool{}
	for _, k := range append([][2]int(nil), p.order...) {
		oa, ob := p.a.objs[k[0]], p.b.objs[k[1]]
		if k[0] != k[1] || oa.arr == nil || ob.arr == nil || oa.arr.isLit || ob.arr.isLit {
			continue
		}
		for _, f := range oa.arr.facts {
			if !singleLit(p.a, f) || seen[f.lo.key()] {
				continue
			}
			for _, g := range ob.arr.facts {
				if g.k == fSeg && g.lo.eq(f.lo) && g.hi.eq(f.hi) {
					seen[f.lo.key()] = true
					l := p.lin(f.lo, f.lo)
					places = append(places, l)
					for _, off := range p.windowsOf[k[0]] {
						places = append(places, l.sub(p.lin(off, off)))
					}
					break
				}
			}
		}
	}
	if debugJoin2 {
		fmt.Println("MARKS", places)
	}
	for _, q := range p.pairs[:np] {
		if _, ok := q.r.isSym(); ok && !q.a.eq(q.b) {
			for _, l := range places {
				p.ext = append(p.ext, q.r.sub(l))
			}
		}
	}
}

// bounds looks for the known integers that bound the elements of the slices of integers
func (p *pairing) bounds(np int) {
	seen := map[string]bool{}
	for _, t := range p.slices {
		k := fmt.Sprintf("%d %s %s", t[2].obj, t[2].off.key(), t[2].len.key())
		if seen[k] || p.out.objs[t[2].obj] == nil || p.a.ge(konst(0), t[0].len) && p.b.ge(konst(0), t[1].len) {
			continue
		}
		seen[k] = true
		for i, q := range p.pairs[:np] {
			if i > 60 {
				break
			}
			for _, kind := range []factKind{fMin, fMax} {
				if p.hard && !p.a.hasBound(t[0].obj, kind, q.a) {
					continue
				}
				if p.a.boundedIn(t[0].obj, t[0].off, t[0].off.add(t[0].len), kind, q.a) && p.b.boundedIn(t[1].obj, t[1].off, t[1].off.add(t[1].len), kind, q.b) {
					o := p.out.objs[t[2].obj].clone()
					a := o.arr.clone()
					a.facts = append(a.facts, Fact{k: kind, lo: t[2].off, hi: t[2].off.add(t[2].len), delta: q.r})
					o.arr = a
					p.out.objs[t[2].obj] = o
				}
			}
		}
	}
	p.windows(np)
}

// windows looks for the integers that change and bound the elements that follow another integer that changes
func (p *pairing) windows(np int) {
	var moves []linPair
	for i, q := range p.pairs[:np] {
		if i > 80 || len(moves) > 12 {
			break
		}
		if !q.a.eq(q.b) && len(q.r.t) > 0 {
			moves = append(moves, q)
		}
	}
	seen := map[string]bool{}
	for _, t := range p.slices {
		o := p.out.objs[t[2].obj]
		if o == nil || p.a.ge(konst(0), t[0].len) && p.b.ge(konst(0), t[1].len) {
			continue
		}
		for _, w := range moves {
			// an index of the slice
			if !p.b.ge(w.b.addC(1), konst(0)) || !p.a.ge(w.a.addC(1), konst(0)) {
				continue
			}
			for d := int64(0); d < 2; d++ {
				la, lb := t[0].off.add(w.a).addC(d), t[1].off.add(w.b).addC(d)
				ha, hb := t[0].off.add(t[0].len), t[1].off.add(t[1].len)
				for _, q := range moves {
					lo, hi := t[2].off.add(w.r).addC(d), t[2].off.add(t[2].len)
					k := fmt.Sprintf("%d %s %s %s", t[2].obj, lo.key(), hi.key(), q.r.key())
					if seen[k] {
						continue
					}
					seen[k] = true
					if p.a.boundedIn(t[0].obj, la, ha, fMin, q.a) && p.b.boundedIn(t[1].obj, lb, hb, fMin, q.b) {
						o := p.out.objs[t[2].obj].clone()
						a := o.arr.clone()
						a.facts = append(a.facts, Fact{k: fMin, lo: lo, hi: hi, delta: q.r})
						o.arr = a
						p.out.objs[t[2].obj] = o
					}
				}
			}
		}
	}
}

// hasBound tells whether a bound of the elements is among the facts
func (s *State) hasBound(obj int, k factKind, e Lin) bool {
	for _, f := range s.arr(obj).facts {
		if f.k == k && s.num.norm(f.delta).eq(s.num.norm(e)) {
			return true
		}
	}
	return false
}

func sameInt(a, b Val) bool {
	x, ok := a.(IntV)
	y, ok2 := b.(IntV)
	return ok && ok2 && x.e.eq(y.e)
}

// knownAt returns the value of an element when it is already known
func (s *State) knownAt(obj int, idx Lin, depth int) (Val, bool) {
	o := s.objs[obj]
	a := o.arr
	for _, f := range a.facts {
		if f.k == fPt && s.eqL(f.lo, idx) {
			return f.v, true
		}
	}
	if a.isLit {
		i := s.num.norm(idx)
		if i.isConst() && i.c >= 0 && i.c < int64(len(a.lit)) {
			return intC(int64(a.lit[i.c])), true
		}
		return nil, false
	}
	if depth < 6 {
		for _, f := range a.facts {
			if f.k == fSeg && s.ge(idx, f.lo) && s.gt(f.hi, idx) {
				return s.knownAt(f.src, idx.add(f.delta), depth+1)
			}
		}
	}
	return nil, false
}

func (s *State) sortedIn(obj int, lo, hi Lin, g int64) bool {
	if s.ge(lo.addC(1), hi) { // 0 or 1 element
		return true
	}
	for _, f := range s.arr(obj).facts {
		if f.k == fSorted && f.g >= g && s.ge(lo, f.lo) && s.ge(f.hi, hi) {
			return true
		}
	}
	// adjacent points
	d := s.num.norm(hi.sub(lo))
	if d.isConst() && d.c <= 16 {
		a := s.arr(obj)
		for i := int64(0); i+1 < d.c; i++ {
			x, ok := s.ptAt(a, lo.addC(i))
			y, ok2 := s.ptAt(a, lo.addC(i+1))
			if !ok || !ok2 || !s.ge(y.e, x.e.addC(g)) {
				return false
			}
		}
		return true
	}
	return false
}

// segIn looks in the other state for the segment that corresponds to f
func (p *pairing) segIn(other *State, obj int, f Fact, lo, hi Lin, fromA bool) (int, Lin, bool) {
	match := func(src int) (int, bool) {
		k := [2]int{f.src, src}
		if !fromA {
			k = [2]int{src, f.src}
		}
		if r, ok := p.om[k]; ok {
			return r, true
		}
		if src == f.src {
			return p.obj(src, src), true
		}
		return 0, false
	}
	if other.ge(lo, hi) {
		// vacuous on this side: the source must exist in both
		if _, ok := other.objs[f.src]; !ok {
			return 0, Lin{}, false
		}
		rs, ok := match(f.src)
		if !ok {
			return 0, Lin{}, false
		}
		for _, dp := range p.translate(f.delta, fromA) {
			return rs, dp.r, true
		}
		return 0, Lin{}, false
	}
	for _, g := range other.arr(obj).facts {
		if g.k != fSeg || !other.ge(lo, g.lo) || !other.ge(g.hi, hi) {
			continue
		}
		rs, ok := match(g.src)
		if !ok {
			continue
		}
		if fromA {
			return rs, p.lin(f.delta, g.delta), true
		}
		return rs, p.lin(g.delta, f.delta), true
	}
	return 0, Lin{}, false
}

// join returns the join (or the widening) of two states of the same key
func join(a, b *State, widen bool) *State { return joinMode(a, b, widen, false) }

// joinMode: a hard widening keeps nothing that is not already in the first state
func joinMode(a, b *State, widen, hard bool) *State {
	a, b = a.clone(), b.clone()
	a.saturateAll()
	b.saturateAll()
	out := newState()
	p := &pairing{a: a, b: b, widen: widen, hard: hard, ok: true, out: out, om: map[[2]int]int{}, um: map[[2]int]UnkV{}, lm: map[string]Lin{}, windowsOf: map[int][]Lin{}}
	p.structure()
	np := len(p.pairs)
	p.facts()
	p.bounds(np)
	if joinMarks && !hard {
		p.marks(np)
	}
	for k := range a.ne {
		if b.ne[k] {
			out.ne[k] = true
		}
	}
	for k, r := range p.um {
		for j, r2 := range p.um {
			if a.isNE(k[0], j[0]) && b.isNE(k[1], j[1]) {
				out.ne[[2]int{r.id, r2.id}] = true
			}
		}
		for id := 1; id <= baseUnk; id++ {
			if a.isNE(k[0], id) && b.isNE(k[1], id) {
				out.ne[[2]int{r.id, id}] = true
			}
		}
	}
	joinNum(p, widen)
	if out.ghost["divs"] != nil {
		for _, k := range sortedGhost(out.ghost) {
			if d := divisor(k); d > 0 && a.isDiv(k, d) && b.isDiv(k, d) {
				t := out.ghost[k].(TupleV)
				n, ok1 := t.f[0].(IntV)
				q, ok2 := t.f[1].(IntV)
				r, ok3 := t.f[2].(IntV)
				if ok1 && ok2 && ok3 {
					out.num.addEQ(n.e.sub(r.e).sub(q.e.scale(d)))
					out.num.addGE(r.e)
					out.num.addGE(r.e.neg().addC(d - 1))
					// the bounds of both
					ra, rb := a.ghost[k].(TupleV).f[2].(IntV).e, b.ghost[k].(TupleV).f[2].(IntV).e
					if x, ok := a.num.minOf(ra); ok {
						if y, ok := b.num.minOf(rb); ok && (!widen || y >= x) {
							out.num.addGE(r.e.addC(-min(x, y)))
						}
					}
					if x, ok := a.num.maxOf(ra); ok {
						if y, ok := b.num.maxOf(rb); ok && (!widen || y <= x) {
							out.num.addGE(r.e.neg().addC(max(x, y)))
						}
					}
				}
			}
		}
	}
	for _, k := range p.order {
		out.prune(p.om[k])
	}
	p.stableNames()
	for id, v := range a.res {
		if id <= baseUnk {
			out.res[id] = v
		}
	}
	out.trail = a.trail
	if !widen {
		t := out.clone()
		if t.settleAll(-1, false); !t.num.bot {
			return t
		}
	}
	return out
}

// stableNames gives to the symbols of the result the names they have in the first state, so that
// states that come later are recognised
func (p *pairing) stableNames() {
	used := map[Sym]bool{}
	p.out.visitLins(func(l Lin) Lin {
		for _, t := range l.t {
			used[t.s] = true
		}
		return l
	})
	m := map[Sym]Sym{}
	for _, q := range p.pairs {
		r, ok := q.r.isSym()
		x, ok2 := q.a.isSym()
		if !ok || !ok2 || r == x || used[x] || !used[r] {
			continue
		}
		if _, done := m[r]; done {
			continue
		}
		if symTab[x].hi != 0 && symTab[r].hi == 0 {
			continue
		}
		used[x] = true
		m[r] = x
	}
	if len(m) == 0 {
		return
	}
	p.out.visitLins(func(l Lin) Lin {
		hit := false
		for _, t := range l.t {
			if _, ok := m[t.s]; ok {
				hit = true
			}
		}
		if !hit {
			return l
		}
		n := konst(l.c)
		for _, t := range l.t {
			s := t.s
			if y, ok := m[s]; ok {
				s = y
			}
			n = n.addMul(symL(s), t.k)
		}
		return n
	})
	n := p.out.num
	sets := map[Sym]ByteSet{}
	for s, b := range n.sets {
		if y, ok := m[s]; ok {
			s = y
		}
		sets[s] = b
	}
	n.sets = sets
	eqs := map[Sym]Lin{}
	for s, l := range n.eqs {
		if y, ok := m[s]; ok {
			s = y
		}
		eqs[s] = l
	}
	n.eqs = eqs
	n.cache = nil
}

// visitLins applies a function to every affine expression of a state
func (s *State) visitLins(f func(Lin) Lin) {
	var val func(v Val) Val
	vals := func(l []Val) []Val {
		r := make([]Val, len(l))
		for i := range l {
			r[i] = val(l[i])
		}
		return r
	}
	val = func(v Val) Val {
		switch v := v.(type) {
		case IntV:
			return IntV{f(v.e)}
		case BoolV:
			c := v.c
			switch c.op {
			case cGE, cEQ, cNE:
				c.e = f(c.e)
			case cStrEQ, cStrNE:
				c.a, c.b = val(c.a).(StrV), val(c.b).(StrV)
			}
			return BoolV{c}
		case PtrV:
			if v.elem {
				v.idx = f(v.idx)
			}
			return v
		case SliceV:
			return SliceV{v.obj, f(v.off), f(v.len), f(v.cap)}
		case StrV:
			return StrV{v.obj, f(v.off), f(v.len)}
		case IfaceV:
			return IfaceV{v.typ, val(v.v)}
		case FuncV:
			return FuncV{v.fn, vals(v.free)}
		case StructV:
			return StructV{vals(v.f)}
		case TupleV:
			return TupleV{vals(v.f)}
		}
		return v
	}
	for _, fr := range s.frames {
		for k, v := range fr.regs {
			fr.regs[k] = val(v)
		}
		for i := range fr.defers {
			fr.defers[i].fn = val(fr.defers[i].fn)
			fr.defers[i].args = vals(fr.defers[i].args)
		}
		fr.panicVal = val(fr.panicVal)
	}
	for k, v := range s.ghost {
		s.ghost[k] = val(v)
	}
	for id, v := range s.res {
		s.res[id] = val(v)
	}
	for id, o := range s.objs {
		if o == baseObjs[id] || o.arr != nil && o.arr.isLit && len(o.arr.facts) == 0 {
			continue
		}
		c := o.clone()
		c.val = val(o.val)
		if len(o.ghost) > 0 {
			c.ghost = map[string]Val{}
			for k, v := range o.ghost {
				c.ghost[k] = val(v)
			}
		}
		if o.arr != nil {
			a := o.arr.clone()
			a.n = f(a.n)
			for i := range a.facts {
				a.facts[i].lo, a.facts[i].hi, a.facts[i].delta = f(a.facts[i].lo), f(a.facts[i].hi), f(a.facts[i].delta)
				a.facts[i].v = val(a.facts[i].v)
			}
			if a.desc != nil && len(a.desc.args) > 0 {
				d := *a.desc
				d.args = vals(a.desc.args)
				a.desc = &d
			}
			c.arr = a
		}
		for i := range o.ents {
			if i == 0 {
				c.ents = append([]mapEnt(nil), o.ents...)
			}
			c.ents[i] = mapEnt{val(o.ents[i].k), val(o.ents[i].v)}
		}
		s.objs[id] = c
	}
	n := s.num
	for i := range n.ineq {
		n.ineq[i] = f(n.ineq[i])
	}
	for i := range n.neq {
		n.neq[i] = f(n.neq[i])
	}
	for k, l := range n.eqs {
		f(symL(k))
		n.eqs[k] = f(l)
	}
	for k := range n.sets {
		f(symL(k))
	}
}

// unify: two integers known at the same place are equal
func (s *State) unify(id int) {
	a := s.objs[id].arr
	at := map[string]Lin{}
	var keep []Fact
	for i, f := range a.facts {
		if f.k == fPt {
			if v, ok := f.v.(IntV); ok {
				k := s.num.norm(f.lo).key()
				if e, ok := at[k]; ok {
					s.num.addEQ(e.sub(v.e))
					if keep == nil {
						keep = append([]Fact{}, a.facts[:i]...)
					}
					continue
				}
				at[k] = v.e
			}
		}
		if keep != nil {
			keep = append(keep, f)
		}
	}
	if keep != nil {
		a = a.clone()
		a.facts = keep
		s.setArr(id, a)
	}
}

// prune drops the facts that others imply
func (s *State) prune(id int) {
	o := s.objs[id]
	if o == nil || o.kind != kArr || len(o.arr.facts) < 2 {
		return
	}
	fs := o.arr.facts
	dead := make([]bool, len(fs))
	for i, f := range fs {
		for j, g := range fs {
			if i == j || dead[j] || f.k != g.k {
				continue
			}
			switch f.k {
			case fPt:
				x, ok := f.v.(IntV)
				y, ok2 := g.v.(IntV)
				if ok && ok2 && j < i && s.eqL(f.lo, g.lo) {
					s.num.addEQ(x.e.sub(y.e))
					dead[i] = true
				}
			case fSeg:
				if f.src == g.src && s.ge(f.lo, g.lo) && s.ge(g.hi, f.hi) && (f.delta.eq(g.delta) || !(s.eqL(f.lo, g.lo) && s.eqL(f.hi, g.hi))) {
					dead[i] = true
				}
			case fSet:
				if f.lo.eq(g.lo) && g.hi.isConst() && !f.hi.isConst() {
					continue // the one that follows a variable lasts
				}
				if g.set.subset(f.set) && s.ge(f.lo, g.lo) && s.ge(g.hi, f.hi) {
					dead[i] = true
				}
			case fSorted:
				if g.g >= f.g && s.ge(f.lo, g.lo) && s.ge(g.hi, f.hi) {
					dead[i] = true
				}
			case fMin, fMax:
				if s.ge(f.lo, g.lo) && s.ge(g.hi, f.hi) && (f.k == fMin && s.ge(g.delta, f.delta) || f.k == fMax && s.ge(f.delta, g.delta)) {
					dead[i] = true
				}
			}
			if dead[i] {
				break
			}
		}
	}
	var keep []Fact
	for i, f := range fs {
		if !dead[i] {
			keep = append(keep, f)
		}
	}
	if len(keep) < len(fs) {
		a := o.arr.clone()
		a.facts = keep
		s.setArr(id, a)
	}
}

func (s *State) isNE(a, b int) bool { return s.ne[[2]int{a, b}] || s.ne[[2]int{b, a}] }

// joinNum fills out.num
func joinNum(p *pairing, widen bool) {
	out := p.out
	A, B := p.a.num.clone(), p.b.num.clone()
	keep := map[Sym]bool{}
	for _, q := range p.pairs {
		for _, t := range q.r.t {
			keep[t.s] = true
		}
	}
	// symbols in the facts of the result
	for id, o := range out.objs {
		if id <= baseObj && o == baseObjs[id] {
			continue
		}
		if o.arr != nil {
			for _, f := range o.arr.facts {
				for _, l := range []Lin{f.lo, f.hi, f.delta} {
					for _, t := range l.t {
						keep[t.s] = true
					}
				}
				if iv, ok := f.v.(IntV); ok {
					for _, t := range iv.e.t {
						keep[t.s] = true
					}
				}
			}
			for _, t := range o.arr.n.t {
				keep[t.s] = true
			}
		}
	}
	phis := map[Sym]bool{}
	var phiPairs []linPair
	for _, q := range p.pairs {
		if s, ok := q.r.isSym(); ok && !q.a.eq(q.b) {
			phis[s] = true
			phiPairs = append(phiPairs, q)
			// a phi symbol is new: define it on both sides
			A.defineEQ(s, q.a)
			B.defineEQ(s, q.b)
			if symTab[s].hi == 0 && A.within(q.a, 0, maxLen) && B.within(q.b, 0, maxLen) {
				symTab[s].lo, symTab[s].hi = 0, maxLen
			}
		}
	}
	// base symbols (globals) stay
	A.project(keep)
	B.project(keep)
	if debugJoin2 {
		for _, q := range phiPairs {
			fmt.Println("PHI", q.r, A.norm(q.r), B.norm(q.r))
		}
		fmt.Println("PA", A.ineq, "\nPB", B.ineq)
	}
	n := newNum()
	switch {
	case A.bot:
		n = B
	case B.bot:
		n = A
	default:
		// sets
		for _, s := range sortedSyms(keep) {
			ea, eb := A.norm(symL(s)), B.norm(symL(s))
			sa, oka := A.setOf(ea)
			sb, okb := B.setOf(eb)
			if oka && okb {
				_, isa := A.sets[s]
				_, isb := B.sets[s]
				if !isa && !isb && !byteLike(A, ea) && !byteLike(B, eb) {
					continue
				}
				u := sa.or(sb)
				if widen && !u.subset(sa) {
					u = allBytes
				}
				n.sets[s] = u
			}
		}
		joinPoly(n, A, B, widen, p.hard, p.ext, phiPairs)
		for _, s := range sortedSyms(keep) {
			if bs, ok := n.sets[s]; ok {
				n.sets[s] = bs
				n.syncSet(s)
			}
		}
		n.dropBytes()
		n.cache = nil
		// what holds of every slice
		if !n.bot {
			for _, e := range p.inv {
				if !n.entailsGE(e) {
					n.addGE(e)
				}
			}
		}
	}
	out.num = n
}

// defineEQ adds s = e for a new symbol s, keeping s as the solved one
func (n *Num) defineEQ(s Sym, e Lin) {
	n.eqs[s] = n.norm(e)
}

// byteLike tells whether an expression is a symbol with a byte set
func byteLike(n *Num, e Lin) bool {
	if s, ok := e.isSym(); ok {
		_, ok := n.sets[s]
		return ok
	}
	return false
}

func joinPoly(n, A, B *Num, widen, hard bool, ext []Lin, phis []linPair) {
	// equalities: the affine hull
	ea, eb := eqRows(A), eqRows(B)
	var common []Lin
	ka := map[string]bool{}
	for _, r := range ea {
		ka[r.key()] = true
	}
	var ea2, eb2 []Lin
	kc := map[string]bool{}
	for _, r := range eb {
		if ka[r.key()] {
			common = append(common, r)
			kc[r.key()] = true
		} else {
			eb2 = append(eb2, r)
		}
	}
	for _, r := range ea {
		if !kc[r.key()] {
			ea2 = append(ea2, r)
		}
	}
	for _, r := range common {
		n.addEQ(r)
	}
	if len(ea2) > 0 && len(eb2) > 0 {
		// rows modulo the common ones
		red := func(rs []Lin) []Lin {
			var o []Lin
			for _, r := range rs {
				r = n.norm(r)
				bytes := false
				for _, t := range r.t {
					if _, ok := n.sets[t.s]; ok {
						bytes = true
					}
				}
				if !r.isConst() && !bytes {
					o = append(o, r)
				}
			}
			return o
		}
		for _, r := range intersectRows(red(ea2), red(eb2)) {
			// two points are always on a line: the slopes that are not plausible are left
			steep := false
			for _, t := range r.t {
				steep = steep || t.k > 1 || t.k < -1
			}
			if !steep {
				n.addEQ(r)
			}
		}
	}
	// inequalities
	dirs := map[string]Lin{}
	long := false
	addDir := func(l Lin) {
		l = Lin{0, n.norm(Lin{0, l.t}).t}.tighten()
		l.c = 0
		for _, t := range l.t {
			if _, ok := n.sets[t.s]; ok && len(l.t) != 2 {
				return
			}
		}
		if len(l.t) > 4 && !long {
			return
		}
		for _, t := range l.t {
			if t.k > 2 || t.k < -2 {
				return
			}
		}
		if !l.isConst() {
			dirs[l.key()] = l
		}
	}
	inB := map[string]bool{}
	for _, c := range B.ineq {
		inB[c.dirKey()] = true
	}
	for _, c := range A.ineq {
		long = inB[c.dirKey()]
		addDir(c)
	}
	long = false
	for _, e := range eqRows(A) {
		addDir(e)
		addDir(e.neg())
	}
	if !widen {
		for _, c := range B.ineq {
			addDir(c)
		}
		for _, e := range eqRows(B) {
			addDir(e)
			addDir(e.neg())
		}
	}
	// templates over the symbols that changed
	ch := map[Sym]bool{}
	for _, e := range append(append([]Lin(nil), ea2...), eb2...) {
		for _, t := range n.norm(e).t {
			if _, ok := n.sets[t.s]; !ok {
				ch[t.s] = true
			}
		}
	}
	if len(ch) > 0 && !widen {
		// and those the bounds of which changed
		for _, c := range A.ineq {
			for _, o := range B.ineq {
				if len(c.t) == 1 && len(o.t) == 1 && c.t[0] == o.t[0] && c.c != o.c {
					if _, ok := n.sets[c.t[0].s]; !ok {
						ch[c.t[0].s] = true
					}
				}
			}
		}
	}
	cs := sortedSyms(ch)
	if hard {
		cs = nil
	}
	if len(cs) > 8 {
		cs = cs[len(cs)-8:]
	}
	for i, x := range cs {
		addDir(symL(x))
		addDir(symL(x).neg())
		for j, y := range cs {
			if i != j {
				addDir(symL(x).sub(symL(y)))
			}
		}
	}
	if !widen && !hard {
		// what bounds a value that the others determine
		for _, q := range phis {
			if s, ok := q.r.isSym(); ok {
				for _, side := range []struct {
					n *Num
					e Lin
				}{{A, A.norm(q.r)}, {B, B.norm(q.r)}} {
					t, ok := side.e.isSym()
					if !ok && len(side.e.t) > 0 && len(side.e.t) < 4 {
						for _, c := range side.n.ineq {
							for _, k := range []int64{1, -1} {
								if r := side.n.norm(c.add(side.e.scale(k))); len(r.t) <= 2 && len(c.t) > len(side.e.t) {
									long = true
									addDir(r.sub(q.r.scale(k)))
									long = false
								}
							}
						}
					}
					if !ok || t == s {
						continue
					}
					for _, c := range side.n.ineq {
						if k := c.coef(t); k == 1 || k == -1 {
							if debugJoin2 {
								fmt.Println("DIR", c, q.r, side.e, n.norm(c.add(q.r.sub(side.e).scale(k))))
							}
							addDir(c.add(q.r.sub(side.e).scale(k)))
						}
					}
				}
			}
		}
	}
	long = joinMarks
	marks := map[string][]int64{}
	for _, e := range ext {
		addDir(e)
		addDir(e.neg())
		if joinMarks && widen {
			for _, e := range []Lin{e, e.neg()} {
				e = n.norm(e)
				l := Lin{0, e.t}.tighten()
				if l.eq(Lin{0, e.t}) {
					marks[l.key()] = append(marks[l.key()], -e.c)
				}
			}
		}
	}
	keys := make([]string, 0, len(dirs))
	for k := range dirs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		d := dirs[k]
		ma, ok := A.minOf(d)
		if !ok {
			continue
		}
		mb, ok := B.minOf(d)
		if !ok {
			continue
		}
		m := ma
		if mb < ma {
			m = mb
			if widen {
				// thresholds
				th := false
				for _, t := range []int64{0, -1} {
					if mb >= t && !hard {
						m, th = t, true
						break
					}
				}
				for _, t := range marks[k] {
					if mb >= t && !hard && (!th || t > m) {
						m, th = t, true
					}
				}
				if !th {
					continue
				}
			}
		}
		n.dedupGE(d.addC(-m))
	}
	n.cache = nil
	n.implicitEqs()
	if len(n.ineq) > 24 {
		n.reduce()
	}
	// disequalities
	for _, e := range append(append([]Lin(nil), A.neq...), B.neq...) {
		if A.entailsNE(e) && B.entailsNE(e) {
			n.addNE(e)
		}
	}
}

func eqRows(n *Num) []Lin {
	var r []Lin
	for _, s := range eqOrder(n.eqs) {
		r = append(r, symL(s).sub(n.eqs[s]))
	}
	return r
}

// intersectRows returns a basis of the affine equalities implied by both systems
func intersectRows(ea, eb []Lin) (out []Lin) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(errOverflow); !ok {
				panic(r)
			}
		}
	}()
	na, nb := len(ea), len(eb)
	if na == 0 || nb == 0 {
		return nil
	}
	syms := sortedSyms(linSyms(append(append([]Lin(nil), ea...), eb...)...))
	col := map[Sym]int{}
	for i, s := range syms {
		col[s] = i
	}
	m := len(syms) + 1
	// unknowns x (na) and y (nb); one row per column
	M := make([][]frac, m)
	for i := range M {
		M[i] = make([]frac, na+nb)
		for j := range M[i] {
			M[i][j] = frac{0, 1}
		}
	}
	for i, e := range ea {
		for _, t := range e.t {
			M[col[t.s]][i] = frac{t.k, 1}
		}
		M[m-1][i] = frac{e.c, 1}
		if e.c == 0 {
			M[m-1][i] = frac{0, 1}
		}
	}
	for j, e := range eb {
		for _, t := range e.t {
			M[col[t.s]][na+j] = frac{-t.k, 1}
		}
		M[m-1][na+j] = frac{-e.c, 1}
		if e.c == 0 {
			M[m-1][na+j] = frac{0, 1}
		}
	}
	piv := map[int]int{} // column -> row
	row := 0
	w := na + nb
	for c := 0; c < w && row < m; c++ {
		r := -1
		for i := row; i < m; i++ {
			if M[i][c].n != 0 {
				r = i
				break
			}
		}
		if r < 0 {
			continue
		}
		M[r], M[row] = M[row], M[r]
		iv := M[row][c].inv()
		for j := 0; j < w; j++ {
			M[row][j] = M[row][j].mul(iv)
		}
		for i := 0; i < m; i++ {
			if i != row && M[i][c].n != 0 {
				f := M[i][c].negf()
				for j := 0; j < w; j++ {
					if M[row][j].n != 0 {
						M[i][j] = M[i][j].add(f.mul(M[row][j]))
					}
				}
			}
		}
		piv[c] = row
		row++
	}
	for c := 0; c < w; c++ {
		if _, ok := piv[c]; ok {
			continue
		}
		// free variable c = 1
		x := make([]frac, w)
		for j := range x {
			x[j] = frac{0, 1}
		}
		x[c] = frac{1, 1}
		for pc, r := range piv {
			x[pc] = M[r][c].negf()
		}
		// scale the x part to integers
		l := int64(1)
		for i := 0; i < na; i++ {
			g := gcdI(l, x[i].d)
			l = mulI(l, x[i].d/g)
		}
		var e Lin
		for i := 0; i < na; i++ {
			if x[i].n != 0 {
				e = e.addMul(ea[i], mulI(x[i].n, l/x[i].d))
			}
		}
		if !e.isConst() {
			out = append(out, e)
		}
	}
	return out
}

// subsumed tells whether the head describes the candidate
func subsumed(head, cand *State) bool {
	b := cand.clone()
	b.saturateAll()
	a := head.clone()
	p := &pairing{a: a, b: b, leq: true, ok: true, out: newState(), om: map[[2]int]int{}, um: map[[2]int]UnkV{}, lm: map[string]Lin{}, windowsOf: map[int][]Lin{}}
	p.structure()
	if !p.ok {
		return subFail(1)
	}
	// disequalities of unknowns in the head must hold
	inv := map[int]int{}
	for k := range p.um {
		inv[k[0]] = k[1]
	}
	mapU := func(i int) int {
		if j, ok := inv[i]; ok {
			return j
		}
		return i
	}
	for k := range a.ne {
		if !b.isNE(mapU(k[0]), mapU(k[1])) {
			// relevant only when both are still referenced
			_, o1 := inv[k[0]]
			_, o2 := inv[k[1]]
			if o1 || o2 {
				return subFail(2)
			}
		}
	}
	// map the symbols of the head to expressions of the candidate
	m := map[Sym]Lin{}
	mapLin := func(l Lin) (Lin, bool) {
		r := konst(l.c)
		for _, t := range l.t {
			e, ok := m[t.s]
			if !ok {
				return Lin{}, false
			}
			r = r.addMul(e, t.k)
		}
		return r, true
	}
	extend := func() {
		for again := true; again; {
			again = false
			for _, q := range p.pairs {
				un, cnt := term{}, 0
				for _, t := range q.a.t {
					if _, ok := m[t.s]; !ok {
						un, cnt = t, cnt+1
					}
				}
				if cnt == 1 && (un.k == 1 || un.k == -1) {
					rest, _ := mapLin(q.a.addMul(symL(un.s), -un.k))
					m[un.s] = q.b.sub(rest).scale(un.k)
					again = true
				}
			}
		}
	}
	for _, q := range p.pairs {
		if s, ok := q.a.isSym(); ok {
			if _, done := m[s]; !done {
				m[s] = q.b
			}
		}
	}
	extend()
	om := map[int]int{}
	order := append([][2]int(nil), p.order...)
	for k := range p.om {
		om[k[0]] = k[1]
	}
	self := func(l Lin) Lin {
		for _, t := range l.t {
			if _, ok := m[t.s]; !ok {
				m[t.s] = symL(t.s)
			}
		}
		r := konst(l.c)
		for _, t := range l.t {
			r = r.addMul(m[t.s], t.k)
		}
		return r
	}
	// points of the head give more, and the contents that its segments name
	for pass := 0; pass < 4; pass++ {
		if pass == 3 {
			// what is left has the same name on both sides
			mapLin = func(l Lin) (Lin, bool) { return self(l), true }
		}
		for i := 0; i < len(order); i++ {
			k := order[i]
			oa := a.objs[k[0]]
			if oa.kind != kArr {
				continue
			}
			for _, f := range oa.arr.facts {
				if f.k == fSeg {
					if _, ok := om[f.src]; ok {
						continue
					}
					lo, ok1 := mapLin(a.num.norm(f.lo))
					hi, ok2 := mapLin(a.num.norm(f.hi))
					d, ok3 := mapLin(a.num.norm(f.delta))
					if !ok1 || !ok2 || !ok3 {
						continue
					}
					for _, g := range b.arr(k[1]).facts {
						if g.k == fSeg && b.ge(lo, g.lo) && b.ge(g.hi, hi) && b.eqL(g.delta, d) {
							om[f.src] = g.src
							order = append(order, [2]int{f.src, g.src})
							break
						}
					}
					continue
				}
				if f.k != fPt {
					continue
				}
				iv, ok := f.v.(IntV)
				if !ok {
					continue
				}
				e := a.num.norm(iv.e)
				s, ok := e.isSym()
				if !ok {
					continue
				}
				if _, done := m[s]; done {
					continue
				}
				if idx, ok := mapLin(a.num.norm(f.lo)); ok {
					if v, ok := b.knownAt(k[1], idx, 0); ok {
						if bv, ok := v.(IntV); ok {
							m[s] = b.num.norm(bv.e)
						}
					}
				}
			}
		}
		extend()
	}
	for _, q := range p.pairs {
		if !b.num.entailsEQ(self(q.a).sub(q.b)) {
			return subFail(3)
		}
	}
	for _, c := range a.num.ineq {
		if !b.num.entailsGE(self(c)) {
			if subDebug {
				println("ineq", c.String(), "->", self(c).String())
			}
			return subFail(4)
		}
	}
	for s, e := range m {
		if symTab[s].hi != 0 && !b.num.within(e, symTab[s].lo, symTab[s].hi) {
			if subDebug {
				println("range", symL(s).String(), "->", e.String(), symTab[s].lo, symTab[s].hi)
			}
			return subFail(5)
		}
	}
	for _, c := range a.num.neq {
		c = a.num.norm(c)
		if !b.num.entailsNE(self(c)) {
			return subFail(6)
		}
	}
	for s, set := range a.num.sets {
		e := self(symL(s))
		bs, ok := b.num.setOf(e)
		if !ok || !bs.subset(set) {
			if subDebug {
				println("set", symL(s).String(), "->", e.String(), ok)
			}
			return subFail(7)
		}
	}
	for _, k := range order {
		oa := a.objs[k[0]]
		if oa.kind != kArr || (oa.arr.isLit && b.objs[k[1]].arr.isLit && k[0] == k[1]) {
			continue
		}
		if oa.arr.desc != nil && oa.arr.desc != b.objs[k[1]].arr.desc {
			return subFail(8)
		}
		if oa.arr.isLit && !(b.objs[k[1]].arr.isLit && b.objs[k[1]].arr.lit == oa.arr.lit) {
			return subFail(9)
		}
		for _, f := range oa.arr.facts {
			lo, hi := self(a.num.norm(f.lo)), self(a.num.norm(f.hi))
			switch f.k {
			case fPt:
				iv, ok := f.v.(IntV)
				if !ok {
					continue // structural
				}
				v, ok := b.knownAt(k[1], lo, 0)
				if !ok {
					// an unconstrained memo of the head is harmless only if it is fresh
					return subFail(10)
				}
				if !b.num.entailsEQ(self(a.num.norm(iv.e)).sub(v.(IntV).e)) {
					return subFail(11)
				}
			case fSeg:
				if b.ge(lo, hi) {
					continue
				}
				d := self(a.num.norm(f.delta))
				src, ok := om[f.src]
				if !ok {
					return false
				}
				found := false
				for _, g := range b.arr(k[1]).facts {
					if g.k == fSeg && g.src == src && b.ge(lo, g.lo) && b.ge(g.hi, hi) && b.eqL(g.delta, d) {
						found = true
					}
				}
				if !found {
					return subFail(12)
				}
			case fSet:
				if !b.ge(lo, hi) && !b.bytesIn(k[1], lo, hi, 0).subset(f.set) {
					return subFail(13)
				}
			case fSorted:
				if !b.sortedIn(k[1], lo, hi, f.g) {
					return subFail(14)
				}
			case fMin, fMax:
				if !b.boundedIn(k[1], lo, hi, f.k, self(a.num.norm(f.delta))) {
					return subFail(15)
				}
			}
		}
	}
	return true
}

var subDebug = false

// subFail tells, when debugging, which condition of the subsumption failed
func subFail(n int) bool {
	if subDebug {
		println("SUB", n)
	}
	return false
}

func frozenClone(oa, ob *Obj) *Obj {
	r := oa.clone()
	r.frozen = oa.frozen || ob.frozen
	return r
}

// divisor tells which division a ghost is about
func divisor(ghost string) int64 {
	if !strings.HasPrefix(ghost, "div/") {
		return 0
	}
	k, _ := strconv.ParseInt(strings.Split(ghost, "/")[1], 10, 64)
	return k
}

// isDiv tells whether the ghost is a dividend, its quotient and its rest
func (s *State) isDiv(slot string, k int64) bool {
	v, ok := s.ghost[slot].(TupleV)
	if !ok {
		return false
	}
	n, ok1 := v.f[0].(IntV)
	q, ok2 := v.f[1].(IntV)
	r, ok3 := v.f[2].(IntV)
	return ok1 && ok2 && ok3 && s.eqL(n.e.sub(r.e), q.e.scale(k)) && s.ge(r.e, konst(0)) && s.ge(konst(k-1), r.e)
}

var debugJoin2 = os.Getenv("SADEBUG2") != ""
