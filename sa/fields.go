package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// piece is a maximal part of a content that comes from one place
type piece struct {
	lo, hi Lin
	pt     Val // a single element
}

// pieces cuts a content in what it is made of
func (s *State) pieces(v StrV) ([]piece, bool) {
	var r []piece
	if !s.piecesIn(v.obj, v.off, v.off.add(v.len), v.off.neg(), 0, &r) {
		return nil, false
	}
	return r, true
}

// piecesIn appends the pieces of [lo,hi) of obj, moved by shift
func (s *State) piecesIn(obj int, lo, hi, shift Lin, depth int, r *[]piece) bool {
	if s.ge(lo, hi) {
		return true
	}
	a := s.arr(obj)
	if a.isLit {
		l, h := s.num.norm(lo), s.num.norm(hi)
		if !l.isConst() || !h.isConst() {
			*r = append(*r, piece{lo: lo.add(shift), hi: hi.add(shift)})
			return true
		}
		for i := l.c; i < h.c && i < int64(len(a.lit)); i++ {
			p := konst(i).add(shift)
			*r = append(*r, piece{lo: p, hi: p.addC(1), pt: intC(int64(a.lit[i]))})
		}
		return true
	}
	if depth > 12 || a.content && !s.covered(a, lo, hi) {
		*r = append(*r, piece{lo: lo.add(shift), hi: hi.add(shift)})
		return true
	}
	pos := lo
	for i := 0; i < 200; i++ {
		if s.ge(pos, hi) {
			return true
		}
		f, ok := s.factAt(a, pos, nil)
		if !ok {
			return false
		}
		end := f.hi
		if !s.ge(hi, end) {
			if !s.ge(end, hi) {
				return false
			}
			end = hi
		}
		if f.k == fPt {
			*r = append(*r, piece{lo: pos.add(shift), hi: end.add(shift), pt: f.v})
		} else if !s.piecesIn(f.src, pos.add(f.delta), end.add(f.delta), shift.sub(f.delta), depth+1, r) {
			return false
		}
		pos = end
	}
	return false
}

// fieldsOf cuts a content at the single bytes sep; the last of max fields holds the rest
func (s *State) fieldsOf(v StrV, sep int64, max int) ([]StrV, bool) {
	ps, ok := s.pieces(v)
	if !ok {
		return nil, false
	}
	var r []StrV
	start := konst(0)
	for _, p := range ps {
		iv, isInt := p.pt.(IntV)
		if p.pt == nil || !isInt || len(r) == max-1 {
			continue
		}
		n := s.num.norm(iv.e)
		if n.isConst() {
			if n.c != sep {
				continue
			}
		} else {
			if b, ok := s.num.setOf(n); ok && !b.has(int(sep)) || s.num.entailsNE(n.addC(-sep)) {
				continue
			}
			// perhaps a separator
			return nil, false
		}
		r = append(r, StrV{v.obj, v.off.add(start), p.lo.sub(start)})
		start = p.hi
	}
	return append(r, StrV{v.obj, v.off.add(start), v.len.sub(start)}), true
}

// asStr returns the content of a string or of a slice
func (s *State) asStr(v Val) (StrV, bool) {
	switch v := s.resolve(v).(type) {
	case StrV:
		return v, true
	case SliceV:
		return s.strOfBytes(v), true
	case NilV:
		return s.litStr(""), true
	}
	return StrV{}, false
}

// fieldModel is driver.field(b, k): field k of an encoded message. the header has 6 separators
// before the structured data, and the text follows the 7th
func fieldModel(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	k := st.num.norm(c.args[1].(IntV).e).c
	for _, o := range x.force(st, c.args[0]) {
		s := o.st
		v, ok := s.asStr(o.ret)
		var fs []StrV
		if ok {
			fs, ok = s.fieldsOf(v, ' ', 8)
		}
		ok = ok && k < int64(len(fs))
		x.oblige(s, c.site, "layout", "", ok, func() string { return "the encoded message has no such field, or its layout can't be told" })
		if !ok {
			out = append(out, Outcome{st: s, ret: s.freshStr("field", nil)})
			continue
		}
		out = append(out, Outcome{st: s, ret: fs[k]})
	}
	return out
}

func nfieldsModel(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, c.args[0]) {
		s := o.st
		v, ok := s.asStr(o.ret)
		var fs []StrV
		if ok {
			fs, ok = s.fieldsOf(v, ' ', 8)
		}
		x.oblige(s, c.site, "layout", "", ok, func() string { return "the layout of the encoded message can't be told" })
		out = append(out, Outcome{st: s, ret: intC(int64(len(fs)))})
	}
	return out
}

// bytesModel is driver.within(s, set): the bytes of s are some of those of the literal set
func (x *X) within(st *State, c *callCtx, set func(l string) ByteSet) []Outcome {
	l, _ := st.litOf(c.args[1].(StrV))
	want := set(l)
	var out []Outcome
	for _, o := range x.force(st, c.args[0]) {
		s := o.st
		v, ok := s.asStr(o.ret)
		yes := ok && s.bytesIn(v.obj, v.off, v.off.add(v.len), 0).subset(want)
		if yes {
			out = append(out, Outcome{st: s, ret: boolC(true)})
		} else {
			out = append(out, Outcome{st: s, ret: s.freshBool("within")})
		}
	}
	return out
}

func litSet(l string) ByteSet {
	var b ByteSet
	for i := 0; i < len(l); i++ {
		b.set(int(l[i]))
	}
	return b
}

// described1 is the contract of a function that is cut: the same arguments give the same result
func describedBytes(what string, withErr bool) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		var out []Outcome
		args := append([]Val(nil), c.args...)
		if withErr && !st.hasDescribed(what, args) {
			// the same list gives the same result
			bad := st.clone()
			out = append(out, Outcome{st: bad, ret: TupleV{[]Val{NilV{}, unkErr(x)}}})
		}
		v := st.described(what, args, func() StrV {
			r := st.freshStr("cut", &Desc{what, args})
			st.num.rawGE(r.len.addC(-1))
			return r
		})
		var r Val = st.bytesOfStr(v)
		if isStrT(c.sig.Results().At(0).Type()) {
			r = v
		}
		if withErr {
			r = TupleV{[]Val{r, NilV{}}}
		}
		return append(out, Outcome{st: st, ret: r})
	}
}

// descModel is driver.made(s, what, args...): s is the result of the function what, on these arguments
func madeModel(x *X, st *State, c *callCtx) []Outcome {
	what, _ := st.litOf(c.args[1].(StrV))
	args, ok := x.variadic(st, c.args[2])
	v, ok2 := st.asStr(c.args[0])
	if !ok || !ok2 {
		return ret1(st, st.freshBool("made"))
	}
	// the origin of the content
	r, _ := st.root(v.obj, v.off, 0)
	if r.obj != 0 && st.ge(v.len, konst(1)) {
		a := st.arr(r.obj)
		if a.desc != nil && a.desc.what == what && st.eqL(r.off, konst(0)) && st.eqL(a.n, v.len) && len(a.desc.args) == len(args) {
			same := st.rangeSame(v.obj, v.off, r.obj, r.off, v.len, 0)
			for i, g := range args {
				if iv, ok := g.(IfaceV); ok {
					g = iv.v
				}
				if !st.sameVal(g, a.desc.args[i]) {
					same = false
				}
			}
			if same {
				return ret1(st, boolC(true))
			}
		}
	}
	return ret1(st, st.freshBool("made"))
}

// driverCall interprets a function of the drivers from a model
func (x *X) driverCall(st *State, name string, site ssa.Instruction, args ...Val) []Outcome {
	f := x.w.driver.Func(name)
	if f == nil {
		panic(giveUp{"no driver function " + name})
	}
	return x.callFn(st, f, args, nil, site)
}

func init() {
	models["driver.field"] = fieldModel
	models["driver.nfields"] = nfieldsModel
	models["driver.within"] = func(x *X, st *State, c *callCtx) []Outcome { return x.within(st, c, litSet) }
	models["driver.without"] = func(x *X, st *State, c *callCtx) []Outcome {
		return x.within(st, c, func(l string) ByteSet { return litSet(l).not() })
	}
	models["driver.graphic"] = func(x *X, st *State, c *callCtx) []Outcome {
		c.args = append(c.args, st.litStr(""))
		return x.within(st, c, func(string) ByteSet { return rangeSet(33, 126) })
	}
	models["driver.made"] = madeModel
	models["driver.start"] = startModel
	models["driver.anyWithout"] = func(x *X, st *State, c *callCtx) []Outcome {
		l, _ := st.litOf(c.args[0].(StrV))
		v := st.freshStr("any", &Desc{what: "any"})
		st.addFact(v.obj, Fact{k: fSet, lo: konst(0), hi: v.len, set: litSet(l).not()})
		return ret1(st, v)
	}
	models["driver.anyGraphic"] = func(x *X, st *State, c *callCtx) []Outcome {
		v := st.freshStr("graphic", &Desc{what: "any"})
		st.num.rawGE(v.len.addC(-1))
		st.num.addGE(c.args[0].(IntV).e.sub(v.len))
		st.addFact(v.obj, Fact{k: fSet, lo: konst(0), hi: v.len, set: rangeSet(33, 126)})
		return ret1(st, v)
	}
	_ = types.Typ
}

func (s *State) hasDescribed(what string, args []Val) bool {
	found := true
	s.described(what, append([]Val(nil), args...), func() StrV { found = false; return StrV{} })
	return found
}

// startModel is driver.start(part, whole): the position of a part of a slice, or of a copy of it
func startModel(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, c.args[0]) {
		for _, p := range x.force(o.st, c.args[1]) {
			s := p.st
			a, ok1 := s.resolve(o.ret).(SliceV)
			b, ok2 := s.resolve(p.ret).(SliceV)
			if ok1 && ok2 {
				k, found := Lin{}, false
				if a.obj == b.obj {
					k, found = a.off.sub(b.off), true
				} else if r1, _ := s.root(a.obj, a.off, 0); r1.obj != 0 {
					r2, _ := s.root(b.obj, b.off, 0)
					k = r1.off.sub(r2.off)
					found = r1.obj == r2.obj && s.rangeSame(a.obj, a.off, b.obj, b.off.add(k), a.len, 0)
				}
				if found && s.ge(k, konst(0)) && s.ge(b.len, k.add(a.len)) {
					out = append(out, Outcome{st: s, ret: IntV{k}})
					continue
				}
			}
			out = append(out, Outcome{st: s, ret: s.freshInt("start", -1, 1<<62)})
		}
	}
	return out
}
