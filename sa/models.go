package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models = map[string]modelFn{}

func ret1(st *State, v Val) []Outcome { return []Outcome{{st: st, ret: v}} }

func void(st *State) []Outcome { return ret1(st, TupleV{}) }

func noop(x *X, st *State, c *callCtx) []Outcome { return void(st) }

func unkErr(x *X) Val { return newUnk(types.Universe.Lookup("error").Type(), true) }

func (x *X) newError(st *State) Val {
	return IfaceV{x.w.errorStringType(), PtrV{obj: st.newObj(&Obj{kind: kCell, typ: types.Typ[types.String], opaque: true, name: "error"})}}
}

// wrapped is the error that an error wraps: NilV when there is none, nil when it is not known
func (x *X) wrapped(st *State, v Val) Val {
	switch v := st.resolve(v).(type) {
	case NilV:
		return v
	case IfaceV:
		if p, ok := st.resolve(v.v).(PtrV); ok {
			if f := x.wrapsIn(st, p); f != nil {
				return f
			}
		}
		if hasMethod(v.typ, "Unwrap") {
			return nil
		}
		return NilV{}
	}
	return nil
}

// wrapsIn is the error that a known structure of the standard library holds
func (x *X) wrapsIn(st *State, p PtrV) Val {
	o := st.objs[p.obj]
	if o == nil || o.typ == nil || p.elem || len(p.path) > 0 {
		return nil
	}
	n, ok := types.Unalias(o.typ).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !knownStructs[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return nil
	}
	u := n.Underlying().(*types.Struct)
	sv, ok := x.peek(st, p).(StructV)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "Err" {
			return st.resolve(sv.f[i])
		}
	}
	return nil
}

func modelUnwrap(x *X, st *State, c *callCtx) []Outcome {
	var r Val
	if p, ok := st.resolve(c.args[0]).(PtrV); ok {
		r = x.wrapsIn(st, p)
	} else {
		r = x.wrapped(st, c.args[0])
	}
	if r == nil {
		r = newUnk(c.sig.Results().At(0).Type(), false)
	}
	return ret1(st, r)
}

// eachError goes along the chain of an error: f gives the states that go on after a link; what stands
// for true ends the others
func (x *X) eachError(st *State, v Val, out *[]Outcome, f func(st *State, v IfaceV) (rest []*State)) {
	no := func(st *State) Outcome { return Outcome{st: st, ret: boolC(false)} }
	v = st.resolve(v)
	iv, ok := v.(IfaceV)
	if !ok {
		if _, null := v.(NilV); !null {
			*out = append(*out, Outcome{st: st.clone(), ret: boolC(true)})
		}
		*out = append(*out, no(st))
		return
	}
	for _, s := range f(st, iv) {
		w := x.wrapped(s, iv)
		if w == nil {
			*out = append(*out, Outcome{st: s.clone(), ret: boolC(true)}, no(s))
			continue
		}
		x.eachError(s, w, out, f)
	}
}

func modelErrorsIs(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	target := st.resolve(c.args[1])
	if _, ok := target.(NilV); ok {
		return x.refEq(st, c.args[0], target)
	}
	x.eachError(st, c.args[0], &out, func(st *State, v IfaceV) []*State {
		var rest []*State
		for _, o := range x.refEq(st, v, target) {
			b := o.ret.(BoolV)
			if y := x.assume(o.st.clone(), b.c); y != nil {
				out = append(out, Outcome{st: y, ret: boolC(true)})
			}
			if n := x.assume(o.st, b.c.not()); n != nil {
				if hasMethod(v.typ, "Is") && types.TypeString(v.typ, nil) != "syscall.Errno" {
					out = append(out, Outcome{st: n.clone(), ret: boolC(true)})
				}
				rest = append(rest, n)
			}
		}
		return rest
	})
	return out
}

func modelErrorsAs(x *X, st *State, c *callCtx) []Outcome {
	iv, ok := st.resolve(c.args[1]).(IfaceV)
	if !ok {
		panic(giveUp{"errors.As with an unknown target"})
	}
	p, ok := st.resolve(iv.v).(PtrV)
	pt, isp := iv.typ.Underlying().(*types.Pointer)
	if !ok || !isp {
		panic(giveUp{"errors.As with an unknown target"})
	}
	t := pt.Elem()
	it, isI := t.Underlying().(*types.Interface)
	var found, out []Outcome
	x.eachError(st, c.args[0], &out, func(st *State, v IfaceV) []*State {
		switch {
		case isI && types.Implements(v.typ, it):
			x.store(st, c.site, p, v)
		case types.Identical(v.typ, t):
			x.store(st, c.site, p, v.v)
		default:
			if hasMethod(v.typ, "As") {
				panic(giveUp{"errors.As and an error that has a method As"})
			}
			return one(st)
		}
		found = append(found, Outcome{st: st, ret: boolC(true)})
		return nil
	})
	for _, o := range out {
		if b, dec := o.st.decide(o.ret.(BoolV).c); dec && b {
			// something that is not known
			x.store(o.st, c.site, p, nonNil(o.st.fresh(t, "as")))
		}
	}
	return append(found, out...)
}

type byteRange struct {
	obj    int
	off, n Lin
}

// withRange forces a string or slice of bytes
func (x *X) withRange(st *State, v Val, f func(s *State, r byteRange) []Outcome) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, v) {
		obj, off, n, ok := rangeOf(o.ret)
		if !ok {
			e := o.st.litStr("")
			obj, off, n = e.obj, konst(0), konst(0)
		}
		out = append(out, f(o.st, byteRange{obj, off, n})...)
	}
	return out
}

func (s *State) strOf(r byteRange) StrV {
	if s.arr(r.obj).content {
		return StrV{r.obj, r.off, r.n}
	}
	return s.strOfBytes(SliceV{r.obj, r.off, r.n, r.n})
}

// addSetRange remembers that the bytes of a range are in a set, where it is useful
func (s *State) addSetRange(obj int, lo, hi Lin, set ByteSet, depth int) {
	a := s.arr(obj)
	if a.isLit || s.ge(lo, hi) {
		return
	}
	if depth < 6 {
		for _, f := range a.facts {
			if f.k == fSeg && s.ge(lo, f.lo) && s.ge(f.hi, hi) {
				s.addSetRange(f.src, lo.add(f.delta), hi.add(f.delta), set, depth+1)
				return
			}
		}
	}
	old := s.bytesIn(obj, lo, hi, 0)
	if n := old.and(set); n != old {
		s.addFact(obj, Fact{k: fSet, lo: lo, hi: hi, set: n})
	}
}

func constByte(st *State, v Val) (int, bool) {
	iv, ok := v.(IntV)
	if !ok {
		return 0, false
	}
	n := st.num.norm(iv.e)
	if !n.isConst() || n.c < 0 || n.c > 255 {
		return 0, false
	}
	return int(n.c), true
}

// indexByte forks on the position of the first byte of a set
func (x *X) indexSet(st *State, r byteRange, set ByteSet, last bool) []Outcome {
	if l, ok := st.litKnown(st.strOf(r)); ok {
		at := -1
		for i := 0; i < len(l); i++ {
			if set.has(int(l[i])) {
				at = i
				if !last {
					break
				}
			}
		}
		return ret1(st, intC(int64(at)))
	}
	not := set.not()
	var out []Outcome
	// what is known not to be in the set is skipped
	skip := konst(0)
	for i := 0; i < 40 && !last && st.gt(r.n, skip); i++ {
		pos := r.off.add(skip)
		f, ok := st.factAt(st.arr(r.obj), pos, nil)
		if !ok || !st.ge(r.off.add(r.n), f.hi) {
			break
		}
		in := st.bytesIn(r.obj, pos, f.hi, 0)
		if in.and(set).empty() {
			skip = f.hi.sub(r.off)
			continue
		}
		if in.subset(set) && st.gt(f.hi, pos) {
			return ret1(st, IntV{skip})
		}
		// bytes that are all known
		if l, ok := st.litKnown(StrV{r.obj, pos, f.hi.sub(pos)}); ok && f.k == fSeg {
			j := 0
			for j < len(l) && !set.has(int(l[j])) {
				j++
			}
			skip = skip.addC(int64(j))
			if j < len(l) {
				return ret1(st, IntV{skip})
			}
			continue
		}
		break
	}
	all := st.bytesIn(r.obj, r.off, r.off.add(r.n), 0)
	none := all.and(set) == ByteSet{}
	if !none {
		s := st.clone()
		i := s.freshInt("pos", 0, 1<<62)
		s.num.addGE(r.n.sub(i.e).addC(-1))
		s.num.addGE(i.e.sub(skip))
		if !s.num.bot {
			v := s.readElem(r.obj, r.off.add(i.e))
			if iv, ok := v.(IntV); ok {
				s.num.addSet(iv.e, set)
			}
			if !s.num.bot {
				if last {
					s.addSetRange(r.obj, r.off.add(i.e).addC(1), r.off.add(r.n), not, 0)
				} else {
					s.addSetRange(r.obj, r.off, r.off.add(i.e), not, 0)
				}
				if s.settle(r.obj, -1); !s.num.bot {
					out = append(out, Outcome{st: s, ret: i})
				}
			}
		}
	}
	// a byte of the set known to be there excludes -1
	if !x.hasByteOf(st, r, set) {
		st.addSetRange(r.obj, r.off, r.off.add(r.n), not, 0)
		if st.settle(r.obj, -1); !st.num.bot {
			out = append(out, Outcome{st: st, ret: intC(-1)})
		}
	}
	return out
}

func (x *X) hasByteOf(st *State, r byteRange, set ByteSet) bool {
	for _, f := range st.arr(r.obj).facts {
		if f.k != fPt || !st.ge(f.lo, r.off) || !st.gt(r.off.add(r.n), f.lo) {
			continue
		}
		if iv, ok := f.v.(IntV); ok {
			if b, ok := st.num.setOf(iv.e); ok && b.subset(set) {
				return true
			}
		}
	}
	return false
}

// indexOf is Index of a separator
func (x *X) indexSep(st *State, r, sep byteRange, last bool) []Outcome {
	if l, ok := st.litKnown(st.strOf(sep)); ok && len(l) == 1 {
		return x.indexSet(st, r, setOfBytes(l[0]), last)
	} else if all, whole := st.litKnown(st.strOf(r)); ok && whole {
		if last {
			return ret1(st, intC(int64(strings.LastIndex(all, l))))
		}
		return ret1(st, intC(int64(strings.Index(all, l))))
	}
	s := st.clone()
	i := s.freshInt("pos", 0, 1<<62)
	s.num.addGE(r.n.sub(i.e).sub(sep.n))
	out := ret1(st, intC(-1))
	if !s.num.bot {
		out = append(out, Outcome{st: s, ret: i})
	}
	return out
}

func setOfBytes(bs ...byte) ByteSet {
	var b ByteSet
	for _, c := range bs {
		b.set(int(c))
	}
	return b
}

func modelIndexByte(last bool) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		b, ok := constByte(st, c.args[1])
		return x.withRange(st, c.args[0], func(s *State, r byteRange) []Outcome {
			if !ok {
				return x.indexSep(s, r, byteRange{r.obj, r.off, konst(1)}, last)
			}
			return x.indexSet(s, r, setOfBytes(byte(b)), last)
		})
	}
}

func modelIndex(last bool) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		return x.withRange(st, c.args[0], func(s *State, r byteRange) []Outcome {
			return x.withRange(s, c.args[1], func(s *State, sep byteRange) []Outcome {
				return x.indexSep(s, r, sep, last)
			})
		})
	}
}

func modelContains(f modelFn) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		var out []Outcome
		for _, o := range f(x, st, c) {
			iv := o.ret.(IntV)
			t, dec := o.st.decide(geC(iv.e, konst(0)))
			if dec {
				o.ret = boolC(t)
			} else {
				o.ret = BoolV{geC(iv.e, konst(0))}
			}
			out = append(out, o)
		}
		return out
	}
}

// modelSub returns a piece of the first argument
func modelSub(keepLo, keepHi bool, trail func(x *X, st *State, c *callCtx, r byteRange)) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		isStr := isStrT(c.sig.Params().At(0).Type())
		var out []Outcome
		for _, o := range x.force(st, c.args[0]) {
			s := o.st
			obj, off, n, ok := rangeOf(o.ret)
			if !ok {
				out = append(out, Outcome{st: s, ret: o.ret})
				continue
			}
			a, b := konst(0), n
			if !keepLo {
				a = s.freshInt("cut", 0, 1<<62).e
			}
			if !keepHi {
				b = s.freshInt("cut", 0, 1<<62).e
			}
			s.num.addGE(b.sub(a))
			s.num.addGE(n.sub(b))
			if s.num.bot {
				continue
			}
			r := byteRange{obj, off.add(a), b.sub(a)}
			if trail != nil {
				trail(x, s, c, r)
			}
			if isStr {
				out = append(out, Outcome{st: s, ret: StrV{r.obj, r.off, r.n}})
			} else {
				sl := o.ret.(SliceV)
				out = append(out, Outcome{st: s, ret: SliceV{obj, r.off, r.n, sl.cap.sub(a)}})
			}
		}
		return out
	}
}

var asciiSpace = setOfBytes(' ', '\t', '\n', '\v', '\f', '\r')

func trimsSpaces(st *State, c *callCtx) bool {
	if len(c.args) < 2 {
		return true
	}
	f, ok := st.resolve(c.args[1]).(FuncV)
	return ok && f.fn.String() == "unicode.IsSpace"
}

// endsClean: the last byte of what is left by a trim
func endsClean(x *X, st *State, c *callCtx, r byteRange) {
	if !trimsSpaces(st, c) {
		return
	}
	// when it is not empty; the point is only added when that is settled
	if st.gt(r.n, konst(0)) {
		if iv, ok := st.readElem(r.obj, r.off.add(r.n).addC(-1)).(IntV); ok {
			st.num.addSet(iv.e, asciiSpace.not())
		}
	}
}

// splitEmpty makes two outcomes of a trim: empty or not
func modelTrimRight(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	if obj, off, n, ok := rangeOf(st.resolve(c.args[0])); ok && trimsSpaces(st, c) && st.gt(n, konst(0)) {
		// nothing to trim
		end := off.add(n)
		if b := st.bytesIn(obj, end.addC(-1), end, 0); !b.empty() && b.subset(asciiSpace.not().and(rangeSet(0, 127))) {
			return ret1(st, c.args[0])
		}
	}
	for _, o := range modelSub(true, false, nil)(x, st, c) {
		obj, off, n, ok := rangeOf(o.ret)
		if !ok {
			out = append(out, o)
			continue
		}
		s := o.st.clone()
		if s = x.assume(s, Cond{op: cEQ, e: n}); s != nil {
			e := o.ret
			if _, ok := e.(StrV); ok {
				e = s.litStr("")
			}
			out = append(out, Outcome{st: s, ret: e})
		}
		t := x.assume(o.st, geC(n, konst(1)))
		if t == nil {
			continue
		}
		endsClean(x, t, c, byteRange{obj, off, n})
		if !t.num.bot {
			out = append(out, Outcome{st: t, ret: o.ret})
		}
	}
	return out
}

// described returns a string of a given origin; the same origin gives the same content
func (s *State) described(what string, args []Val, mk func() StrV) StrV {
	for i, a := range args {
		args[i] = s.resolve(a)
	}
	ids := make([]int, 0, len(s.objs))
	for id, o := range s.objs {
		if o.arr != nil && o.arr.desc != nil && o.arr.desc.what == what {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.objs[id]
		if len(o.arr.desc.args) != len(args) {
			continue
		}
		same := true
		for i := range args {
			if !s.sameVal(args[i], o.arr.desc.args[i]) {
				same = false
				break
			}
		}
		if same {
			return StrV{id, konst(0), o.arr.n}
		}
	}
	return mk()
}

// sameVal tells whether two values are provably the same
func (s *State) sameVal(a, b Val) bool {
	a, b = s.resolve(a), s.resolve(b)
	switch a := a.(type) {
	case IntV:
		b, ok := b.(IntV)
		return ok && s.eqL(a.e, b.e)
	case StrV:
		b, ok := b.(StrV)
		return ok && s.strSame(a, b)
	case UnkV:
		b, ok := b.(UnkV)
		return ok && a.id == b.id
	case NilV:
		_, ok := b.(NilV)
		return ok
	case PtrV:
		b, ok := b.(PtrV)
		if !ok || a.obj != b.obj || a.elem != b.elem || len(a.path) != len(b.path) {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
		return !a.elem || s.eqL(a.idx, b.idx)
	case RefV:
		b, ok := b.(RefV)
		return ok && a.obj == b.obj
	case SliceV:
		b, ok := b.(SliceV)
		return ok && a.obj == b.obj && s.eqL(a.off, b.off) && s.eqL(a.len, b.len)
	case IfaceV:
		b, ok := b.(IfaceV)
		return ok && types.Identical(a.typ, b.typ) && s.sameVal(a.v, b.v)
	case FuncV:
		b, ok := b.(FuncV)
		if !ok || a.fn != b.fn || len(a.free) != len(b.free) {
			return false
		}
		for i := range a.free {
			if !s.sameVal(a.free[i], b.free[i]) {
				return false
			}
		}
		return true
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !s.sameVal(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case BoolV:
		b, ok := b.(BoolV)
		if !ok {
			return false
		}
		ta, oka := s.decide(a.c)
		tb, okb := s.decide(b.c)
		if oka && okb {
			return ta == tb
		}
		return a.c.op == b.c.op && (a.c.op == cGE || a.c.op == cEQ || a.c.op == cNE) && s.eqL(a.c.e, b.c.e)
	}
	return false
}

var digitSet = rangeSet('0', '9')

// itoa is the decimal representation of an integer
func (s *State) itoa(e Lin) StrV {
	n := s.num.norm(e)
	if n.isConst() {
		return s.litStr(itoa64(n.c))
	}
	if k := s.digits(n); k > 0 {
		id := s.newContent(konst(int64(k)), nil, types.Typ[types.Byte])
		for ; k > 1; k-- {
			q, r := s.divmod(n, 10)
			s.addFact(id, Fact{k: fPt, lo: konst(int64(k - 1)), hi: konst(int64(k)), v: IntV{r.addC('0')}})
			n = s.num.norm(q)
		}
		s.addFact(id, Fact{k: fPt, lo: konst(0), hi: konst(1), v: IntV{n.addC('0')}})
		return StrV{id, konst(0), s.arr(id).n}
	}
	return s.described("itoa", []Val{IntV{n}}, func() StrV {
		v := s.freshStr("itoa", &Desc{"itoa", []Val{IntV{n}}})
		s.num.rawGE(v.len.addC(-1))
		set := digitSet
		if s.ge(n, konst(0)) {
			s.num.addGE(konst(19).sub(v.len))
			if mx, ok := s.num.maxOf(n); ok {
				s.num.addGE(konst(int64(len(itoa64(mx)))).sub(v.len))
			}
			if mn, ok := s.num.minOf(n); ok {
				s.num.addGE(v.len.addC(-int64(len(itoa64(mn)))))
			}
		} else {
			set.set('-')
			s.num.addGE(konst(20).sub(v.len))
		}
		s.addFact(v.obj, Fact{k: fSet, lo: konst(0), hi: v.len, set: set})
		return v
	})
}

// digits is the number of decimal digits of a small number, when the drivers want them exactly
func (s *State) digits(n Lin) int {
	if s.ghost["divs"] == nil {
		return 0
	}
	for k, lo := 1, int64(0); k <= 4; k++ {
		hi := int64(9)
		for i := 1; i < k; i++ {
			hi = hi*10 + 9
		}
		if s.ge(n, konst(lo)) && s.ge(konst(hi), n) {
			return k
		}
		lo = hi + 1
	}
	return 0
}

// byDigits splits on the number of digits of small numbers
func byDigits(st *State, n Lin, then func(*State) []Outcome) []Outcome {
	n = st.num.norm(n)
	if st.ghost["divs"] == nil || n.isConst() || !st.ge(n, konst(0)) || !st.ge(konst(9999), n) {
		return then(st)
	}
	var out []Outcome
	for _, r := range [][2]int64{{0, 9}, {10, 99}, {100, 999}, {1000, 9999}} {
		t := st.clone()
		t.num.addGE(n.addC(-r[0]))
		t.num.addGE(n.neg().addC(r[1]))
		if !t.num.bot {
			out = append(out, then(t)...)
		}
	}
	return out
}

func itoa64(v int64) string {
	return constant.MakeInt64(v).ExactString()
}

// itoaOf gives the number whose decimal form v is
func (s *State) itoaOf(v StrV) (Val, bool) {
	if !s.ge(v.len, konst(1)) {
		return nil, false
	}
	if l, ok := s.litKnown(v); ok {
		if n, err := strconv.ParseInt(l, 10, 64); err == nil {
			return intC(n), true
		}
		return nil, false
	}
	r, _ := s.root(v.obj, v.off, 0)
	if r.obj == 0 || !s.eqL(r.off, konst(0)) {
		return nil, false
	}
	a := s.arr(r.obj)
	if a.desc == nil || a.desc.what != "itoa" || len(a.desc.args) != 1 || !s.eqL(a.n, v.len) || !s.rangeSame(v.obj, v.off, r.obj, r.off, v.len, 0) {
		return nil, false
	}
	n, ok := a.desc.args[0].(IntV)
	return n, ok
}

func modelAtoi(x *X, st *State, c *callCtx) []Outcome {
	return x.withRange(st, c.args[0], func(s *State, r byteRange) []Outcome {
		t0 := c.sig.Results().At(0).Type()
		var out []Outcome
		if v, ok := s.itoaOf(s.strOf(r)); ok && c.sig.Params().Len() == 1 {
			return ret1(s, TupleV{[]Val{v, NilV{}}})
		}
		bad := s.clone()
		// success
		ok := digitSet
		ok.set('-')
		ok.set('+')
		s.num.addGE(r.n.addC(-1))
		if !s.num.bot {
			set := s.bytesIn(r.obj, r.off, r.off.add(r.n), 0).and(ok)
			if set != (ByteSet{}) {
				s.addSetRange(r.obj, r.off, r.off.add(r.n), ok, 0)
				lo, hi := int64(-(1 << 62)), int64(1<<62)
				if !set.has('-') || isUnsigned(t0) {
					lo = 0
				}
				// a number of few digits is small
				if mx, okm := s.num.maxOf(r.n); okm && mx <= 9 {
					p := int64(1)
					for i := int64(0); i < mx; i++ {
						p *= 10
					}
					hi = p - 1
					if lo != 0 {
						lo = -p + 1
					}
				}
				var v Val
				if hi == 1<<62 && lo != 0 {
					v = s.fresh(t0, "atoi")
				} else {
					v = s.freshInt("atoi", lo, hi)
				}
				out = append(out, Outcome{st: s, ret: TupleV{[]Val{v, NilV{}}}})
			}
		}
		out = append(out, Outcome{st: bad, ret: TupleV{[]Val{bad.fresh(t0, "atoi"), unkErr(x)}}})
		return out
	})
}

// buffers: the text written so far is an attribute of the object

func bufKey(p PtrV) string {
	k := "buf"
	for _, i := range p.path {
		k += "." + itoa(i)
	}
	return k
}

func (x *X) bufGet(st *State, site ssa.Instruction, recv Val) (PtrV, StrV, bool) {
	recv = st.resolve(recv)
	if u, ok := recv.(UnkV); ok {
		// an unknown buffer
		t, ok := u.typ.Underlying().(*types.Pointer)
		if !ok {
			return PtrV{}, StrV{}, false
		}
		id := st.newObj(&Obj{kind: kCell, typ: t.Elem(), opaque: true})
		p := PtrV{obj: id}
		st.res[u.id] = p
		recv = p
		return p, st.freshStr("buf", nil), true
	}
	p, ok := recv.(PtrV)
	if !ok || p.elem {
		return PtrV{}, StrV{}, false
	}
	o := st.objs[p.obj]
	if v, ok := o.ghost[bufKey(p)]; ok {
		return p, v.(StrV), true
	}
	v := o.val
	for _, i := range p.path {
		sv, ok := st.resolve(v).(StructV)
		if !ok {
			return p, st.freshStr("buf", nil), true
		}
		v = sv.f[i]
	}
	if u, ok := st.resolve(v).(UnkV); ok {
		for _, z := range zeroOpq {
			if z.id == u.id {
				return p, st.litStr(""), true
			}
		}
	}
	return p, st.freshStr("buf", nil), true
}

func (x *X) bufSet(st *State, p PtrV, v StrV) {
	o := st.objs[p.obj].clone()
	g := map[string]Val{}
	for k, w := range o.ghost {
		g[k] = w
	}
	g[bufKey(p)] = v
	o.ghost = g
	st.objs[p.obj] = o
}

func modelBufWrite(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	arg := c.args[1]
	emit := func(s *State, w StrV) {
		p, cur, ok := x.bufGet(s, c.site, c.args[0])
		if !ok {
			x.fail(s, c.site, "nil", "write in a nil buffer")
			return
		}
		x.bufSet(s, p, s.concat(cur, w))
		switch c.sig.Results().Len() {
		case 0:
			out = append(out, Outcome{st: s, ret: TupleV{}})
		case 1:
			out = append(out, Outcome{st: s, ret: NilV{}})
		default:
			out = append(out, Outcome{st: s, ret: TupleV{[]Val{IntV{w.len}, NilV{}}}})
		}
	}
	if iv, ok := st.resolve(arg).(IntV); ok {
		b := c.sig.Params().At(0).Type()
		if !isByte(b) && !st.ge(konst(127), iv.e) {
			emit(st, st.freshStr("rune", nil))
			return out
		}
		id := st.newContent(konst(1), nil, types.Typ[types.Byte])
		st.addFact(id, Fact{k: fPt, lo: konst(0), hi: konst(1), v: iv})
		if l := st.num.norm(iv.e); l.isConst() && l.c >= 0 && l.c < 128 {
			emit(st, st.litStr(string([]byte{byte(l.c)})))
			return out
		}
		emit(st, StrV{id, konst(0), konst(1)})
		return out
	}
	x.withRange(st, arg, func(s *State, r byteRange) []Outcome {
		emit(s, s.strOf(r))
		return nil
	})
	return out
}

func modelBufString(x *X, st *State, c *callCtx) []Outcome {
	_, cur, ok := x.bufGet(st, c.site, c.args[0])
	if !ok {
		return ret1(st, st.litStr("<nil>"))
	}
	if isStrT(c.sig.Results().At(0).Type()) {
		return ret1(st, cur)
	}
	return ret1(st, st.bytesOfStr(cur))
}

func modelBufLen(x *X, st *State, c *callCtx) []Outcome {
	_, cur, ok := x.bufGet(st, c.site, c.args[0])
	if !ok {
		return ret1(st, IntV{st.freshLen("len")})
	}
	return ret1(st, IntV{cur.len})
}

// variadic gives the elements of a slice of known length
func (x *X) variadic(st *State, v Val) ([]Val, bool) {
	switch v := st.resolve(v).(type) {
	case NilV:
		return nil, true
	case SliceV:
		n := st.num.norm(v.len)
		if !n.isConst() || n.c > 20 {
			return nil, false
		}
		var r []Val
		for i := int64(0); i < n.c; i++ {
			r = append(r, st.resolve(st.readElem(v.obj, v.off.addC(i))))
		}
		return r, true
	}
	return nil, false
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// format interprets a simple format; false when it can't
func (x *X) format(st *State, format Val, args Val) (StrV, bool) {
	fv, ok := format.(StrV)
	if !ok {
		return StrV{}, false
	}
	f, ok := st.litOf(fv)
	if !ok {
		return StrV{}, false
	}
	vs, ok := x.variadic(st, args)
	if !ok {
		return StrV{}, false
	}
	var parts []StrV
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, st.litStr(lit))
			lit = ""
		}
	}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += f[i : i+1]
			continue
		}
		i++
		if i >= len(f) {
			return StrV{}, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(vs) {
			return StrV{}, false
		}
		a := vs[k]
		k++
		var s StrV
		iv, isI := a.(IfaceV)
		done := false
		own := hasMethod(iv.typ, "Error") || hasMethod(iv.typ, "String") // not used by %d and %c
		if isI && !hasMethod(iv.typ, "Format") && !(own && (f[i] == 's' || f[i] == 'v')) {
			v := st.resolve(iv.v)
			switch f[i] {
			case 's', 'v':
				switch w := v.(type) {
				case StrV:
					s, done = w, true
				case SliceV:
					if f[i] == 's' && isByte(iv.typ.Underlying().(*types.Slice).Elem()) {
						s, done = st.strOfBytes(w), true
					}
				case IntV:
					if f[i] == 'v' {
						s, done = st.itoa(w.e), true
					}
				}
			case 'd':
				if w, ok := v.(IntV); ok {
					s, done = st.itoa(w.e), true
				}
			case 'c':
				if w, ok := v.(IntV); ok && st.ge(w.e, konst(0)) && st.ge(konst(127), w.e) {
					id := st.newContent(konst(1), nil, types.Typ[types.Byte])
					st.addFact(id, Fact{k: fPt, lo: konst(0), hi: konst(1), v: w})
					s, done = StrV{id, konst(0), konst(1)}, true
				}
			}
		}
		if !done {
			if f[i] != 's' && f[i] != 'v' && f[i] != 'd' && f[i] != 'q' && f[i] != 'c' && f[i] != 'x' {
				return StrV{}, false
			}
			s = st.freshStr("fmt", &Desc{what: "fmt%" + f[i:i+1], args: []Val{a}})
		}
		flush()
		parts = append(parts, s)
	}
	flush()
	if k != len(vs) {
		return StrV{}, false
	}
	if len(parts) == 0 {
		return st.litStr(""), true
	}
	return st.concat(parts...), true
}

func modelSprintf(x *X, st *State, c *callCtx) []Outcome {
	then := func(st *State) []Outcome {
		if s, ok := x.format(st, st.resolve(c.args[0]), c.args[1]); ok {
			return ret1(st, s)
		}
		return ret1(st, st.freshStr("sprintf", nil))
	}
	vs, _ := x.variadic(st, c.args[1])
	for _, v := range vs {
		if i, ok := v.(IfaceV); ok {
			if n, ok := st.resolve(i.v).(IntV); ok {
				next := then
				then = func(st *State) []Outcome { return byDigits(st, n.e, next) }
			}
		}
	}
	return then(st)
}

func modelErr(x *X, st *State, c *callCtx) []Outcome { return ret1(st, x.newError(st)) }

// modelDesc: a string or opaque result determined by the arguments
func modelDesc(x *X, st *State, c *callCtx) []Outcome {
	args := append([]Val(nil), c.args...)
	return ret1(st, st.described(c.name, args, func() StrV { return st.freshStr("r", &Desc{c.name, args}) }))
}

func modelFresh(x *X, st *State, c *callCtx) []Outcome {
	return ret1(st, nonNil(st.freshResults(c.sig)))
}

// modelRead is the contract of io.Reader
func modelRead(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, c.args[1]) {
		s := o.st
		_, _, n, ok := rangeOf(o.ret)
		if !ok {
			n = konst(0)
		}
		k := s.freshInt("read", 0, 1<<62)
		s.num.addGE(n.sub(k.e))
		if sl, ok := o.ret.(SliceV); ok {
			x.writeRange(s, c.site, sl.obj, sl.off, sl.off.add(sl.len))
			s.writeKill(sl.obj, sl.off, sl.off.add(sl.len))
			if isByte(s.objs[sl.obj].typ) {
				id := s.newContent(sl.len, &Desc{what: "read"}, types.Typ[types.Byte])
				s.addFact(sl.obj, Fact{k: fSeg, lo: sl.off, hi: sl.off.add(sl.len), src: id, delta: sl.off.neg()})
			}
		}
		out = append(out, Outcome{st: s, ret: TupleV{[]Val{k, newUnk(types.Universe.Lookup("error").Type(), false)}}})
	}
	return out
}

// modelWrite is the contract of io.Writer
func modelWrite(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, c.args[1]) {
		s := o.st
		_, _, n, ok := rangeOf(o.ret)
		if !ok {
			n = konst(0)
		}
		bad := s.clone()
		out = append(out, Outcome{st: s, ret: TupleV{[]Val{IntV{n}, NilV{}}}})
		k := bad.freshInt("written", 0, 1<<62)
		bad.num.addGE(n.sub(k.e))
		out = append(out, Outcome{st: bad, ret: TupleV{[]Val{k, unkErr(x)}}})
	}
	return out
}

func modelLock(x *X, st *State, c *callCtx) []Outcome {
	if x.mon.lock != nil {
		x.mon.lock(x, st, c.site, st.resolve(c.args[0]))
	}
	return void(st)
}

func modelUnlock(x *X, st *State, c *callCtx) []Outcome {
	if x.mon.unlock != nil {
		x.mon.unlock(x, st, c.site, st.resolve(c.args[0]))
	}
	return void(st)
}

// modelOnce: the function runs at most once
func modelOnce(x *X, st *State, c *callCtx) []Outcome {
	s := st.clone()
	out := x.invoke(st, c.site, c.call, c.args[1], nil)
	var r []Outcome
	for _, o := range out {
		if !o.panicked {
			o.ret = TupleV{}
		}
		r = append(r, o)
	}
	return append(r, Outcome{st: s, ret: TupleV{}})
}

func modelReplace(x *X, st *State, c *callCtx) []Outcome {
	isStr := isStrT(c.sig.Params().At(0).Type())
	return x.withRange(st, c.args[0], func(s *State, r byteRange) []Outcome {
		return x.withRange(s, c.args[1], func(s *State, old byteRange) []Outcome {
			return x.withRange(s, c.args[2], func(s *State, nw byteRange) []Outcome {
				lo, ok1 := s.litKnown(s.strOf(old))
				ln, ok2 := s.litKnown(s.strOf(nw))
				all := true
				if len(c.args) > 3 {
					n, ok := c.args[3].(IntV)
					all = ok && s.ge(konst(-1), n.e)
				}
				mk := func(s *State, v StrV) []Outcome {
					if isStr {
						return ret1(s, v)
					}
					// a new slice, nil when there is nothing
					var out []Outcome
					e := s.clone()
					if e = x.assume(e, Cond{op: cEQ, e: v.len}); e != nil {
						out = append(out, Outcome{st: e, ret: NilV{}})
					}
					if s = x.assume(s, geC(v.len, konst(1))); s != nil {
						b := s.bytesOfStr(v)
						cp := s.freshLen("cap")
						s.num.addGE(cp.sub(b.len))
						a := s.arr(b.obj).clone()
						a.n = cp
						s.setArr(b.obj, a)
						b.cap = cp
						out = append(out, Outcome{st: s, ret: b})
					}
					return out
				}
				src := s.strOf(r)
				if ok1 && ok2 && all && len(lo) == 1 && len(ln) == 1 {
					in := s.bytesIn(r.obj, r.off, r.off.add(r.n), 0)
					if !in.has(int(lo[0])) {
						return mk(s, src)
					}
					v := s.described("replace"+lo+ln, []Val{src}, func() StrV {
						id := s.newContent(r.n, &Desc{"replace" + lo + ln, []Val{src}}, types.Typ[types.Byte])
						rm := setOfBytes(lo[0])
						set := in.and(rm.not())
						set.set(int(ln[0]))
						s.addFact(id, Fact{k: fSet, lo: konst(0), hi: r.n, set: set})
						return StrV{id, konst(0), r.n}
					})
					return mk(s, v)
				}
				v := s.freshStr("replace", &Desc{"replace", []Val{src}})
				if ok1 && ok2 && all && len(lo) == 1 {
					in := s.bytesIn(r.obj, r.off, r.off.add(r.n), 0).and(setOfBytes(lo[0]).not())
					for i := 0; i < len(ln); i++ {
						in.set(int(ln[i]))
					}
					s.addFact(v.obj, Fact{k: fSet, lo: konst(0), hi: v.len, set: in})
				}
				return mk(s, v)
			})
		})
	})
}

func modelEqual(x *X, st *State, c *callCtx) []Outcome {
	return x.withRange(st, c.args[0], func(s *State, a byteRange) []Outcome {
		return x.withRange(s, c.args[1], func(s *State, b byteRange) []Outcome {
			return ret1(s, BoolV{Cond{op: cStrEQ, a: s.strOf(a), b: s.strOf(b)}})
		})
	})
}

func modelHasPrefix(suffix bool) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		return x.withRange(st, c.args[0], func(s *State, a byteRange) []Outcome {
			return x.withRange(s, c.args[1], func(s *State, b byteRange) []Outcome {
				var out []Outcome
				sh := s.clone()
				if sh = x.assume(sh, geC(b.n.addC(-1), a.n)); sh != nil {
					out = append(out, Outcome{st: sh, ret: boolC(false)})
				}
				if s = x.assume(s, geC(a.n, b.n)); s != nil {
					off := a.off
					if suffix {
						off = a.off.add(a.n).sub(b.n)
					}
					out = append(out, Outcome{st: s, ret: BoolV{Cond{op: cStrEQ, a: s.strOf(byteRange{a.obj, off, b.n}), b: s.strOf(b)}}})
				}
				return out
			})
		})
	}
}

func modelClone(x *X, st *State, c *callCtx) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, c.args[0]) {
		switch v := o.ret.(type) {
		case SliceV:
			out = append(out, Outcome{st: o.st, ret: o.st.bytesOfStr(o.st.strOfBytes(v))})
		default:
			out = append(out, o)
		}
	}
	return out
}

func modelAppendInt(x *X, st *State, c *callCtx) []Outcome {
	iv, ok := c.args[1].(IntV)
	b, ok2 := c.args[2].(IntV)
	if ok && ok2 {
		if n := st.num.norm(b.e); n.isConst() && n.c == 10 {
			return byDigits(st, iv.e, func(st *State) []Outcome {
				return x.appendOp(st, c.site, c.call, []Val{c.args[0], st.itoa(iv.e)})
			})
		}
	}
	return x.appendOp(st, c.site, c.call, []Val{c.args[0], st.freshStr("num", nil)})
}

func modelRuneClass(set ByteSet) modelFn {
	return func(x *X, st *State, c *callCtx) []Outcome {
		iv, ok := c.args[0].(IntV)
		if !ok {
			return nil
		}
		if n := st.num.norm(iv.e); n.isConst() && n.c >= 0 && n.c < 128 {
			return ret1(st, boolC(set.has(int(n.c))))
		}
		// ASCII runes are settled
		var out []Outcome
		for _, v := range []bool{true, false} {
			s := st.clone()
			if s.ge(konst(127), iv.e) && s.ge(iv.e, konst(0)) {
				w := set
				if !v {
					w = set.not()
				}
				s.num.addSet(iv.e, w.and(rangeSet(0, 127)))
				if s.num.bot {
					continue
				}
			}
			out = append(out, Outcome{st: s, ret: boolC(v)})
		}
		return out
	}
}

func init() {
	trimFn := modelTrimRight
	for k, v := range map[string]modelFn{
		"driver.anyBytes": func(x *X, st *State, c *callCtx) []Outcome {
			return ret1(st, newUnk(types.NewSlice(types.Typ[types.Byte]), false))
		},
		"driver.anyString": func(x *X, st *State, c *callCtx) []Outcome { return ret1(st, st.freshStr("any", &Desc{what: "any"})) },
		"driver.anyBool":   func(x *X, st *State, c *callCtx) []Outcome { return ret1(st, st.freshBool("any")) },
		"driver.anyInt": func(x *X, st *State, c *callCtx) []Outcome {
			lo, hi := st.num.norm(c.args[0].(IntV).e), st.num.norm(c.args[1].(IntV).e)
			return ret1(st, st.freshInt("any", lo.c, hi.c))
		},
		"driver.check": func(x *X, st *State, c *callCtx) []Outcome {
			what, _ := st.litOf(c.args[1].(StrV))
			b := c.args[0].(BoolV)
			t, dec := st.decide(b.c)
			x.oblige(st, c.site, "check", what, dec && t, nil)
			return void(st)
		},
		"driver.freeze": func(x *X, st *State, c *callCtx) []Outcome {
			vs, ok := x.variadic(st, c.args[0])
			if !ok {
				panic(giveUp{"freeze"})
			}
			sts := []*State{st}
			for _, v := range vs {
				if iv, ok := v.(IfaceV); ok {
					v = iv.v
				}
				var next []*State
				for _, s := range sts {
					for _, o := range x.force(s, v) {
						o.st.freezeVal(o.ret, 0)
						next = append(next, o.st)
					}
				}
				sts = next
			}
			var outs []Outcome
			for _, s := range sts {
				outs = append(outs, void(s)...)
			}
			return outs
		},
		"driver.cut": func(x *X, st *State, c *callCtx) []Outcome {
			if iv, ok := c.args[0].(IfaceV); ok {
				st.ghost["cut"] = iv.v
			}
			return void(st)
		},
		"driver.divisions": func(x *X, st *State, c *callCtx) []Outcome {
			st.ghost["divs"] = intC(1)
			return void(st)
		},
		"driver.assume": func(x *X, st *State, c *callCtx) []Outcome {
			if st = x.assume(st, c.args[0].(BoolV).c); st == nil {
				return []Outcome{}
			}
			return void(st)
		},

		"bytes.IndexByte": modelIndexByte(false), "strings.IndexByte": modelIndexByte(false),
		"bytes.LastIndexByte": modelIndexByte(true), "strings.LastIndexByte": modelIndexByte(true),
		"bytes.Index": modelIndex(false), "strings.Index": modelIndex(false),
		"internal/stringslite.Index": modelIndex(false), "internal/stringslite.IndexByte": modelIndexByte(false),
		"internal/stringslite.HasPrefix": modelHasPrefix(false), "internal/stringslite.HasSuffix": modelHasPrefix(true),
		"bytes.LastIndex": modelIndex(true), "strings.LastIndex": modelIndex(true),
		"bytes.Contains": modelContains(modelIndex(false)), "strings.Contains": modelContains(modelIndex(false)),
		"strings.ContainsRune": func(x *X, st *State, c *callCtx) []Outcome {
			s, ok := c.args[0].(StrV)
			r, ok2 := c.args[1].(IntV)
			if l, ok3 := st.litOf(s); ok && ok2 && ok3 {
				var set ByteSet
				for i := 0; i < len(l); i++ {
					set.set(int(l[i]))
				}
				if n := st.num.norm(r.e); n.isConst() {
					return ret1(st, boolC(n.c >= 0 && n.c < 128 && set.has(int(n.c))))
				}
			}
			return ret1(st, st.freshBool("contains"))
		},
		"strings.ContainsAny": func(x *X, st *State, c *callCtx) []Outcome { return ret1(st, st.freshBool("contains")) },
		"strings.Split": func(x *X, st *State, c *callCtx) []Outcome {
			n := st.freshLen("split")
			st.num.rawGE(n.addC(-1))
			return ret1(st, st.newSliceOf(types.Typ[types.String], n, n, "split"))
		},
		"strings.TrimRightFunc": trimFn, "bytes.TrimRightFunc": trimFn,
		"strings.TrimRight": modelSub(true, false, nil), "bytes.TrimRight": modelSub(true, false, nil),
		"strings.TrimLeft": modelSub(false, true, nil), "bytes.TrimLeft": modelSub(false, true, nil),
		"strings.TrimLeftFunc": modelSub(false, true, nil), "bytes.TrimLeftFunc": modelSub(false, true, nil),
		"strings.Trim": modelSub(false, false, nil), "bytes.Trim": modelSub(false, false, nil),
		"strings.TrimSpace": modelSub(false, false, nil), "bytes.TrimSpace": modelSub(false, false, nil),
		"strings.TrimFunc":   modelSub(false, false, nil),
		"strings.TrimSuffix": modelSub(true, false, nil), "bytes.TrimSuffix": modelSub(true, false, nil),
		"strings.TrimPrefix": modelSub(false, true, nil), "bytes.TrimPrefix": modelSub(false, true, nil),
		"strings.HasPrefix": modelHasPrefix(false), "bytes.HasPrefix": modelHasPrefix(false),
		"strings.HasSuffix": modelHasPrefix(true), "bytes.HasSuffix": modelHasPrefix(true),
		"bytes.Equal":   modelEqual,
		"bytes.Replace": modelReplace, "strings.Replace": modelReplace,
		"bytes.ReplaceAll": modelReplace, "strings.ReplaceAll": modelReplace,
		"bytes.Clone": modelClone, "strings.Clone": modelClone,
		"strings.ToLower": modelDesc, "strings.ToUpper": modelDesc,
		"strings.Join": func(x *X, st *State, c *callCtx) []Outcome {
			vs, ok := x.variadic(st, c.args[0])
			if !ok {
				return ret1(st, st.freshStr("join", nil))
			}
			var parts []StrV
			for i, v := range vs {
				if i > 0 {
					parts = append(parts, c.args[1].(StrV))
				}
				sv, ok := v.(StrV)
				if !ok {
					return ret1(st, st.freshStr("join", nil))
				}
				parts = append(parts, sv)
			}
			if len(parts) == 0 {
				return ret1(st, st.litStr(""))
			}
			return ret1(st, st.concat(parts...))
		},

		"strconv.Atoi": modelAtoi, "strconv.ParseInt": modelAtoi, "strconv.ParseUint": modelAtoi,
		"strconv.Itoa": func(x *X, st *State, c *callCtx) []Outcome {
			return byDigits(st, c.args[0].(IntV).e, func(st *State) []Outcome { return ret1(st, st.itoa(c.args[0].(IntV).e)) })
		},
		"strconv.FormatInt": func(x *X, st *State, c *callCtx) []Outcome {
			if n := st.num.norm(c.args[1].(IntV).e); n.isConst() && n.c == 10 {
				return byDigits(st, c.args[0].(IntV).e, func(st *State) []Outcome { return ret1(st, st.itoa(c.args[0].(IntV).e)) })
			}
			return modelDesc(x, st, c)
		},
		"strconv.AppendInt":     modelAppendInt,
		"strconv.Quote":         modelDesc,
		"fmt.Sprintf":           modelSprintf,
		"fmt.Sprint":            func(x *X, st *State, c *callCtx) []Outcome { return ret1(st, st.freshStr("sprint", nil)) },
		"fmt.Errorf":            modelErr,
		"errors.New":            modelErr,
		"errors.Is":             modelErrorsIs,
		"errors.As":             modelErrorsAs,
		"errors.Unwrap":         modelUnwrap,
		"(*net.OpError).Unwrap": modelUnwrap, "(*os.SyscallError).Unwrap": modelUnwrap,

		"(*bytes.Buffer).Write": modelBufWrite, "(*bytes.Buffer).WriteString": modelBufWrite,
		"(*bytes.Buffer).WriteByte": modelBufWrite, "(*bytes.Buffer).WriteRune": modelBufWrite,
		"(*bytes.Buffer).Bytes": modelBufString, "(*bytes.Buffer).String": modelBufString, "(*bytes.Buffer).Len": modelBufLen,
		"(*strings.Builder).Write": modelBufWrite, "(*strings.Builder).WriteString": modelBufWrite,
		"(*strings.Builder).WriteByte": modelBufWrite, "(*strings.Builder).WriteRune": modelBufWrite,
		"(*strings.Builder).String": modelBufString, "(*strings.Builder).Len": modelBufLen,
		"(*strings.Builder).Grow": noop, "(*bytes.Buffer).Grow": noop,
		"(*bytes.Buffer).Reset": func(x *X, st *State, c *callCtx) []Outcome {
			if p, _, ok := x.bufGet(st, c.site, c.args[0]); ok {
				x.bufSet(st, p, st.litStr(""))
			}
			return void(st)
		},

		"(io.Reader).Read": modelRead, "(io.Writer).Write": modelWrite,
		"(net.Conn).Write": modelWrite, "(net.Conn).Read": modelRead,
		"(*net.UnixConn).Write": modelWrite, "(*net.conn).Write": modelWrite, "(*net.conn).Read": modelRead,
		"(*net.TCPConn).Write": modelWrite, "(*net.TCPConn).Read": modelRead, "(*net.UnixConn).Read": modelRead,
		"(*os.File).Write": modelWrite, "(*os.File).Read": modelRead,

		"(*sync.Mutex).Lock": modelLock, "(*sync.Mutex).Unlock": modelUnlock,
		"(*sync.RWMutex).Lock": modelLock, "(*sync.RWMutex).Unlock": modelUnlock,
		"(*sync.RWMutex).RLock": modelLock, "(*sync.RWMutex).RUnlock": modelUnlock,
		"(sync.Locker).Lock": modelLock, "(sync.Locker).Unlock": modelUnlock,
		"(*sync.Once).Do":       modelOnce,
		"(*sync.WaitGroup).Add": noop, "(*sync.WaitGroup).Done": noop, "(*sync.WaitGroup).Wait": noop,
		"time.Sleep": noop,
		"sort.Sort": func(x *X, st *State, c *callCtx) []Outcome {
			if iv, ok := st.resolve(c.args[0]).(IfaceV); ok {
				x.havocVal(st, iv.v, 0)
			}
			return void(st)
		},
		"sort.Slice": func(x *X, st *State, c *callCtx) []Outcome {
			x.havocVal(st, c.args[0], 0)
			return void(st)
		},
		"sort.Strings": func(x *X, st *State, c *callCtx) []Outcome {
			x.havocVal(st, c.args[0], 0)
			return void(st)
		},

		"(time.Time).Format": func(x *X, st *State, c *callCtx) []Outcome {
			args := append([]Val(nil), c.args...)
			return ret1(st, st.described(c.name, args, func() StrV {
				v := st.freshStr("ts", &Desc{c.name, args})
				st.num.rawGE(v.len.addC(-1))
				return v
			}))
		},
		"unicode.IsSpace":      modelRuneClass(asciiSpace),
		"unicode.IsDigit":      modelRuneClass(digitSet),
		"unicode.IsLetter":     modelRuneClass(rangeSet('a', 'z').or(rangeSet('A', 'Z'))),
		"os.Getpid":            func(x *X, st *State, c *callCtx) []Outcome { return ret1(st, st.freshInt("pid", 1, 1<<22)) },
		"(error).Error":        modelDesc,
		"(*log.Logger).Printf": noop, "(*log.Logger).Println": noop, "log.Printf": noop, "log.Println": noop,
		"context.WithTimeout": func(x *X, st *State, c *callCtx) []Outcome {
			return ret1(st, nonNil(st.freshResults(c.sig)))
		},
	} {
		models[k] = v
	}
}

var _ = token.ADD
var _ = strings.HasPrefix

// freezeVal marks the storage reached from a value
func (s *State) freezeVal(v Val, depth int) {
	if depth > 6 {
		return
	}
	id := 0
	switch v := s.resolve(v).(type) {
	case SliceV:
		id = v.obj
	case ArrV:
		id = v.obj
	case PtrV:
		id = v.obj
	case IfaceV:
		s.freezeVal(v.v, depth+1)
	case StructV:
		for _, f := range v.f {
			s.freezeVal(f, depth+1)
		}
	}
	o := s.objs[id]
	if o == nil || o.frozen {
		return
	}
	n := o.clone()
	n.frozen = true
	s.setObj(id, n)
	if o.kind == kCell {
		s.freezeVal(o.val, depth+1)
	}
}

// touched records a write
func (x *X) touched(st *State, site ssa.Instruction, obj int) {
	o := st.objs[obj]
	if o == nil || !x.freeze {
		return
	}
	if site == nil {
		if !o.frozen {
			return
		}
		site = st.top().fn.Blocks[0].Instrs[0]
	}
	x.oblige(st, site, "frozen", "", !o.frozen, func() string { return "writes a storage that was handed out: " + o.name })
}
