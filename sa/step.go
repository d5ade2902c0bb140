package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// step executes an instruction that doesn't end a block
func (x *X) step(st *State, in ssa.Instruction, out outFn) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st)

	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := st.newObj(&Obj{kind: kCell, typ: t, val: st.zeroVal(t), name: in.Comment})
		x.set(st, in, PtrV{obj: id})
		return one(st)

	case *ssa.BinOp:
		return x.binop(st, in)

	case *ssa.UnOp:
		return x.unop(st, in)

	case *ssa.Call:
		fn, args := x.callee(st, &in.Call)
		var next []*State
		for _, o := range x.invoke(st, in, &in.Call, fn, args) {
			if o.panicked {
				x.raise(o.st, in, o.pval, out)
				continue
			}
			x.set(o.st, in, o.ret)
			next = append(next, o.st)
		}
		return next

	case *ssa.Defer:
		fn, args := x.callee(st, &in.Call)
		f := st.top()
		f.defers = append(f.defers, Deferred{&in.Call, in, fn, args})
		return one(st)

	case *ssa.Go:
		fn, args := x.callee(st, &in.Call)
		next := one(st)
		if x.mon.spawn != nil {
			next = x.mon.spawn(x, st, in)
		}
		for _, s := range next {
			x.rec.roots = append(x.rec.roots, goRoot{s.clone(), fn, args, in, &in.Call, 0})
		}
		return next

	case *ssa.RunDefers:
		var next []*State
		for _, s := range x.runDefers(st, in, out) {
			f := s.top()
			if f.panicking {
				if f.recovered {
					f.panicking, f.recovered, f.panicVal = false, false, nil
					if f.fn.Recover != nil {
						x.block(f.fn.Recover, s, out)
						continue
					}
					var r Val = TupleV{}
					if n := f.fn.Signature.Results().Len(); n == 1 {
						r = s.zeroVal(f.fn.Signature.Results().At(0).Type())
					} else if n > 1 {
						r = s.zeroVal(f.fn.Signature.Results())
					}
					f.regs = map[ssa.Value]Val{retV: r}
					out(retB, s)
					continue
				}
				f.regs = map[ssa.Value]Val{}
				out(panicB, s)
				continue
			}
			next = append(next, s)
		}
		return next

	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := x.eval(st, *in.(ssa.Instruction).Operands(nil)[0])
		x.set(st, in, v)
		return one(st)

	case *ssa.Convert:
		return x.convert(st, in)

	case *ssa.MultiConvert:
		x.set(st, in, st.fresh(in.Type(), "conv"))
		return one(st)

	case *ssa.Extract:
		t := x.eval(st, in.Tuple)
		if tv, ok := t.(TupleV); ok && in.Index < len(tv.f) {
			x.set(st, in, st.resolve(tv.f[in.Index]))
		} else {
			x.set(st, in, st.fresh(in.Type(), "extract"))
		}
		return one(st)

	case *ssa.Field:
		v := x.eval(st, in.X)
		if sv, ok := v.(StructV); ok {
			x.set(st, in, st.resolve(sv.f[in.Field]))
		} else {
			x.set(st, in, st.fresh(in.Type(), "field"))
		}
		return one(st)

	case *ssa.FieldAddr:
		var next []*State
		for _, o := range x.force(st, x.eval(st, in.X)) {
			p, ok := x.ptr(o.st, in, o.ret)
			if !ok {
				continue
			}
			r := p
			r.path = append(append([]int(nil), p.path...), in.Field)
			x.set(o.st, in, r)
			next = append(next, o.st)
		}
		return next

	case *ssa.IndexAddr:
		return x.indexAddr(st, in)

	case *ssa.Index:
		return x.index(st, in)

	case *ssa.Slice:
		return x.slice(st, in)

	case *ssa.Store:
		var next []*State
		for _, o := range x.force(st, x.eval(st, in.Addr)) {
			p, ok := x.ptr(o.st, in, o.ret)
			if !ok {
				continue
			}
			x.store(o.st, in, p, x.eval(o.st, in.Val))
			next = append(next, o.st)
		}
		return next

	case *ssa.MakeInterface:
		v := x.eval(st, in.X)
		x.set(st, in, IfaceV{in.X.Type(), v})
		return one(st)

	case *ssa.MakeClosure:
		var fr []Val
		for _, b := range in.Bindings {
			fr = append(fr, x.eval(st, b))
		}
		x.set(st, in, FuncV{in.Fn.(*ssa.Function), fr})
		return one(st)

	case *ssa.MakeMap:
		x.set(st, in, RefV{st.newObj(&Obj{kind: kMap, typ: in.Type(), exact: true})})
		return one(st)

	case *ssa.MakeChan:
		n := x.eval(st, in.Size)
		x.set(st, in, RefV{st.newObj(&Obj{kind: kChan, typ: in.Type(), ghost: map[string]Val{"cap": n}})})
		return one(st)

	case *ssa.MakeSlice:
		n, ok1 := x.eval(st, in.Len).(IntV)
		c, ok2 := x.eval(st, in.Cap).(IntV)
		if !ok1 || !ok2 {
			panic("make of a size that is no integer")
		}
		if st = x.require(st, in, "makeslice", []Cond{geC(n.e, konst(0)), geC(c.e, n.e)}, "size of make"); st == nil {
			return nil
		}
		if x.mon.alloc != nil {
			x.mon.alloc(x, st, in, c.e)
		}
		st.num.addGE(konst(maxLen).sub(c.e))
		if st.num.bot {
			return nil
		}
		elem := in.Type().Underlying().(*types.Slice).Elem()
		id := st.newObj(&Obj{kind: kArr, typ: elem, arr: &Arr{n: c.e, zero: true}, name: "make"})
		x.set(st, in, SliceV{id, konst(0), n.e, c.e})
		return one(st)

	case *ssa.MapUpdate:
		m := x.eval(st, in.Map)
		k, v := x.eval(st, in.Key), x.eval(st, in.Value)
		var next []*State
		for _, o := range x.force(st, m) {
			r, ok := o.ret.(RefV)
			if !ok {
				if _, isNil := o.ret.(NilV); isNil {
					x.fail(o.st, in, "nilmap", "assignment in a nil map")
				}
				continue
			}
			if x.mon.store != nil {
				x.mon.store(x, o.st, in, PtrV{obj: r.obj}, v)
			}
			if x.mon.mapOp != nil {
				sts := x.mon.mapOp(x, o.st, in, "set", in.Map.Type(), k, v, false)
				if len(sts) == 0 {
					continue
				}
				o.st = sts[0]
			}
			ob := o.st.objs[r.obj].clone()
			if ks, ok := k.(StrV); ok && ob.exact {
				if l, lit := o.st.litOf(ks); lit {
					var ents []mapEnt
					for _, e := range ob.ents {
						if el, _ := o.st.litOf(e.k.(StrV)); el != l {
							ents = append(ents, e)
						}
					}
					ob.ents = append(ents, mapEnt{k, v})
				} else {
					ob.exact = false
				}
			} else {
				ob.exact = false
			}
			o.st.setObj(r.obj, ob)
			next = append(next, o.st)
		}
		return next

	case *ssa.Lookup:
		return x.lookup(st, in)

	case *ssa.Range:
		v := x.eval(st, in.X)
		if x.mon.mapOp != nil {
			if sts := x.mon.mapOp(x, st, in, "range", in.X.Type(), nil, nil, false); len(sts) == 1 {
				st = sts[0]
			}
		}
		id := st.newObj(&Obj{kind: kCell, val: TupleV{[]Val{v, intC(0)}}, typ: types.Typ[types.Int], name: "range"})
		x.set(st, in, PtrV{obj: id})
		return one(st)

	case *ssa.Next:
		return x.next(st, in)

	case *ssa.TypeAssert:
		return x.typeAssert(st, in, out)

	case *ssa.Send:
		ch := x.eval(st, in.Chan)
		if _, ok := ch.(NilV); ok {
			return nil // blocks for ever
		}
		next := one(st)
		if x.mon.wait != nil {
			next = x.mon.wait(x, st, in, []Val{ch}, true)
		}
		elem := chanElem(in.Chan)
		if x.mon.offer != nil {
			next = each(next, func(s *State) []*State { return x.mon.offer(x, s, in, elem, ch, x.eval(s, in.X), true) })
		}
		if x.mon.sent != nil {
			next = each(next, func(s *State) []*State { return x.mon.sent(x, s, in, elem, ch, x.eval(s, in.X)) })
		}
		return next

	case *ssa.Select:
		return x.selectStmt(st, in)

	case *ssa.SliceToArrayPointer:
		x.set(st, in, st.fresh(in.Type(), "arrptr"))
		return one(st)
	}
	panic(fmt.Sprintf("instruction %T", in))
}

// ptr checks a pointer that is about to be followed
func (x *X) ptr(st *State, in ssa.Instruction, v Val) (PtrV, bool) {
	switch v := v.(type) {
	case PtrV:
		x.oblige(st, in, "nil", "", true, nil)
		return v, true
	case NilV:
		x.fail(st, in, "nil", "nil pointer dereference")
		return PtrV{}, false
	case UnkV:
		if !v.nonnil {
			x.fail(st, in, "nil", "pointer that may be nil")
		}
		t, ok := v.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(fmt.Sprintf("dereference of %s", st.show(v)))
		}
		id := st.newObj(&Obj{kind: kCell, typ: t.Elem(), val: st.fresh(t.Elem(), "deref"), opaque: isOpaqueStruct(t.Elem())})
		p := PtrV{obj: id}
		st.res[v.id] = p
		return p, true
	}
	panic(fmt.Sprintf("%s: dereference of a %T at %s", in.Parent(), v, x.w.instrPos(in)))
}

func (x *X) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	idx, ok := x.eval(st, in.Index).(IntV)
	if !ok {
		panic("index that is no integer")
	}
	var next []*State
	for _, o := range x.force(st, x.eval(st, in.X)) {
		s := o.st
		switch b := o.ret.(type) {
		case SliceV:
			s = x.require(s, in, "index", []Cond{geC(idx.e, konst(0)), geC(b.len.addC(-1), idx.e)}, "index out of range")
			if s == nil {
				continue
			}
			next = append(next, x.splitIndex(s, in, b.obj, b.off.add(idx.e))...)
		case PtrV:
			// pointer to an array
			v := x.peek(s, b)
			av, ok := v.(ArrV)
			if !ok {
				x.set(s, in, newUnk(in.Type(), true))
				next = append(next, s)
				continue
			}
			n := s.arr(av.obj).n
			s = x.require(s, in, "index", []Cond{geC(idx.e, konst(0)), geC(n.addC(-1), idx.e)}, "index out of range")
			if s == nil {
				continue
			}
			next = append(next, x.splitIndex(s, in, av.obj, idx.e)...)
		case NilV:
			x.fail(s, in, "index", "index of a nil slice")
		default:
			panic(fmt.Sprintf("IndexAddr of %T in %s", b, in.Parent()))
		}
	}
	return next
}

// splitIndex splits on the value of an index into a small table of references or strings
func (x *X) splitIndex(st *State, in ssa.Instruction, obj int, idx Lin) []*State {
	o := st.objs[obj]
	if !isByte(o.typ) {
		if n := st.num.norm(idx); !n.isConst() {
			lo, ok1 := st.num.minOf(idx)
			hi, ok2 := st.num.maxOf(idx)
			pts := 0
			for _, f := range o.arr.facts {
				if f.k == fPt {
					if l := st.num.norm(f.lo); l.isConst() && l.c >= lo && l.c <= hi {
						pts++
					}
				}
			}
			if ok1 && ok2 && hi-lo < 40 && int64(pts) >= (hi-lo+1) {
				var r []*State
				for i := lo; i <= hi; i++ {
					s := st.clone()
					if s = x.assume(s, Cond{op: cEQ, e: idx.addC(-i)}); s != nil {
						x.set(s, in, PtrV{obj: obj, elem: true, idx: konst(i)})
						r = append(r, s)
					}
				}
				return r
			}
		}
	}
	x.set(st, in, PtrV{obj: obj, elem: true, idx: idx})
	return one(st)
}

// peek reads what a pointer points to without copying arrays
func (x *X) peek(st *State, p PtrV) Val {
	o := st.objs[p.obj]
	if o == nil || o.opaque {
		return nil
	}
	v := o.val
	if p.elem {
		v = st.readElem(p.obj, p.idx)
	}
	for _, i := range p.path {
		sv, ok := st.resolve(v).(StructV)
		if !ok {
			return nil
		}
		v = sv.f[i]
	}
	return st.resolve(v)
}

func (x *X) index(st *State, in *ssa.Index) []*State {
	idx, ok := x.eval(st, in.Index).(IntV)
	if !ok {
		panic("index that is no integer")
	}
	switch b := x.eval(st, in.X).(type) {
	case StrV:
		if st = x.require(st, in, "index", []Cond{geC(idx.e, konst(0)), geC(b.len.addC(-1), idx.e)}, "index out of range"); st == nil {
			return nil
		}
		x.set(st, in, st.readElem(b.obj, b.off.add(idx.e)))
	case ArrV:
		n := st.arr(b.obj).n
		if st = x.require(st, in, "index", []Cond{geC(idx.e, konst(0)), geC(n.addC(-1), idx.e)}, "index out of range"); st == nil {
			return nil
		}
		x.set(st, in, st.readElem(b.obj, idx.e))
	default:
		x.set(st, in, st.fresh(in.Type(), "el"))
	}
	return one(st)
}

func (x *X) intOr(st *State, v ssa.Value, d Lin) Lin {
	if v == nil {
		return d
	}
	if iv, ok := x.eval(st, v).(IntV); ok {
		return iv.e
	}
	return symL(newSym("bound"))
}

func (x *X) slice(st *State, in *ssa.Slice) []*State {
	var next []*State
	for _, o := range x.force(st, x.eval(st, in.X)) {
		s := o.st
		switch b := o.ret.(type) {
		case StrV:
			lo := x.intOr(s, in.Low, konst(0))
			hi := x.intOr(s, in.High, b.len)
			s = x.require(s, in, "slice", []Cond{geC(lo, konst(0)), geC(hi, lo), geC(b.len, hi)}, "slice bounds out of range")
			if s == nil {
				continue
			}
			x.set(s, in, StrV{b.obj, b.off.add(lo), hi.sub(lo)})
		case SliceV:
			lo := x.intOr(s, in.Low, konst(0))
			hi := x.intOr(s, in.High, b.len)
			mx := x.intOr(s, in.Max, b.cap)
			s = x.require(s, in, "slice", []Cond{geC(lo, konst(0)), geC(hi, lo), geC(mx, hi), geC(b.cap, mx)}, "slice bounds out of range")
			if s == nil {
				continue
			}
			x.set(s, in, SliceV{b.obj, b.off.add(lo), hi.sub(lo), mx.sub(lo)})
		case NilV:
			lo := x.intOr(s, in.Low, konst(0))
			hi := x.intOr(s, in.High, konst(0))
			s = x.require(s, in, "slice", []Cond{{op: cEQ, e: lo}, {op: cEQ, e: hi}}, "slice bounds out of range")
			if s == nil {
				continue
			}
			x.set(s, in, NilV{})
		case PtrV:
			v := x.peek(s, b)
			av, ok := v.(ArrV)
			if !ok {
				x.set(s, in, s.fresh(in.Type(), "slice"))
				next = append(next, s)
				continue
			}
			n := s.arr(av.obj).n
			lo := x.intOr(s, in.Low, konst(0))
			hi := x.intOr(s, in.High, n)
			mx := x.intOr(s, in.Max, n)
			s = x.require(s, in, "slice", []Cond{geC(lo, konst(0)), geC(hi, lo), geC(mx, hi), geC(n, mx)}, "slice bounds out of range")
			if s == nil {
				continue
			}
			x.set(s, in, SliceV{av.obj, lo, hi.sub(lo), mx.sub(lo)})
		default:
			panic(fmt.Sprintf("slice of %T", b))
		}
		next = append(next, s)
	}
	return next
}

// coarseEntry returns the range of the integers of a map when more than one entry may have the key
func coarseEntry(s *State, ob *Obj, k StrV) (r [2]int64, ok bool) {
	may := 0
	for _, e := range ob.ents {
		n, isInt := s.resolve(e.v).(IntV)
		if !isInt || !n.e.isConst() {
			return r, false
		}
		if t, dec := s.decide(Cond{op: cStrEQ, a: k, b: e.k.(StrV)}); dec {
			if t {
				return r, false
			}
			continue
		}
		c := n.e.c
		if may == 0 || c < r[0] {
			r[0] = c
		}
		if may == 0 || c > r[1] {
			r[1] = c
		}
		may++
	}
	return r, may > 1
}

func (x *X) lookup(st *State, in *ssa.Lookup) []*State {
	m := x.eval(st, in.X)
	k := x.eval(st, in.Index)
	if b, ok := m.(StrV); ok {
		idx := k.(IntV)
		if st = x.require(st, in, "index", []Cond{geC(idx.e, konst(0)), geC(b.len.addC(-1), idx.e)}, "index out of range"); st == nil {
			return nil
		}
		x.set(st, in, st.readElem(b.obj, b.off.add(idx.e)))
		return one(st)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	res := func(s *State, v Val, ok bool) *State {
		if x.mon.mapOp != nil {
			sts := x.mon.mapOp(x, s, in, "get", mt, k, v, ok)
			if len(sts) == 1 {
				s = sts[0]
			}
		}
		if in.CommaOk {
			x.set(s, in, TupleV{[]Val{v, boolC(ok)}})
		} else {
			x.set(s, in, v)
		}
		return s
	}
	var next []*State
	for _, o := range x.force(st, m) {
		s := o.st
		r, isRef := o.ret.(RefV)
		if !isRef {
			next = append(next, res(s, s.zeroVal(mt.Elem()), false))
			continue
		}
		ob := s.objs[r.obj]
		if x.mon.load != nil {
			x.mon.load(x, s, in, PtrV{obj: r.obj})
		}
		ks, isStr := k.(StrV)
		if ob.exact && isStr {
			cur := s
			if v, ok := coarseEntry(s, ob, ks); ok {
				// the key is not pinned: any entry, or none
				h := s.clone()
				next = append(next, res(h, h.freshInt("mapval", v[0], v[1]), true))
				next = append(next, res(s, s.zeroVal(mt.Elem()), false))
				continue
			}
			for _, e := range ob.ents {
				c := Cond{op: cStrEQ, a: ks, b: e.k.(StrV)}
				if t, dec := cur.decide(c); dec {
					if t {
						next = append(next, res(cur, e.v, true))
						cur = nil
						break
					}
					continue
				}
				h := cur.clone()
				if h = x.assume(h, c); h != nil {
					next = append(next, res(h, e.v, true))
				}
				if cur = x.assume(cur, c.not()); cur == nil {
					break
				}
			}
			if cur != nil {
				next = append(next, res(cur, cur.zeroVal(mt.Elem()), false))
			}
			continue
		}
		h := s.clone()
		next = append(next, res(s, s.zeroVal(mt.Elem()), false))
		v := h.fresh(mt.Elem(), "mapval")
		if x.w.nonNilElems[types.TypeString(mt, nil)] {
			if u, ok := v.(UnkV); ok {
				u.nonnil = true
				v = u
			}
		}
		next = append(next, res(h, v, true))
	}
	return next
}

func (x *X) next(st *State, in *ssa.Next) []*State {
	p := x.eval(st, in.Iter).(PtrV)
	o := st.objs[p.obj]
	tv := o.val.(TupleV)
	pos := tv.f[1].(IntV)
	tt := in.Type().(*types.Tuple)
	stop := func(s *State) *State {
		x.set(s, in, TupleV{[]Val{boolC(false), s.zeroElem(tt.At(1).Type()), s.zeroElem(tt.At(2).Type())}})
		return s
	}
	if in.IsString {
		b := tv.f[0].(StrV)
		var next []*State
		e := st.clone()
		if e = x.assume(e, geC(pos.e, b.len)); e != nil {
			next = append(next, stop(e))
		}
		if st = x.assume(st, geC(b.len.addC(-1), pos.e)); st == nil {
			return next
		}
		by := st.readElem(b.obj, b.off.add(pos.e)).(IntV)
		adv := func(s *State, w Lin, r Lin) {
			ob := s.objs[p.obj].clone()
			ob.val = TupleV{[]Val{tv.f[0], IntV{pos.e.add(w)}}}
			s.setObj(p.obj, ob)
			x.set(s, in, TupleV{[]Val{boolC(true), pos, IntV{r}}})
			next = append(next, s)
		}
		m := st.clone()
		if st = x.assume(st, geC(konst(127), by.e)); st != nil {
			adv(st, konst(1), by.e)
		}
		if m = x.assume(m, geC(by.e, konst(128))); m != nil {
			w := m.freshInt("width", 1, 4)
			m.num.addGE(b.len.sub(pos.e).sub(w.e))
			r := m.freshInt("rune", 128, 0x10ffff)
			if !m.num.bot {
				adv(m, w.e, r.e)
			}
		}
		return next
	}
	mt, _ := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if x.mon.mapOp != nil {
		if sts := x.mon.mapOp(x, st, in, "range", mt, nil, nil, false); len(sts) == 1 {
			st = sts[0]
		}
	}
	e := st.clone()
	var k, v Val
	k = st.fresh(mt.Key(), "key")
	v = st.fresh(mt.Elem(), "val")
	if x.w.nonNilElems[types.TypeString(mt, nil)] {
		if u, ok := v.(UnkV); ok {
			u.nonnil = true
			v = u
		}
	}
	x.set(st, in, TupleV{[]Val{boolC(true), k, v}})
	return []*State{stop(e), st}
}

func (s *State) zeroElem(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return s.zeroVal(t)
}

func (x *X) typeAssert(st *State, in *ssa.TypeAssert, out outFn) []*State {
	v := x.eval(st, in.X)
	var next []*State
	yes := func(s *State, r Val) {
		if in.CommaOk {
			r = TupleV{[]Val{r, boolC(true)}}
		} else {
			x.oblige(s, in, "assert", "", true, nil)
		}
		x.set(s, in, r)
		next = append(next, s)
	}
	no := func(s *State) {
		if in.CommaOk {
			x.set(s, in, TupleV{[]Val{s.zeroVal(in.AssertedType), boolC(false)}})
			next = append(next, s)
			return
		}
		x.fail(s, in, "assert", "type assertion to %s may fail", in.AssertedType)
	}
	target := in.AssertedType
	switch v := v.(type) {
	case NilV:
		no(st)
	case IfaceV:
		if it, ok := target.Underlying().(*types.Interface); ok {
			if types.Implements(v.typ, it) {
				yes(st, v)
			} else {
				no(st)
			}
			break
		}
		if types.Identical(v.typ, target) {
			yes(st, v.v)
		} else {
			no(st)
		}
	case UnkV:
		id := typeID(target)
		if !st.isNE(v.id, id) {
			h := st.clone()
			if isIface(target) {
				if tt, ok := v.typ.Underlying().(*types.Interface); ok && types.Implements(v.typ, target.Underlying().(*types.Interface)) && v.nonnil {
					_ = tt
					yes(st, v)
					return next
				}
				u := v
				if !v.nonnil {
					u = newUnk(v.typ, true)
					h.res[v.id] = u
				}
				yes(h, u)
			} else {
				inner := h.fresh(target, "dyn")
				if u, ok := inner.(UnkV); ok {
					// a nil pointer in an interface is not considered here
					u.nonnil = true
					inner = u
				}
				h.res[v.id] = IfaceV{target, inner}
				yes(h, inner)
			}
		}
		if v.nonnil || !in.CommaOk || true {
			st.ne[[2]int{v.id, id}] = true
		}
		no(st)
	default:
		panic(fmt.Sprintf("type assertion of %T", v))
	}
	return next
}

func (x *X) selectStmt(st *State, in *ssa.Select) []*State {
	sts := one(st)
	if x.mon.wait != nil {
		var chans []Val
		for _, c := range in.States {
			chans = append(chans, x.eval(st, c.Chan))
		}
		sts = x.mon.wait(x, st, in, chans, in.Blocking)
	}
	for _, c := range in.States {
		if c.Dir == types.SendOnly && x.mon.offer != nil {
			if _, ok := x.eval(st, c.Chan).(NilV); ok {
				continue
			}
			sts = each(sts, func(s *State) []*State {
				return x.mon.offer(x, s, in, chanElem(c.Chan), x.eval(s, c.Chan), x.eval(s, c.Send), in.Blocking)
			})
		}
	}
	return each(sts, func(s *State) []*State { return x.selectOne(s, in) })
}

func (x *X) selectOne(st *State, in *ssa.Select) []*State {
	tt := in.Type().(*types.Tuple)
	var next []*State
	mk := func(s *State, idx int, ok bool, recv map[int]Val) {
		f := []Val{intC(int64(idx)), boolC(ok)}
		k := 2
		for i, c := range in.States {
			if c.Dir == types.RecvOnly {
				if r, has := recv[i]; has {
					f = append(f, r)
				} else {
					f = append(f, s.zeroVal(tt.At(k).Type()))
				}
				k++
			}
		}
		x.set(s, in, TupleV{f})
		next = append(next, s)
	}
	for i, c := range in.States {
		s := st.clone()
		ch := x.eval(s, c.Chan)
		if _, ok := ch.(NilV); ok {
			continue
		}
		if c.Dir == types.SendOnly {
			sent := one(s)
			if x.mon.sent != nil {
				sent = x.mon.sent(x, s, in, chanElem(c.Chan), ch, x.eval(s, c.Send))
			}
			for _, s := range sent {
				mk(s, i, false, nil)
			}
			continue
		}
		for _, o := range x.recvChan(s, in, ch, c.Chan.Type().Underlying().(*types.Chan).Elem()) {
			tv := o.ret.(TupleV)
			ok, _ := o.st.decide(tv.f[1].(BoolV).c)
			mk(o.st, i, ok, map[int]Val{i: tv.f[0]})
		}
	}
	if !in.Blocking {
		mk(st, -1, false, nil)
	}
	return next
}

// recvChan receives from a channel: (value, true) or (zero, false) once closed
func (x *X) recvChan(st *State, site ssa.Instruction, ch Val, elem types.Type) []Outcome {
	if x.mon.recv != nil {
		x.mon.recv(x, st, site, ch)
	}
	if x.mon.chanRecv != nil {
		if o := x.mon.chanRecv(x, st, site, ch, elem); o != nil {
			return o
		}
	}
	s := st.clone()
	return []Outcome{
		{st: st, ret: TupleV{[]Val{st.fresh(elem, "recv"), boolC(true)}}},
		{st: s, ret: TupleV{[]Val{s.zeroVal(elem), boolC(false)}}},
	}
}

func (x *X) unop(st *State, in *ssa.UnOp) []*State {
	v := x.eval(st, in.X)
	switch in.Op {
	case token.MUL:
		if g, ok := in.X.(*ssa.Global); ok && x.w.volatile[g] {
			r := st.fresh(in.Type(), g.Name())
			if u, ok := r.(UnkV); ok {
				u.nonnil = true
				r = u
			}
			x.set(st, in, r)
			return one(st)
		}
		var next []*State
		for _, o := range x.force(st, v) {
			p, ok := x.ptr(o.st, in, o.ret)
			if !ok {
				continue
			}
			if x.mon.load != nil {
				x.mon.load(x, o.st, in, p)
			}
			x.set(o.st, in, x.load(o.st, p, in.Type()))
			next = append(next, o.st)
		}
		return next
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			x.set(st, in, BoolV{b.c.not()})
		} else {
			x.set(st, in, st.freshBool("not"))
		}
		return one(st)
	case token.SUB:
		if iv, ok := v.(IntV); ok {
			x.set(st, in, x.fit(st, iv.e.neg(), in.Type()))
		} else {
			x.set(st, in, st.fresh(in.Type(), "neg"))
		}
		return one(st)
	case token.ARROW:
		var next []*State
		if _, ok := v.(NilV); ok {
			return nil
		}
		sts := one(st)
		if x.mon.wait != nil {
			sts = x.mon.wait(x, st, in, []Val{v}, true)
		}
		for _, st := range sts {
			for _, o := range x.recvChan(st, in, v, in.X.Type().Underlying().(*types.Chan).Elem()) {
				if in.CommaOk {
					x.set(o.st, in, o.ret)
				} else {
					x.set(o.st, in, o.ret.(TupleV).f[0])
				}
				next = append(next, o.st)
			}
		}
		return next
	}
	x.set(st, in, st.fresh(in.Type(), "un"))
	return one(st)
}

// fits tells whether an expression is in a range, with the static bounds of the symbols as a last resort
func (x *X) fits(st *State, e Lin, lo, hi int64) bool { return st.num.within(e, lo, hi) }

// fit wraps a mathematical result in a type
func (x *X) fit(st *State, e Lin, t types.Type) Val {
	lo, hi, full := intRange(t)
	if full {
		lo, hi = -(1 << 62), 1<<62
		if isUnsigned(t) {
			lo = 0
		}
	}
	if x.fits(st, e, lo, hi) {
		return IntV{e}
	}
	return st.fresh(t, "wrap")
}

// holdsInts tells if any value of from is one of to
func holdsInts(to, from types.Type) bool {
	a, ok := to.Underlying().(*types.Basic)
	b, isB := from.Underlying().(*types.Basic)
	if !ok || !isB {
		return false
	}
	sign := func(t *types.Basic) bool { return t.Info()&types.IsUnsigned == 0 }
	sizes := types.SizesFor("gc", "amd64")
	n, m := sizes.Sizeof(a), sizes.Sizeof(b)
	return sign(a) == sign(b) && n >= m || sign(a) && n > m
}

func (x *X) convert(st *State, in *ssa.Convert) []*State {
	from, to := in.X.Type(), in.Type()
	v := x.eval(st, in.X)
	switch {
	case isIntT(from) && isIntT(to):
		iv := v.(IntV)
		if holdsInts(to, from) {
			x.set(st, in, v)
			return one(st)
		}
		x.set(st, in, x.fit(st, iv.e, to))
		return one(st)
	case isStrT(to) && isIntT(from):
		x.set(st, in, st.freshStr("rune", nil))
		return one(st)
	case isStrT(to):
		if sl, ok := from.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			var next []*State
			for _, o := range x.force(st, v) {
				switch b := o.ret.(type) {
				case SliceV:
					x.set(o.st, in, o.st.strOfBytes(b))
				default:
					x.set(o.st, in, o.st.litStr(""))
				}
				next = append(next, o.st)
			}
			return next
		}
		if isStrT(from) {
			x.set(st, in, v)
			return one(st)
		}
		x.set(st, in, st.freshStr("conv", nil))
		return one(st)
	case isStrT(from):
		if sl, ok := to.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			if sv, ok := v.(StrV); ok {
				x.set(st, in, st.bytesOfStr(sv))
				return one(st)
			}
		}
		n := st.freshLen("runes")
		if sl, ok := to.Underlying().(*types.Slice); ok {
			x.set(st, in, st.unknownSlice(sl.Elem(), n, n, "runes"))
			return one(st)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		x.set(st, in, v)
		return one(st)
	}
	x.set(st, in, st.fresh(to, "conv"))
	return one(st)
}

func (x *X) binop(st *State, in *ssa.BinOp) []*State {
	a, b := x.eval(st, in.X), x.eval(st, in.Y)
	ia, ok1 := a.(IntV)
	ib, ok2 := b.(IntV)
	if ok1 && ok2 {
		return x.intOp(st, in, ia.e, ib.e)
	}
	sa, ok1 := a.(StrV)
	sb, ok2 := b.(StrV)
	if ok1 && ok2 {
		switch in.Op {
		case token.ADD:
			x.set(st, in, st.concat(sa, sb))
		case token.EQL, token.NEQ:
			c := Cond{op: cStrEQ, a: sa, b: sb}
			if in.Op == token.NEQ {
				c.op = cStrNE
			}
			if l, ok := st.litOf(sb); ok && l == "" {
				c = Cond{op: cEQ, e: sa.len}
				if in.Op == token.NEQ {
					c.op = cNE
				}
			} else if l, ok := st.litOf(sa); ok && l == "" {
				c = Cond{op: cEQ, e: sb.len}
				if in.Op == token.NEQ {
					c.op = cNE
				}
			} else if t, dec := st.decide(c); dec {
				c = boolC(t).c
			}
			x.set(st, in, BoolV{c})
		default:
			x.set(st, in, st.freshBool("strcmp"))
		}
		return one(st)
	}
	ba, ok1 := a.(BoolV)
	bb, ok2 := b.(BoolV)
	if ok1 && ok2 {
		var next []*State
		for _, v := range []bool{true, false} {
			c := ba.c
			if !v {
				c = c.not()
			}
			s := st.clone()
			if s = x.assume(s, c); s == nil {
				continue
			}
			r := bb
			if (in.Op == token.EQL) != v {
				r = BoolV{bb.c.not()}
			}
			x.set(s, in, r)
			next = append(next, s)
		}
		return next
	}
	if in.Op == token.EQL || in.Op == token.NEQ {
		var next []*State
		for _, o := range x.refEq(st, a, b) {
			t := o.ret.(BoolV)
			if in.Op == token.NEQ {
				t = BoolV{t.c.not()}
			}
			x.set(o.st, in, t)
			next = append(next, o.st)
		}
		return next
	}
	x.set(st, in, st.fresh(in.Type(), "bin"))
	return one(st)
}

// refEq compares references, interfaces and structs
func (x *X) refEq(st *State, a, b Val) []Outcome {
	a, b = st.resolve(a), st.resolve(b)
	yes := func(s *State) Outcome { return Outcome{st: s, ret: boolC(true)} }
	no := func(s *State) Outcome { return Outcome{st: s, ret: boolC(false)} }
	ua, oka := a.(UnkV)
	ub, okb := b.(UnkV)
	if _, ok := b.(NilV); ok && oka {
		if ua.nonnil {
			return []Outcome{no(st)}
		}
		// split: nil or not
		s := st.clone()
		s.res[ua.id] = NilV{}
		n := newUnk(ua.typ, true)
		for k := range st.ne {
			if k[0] == ua.id {
				st.ne[[2]int{n.id, k[1]}] = true
			}
		}
		st.res[ua.id] = n
		return []Outcome{no(st), yes(s)}
	}
	if _, ok := a.(NilV); ok && okb {
		return x.refEq(st, b, a)
	}
	switch {
	case oka && okb:
		if ua.id == ub.id {
			return []Outcome{yes(st)}
		}
		if st.isNE(ua.id, ub.id) {
			return []Outcome{no(st)}
		}
		s := st.clone()
		if ua.id < ub.id {
			s.res[ub.id] = ua
		} else {
			s.res[ua.id] = ub
		}
		st.ne[[2]int{ua.id, ub.id}] = true
		return []Outcome{yes(s), no(st)}
	case okb:
		return x.refEq(st, b, a)
	case oka:
		// unknown against known
		if f, ok := b.(IfaceV); ok {
			if st.isNE(ua.id, typeID(f.typ)) {
				return []Outcome{no(st)}
			}
			if p, ok := f.v.(PtrV); ok && st.isNE(ua.id, 1<<40+p.obj) {
				return []Outcome{no(st)}
			}
			s := st.clone()
			s.res[ua.id] = b
			if p, ok := f.v.(PtrV); ok {
				st.ne[[2]int{ua.id, 1<<40 + p.obj}] = true
			}
			return []Outcome{yes(s), no(st)}
		}
		if p, ok := b.(PtrV); ok {
			if st.isNE(ua.id, 1<<40+p.obj) {
				return []Outcome{no(st)}
			}
			s := st.clone()
			s.res[ua.id] = b
			st.ne[[2]int{ua.id, 1<<40 + p.obj}] = true
			return []Outcome{yes(s), no(st)}
		}
		s := st.clone()
		return []Outcome{yes(s), no(st)}
	}
	switch va := a.(type) {
	case NilV:
		if _, ok := b.(NilV); ok {
			return []Outcome{yes(st)}
		}
		return []Outcome{no(st)}
	case PtrV:
		vb, ok := b.(PtrV)
		if !ok || va.obj != vb.obj || va.elem != vb.elem || len(va.path) != len(vb.path) {
			return []Outcome{no(st)}
		}
		for i := range va.path {
			if va.path[i] != vb.path[i] {
				return []Outcome{no(st)}
			}
		}
		if va.elem {
			return []Outcome{{st: st, ret: BoolV{Cond{op: cEQ, e: va.idx.sub(vb.idx)}}}}
		}
		return []Outcome{yes(st)}
	case RefV:
		vb, ok := b.(RefV)
		if ok && va.obj == vb.obj {
			return []Outcome{yes(st)}
		}
		return []Outcome{no(st)}
	case IfaceV:
		vb, ok := b.(IfaceV)
		if !ok || !types.Identical(va.typ, vb.typ) {
			return []Outcome{no(st)}
		}
		return x.valEq(st, va.v, vb.v)
	case SliceV, FuncV:
		return []Outcome{no(st)} // only compared with nil
	case StructV:
		return x.valEq(st, a, b)
	}
	s := st.clone()
	return []Outcome{yes(st), no(s)}
}

func (x *X) valEq(st *State, a, b Val) []Outcome {
	a, b = st.resolve(a), st.resolve(b)
	switch va := a.(type) {
	case IntV:
		if vb, ok := b.(IntV); ok {
			return []Outcome{{st: st, ret: BoolV{Cond{op: cEQ, e: va.e.sub(vb.e)}}}}
		}
	case StrV:
		if vb, ok := b.(StrV); ok {
			return []Outcome{{st: st, ret: BoolV{Cond{op: cStrEQ, a: va, b: vb}}}}
		}
	case StructV:
		vb, ok := b.(StructV)
		if !ok || len(va.f) != len(vb.f) {
			break
		}
		if len(va.f) == 0 {
			return []Outcome{{st: st, ret: boolC(true)}}
		}
		s := st.clone()
		return []Outcome{{st: st, ret: boolC(true)}, {st: s, ret: boolC(false)}}
	default:
		return x.refEq(st, a, b)
	}
	s := st.clone()
	return []Outcome{{st: st, ret: boolC(true)}, {st: s, ret: boolC(false)}}
}

func (x *X) intOp(st *State, in *ssa.BinOp, a, b Lin) []*State {
	t := in.Type()
	set := func(v Val) []*State {
		x.set(st, in, v)
		return one(st)
	}
	cmp := func(c Cond) []*State {
		if tv, ok := st.decide(c); ok {
			if c.op == cGE && infoOf(in.Parent()).guards[in] {
				// the test of a loop is a candidate for its invariant
				g := c
				if !tv {
					g = c.not()
				}
				if e := st.num.norm(g.e); len(e.t) > 1 {
					st.num.rawGE(e)
				}
			}
			c = boolC(tv).c
		}
		return set(BoolV{c})
	}
	switch in.Op {
	case token.EQL:
		return cmp(Cond{op: cEQ, e: a.sub(b)})
	case token.NEQ:
		return cmp(Cond{op: cNE, e: a.sub(b)})
	case token.LSS: // b-a-1 >= 0
		return cmp(Cond{op: cGE, e: b.sub(a).addC(-1)})
	case token.LEQ:
		return cmp(Cond{op: cGE, e: b.sub(a)})
	case token.GTR:
		return cmp(Cond{op: cGE, e: a.sub(b).addC(-1)})
	case token.GEQ:
		return cmp(Cond{op: cGE, e: a.sub(b)})
	case token.ADD:
		if b64(t) && (accumulates(in, in.X) && x.fits(st, b, -maxLen, maxLen) || accumulates(in, in.Y) && x.fits(st, a, -maxLen, maxLen)) {
			return set(IntV{a.add(b)})
		}
		return set(x.fit(st, a.add(b), t))
	case token.SUB:
		return set(x.fit(st, a.sub(b), t))
	case token.MUL:
		na, nb := st.num.norm(a), st.num.norm(b)
		if nb.isConst() {
			return set(x.fitMul(st, na, nb.c, t))
		}
		if na.isConst() {
			return set(x.fitMul(st, nb, na.c, t))
		}
		r := st.fresh(t, "mul")
		if iv, ok := r.(IntV); ok && st.ge(a, konst(0)) && st.ge(b, konst(0)) {
			if x.fits(st, a, 0, 1<<24) && x.fits(st, b, 0, 1<<24) {
				st.num.addGE(iv.e)
			}
		}
		return set(r)
	case token.QUO, token.REM:
		nb := st.num.norm(b)
		if !nb.isConst() {
			if st = x.require(st, in, "div", []Cond{{op: cNE, e: b}}, "division by zero"); st == nil {
				return nil
			}
			return set(st.fresh(t, "div"))
		}
		if nb.c == 0 {
			x.fail(st, in, "div", "division by zero")
			return nil
		}
		if nb.c > 0 && st.ge(a, konst(0)) {
			q, r := st.divmod(a, nb.c)
			if in.Op == token.QUO {
				return set(IntV{q})
			}
			return set(IntV{r})
		}
		if nb.c > 0 && in.Op == token.REM {
			return set(st.freshInt("rem", -(nb.c - 1), nb.c-1))
		}
		return set(st.fresh(t, "div"))
	case token.AND:
		nb := st.num.norm(b)
		if !nb.isConst() {
			a, b = b, a
			nb = st.num.norm(b)
		}
		if nb.isConst() && nb.c >= 0 {
			if na := st.num.norm(a); na.isConst() {
				return set(intC(na.c & nb.c))
			}
			// contiguous mask of bits [lo,hi)
			lo, hi, ok := maskBits(nb.c)
			if ok {
				_, m1 := st.divmod(a, 1<<uint(hi))
				if lo == 0 {
					return set(IntV{m1})
				}
				_, m0 := st.divmod(a, 1<<uint(lo))
				return set(IntV{m1.sub(m0)})
			}
			return set(st.freshInt("and", 0, nb.c))
		}
		return set(st.fresh(t, "and"))
	case token.OR, token.XOR:
		na, nb := st.num.norm(a), st.num.norm(b)
		if na.isConst() && nb.isConst() {
			if in.Op == token.OR {
				return set(intC(na.c | nb.c))
			}
			return set(intC(na.c ^ nb.c))
		}
		// disjoint bits
		for _, p := range [][2]Lin{{a, b}, {b, a}} {
			hi, ok := st.num.maxOf(p[1])
			if !ok || !st.ge(p[1], konst(0)) || hi > 1<<20 {
				continue
			}
			k := uint(0)
			for int64(1)<<k <= hi {
				k++
			}
			_, r := st.divmod(p[0], 1<<k)
			if st.eqL(r, konst(0)) {
				return set(IntV{a.add(b)})
			}
		}
		r := st.fresh(t, "or")
		if iv, ok := r.(IntV); ok && st.ge(a, konst(0)) && st.ge(b, konst(0)) && in.Op == token.OR {
			st.num.addGE(iv.e.sub(a))
			st.num.addGE(iv.e.sub(b))
			st.num.addGE(a.add(b).sub(iv.e))
		}
		return set(r)
	case token.SHR:
		nb := st.num.norm(b)
		if nb.isConst() && nb.c >= 0 && nb.c < 40 {
			q, _ := st.divmod(a, 1<<uint(nb.c))
			return set(IntV{q})
		}
		return set(st.fresh(t, "shr"))
	case token.SHL:
		na, nb := st.num.norm(a), st.num.norm(b)
		if nb.isConst() && nb.c >= 0 && nb.c < 40 {
			return set(x.fitMul(st, na, 1<<uint(nb.c), t))
		}
		return set(st.fresh(t, "shl"))
	case token.AND_NOT:
		nb := st.num.norm(b)
		if nb.isConst() && nb.c >= 0 {
			if lo, hi, ok := maskBits(nb.c); ok {
				_, m1 := st.divmod(a, 1<<uint(hi))
				if lo == 0 {
					return set(IntV{a.sub(m1)})
				}
				_, m0 := st.divmod(a, 1<<uint(lo))
				return set(IntV{a.sub(m1).add(m0)})
			}
		}
		return set(st.fresh(t, "andnot"))
	}
	return set(st.fresh(t, "bin"))
}

func (x *X) fitMul(st *State, e Lin, k int64, t types.Type) (v Val) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(errOverflow); !ok {
				panic(p)
			}
			v = st.fresh(t, "wrap")
		}
	}()
	return x.fit(st, e.scale(k), t)
}

func maskBits(m int64) (lo, hi int, ok bool) {
	if m <= 0 {
		return 0, 0, false
	}
	for m>>uint(lo)&1 == 0 {
		lo++
	}
	hi = lo
	for m>>uint(hi)&1 == 1 {
		hi++
	}
	return lo, hi, m>>uint(hi) == 0
}

// divmod is the floored division by a positive constant
func (s *State) divmod(a Lin, k int64) (Lin, Lin) {
	n := s.num.norm(a)
	if n.isConst() {
		q := floorDiv(n.c, k)
		return konst(q), konst(n.c - q*k)
	}
	// all coefficients divisible: the remainder is constant
	div := true
	for _, t := range n.t {
		if t.k%k != 0 {
			div = false
		}
	}
	if div {
		r := n.c - floorDiv(n.c, k)*k
		q := Lin{c: floorDiv(n.c, k)}
		for _, t := range n.t {
			q.t = append(q.t, term{t.s, t.k / k})
		}
		return q, konst(r)
	}
	if s.ge(n, konst(0)) && s.ge(konst(k-1), n) {
		return konst(0), n
	}
	// the same division as before
	memo := s.ghost["divs"] != nil
	slot := ""
	for i := 0; memo && i < 8; i++ {
		slot = fmt.Sprintf("div/%d/%d", k, i)
		v, ok := s.ghost[slot].(TupleV)
		if !ok {
			break
		}
		if s.isDiv(slot, k) && s.eqL(v.f[0].(IntV).e, n) {
			return v.f[1].(IntV).e, v.f[2].(IntV).e
		}
		slot = ""
	}
	if memo {
		// what k divides goes out of the division
		m, out := Lin{c: n.c}, Lin{}
		for _, t := range n.t {
			if t.k%k == 0 {
				out.t = append(out.t, term{t.s, t.k / k})
			} else {
				m.t = append(m.t, t)
			}
		}
		if len(out.t) > 0 {
			q, r := s.divmod(m, k)
			q = q.add(out)
			if s.ge(n, konst(0)) {
				s.num.addGE(q)
			}
			return q, r
		}
		// the quotient of a quotient
		for _, g := range sortedGhosts(s, "div/") {
			v, ok := s.ghost[g].(TupleV)
			var k2, i int64
			if _, err := fmt.Sscanf(g, "div/%d/%d", &k2, &i); err != nil || !ok || k2*k > 1<<32 {
				continue
			}
			if s.isDiv(g, k2) && s.eqL(v.f[1].(IntV).e, n) {
				q, _ := s.divmod(v.f[0].(IntV).e, k2*k)
				r := n.sub(q.scale(k))
				s.num.addGE(r)
				s.num.addGE(r.neg().addC(k - 1))
				return q, r
			}
		}
	}
	q, r := symL(newSym("quo")), symL(newSym("rem"))
	if slot != "" {
		s.ghost[slot] = TupleV{[]Val{IntV{n}, IntV{q}, IntV{r}}}
	}
	s.num.rawGE(r)
	s.num.rawGE(r.neg().addC(k - 1))
	if s.ge(n, konst(0)) {
		s.num.rawGE(q)
	}
	s.num.addEQ(n.sub(r).sub(q.scale(k)))
	return q, r
}

func b64(t types.Type) bool { _, _, full := intRange(t); return full }

// accumulates tells whether v is the value of an accumulator, that starts from a constant and that
// only in changes: a sum of that many lengths does not overflow 64 bits
func accumulates(in *ssa.BinOp, v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	own := false
	for _, e := range phi.Edges {
		switch e := e.(type) {
		case *ssa.Const:
			if e.Int64() > 1<<48 || e.Int64() < -(1<<48) {
				return false
			}
		case *ssa.BinOp:
			if e != in {
				return false
			}
			own = true
		case *ssa.Phi:
			if e != phi {
				return false
			}
		default:
			return false
		}
	}
	return own
}

func sortedGhosts(s *State, prefix string) []string {
	var r []string
	for g := range s.ghost {
		if strings.HasPrefix(g, prefix) {
			r = append(r, g)
		}
	}
	sort.Strings(r)
	return r
}
