package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee evaluates what is called and the arguments (the receiver of an invoke is the callee)
func (x *X) callee(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.eval(st, a))
	}
	return x.eval(st, c.Value), args
}

// fnName names a function for the models
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil && o != fn {
		return o.String()
	}
	return fn.String()
}

func (x *X) invoke(st *State, site ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []Outcome {
	fn = st.resolve(fn)
	if c.IsInvoke() {
		switch r := fn.(type) {
		case NilV:
			x.fail(st, site, "nil", "method call on a nil interface")
			return nil
		case IfaceV:
			m := x.w.prog.LookupMethod(r.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				x.note("no method %s on %s", c.Method.Name(), r.typ)
				return x.defaultCall(st, site, c, c.Method.FullName(), append([]Val{fn}, args...), c.Signature())
			}
			return x.callStatic(st, site, c, m, append([]Val{r.v}, args...), nil)
		case UnkV:
			if !r.nonnil {
				x.fail(st, site, "nil", "method call on an interface that may be nil")
				n := newUnk(r.typ, true)
				st.res[r.id] = n
				fn = n
			}
			return x.modelCall(st, site, c, c.Method.FullName(), append([]Val{fn}, args...), c.Signature(), nil)
		}
		panic(fmt.Sprintf("invoke on %T at %s", fn, x.w.instrPos(site)))
	}
	switch f := fn.(type) {
	case FuncV:
		return x.callStatic(st, site, c, f.fn, args, f.free)
	case BuiltinV:
		return x.builtin(st, site, c, f.name, args)
	case NilV:
		x.fail(st, site, "nil", "call of a nil function")
		return nil
	case UnkV:
		if x.mon.unkCall != nil {
			if o, ok := x.mon.unkCall(x, st, site, fn, args); ok {
				return o
			}
		}
		return x.havocCall(st, c.Signature(), args)
	}
	panic(fmt.Sprintf("call of %T at %s", fn, x.w.instrPos(site)))
}

func (x *X) callStatic(st *State, site ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, free []Val) []Outcome {
	if fn.Name() == "init" && fn.Signature.Recv() == nil && !x.w.inRepoFn(fn) {
		return []Outcome{{st: st, ret: TupleV{}}}
	}
	return x.modelCall(st, site, c, fnName(fn), args, fn.Signature, func() ([]Outcome, bool) {
		if fn.Blocks == nil {
			return nil, false
		}
		return x.callFn(st, fn, args, free, site), true
	})
}

func (x *X) modelCall(st *State, site ssa.Instruction, c *ssa.CallCommon, name string, args []Val, sig *types.Signature, body func() ([]Outcome, bool)) []Outcome {
	ctx := &callCtx{site, c, name, args, sig}
	if m, ok := x.mon.model[name]; ok {
		if o := m(x, st, ctx); o != nil {
			return o
		}
	}
	if m, ok := models[name]; ok {
		if o := m(x, st, ctx); o != nil {
			return o
		}
	}
	if body != nil {
		if o, ok := body(); ok {
			return o
		}
	}
	if strings.HasPrefix(name, "driver.any") {
		// anything but nil
		r := st.freshResults(sig)
		if u, ok := r.(UnkV); ok {
			u.nonnil = true
			r = u
		}
		return ret1(st, r)
	}
	return x.defaultCall(st, site, c, name, args, sig)
}

// defaultCall: results are unknown; a last result of type error that is not nil comes with zero values,
// a nil one with non nil pointers
func (x *X) defaultCall(st *State, site ssa.Instruction, c *ssa.CallCommon, name string, args []Val, sig *types.Signature) []Outcome {
	x.note("no model: %s", name)
	if !pureStd(name) {
		for _, a := range args {
			x.havocVal(st, a, 0)
		}
	}
	return x.stdResults(st, sig)
}

func pureStd(name string) bool {
	for _, p := range []string{"fmt.Sprint", "strconv.", "strings.", "unicode", "(time.", "time.", "net.", "(net.", "os.", "errors.", "log.", "reflect.", "(reflect.", "(*reflect.", "math", "context.", "(context.", "path", "(error)", "(*log."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func nonNil(v Val) Val {
	switch v := v.(type) {
	case UnkV:
		return newUnk(v.typ, true)
	case TupleV:
		r := TupleV{}
		for _, f := range v.f {
			r.f = append(r.f, nonNil(f))
		}
		return r
	}
	return v
}

func isErrT(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func (x *X) stdResults(st *State, sig *types.Signature) []Outcome {
	n := sig.Results().Len()
	if n == 0 {
		return []Outcome{{st: st, ret: TupleV{}}}
	}
	if !isErrT(sig.Results().At(n - 1).Type()) {
		r := st.freshResults(sig)
		return []Outcome{{st: st, ret: nonNil(r)}}
	}
	bad := st.clone()
	mk := func(s *State, ok bool) Outcome {
		t := TupleV{}
		for i := 0; i < n-1; i++ {
			rt := sig.Results().At(i).Type()
			if ok {
				t.f = append(t.f, nonNil(s.fresh(rt, "r")))
			} else {
				t.f = append(t.f, s.zeroVal(rt))
			}
		}
		if ok {
			t.f = append(t.f, NilV{})
		} else {
			t.f = append(t.f, newUnk(sig.Results().At(n-1).Type(), true))
		}
		if n == 1 {
			return Outcome{st: s, ret: t.f[0]}
		}
		return Outcome{st: s, ret: t}
	}
	return []Outcome{mk(st, true), mk(bad, false)}
}

// builtins

func lenOf(st *State, v Val) (Lin, bool) {
	switch v := st.resolve(v).(type) {
	case SliceV:
		return v.len, true
	case StrV:
		return v.len, true
	case NilV:
		return konst(0), true
	case ArrV:
		return st.arr(v.obj).n, true
	}
	return Lin{}, false
}

func (x *X) builtin(st *State, site ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []Outcome {
	ret := func(v Val) []Outcome { return []Outcome{{st: st, ret: v}} }
	switch name {
	case "len", "cap":
		var out []Outcome
		for _, o := range x.force(st, args[0]) {
			switch v := o.ret.(type) {
			case SliceV:
				if name == "cap" {
					out = append(out, Outcome{st: o.st, ret: IntV{v.cap}})
				} else {
					out = append(out, Outcome{st: o.st, ret: IntV{v.len}})
				}
			case StrV:
				out = append(out, Outcome{st: o.st, ret: IntV{v.len}})
			case NilV:
				out = append(out, Outcome{st: o.st, ret: intC(0)})
			case RefV:
				ob := o.st.objs[v.obj]
				if ob.kind == kChan && name == "cap" {
					if cv, ok := ob.ghost["cap"].(IntV); ok {
						out = append(out, Outcome{st: o.st, ret: cv})
						continue
					}
				}
				out = append(out, Outcome{st: o.st, ret: IntV{o.st.freshLen("len")}})
			case PtrV:
				if av, ok := x.peek(o.st, v).(ArrV); ok {
					out = append(out, Outcome{st: o.st, ret: IntV{o.st.arr(av.obj).n}})
					continue
				}
				out = append(out, Outcome{st: o.st, ret: IntV{o.st.freshLen("len")}})
			case ArrV:
				out = append(out, Outcome{st: o.st, ret: IntV{o.st.arr(v.obj).n}})
			default:
				out = append(out, Outcome{st: o.st, ret: IntV{o.st.freshLen("len")}})
			}
		}
		return out
	case "append":
		return x.appendOp(st, site, c, args)
	case "copy":
		return x.copyOp(st, site, args)
	case "close":
		ch := st.resolve(args[0])
		if _, ok := ch.(NilV); ok {
			x.fail(st, site, "close", "close of a nil channel")
			return nil
		}
		if x.mon.closed != nil {
			var out []Outcome
			for _, s := range x.mon.closed(x, st, site, chanElem(c.Args[0]), ch) {
				out = append(out, Outcome{st: s, ret: TupleV{}})
			}
			return out
		}
		return ret(TupleV{})
	case "recover":
		n := len(st.frames)
		if n >= 2 && st.frames[n-1].inDefer == 1 && st.frames[n-2].panicking && !st.frames[n-2].recovered {
			v := st.frames[n-2].panicVal
			st.frames[n-2].recovered = true
			if v == nil {
				v = newUnk(types.NewInterfaceType(nil, nil), true)
			}
			return ret(v)
		}
		return ret(NilV{})
	case "delete":
		if r, ok := st.resolve(args[0]).(RefV); ok {
			o := st.objs[r.obj].clone()
			o.exact, o.ents = false, nil
			st.setObj(r.obj, o)
			if x.mon.store != nil {
				x.mon.store(x, st, site, PtrV{obj: r.obj}, nil)
			}
		}
		return ret(TupleV{})
	case "min", "max":
		a, ok1 := args[0].(IntV)
		b, ok2 := args[1].(IntV)
		if ok1 && ok2 && len(args) == 2 {
			c := geC(a.e, b.e)
			if name == "min" {
				c = geC(b.e, a.e)
			}
			var out []Outcome
			o := st.clone()
			if st = x.assume(st, c); st != nil {
				out = append(out, Outcome{st: st, ret: a})
			}
			if o = x.assume(o, c.not()); o != nil {
				out = append(out, Outcome{st: o, ret: b})
			}
			return out
		}
	case "print", "println":
		return ret(TupleV{})
	case "clear":
		var out []Outcome
		for _, o := range x.force(st, args[0]) {
			if sl, ok := o.ret.(SliceV); ok {
				x.writeRange(o.st, site, sl.obj, sl.off, sl.off.add(sl.len))
				o.st.clearRange(sl.obj, sl.off, sl.off.add(sl.len))
			} else {
				x.havocVal(o.st, o.ret, 0)
			}
			out = append(out, void(o.st)...)
		}
		return out
	case "ssa:wrapnilchk":
		if _, ok := st.resolve(args[0]).(NilV); ok {
			x.fail(st, site, "nil", "method value of a nil pointer")
			return nil
		}
		return ret(args[0])
	}
	v, ok := site.(ssa.Value)
	if ok {
		return ret(st.fresh(v.Type(), name))
	}
	return ret(TupleV{})
}

// writeRange is about to change elements of an array
func (x *X) writeRange(st *State, site ssa.Instruction, obj int, lo, hi Lin) {
	if st.ge(lo, hi) {
		return
	}
	x.touched(st, site, obj)
	if x.mon.write != nil {
		x.mon.write(x, st, site, obj, lo, hi)
	}
}

// sliceOf views a string or a slice as a range
func rangeOf(v Val) (obj int, off, n Lin, ok bool) {
	switch v := v.(type) {
	case SliceV:
		return v.obj, v.off, v.len, true
	case StrV:
		return v.obj, v.off, v.len, true
	}
	return 0, Lin{}, konst(0), false
}

func (x *X) copyOp(st *State, site ssa.Instruction, args []Val) []Outcome {
	var out []Outcome
	for _, o := range x.force(st, args[0]) {
		for _, p := range x.force(o.st, args[1]) {
			s := p.st
			d, ok := s.resolve(o.ret).(SliceV)
			so, soff, sn, ok2 := rangeOf(p.ret)
			if !ok || !ok2 {
				out = append(out, Outcome{st: s, ret: intC(0)})
				continue
			}
			do := func(s *State, n Lin) {
				x.writeRange(s, site, d.obj, d.off, d.off.add(n))
				s.copyRange(d.obj, d.off, so, soff, n)
				out = append(out, Outcome{st: s, ret: IntV{n}})
			}
			switch {
			case s.ge(d.len, sn):
				do(s, sn)
			case s.ge(sn, d.len):
				do(s, d.len)
			default:
				t := s.clone()
				if s = x.assume(s, geC(d.len, sn)); s != nil {
					do(s, sn)
				}
				if t = x.assume(t, geC(sn, d.len.addC(1))); t != nil {
					do(t, d.len)
				}
			}
		}
	}
	return out
}

func (x *X) appendOp(st *State, site ssa.Instruction, c *ssa.CallCommon, args []Val) []Outcome {
	var out []Outcome
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	for _, o := range x.force(st, args[0]) {
		for _, p := range x.force(o.st, args[1]) {
			s := p.st
			so, soff, m, has := rangeOf(p.ret)
			if has && s.eqL(m, konst(0)) {
				has = false
			}
			base := s.resolve(o.ret)
			d, isSlice := base.(SliceV)
			if !has {
				out = append(out, Outcome{st: s, ret: base})
				continue
			}
			if !isSlice {
				// a new array; append(nil, nothing...) is nil
				if !s.gt(m, konst(0)) {
					e := s.clone()
					if e = x.assume(e, Cond{op: cEQ, e: m}); e != nil {
						out = append(out, Outcome{st: e, ret: NilV{}})
					}
					if s = x.assume(s, geC(m, konst(1))); s == nil {
						continue
					}
				}
				out = append(out, Outcome{st: s, ret: x.newAppended(s, elem, 0, konst(0), konst(0), so, soff, m, false)})
				continue
			}
			n := d.len.add(m)
			inPlace := func(s *State) {
				x.writeRange(s, site, d.obj, d.off.add(d.len), d.off.add(n))
				s.copyRange(d.obj, d.off.add(d.len), so, soff, m)
				out = append(out, Outcome{st: s, ret: SliceV{d.obj, d.off, n, d.cap}})
			}
			realloc := func(s *State) {
				out = append(out, Outcome{st: s, ret: x.newAppended(s, elem, d.obj, d.off, d.len, so, soff, m, true)})
			}
			switch {
			case s.ge(d.cap, n):
				inPlace(s)
			case s.gt(n, d.cap):
				realloc(s)
			case !x.aliased(s, d.obj, site, c.Args[0]):
				realloc(s)
			default:
				t := s.clone()
				if s = x.assume(s, geC(d.cap, n)); s != nil {
					inPlace(s)
				}
				if t = x.assume(t, geC(n, d.cap.addC(1))); t != nil {
					realloc(t)
				}
			}
		}
	}
	return out
}

// newAppended builds the array of a reallocating append
func (x *X) newAppended(s *State, elem types.Type, oldObj int, off, n Lin, so int, soff, m Lin, old bool) Val {
	c := s.freshLen("cap")
	s.num.addGE(c.sub(n).sub(m))
	id := s.newObj(&Obj{kind: kArr, typ: elem, arr: &Arr{n: c, zero: true}, name: "append"})
	if old {
		s.copyRange(id, konst(0), oldObj, off, n)
		oo := s.objs[oldObj]
		if oo.ghost != nil {
			no := s.objs[id].clone()
			no.ghost = map[string]Val{}
			for k, v := range oo.ghost {
				if strings.HasPrefix(k, "=") {
					no.ghost[k] = v
				}
			}
			s.objs[id] = no
		}
	}
	s.copyRange(id, n, so, soff, m)
	return SliceV{id, konst(0), n.add(m), c}
}

// liveAfter gives the registers used after an instruction
func liveAfter(in ssa.Instruction) map[ssa.Value]bool {
	if m, ok := liveAfterCache[in]; ok {
		return m
	}
	b := in.Block()
	m := map[ssa.Value]bool{}
	live := infoOf(b.Parent()).live
	for _, s := range b.Succs {
		for v := range live[s] {
			m[v] = true
		}
		for _, i := range s.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, e := range p.Edges {
				if s.Preds[k] == b {
					m[e] = true
				}
			}
		}
	}
	for k := len(b.Instrs) - 1; k >= 0 && b.Instrs[k] != in; k-- {
		for _, op := range b.Instrs[k].Operands(nil) {
			if *op != nil {
				m[*op] = true
			}
		}
	}
	liveAfterCache[in] = m
	return m
}

var liveAfterCache = map[ssa.Instruction]map[ssa.Value]bool{}

// aliased tells whether an array can be reached otherwise than by operand
func (x *X) aliased(st *State, obj int, site ssa.Instruction, operand ssa.Value) bool {
	seen := map[int]bool{}
	found := false
	var work []int
	var val func(v Val)
	mark := func(id int) {
		if id == obj {
			found = true
		}
		if !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	val = func(v Val) {
		switch v := st.resolve(v).(type) {
		case PtrV:
			mark(v.obj)
		case SliceV:
			mark(v.obj)
		case StrV:
			mark(v.obj)
		case ArrV:
			mark(v.obj)
		case RefV:
			mark(v.obj)
		case IfaceV:
			val(v.v)
		case FuncV:
			for _, f := range v.free {
				val(f)
			}
		case StructV:
			for _, f := range v.f {
				val(f)
			}
		case TupleV:
			for _, f := range v.f {
				val(f)
			}
		}
	}
	for i, f := range st.frames {
		for k, v := range f.regs {
			if i == len(st.frames)-1 {
				if k == operand && !liveAfter(site)[k] {
					continue
				}
				if !liveAfter(site)[k] {
					continue
				}
			} else if call, ok := st.frames[i+1].site.(*ssa.Call); ok && call.Parent() == f.fn && !liveAfter(call)[k] {
				continue
			}
			val(v)
		}
		for _, d := range f.defers {
			val(d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
	}
	for _, v := range st.ghost {
		val(v)
	}
	for id := range baseObjs {
		if st.objs[id] != baseObjs[id] {
			mark(id)
		}
	}
	for len(work) > 0 && !found {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.objs[id]
		if o == nil || id == obj {
			continue
		}
		val(o.val)
		for _, e := range o.ents {
			val(e.k)
			val(e.v)
		}
		for _, g := range o.ghost {
			val(g)
		}
		if o.arr != nil {
			for _, f := range o.arr.facts {
				if f.v != nil {
					val(f.v)
				}
				if f.k == fSeg {
					mark(f.src)
				}
			}
		}
	}
	return found
}
