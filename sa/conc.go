package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// runRoots interprets the goroutines that were met, each from the state it is started in
func (x *X) runRoots(start func(r *goRoot, st *State) []*State, end func(r *goRoot, o Outcome)) {
	for i := 0; i < len(x.rec.roots); i++ {
		r := x.rec.roots[i]
		st := r.st.clone()
		st.frames = nil
		before := len(x.rec.roots)
		for _, s := range start(&r, st) {
			for _, o := range x.invoke(s, r.site, r.call, r.fn, r.args) {
				end(&r, o)
			}
		}
		for j := before; j < len(x.rec.roots); j++ {
			x.rec.roots[j].depth = r.depth + 1
		}
		if i > 200 {
			panic(giveUp{"too many goroutines"})
		}
	}
}

// call1 interprets a function of the drivers that returns nothing
func (x *X) call1(st *State, name string, site ssa.Instruction, args ...Val) []*State {
	var r []*State
	for _, o := range x.driverCall(st, name, site, args...) {
		if !o.panicked {
			r = append(r, o.st)
		}
	}
	return r
}

// each applies f to states
func each(sts []*State, f func(s *State) []*State) []*State {
	var r []*State
	for _, s := range sts {
		r = append(r, f(s)...)
	}
	return r
}

// typeHolds tells whether a type is, or has a part which is, of a named type
func typeHolds(t types.Type, name string, depth int) bool {
	if depth > 4 {
		return false
	}
	if types.TypeString(t, nil) == name {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return typeHolds(u.Elem(), name, depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if typeHolds(u.Field(i).Type(), name, depth+1) {
				return true
			}
		}
	}
	return false
}

// partOf finds the part of a value that has a type
func (x *X) partOf(st *State, t types.Type, v Val, is func(t types.Type) bool, depth int) Val {
	if depth > 4 {
		return nil
	}
	if is(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := st.resolve(v).(PtrV); ok {
			return x.partOf(st, u.Elem(), x.load(st, p, u.Elem()), is, depth+1)
		}
	case *types.Struct:
		if s, ok := st.resolve(v).(StructV); ok {
			for i := 0; i < u.NumFields(); i++ {
				if r := x.partOf(st, u.Field(i).Type(), s.f[i], is, depth+1); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

func chanElem(v ssa.Value) types.Type { return v.Type().Underlying().(*types.Chan).Elem() }

const msgImm = modpath + ".MessageImmutable"

// isSignal: the values of a channel that tells nothing but that something happened
func isSignal(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// recvMon watches the goroutines of a Receiver
func recvMon() *Mon {
	m := &Mon{model: map[string]modelFn{}, merge: 24, freeze: true}
	m.model[modpath+".Parse"] = func(x *X, st *State, c *callCtx) []Outcome {
		return x.driverCall(st, "rcvParse", c.site, c.args...)
	}
	m.offer = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val, blocking bool) []*State {
		if isErrT(elem) {
			return x.call1(st, "rcvReport", site, v, boolC(blocking))
		}
		return one(st)
	}
	m.sent = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val) []*State {
		if typeHolds(elem, msgImm, 0) {
			msg := x.partOf(st, elem, v, func(t types.Type) bool { return types.TypeString(t, nil) == msgImm }, 0)
			err := x.partOf(st, elem, v, isErrT, 0)
			if msg == nil || err == nil {
				panic(giveUp{"a result of the pipeline has no message or no error"})
			}
			return x.call1(st, "rcvSent", site, msg, err)
		}
		return one(st)
	}
	m.closed = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch Val) []*State {
		if typeHolds(elem, msgImm, 0) {
			return x.call1(st, "rcvShut", site)
		}
		return one(st)
	}
	m.spawn = func(x *X, st *State, site ssa.Instruction) []*State {
		if x.inRoot == 1 {
			return x.call1(st, "rcvSpawn", site)
		}
		return one(st)
	}
	m.chanRecv = func(x *X, st *State, site ssa.Instruction, ch Val, t types.Type) []Outcome {
		if !isSignal(t) {
			return nil
		}
		var out []Outcome
		for _, s := range x.call1(st, "rcvAsked", site) {
			o := s.clone()
			out = append(out, Outcome{st: s, ret: TupleV{[]Val{s.zeroVal(t), boolC(false)}}}, Outcome{st: o, ret: TupleV{[]Val{o.zeroVal(t), boolC(true)}}})
		}
		return out
	}
	simple := func(name string) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome {
			var out []Outcome
			for _, s := range x.call1(st, name, c.site, c.args[1:]...) {
				out = append(out, Outcome{st: s, ret: TupleV{}})
			}
			return out
		}
	}
	m.model["(*sync.WaitGroup).Add"] = simple("rcvAdd")
	m.model["(*sync.WaitGroup).Done"] = simple("rcvDone")
	m.model["(*sync.WaitGroup).Wait"] = simple("rcvWait")
	m.write = func(x *X, st *State, site ssa.Instruction, obj int, lo, hi Lin) {
		g, ok := x.driverVar(st, "rs", "given")
		if !ok {
			return
		}
		if sl, ok := st.resolve(g).(SliceV); ok && sl.obj == obj {
			ok := st.ge(lo, sl.off.add(sl.len))
			x.oblige(st, site, "D04:given", "", ok, func() string { return "the storage of a message already delivered is written" })
		}
	}
	return m
}

// driverVar is the value of a field of a variable of the drivers
func (x *X) driverVar(st *State, name, field string) (Val, bool) {
	g, ok := x.w.driver.Members[name].(*ssa.Global)
	if !ok {
		return nil, false
	}
	o := st.objs[globals[g]]
	sv, ok := o.val.(StructV)
	if !ok {
		return nil, false
	}
	t := o.typ.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == field {
			return sv.f[i], true
		}
	}
	return nil, false
}

// rootsPass interprets a driver, and the goroutines it starts
func rootsPass(driver string, mon func() *Mon, start, end string) func(w *World, r *Result) error {
	return driverPassX(driver, mon, func(x *X) {
		x.runRoots(func(g *goRoot, st *State) []*State {
			x.inRoot = g.depth + 1
			if g.depth == 0 {
				return one(st)
			}
			return x.call1(st, start, g.site)
		}, func(g *goRoot, o Outcome) {
			if o.panicked {
				return
			}
			x.call1(o.st, end, g.site)
		})
	})
}

func init() {
	models["driver.same"] = func(x *X, st *State, c *callCtx) []Outcome {
		if st.sameVal(c.args[0], c.args[1]) || sameShape(st, c.args[0], c.args[1]) {
			return ret1(st, boolC(true))
		}
		return ret1(st, st.freshBool("same"))
	}
	models["driver.upTo"] = func(x *X, st *State, c *callCtx) []Outcome {
		var out []Outcome
		for _, o := range x.force(st, c.args[0]) {
			r := o.ret
			if sl, ok := o.st.resolve(r).(SliceV); ok {
				r = SliceV{sl.obj, konst(0), sl.off.add(sl.len), sl.off.add(sl.cap)}
			}
			out = append(out, Outcome{st: o.st, ret: r})
		}
		return out
	}
}
