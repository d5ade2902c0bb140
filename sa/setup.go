package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// begin interprets the initialisation of the packages; every analysis starts from the result
func (w *World) begin() error {
	w.nonNilElems = map[string]bool{}
	w.volatile = map[*ssa.Global]bool{}
	globals = map[*ssa.Global]int{}
	baseObjs = map[int]*Obj{}
	baseObj, baseUnk, negObj = 0, 0, 0
	st := newState()
	withVars := append([]*ssa.Package(nil), w.repo...)
	if w.driver != nil {
		withVars = append(withVars, w.driver)
	}
	for _, p := range withVars {
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			g, ok := p.Members[n].(*ssa.Global)
			if !ok {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			globals[g] = st.newObj(&Obj{kind: kCell, typ: t, val: st.zeroVal(t), name: g.String(), global: g})
			st.ghost["global."+g.String()] = PtrV{obj: globals[g]}
		}
	}
	x := newX(w, &Mon{})
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		for _, sp := range w.repo {
			if sp.Pkg == p {
				order = append(order, sp)
			}
		}
	}
	for _, sp := range w.repo {
		visit(sp.Pkg)
	}
	for _, sp := range order {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		var next []*State
		for _, o := range x.callFn(st, init, nil, nil, nil) {
			if o.panicked {
				return fmt.Errorf("%s: the initialisation panics", sp.Pkg.Path())
			}
			next = append(next, o.st)
		}
		next = x.mergeStates(next)
		if len(next) != 1 {
			return fmt.Errorf("%s: %d ways to initialise", sp.Pkg.Path(), len(next))
		}
		st = next[0]
	}
	for k := range x.rec.m {
		if o := x.rec.m[k]; o.bad > 0 {
			w.initBad = append(w.initBad, fmt.Sprintf("%s: %s %s", o.pos, k.kind, o.detail))
		}
	}
	for g, id := range globals {
		if id > 0 && st.objs[id] == nil {
			return fmt.Errorf("lost global %s", g)
		}
	}
	st.ghost = map[string]Val{}
	w.mutables(st)
	for id, o := range st.objs {
		baseObjs[id] = o
	}
	baseObj, baseUnk = objCount, unkCount
	w.init = st
	w.initNotes = x.rec.notes
	return nil
}

// mutables forgets what functions other than the initialisation may change
func (w *World) mutables(st *State) {
	mapTypes := map[string]bool{}
	fields := map[string]map[int]bool{}
	elems := map[*ssa.Global]bool{}
	isInit := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return f.Synthetic == "package initializer" || f.Name() == "init" || (len(f.Name()) > 5 && f.Name()[:5] == "init#")
	}
	var localBase func(v ssa.Value) bool
	localBase = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return localBase(v.X)
		case *ssa.IndexAddr:
			return localBase(v.X)
		}
		return false
	}
	for _, f := range w.repoFuncs() {
		in := isInit(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.MapUpdate:
					if !in {
						mapTypes[types.TypeString(i.Map.Type(), nil)] = true
					}
				case *ssa.Store:
					if in {
						continue
					}
					switch a := i.Addr.(type) {
					case *ssa.Global:
						w.volatile[a] = true
					case *ssa.FieldAddr:
						if !localBase(a.X) {
							t := types.TypeString(a.X.Type().Underlying().(*types.Pointer).Elem(), nil)
							if fields[t] == nil {
								fields[t] = map[int]bool{}
							}
							fields[t][a.Field] = true
						}
					case *ssa.IndexAddr:
						if u, ok := a.X.(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok {
								elems[g] = true
							}
						}
					}
				}
			}
		}
	}
	var ids []int
	for id := range st.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.objs[id]
		switch o.kind {
		case kMap:
			if mapTypes[types.TypeString(o.typ, nil)] {
				n := o.clone()
				n.exact, n.ents = false, nil
				st.objs[id] = n
				w.nonNilElems[types.TypeString(o.typ, nil)] = true
			}
		case kCell:
			fs := fields[types.TypeString(o.typ, nil)]
			if sv, ok := o.val.(StructV); ok && len(fs) > 0 && o.global == nil {
				n := o.clone()
				r := StructV{append([]Val(nil), sv.f...)}
				for i := range r.f {
					if fs[i] {
						r.f[i] = st.fresh(o.typ.Underlying().(*types.Struct).Field(i).Type(), "shared")
					}
				}
				n.val = r
				st.objs[id] = n
			}
		}
	}
	for g := range globals {
		// exported variables may be changed by the application
		if g.Object() != nil && g.Object().Exported() {
			if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Signature); ok {
				w.volatile[g] = true
			}
		}
		if elems[g] {
			if sl, ok := st.objs[globals[g]].val.(SliceV); ok {
				a := st.arr(sl.obj).clone()
				a.facts, a.zero = nil, false
				st.setArr(sl.obj, a)
			}
		}
	}
}

// entry returns the state an analysis starts from
func (w *World) entry() *State { return w.init.clone() }

// run interprets a function of the drivers
func (w *World) run(name string, mon *Mon) (x *X, outs []Outcome, err error) {
	return w.runDebug(name, mon, false, nil)
}

func (w *World) runDebug(name string, mon *Mon, debug bool, then func(x *X)) (x *X, outs []Outcome, err error) {
	fn := w.driver.Func(name)
	if fn == nil {
		return nil, nil, fmt.Errorf("no driver %s", name)
	}
	x = newX(w, mon)
	x.debug = debug
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				err = fmt.Errorf("%s", g.why)
				return
			}
			panic(r)
		}
	}()
	outs = x.callFn(w.entry(), fn, nil, nil, nil)
	if then != nil {
		then(x)
	}
	return x, outs, nil
}
