package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way a call ends
type Outcome struct {
	st       *State
	ret      Val
	panicked bool
	pval     Val
}

// obligations

type oblKey struct {
	site ssa.Instruction
	kind string
	what string
}

type obl struct {
	ok, bad int
	detail  string
	pos     string
	path    []string
}

// Rec collects the obligations met
type Rec struct {
	m     map[oblKey]*obl
	roots []goRoot
	notes map[string]int
	hits  map[string]int
}

// goRoot is a goroutine met
type goRoot struct {
	st   *State
	fn   Val
	args []Val
	site ssa.Instruction
	call *ssa.CallCommon
	// the number of goroutines between it and the driver
	depth int
}

func newRec() *Rec {
	return &Rec{m: map[oblKey]*obl{}, notes: map[string]int{}, hits: map[string]int{}}
}

func (r *Rec) merge(o *Rec) {
	for k, v := range o.m {
		w := r.m[k]
		if w == nil {
			w = &obl{pos: v.pos}
			r.m[k] = w
		}
		w.ok += v.ok
		w.bad += v.bad
		if w.detail == "" && v.detail != "" {
			w.detail = v.detail
			w.path = v.path
		}
	}
	r.roots = append(r.roots, o.roots...)
	for k, v := range o.notes {
		r.notes[k] += v
	}
	for k, v := range o.hits {
		r.hits[k] += v
	}
}

// Mon receives the events of an analysis; nil members are ignored
type Mon struct {
	merge int // number of states kept apart
	// a value may be sent; it is sent; a channel is closed; a goroutine starts
	offer   func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val, blocking bool) []*State
	sent    func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val) []*State
	closed  func(x *X, st *State, site ssa.Instruction, elem types.Type, ch Val) []*State
	spawn   func(x *X, st *State, site ssa.Instruction) []*State
	recv    func(x *X, st *State, site ssa.Instruction, ch Val)
	unkCall func(x *X, st *State, site ssa.Instruction, fn Val, args []Val) ([]Outcome, bool)
	model   map[string]modelFn // overrides
	lock    func(x *X, st *State, site ssa.Instruction, lock Val)
	unlock  func(x *X, st *State, site ssa.Instruction, lock Val)
	write   func(x *X, st *State, site ssa.Instruction, obj int, lo, hi Lin)
	store   func(x *X, st *State, site ssa.Instruction, p PtrV, v Val)
	load    func(x *X, st *State, site ssa.Instruction, p PtrV)
	alloc   func(x *X, st *State, site ssa.Instruction, n Lin)
	ret     func(x *X, st *State, fn *ssa.Function, ret Val, panicked bool)
	enter   func(x *X, st *State, fn *ssa.Function, args []Val) ([]Outcome, bool)
	marks   bool // see joinMarks
	delay   int  // iterations of a loop kept apart
	// a map is read, assigned or walked
	mapOp    func(x *X, st *State, site ssa.Instruction, op string, t types.Type, k, v Val, found bool) []*State
	freeze   bool // writes to frozen objects are obligations
	chanRecv func(x *X, st *State, site ssa.Instruction, ch Val, t types.Type) []Outcome
	// a communication is about to happen
	wait func(x *X, st *State, site ssa.Instruction, chans []Val, blocking bool) []*State
}

type modelFn func(x *X, st *State, c *callCtx) []Outcome

type callCtx struct {
	site ssa.Instruction
	call *ssa.CallCommon
	name string
	args []Val
	sig  *types.Signature
}

// X is an analysis
type X struct {
	w      *World
	rec    *Rec
	mon    *Mon
	steps  int
	max    int
	calls  []*ssa.Function
	fns    map[*ssa.Function]bool
	merge  int
	inRoot int // depth of the goroutine, 0 in the driver
	debug  bool
	// writes to frozen objects are obligations
	freeze bool
	// the next call is the one of a deferred function
	deferCall bool
}

type giveUp struct{ why string }

func newX(w *World, mon *Mon) *X {
	if mon == nil {
		mon = &Mon{}
	}
	joinMarks = mon.marks
	x := &X{w: w, rec: newRec(), mon: mon, max: 4000000, fns: map[*ssa.Function]bool{}, merge: 6, freeze: mon.freeze}
	if mon.merge > 0 {
		x.merge = mon.merge
	}
	return x
}

func (x *X) note(format string, a ...interface{}) { x.rec.notes[fmt.Sprintf(format, a...)]++ }

// oblige records an obligation
func (x *X) oblige(st *State, site ssa.Instruction, kind, what string, ok bool, detail func() string) {
	k := oblKey{site, kind, what}
	o := x.rec.m[k]
	if o == nil {
		o = &obl{pos: x.w.instrPos(site)}
		x.rec.m[k] = o
	}
	if ok {
		o.ok++
		return
	}
	if st != nil {
		if s := st.clone(); !s.num.bot {
			if s.settleAll(-1, true); s.num.bot {
				o.ok++ // no such state
				return
			}
		}
	}
	o.bad++
	if o.detail == "" {
		if detail != nil {
			o.detail = detail()
		} else {
			o.detail = "not established"
		}
		o.path = x.stack(st)
		if dumpBad && st != nil {
			fmt.Printf("FAIL %s %s %s\n%s\n", o.pos, kind, o.detail, st.dump())
		}
	}
}

var dumpBad = os.Getenv("SADUMP") != ""

func (x *X) stack(st *State) []string {
	var r []string
	if st == nil {
		return r
	}
	for _, f := range st.frames {
		r = append(r, f.fn.String())
	}
	return r
}

// pseudo registers and blocks

var retV ssa.Value = &ssa.Parameter{}
var retB, panicB = &ssa.BasicBlock{}, &ssa.BasicBlock{}

// decide tells whether a condition is settled
func (s *State) decide(c Cond) (bool, bool) {
	switch c.op {
	case cTrue:
		return true, true
	case cFalse:
		return false, true
	case cGE:
		if s.num.entailsGE(c.e) {
			return true, true
		}
		if s.num.entailsGE(c.e.neg().addC(-1)) {
			return false, true
		}
	case cEQ, cNE:
		eq := c.op == cEQ
		if s.num.entailsEQ(c.e) {
			return eq, true
		}
		if s.num.entailsNE(c.e) {
			return !eq, true
		}
	case cStrEQ, cStrNE:
		eq := c.op == cStrEQ
		if s.strSame(c.a, c.b) {
			return eq, true
		}
		if s.strDiffer(c.a, c.b) {
			return !eq, true
		}
	}
	return false, false
}

// assume adds a condition; nil when it can't hold. st is consumed.
func (x *X) assume(st *State, c Cond) *State {
	switch c.op {
	case cTrue:
		return st
	case cFalse:
		return nil
	case cGE:
		st.num.addGE(c.e)
	case cEQ:
		st.num.addEQ(c.e)
	case cNE:
		st.num.addNE(c.e)
	case cStrEQ:
		st.num.addEQ(c.a.len.sub(c.b.len))
		if st.num.bot {
			return nil
		}
		a, b := c.a, c.b
		if _, ok := st.litOf(a); ok {
			a, b = b, a
		}
		if l, ok := st.litOf(b); ok {
			for i := 0; i < len(l) && i < 40; i++ {
				v := st.readElem(a.obj, a.off.addC(int64(i)))
				if iv, ok := v.(IntV); ok {
					st.num.addEQ(iv.e.addC(-int64(l[i])))
					if st.num.bot {
						return nil
					}
				}
			}
		}
		st.setStrEq(c.a, c.b)
	case cStrNE:
		// a difference of strings of which one is empty is a difference of length
		if n := st.num.norm(c.b.len); n.isConst() && n.c == 0 {
			st.num.addNE(c.a.len)
		} else if n := st.num.norm(c.a.len); n.isConst() && n.c == 0 {
			st.num.addNE(c.b.len)
		}
	}
	if st.num.bot {
		return nil
	}
	return st
}

// setStrEq remembers that two strings are equal
func (s *State) setStrEq(a, b StrV) {
	aa, ba := s.arr(a.obj), s.arr(b.obj)
	// the younger refers to the older
	if a.obj < b.obj {
		a, b, aa, ba = b, a, ba, aa
	}
	_ = ba
	if a.obj != b.obj && !aa.isLit && aa.content && a.obj > baseObj {
		s.addFact(a.obj, Fact{k: fSeg, lo: a.off, hi: a.off.add(a.len), src: b.obj, delta: b.off.sub(a.off)})
	}
}

// strSame tells whether two strings are provably equal
func (s *State) strSame(a, b StrV) bool {
	if !s.eqL(a.len, b.len) {
		return false
	}
	return s.rangeSame(a.obj, a.off, b.obj, b.off, a.len, 0)
}

// rangeSame tells whether two ranges of n elements hold the same values
func (s *State) rangeSame(o1 int, lo1 Lin, o2 int, lo2 Lin, n Lin, depth int) bool {
	if s.ge(konst(0), n) {
		return true
	}
	if o1 == o2 && s.eqL(lo1, lo2) {
		return true
	}
	if depth > 12 {
		return false
	}
	pos := konst(0)
	for i := 0; i < 80; i++ {
		if s.ge(pos, n) {
			return true
		}
		p1, p2 := lo1.add(pos), lo2.add(pos)
		r1, e1 := s.root(o1, p1, 0)
		r2, e2 := s.root(o2, p2, 0)
		if r1.obj == r2.obj && r1.obj != 0 && s.eqL(r1.off, r2.off) {
			// the shorter of both pieces
			l1, l2 := e1.sub(p1), e2.sub(p2)
			var l Lin
			switch {
			case s.ge(l2, l1):
				l = l1
			case s.ge(l1, l2):
				l = l2
			default:
				return false
			}
			if !s.ge(l, konst(1)) {
				// perhaps empty: it is then skipped all the same
				if !s.ge(l, konst(0)) {
					return false
				}
				if s.eqL(l, konst(0)) {
					return false
				}
			}
			pos = pos.add(l)
			continue
		}
		v1, ok1 := s.knownAt(o1, p1, 0)
		v2, ok2 := s.knownAt(o2, p2, 0)
		if ok1 && ok2 {
			i1, k1 := v1.(IntV)
			i2, k2 := v2.(IntV)
			if k1 && k2 && s.eqL(i1.e, i2.e) {
				pos = pos.addC(1)
				continue
			}
		}
		return false
	}
	return false
}

type rootPos struct {
	obj int
	off Lin
}

// root follows segments to the content an element comes from; end is where the piece ends in o
func (s *State) root(o int, pos Lin, depth int) (rootPos, Lin) {
	a := s.arr(o)
	if depth < 10 && !a.isLit {
		// a piece says more than a value
		var pts map[int]bool
		for i, f := range a.facts {
			if f.k == fPt {
				if pts == nil {
					pts = map[int]bool{}
				}
				pts[i] = true
			}
		}
		f, ok := s.factAt(a, pos, pts)
		if !ok {
			// the rest of a piece, perhaps empty
			for _, g := range a.facts {
				if g.k == fSeg && s.ge(pos, g.lo) && s.ge(g.hi, pos) && !s.eqL(g.hi, pos) {
					f, ok = g, true
					f.lo = pos
					break
				}
			}
		}
		if ok {
			r, e := s.root(f.src, pos.add(f.delta), depth+1)
			// end in o coordinates
			e = e.sub(f.delta)
			if s.ge(e, f.hi) {
				e = f.hi
			} else if !s.ge(f.hi, e) {
				return rootPos{f.src, pos.add(f.delta)}, f.hi
			}
			return r, e
		}
	}
	if a.content {
		return rootPos{o, pos}, a.n
	}
	return rootPos{}, pos
}

func (s *State) strDiffer(a, b StrV) bool {
	if s.num.entailsNE(a.len.sub(b.len)) {
		return true
	}
	if _, ok := s.litOf(a); ok {
		a, b = b, a
	}
	l, ok := s.litOf(b)
	if !ok {
		return false
	}
	for i := 0; i < len(l) && i < 64; i++ {
		idx := a.off.addC(int64(i))
		if !s.gt(a.len, konst(int64(i))) {
			// beyond the end: the lengths differ or the byte exists
		}
		if v, ok := s.knownAt(a.obj, idx, 0); ok {
			if iv, ok := v.(IntV); ok && s.num.entailsNE(iv.e.addC(-int64(l[i]))) {
				return true
			}
		}
		bs := s.bytesIn(a.obj, idx, idx.addC(1), 0)
		if s.gt(a.len, konst(int64(i))) && !bs.has(int(l[i])) {
			return true
		}
	}
	if s.gt(a.len, konst(0)) {
		all := s.bytesIn(a.obj, a.off, a.off.add(a.len), 0)
		for i := 0; i < len(l); i++ {
			if !all.has(int(l[i])) {
				return true
			}
		}
	}
	return false
}

// calls

func (x *X) callFn(st *State, fn *ssa.Function, args, free []Val, site ssa.Instruction) []Outcome {
	depth := 0
	for _, f := range x.calls {
		if f == fn {
			depth++
		}
	}
	if depth >= 3 || len(x.calls) > 60 {
		x.note("recursion cut at %s", fn)
		return x.havocCall(st, fn.Signature, args)
	}
	x.fns[fn] = true
	if x.mon.enter != nil {
		if o, ok := x.mon.enter(x, st, fn, args); ok {
			return o
		}
	}
	fr := &Frame{fn: fn, site: site, regs: map[ssa.Value]Val{}}
	if x.deferCall {
		fr.inDefer = 1
		x.deferCall = false
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("call of %s with %d arguments", fn, len(args)))
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	st.frames = append(st.frames, fr)
	x.calls = append(x.calls, fn)
	depthFrames := len(st.frames)
	info := infoOf(fn)
	var rets, pans []*State
	in := map[*ssa.BasicBlock][]*State{fn.Blocks[0]: {st}}
	x.region(info.wto, in, func(to *ssa.BasicBlock, s *State) {
		switch to {
		case retB:
			rets = append(rets, s)
		case panicB:
			pans = append(pans, s)
		default:
			panic("edge out of a function")
		}
	})
	x.calls = x.calls[:len(x.calls)-1]
	if len(rets) > x.merge {
		rets = x.mergeStates(rets)
	}
	if len(pans) > 2 {
		pans = x.mergeStates(pans)
	}
	var out []Outcome
	for _, s := range rets {
		if len(s.frames) != depthFrames {
			panic("unbalanced frames")
		}
		f := s.top()
		r := f.regs[retV]
		s.frames = s.frames[:len(s.frames)-1]
		if x.mon.ret != nil {
			x.mon.ret(x, s, fn, r, false)
		}
		out = append(out, Outcome{st: s, ret: r})
	}
	for _, s := range pans {
		f := s.top()
		pv := f.panicVal
		s.frames = s.frames[:len(s.frames)-1]
		if x.mon.ret != nil {
			x.mon.ret(x, s, fn, pv, true)
		}
		out = append(out, Outcome{st: s, panicked: true, pval: pv})
	}
	return out
}

// havocCall is the effect of a function about which nothing is known
func (x *X) havocCall(st *State, sig *types.Signature, args []Val) []Outcome {
	for _, a := range args {
		x.havocVal(st, a, 0)
	}
	return []Outcome{{st: st, ret: st.freshResults(sig)}}
}

func (x *X) havocVal(st *State, v Val, depth int) {
	if depth > 4 {
		return
	}
	switch v := st.resolve(v).(type) {
	case SliceV:
		o := st.objs[v.obj]
		if o.arr.content {
			return
		}
		x.touched(st, nil, v.obj)
		if x.mon.write != nil {
			x.mon.write(x, st, nil, v.obj, v.off, v.off.add(v.len))
		}
		st.writeKill(v.obj, v.off, v.off.add(v.cap))
	case PtrV:
		o := st.objs[v.obj]
		if o == nil {
			return
		}
		if o.kind == kCell && len(v.path) == 0 {
			n := o.clone()
			n.val = st.fresh(o.typ, "havoc")
			st.setObj(v.obj, n)
		} else if v.elem {
			st.writeKill(v.obj, v.idx, v.idx.addC(1))
		}
	case IfaceV:
		x.havocVal(st, v.v, depth+1)
	case FuncV:
		for _, f := range v.free {
			x.havocVal(st, f, depth+1)
		}
	}
}

func (s *State) freshResults(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return TupleV{}
	case 1:
		return s.fresh(sig.Results().At(0).Type(), "r")
	}
	return s.fresh(sig.Results(), "r")
}

func (x *X) mergeStates(in []*State) []*State {
	if x.debug && len(in) > 1 {
		fmt.Println("MERGE", len(in), in[0].top().fn)
	}
	if len(in) < 2 {
		return in
	}
	return x.mergeBy(in, func(s *State) string { return "" })
}

func (x *X) mergeBy(in []*State, by func(s *State) string) []*State {
	keys := map[string]int{}
	var out []*State
	for _, s := range in {
		x.gc(s)
		k := by(s) + "|" + s.key()
		if i, ok := keys[k]; ok {
			if subsumed(out[i], s) {
				continue
			}
			j := join(out[i], s, false)
			if x.debug {
				fmt.Printf("MERGE\nHEAD %s\nNEW %s\nRESULT %s\n", out[i].dump(), s.dump(), j.dump())
			}
			out[i] = j
			continue
		}
		keys[k] = len(out)
		out = append(out, s)
	}
	return out
}

// gc drops what can't be reached
func (x *X) gc(st *State) {
	for _, id := range sortedObjs(st) {
		if o := st.objs[id]; id > baseObj && o.arr != nil && !o.arr.isLit && len(o.arr.facts) > 1 {
			st.unify(id)
		}
	}
	seen := map[int]bool{}
	seenU := map[int]bool{}
	var work []int
	mark := func(id int) {
		if !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	keep := map[Sym]bool{}
	lin := func(l Lin) {
		for _, t := range l.t {
			keep[t.s] = true
		}
	}
	var val func(v Val)
	val = func(v Val) {
		v = st.resolve(v)
		switch v := v.(type) {
		case IntV:
			lin(v.e)
		case BoolV:
			lin(v.c.e)
			if v.c.op == cStrEQ || v.c.op == cStrNE {
				val(v.c.a)
				val(v.c.b)
			}
		case UnkV:
			seenU[v.id] = true
		case PtrV:
			mark(v.obj)
			lin(v.idx)
		case SliceV:
			mark(v.obj)
			lin(v.off)
			lin(v.len)
			lin(v.cap)
		case StrV:
			mark(v.obj)
			lin(v.off)
			lin(v.len)
		case IfaceV:
			val(v.v)
		case FuncV:
			for _, f := range v.free {
				val(f)
			}
		case StructV:
			for _, f := range v.f {
				val(f)
			}
		case TupleV:
			for _, f := range v.f {
				val(f)
			}
		case ArrV:
			mark(v.obj)
		case RefV:
			mark(v.obj)
		}
	}
	for _, f := range st.frames {
		for k, v := range f.regs {
			if u, ok := v.(UnkV); ok {
				r := st.resolve(v)
				if u2, ok := r.(UnkV); !ok || u2.id != u.id {
					f.regs[k] = r
				}
			}
			val(v)
		}
		for _, d := range f.defers {
			val(d.fn)
			for _, a := range d.args {
				val(a)
			}
		}
		val(f.panicVal)
	}
	for _, v := range st.ghost {
		val(v)
	}
	for id := range baseObjs {
		if st.objs[id] != baseObjs[id] {
			mark(id)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.objs[id]
		if o == nil {
			continue
		}
		val(o.val)
		for _, g := range o.ghost {
			val(g)
		}
		for _, e := range o.ents {
			val(e.k)
			val(e.v)
		}
		if o.arr != nil {
			lin(o.arr.n)
			if o.arr.desc != nil {
				for _, a := range o.arr.desc.args {
					val(a)
				}
			}
			for _, f := range o.arr.facts {
				lin(f.lo)
				lin(f.hi)
				lin(f.delta)
				if f.v != nil {
					val(f.v)
				}
				if f.k == fSeg {
					mark(f.src)
				}
			}
		}
	}
	for id := range st.objs {
		if id > baseObj && !seen[id] {
			delete(st.objs, id)
		}
	}
	for k := range st.ne {
		if (k[0] > baseUnk && !seenU[k[0]]) || (k[1] > baseUnk && !seenU[k[1]]) {
			delete(st.ne, k)
		}
	}
	// symbols
	for again := true; again; {
		again = false
		for s := range keep {
			if e, ok := st.num.eqs[s]; ok {
				for _, t := range e.t {
					if !keep[t.s] {
						keep[t.s] = true
						again = true
					}
				}
			}
		}
	}
	st.num.project(keep)
}

func sameUnk(a, b Val) bool {
	x, ok := a.(UnkV)
	y, ok2 := b.(UnkV)
	return ok && ok2 && x.id == y.id
}

// regions

type outFn func(to *ssa.BasicBlock, s *State)

func (x *X) region(es []*wtoElem, in map[*ssa.BasicBlock][]*State, out outFn) {
	member := map[*ssa.BasicBlock]bool{}
	for _, e := range es {
		member[e.b] = true
	}
	done := map[*ssa.BasicBlock]bool{}
	send := func(to *ssa.BasicBlock, s *State) {
		if member[to] && !done[to] {
			in[to] = append(in[to], s)
			return
		}
		out(to, s)
	}
	for _, e := range es {
		ss := in[e.b]
		delete(in, e.b)
		done[e.b] = true
		if len(ss) == 0 {
			continue
		}
		if e.comp {
			x.component(e, ss, send)
			continue
		}
		if len(ss) > x.merge {
			ss = x.mergeStates(ss)
		}
		for _, s := range ss {
			x.block(e.b, s, send)
		}
	}
}

type headEntry struct {
	key   string
	st    *State
	joins int
	depth int
	rec   *Rec
	exits []exitEdge
	queue bool
}

type exitEdge struct {
	to *ssa.BasicBlock
	st *State
}

func (x *X) component(e *wtoElem, in []*State, out outFn) {
	heads := map[string]*headEntry{}
	var order []*headEntry
	var work []*headEntry
	tests := infoOf(e.b.Parent()).unroll[e.b]
	unrolled := 0
	prefix := func(s *State) string {
		p := ""
		for k, t := range tests {
			v, ok := x.headVal(s, t.what).(IntV)
			if !ok {
				continue
			}
			n := s.num.norm(v.e)
			if !n.isConst() || n.c > 80 || n.c < -80 {
				continue
			}
			b := x.boundOf(s, t.bound)
			if b == nil {
				continue
			}
			lo, ok1 := s.num.minOf(*b)
			hi, ok2 := s.num.maxOf(*b)
			if ok1 && ok2 && hi <= 24 && lo >= -24 && n.c <= 24 && n.c >= -24 {
				p += fmt.Sprintf("%d=%d;", k, n.c)
			}
		}
		for _, in := range e.b.Instrs {
			// the bytes of a constant
			if nx, ok := in.(*ssa.Next); ok && nx.IsString {
				it, ok := x.eval(s, nx.Iter).(PtrV)
				if !ok || s.objs[it.obj] == nil {
					continue
				}
				if tv, ok := s.objs[it.obj].val.(TupleV); ok {
					str, ok1 := tv.f[0].(StrV)
					pos, ok2 := tv.f[1].(IntV)
					if ok1 && ok2 {
						n := s.num.norm(pos.e)
						if l, ok := s.litOf(str); ok && len(l) < 40 && n.isConst() {
							p += fmt.Sprintf("next=%d;", n.c)
						}
					}
				}
			}
		}
		return p
	}
	add := func(s *State, depth int) {
		x.gc(s)
		p := ""
		if unrolled < 200 {
			p = prefix(s)
			if p != "" {
				unrolled++
			}
		}
		if p == "" && depth < x.mon.delay {
			// the first iterations are kept apart
			p = fmt.Sprintf("it=%d;", depth)
		}
		key := s.key()
		if x.mon.marks {
			key += x.region1(e.b, s)
		}
		for _, phi := range infoOf(e.b.Parent()).modes[e.b] {
			if iv, ok := s.top().regs[phi].(IntV); ok {
				if n := s.num.norm(iv.e); n.isConst() {
					key += fmt.Sprintf("%s==%d;", phi.Name(), n.c)
				}
			}
		}
		k := p + "|" + key
		if debugJoin2 {
			fmt.Println("ADD", e.b.Parent().Name(), p, x.region1(e.b, s), headVals(e.b, s), s.num.ineq)
		}
		h := heads[k]
		if h != nil && p != "" && x.merge > 6 {
			// the ways to enter an unrolled iteration are kept apart
			for i := 1; h != nil && i < x.merge; i++ {
				if subsumed(h.st, s) {
					return
				}
				k = fmt.Sprintf("%s|%s|%d", p, key, i)
				h = heads[k]
			}
		}
		if h == nil {
			h = &headEntry{key: k, st: s, depth: depth}
			heads[k] = h
			order = append(order, h)
			work = append(work, h)
			h.queue = true
			if len(order) > 600 {
				panic(giveUp{"too many shapes at a loop of " + e.b.Parent().String()})
			}
			return
		}
		if subsumed(h.st, s) {
			return
		}
		h.joins++
		if h.joins > 40 {
			panic(giveUp{"no fixpoint in " + e.b.Parent().String() + " at " + x.w.instrPos(e.b.Instrs[0])})
		}
		j := joinMode(h.st, s, h.joins > 3, h.joins > 8)
		if x.debug {
			fmt.Printf("JOIN %d in %s block %d\nHEAD %s\nNEW %s\nRESULT %s\n", h.joins, e.b.Parent(), e.b.Index, h.st.dump(), s.dump(), j.dump())
		}
		x.gc(j)
		h.st = j
		if !h.queue {
			h.queue = true
			work = append(work, h)
		}
	}
	for _, s := range in {
		add(s, 0)
	}
	parent := x.rec
	for len(work) > 0 {
		h := work[0]
		work = work[1:]
		h.queue = false
		h.rec = newRec()
		h.exits = nil
		x.rec = h.rec
		var back []*State
		send := func(to *ssa.BasicBlock, s *State) {
			if to == e.b {
				back = append(back, s)
				return
			}
			h.exits = append(h.exits, exitEdge{to, s})
		}
		inner := map[*ssa.BasicBlock][]*State{}
		member := map[*ssa.BasicBlock]bool{}
		for _, b := range e.body {
			member[b.b] = true
		}
		x.block(e.b, h.st.clone(), func(to *ssa.BasicBlock, s *State) {
			if member[to] {
				inner[to] = append(inner[to], s)
				return
			}
			send(to, s)
		})
		x.region(e.body, inner, send)
		x.rec = parent
		for _, s := range back {
			add(s, h.depth+1)
		}
	}
	for _, h := range order {
		parent.merge(h.rec)
	}
	byTo := map[*ssa.BasicBlock][]*State{}
	var tos []*ssa.BasicBlock
	for _, h := range order {
		for _, ex := range h.exits {
			if _, ok := byTo[ex.to]; !ok {
				tos = append(tos, ex.to)
			}
			byTo[ex.to] = append(byTo[ex.to], ex.st)
		}
	}
	for _, t := range tos {
		ss := byTo[t]
		if len(ss) > x.merge {
			// first the states that come from the same edge
			ss = x.mergeBy(ss, func(s *State) string { return fmt.Sprintf("%p", s.from) })
			if len(ss) > x.merge {
				ss = x.mergeStates(ss)
			}
		}
		for _, s := range ss {
			out(t, s)
		}
	}
}

func headVals(b *ssa.BasicBlock, s *State) (r string) {
	for _, in := range b.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			r += fmt.Sprint(phi.Name(), "=", s.top().regs[phi], " ")
		}
	}
	return
}

// region1 tells which of the single literal bytes of the buffers the integers of a loop have passed
func (x *X) region1(b *ssa.BasicBlock, s *State) string {
	var places []Lin
	seen := map[string]bool{}
	offs := map[int][]Lin{}
	for _, v := range sortedRegs(s.top()) {
		if sl, ok := s.resolve(s.top().regs[v]).(SliceV); ok && !sl.off.eq(konst(0)) {
			offs[sl.obj] = append(offs[sl.obj], sl.off)
		}
	}
	for _, id := range sortedObjs(s) {
		o := s.objs[id]
		if id <= baseObj || o.arr == nil || o.arr.isLit || o.arr.content {
			continue
		}
		for _, f := range o.arr.facts {
			if singleLit(s, f) && !seen[f.lo.key()] {
				seen[f.lo.key()] = true
				places = append(places, f.lo)
				for _, off := range offs[id] {
					places = append(places, f.lo.sub(off))
				}
			}
		}
	}
	r := ""
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		iv, ok := s.top().regs[phi].(IntV)
		if !ok {
			continue
		}
		n := 0
		for _, l := range places {
			if s.gt(iv.e, l) {
				n++
			}
		}
		r += fmt.Sprintf("%s>%d;", phi.Name(), n)
	}
	return r
}

// headVal evaluates a value at a loop head, without any effect
func (x *X) headVal(s *State, v ssa.Value) Val {
	if c, ok := v.(*ssa.Const); ok {
		return x.constVal(s, c)
	}
	if r, ok := s.top().regs[v]; ok {
		return s.resolve(r)
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		a, ok1 := x.headVal(s, v.X).(IntV)
		b, ok2 := x.headVal(s, v.Y).(IntV)
		switch {
		case ok1 && ok2 && v.Op == token.ADD:
			return IntV{a.e.add(b.e)}
		case ok1 && ok2 && v.Op == token.SUB:
			return IntV{a.e.sub(b.e)}
		}
	case *ssa.Call:
		switch a := x.headVal(s, v.Call.Args[0]).(type) {
		case SliceV:
			return IntV{a.len}
		case StrV:
			return IntV{a.len}
		}
	case *ssa.UnOp:
		p, ok := x.headAddr(s, v.X)
		if !ok || p.elem {
			return nil
		}
		o := s.objs[p.obj]
		if o == nil || o.opaque || o.val == nil {
			return nil
		}
		r := s.resolve(o.val)
		for _, i := range p.path {
			sv, ok := r.(StructV)
			if !ok {
				return nil
			}
			r = s.resolve(sv.f[i])
		}
		return r
	}
	return nil
}

func (x *X) headAddr(s *State, v ssa.Value) (PtrV, bool) {
	if r, ok := s.top().regs[v]; ok {
		p, ok := s.resolve(r).(PtrV)
		return p, ok
	}
	f, ok := v.(*ssa.FieldAddr)
	if !ok {
		return PtrV{}, false
	}
	p, ok := x.headAddr(s, f.X)
	if !ok {
		return p, false
	}
	p.path = append(append([]int(nil), p.path...), f.Field)
	return p, true
}

// boundOf evaluates the bound of a loop test
func (x *X) boundOf(s *State, v ssa.Value) *Lin {
	switch v := v.(type) {
	case *ssa.Const:
		if iv, ok := x.eval(s, v).(IntV); ok {
			return &iv.e
		}
		return nil
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if r, ok := s.top().regs[v]; ok {
				if iv, ok := r.(IntV); ok {
					return &iv.e
				}
			}
			a, ok := s.top().regs[v.Call.Args[0]]
			if !ok {
				return nil
			}
			switch a := s.resolve(a).(type) {
			case SliceV:
				return &a.len
			case StrV:
				return &a.len
			}
			return nil
		}
	}
	if r, ok := s.top().regs[v].(IntV); ok {
		return &r.e
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		// computed in the loop
		y, isY := b.Y.(*ssa.Const)
		if !isY || !isIntT(b.Type()) {
			return nil
		}
		l := x.boundOf(s, b.X)
		k, ok := x.eval(s, y).(IntV)
		if l == nil || !ok {
			return nil
		}
		r := l.add(k.e)
		if b.Op == token.SUB {
			r = l.sub(k.e)
		}
		return &r
	}
	return nil
}

// edge moves a state to a successor: phis, then dead registers
func (x *X) edge(from, to *ssa.BasicBlock, st *State) *State {
	f := st.top()
	st.from = from
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
			break
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, x.eval(st, p.Edges[pi]))
	}
	live := infoOf(f.fn).live[to]
	for k := range f.regs {
		if k == retV {
			continue
		}
		if !live[k] {
			delete(f.regs, k)
		}
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	return st
}

// block executes a block
func (x *X) block(b *ssa.BasicBlock, st *State, out outFn) {
	states := []*State{st}
	for i, in := range b.Instrs {
		x.steps++
		if x.steps > x.max {
			panic(giveUp{overBudget})
		}
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range states {
				x.branch(b, in, s, out)
			}
			return
		case *ssa.Jump:
			for _, s := range states {
				out(b.Succs[0], x.edge(b, b.Succs[0], s))
			}
			return
		case *ssa.Return:
			for _, s := range states {
				f := s.top()
				var r Val = TupleV{}
				switch len(in.Results) {
				case 0:
				case 1:
					r = x.eval(s, in.Results[0])
				default:
					t := TupleV{}
					for _, v := range in.Results {
						t.f = append(t.f, x.eval(s, v))
					}
					r = t
				}
				f.regs = map[ssa.Value]Val{retV: r}
				for _, s := range x.splitResult(s, r) {
					out(retB, s)
				}
			}
			return
		case *ssa.Panic:
			for _, s := range states {
				x.raise(s, in, x.eval(s, in.X), out)
			}
			return
		}
		_ = i
		var next []*State
		for _, s := range states {
			next = append(next, x.step(s, in, out)...)
		}
		states = next
		if len(states) == 0 {
			return
		}
	}
}

// raise unwinds the current frame
func (x *X) raise(st *State, site ssa.Instruction, v Val, out outFn) {
	f := st.top()
	f.panicking, f.recovered, f.panicVal = true, false, v
	for _, s := range x.runDefers(st, site, out) {
		g := s.top()
		if g.recovered {
			g.panicking, g.recovered, g.panicVal = false, false, nil
			if rb := g.fn.Recover; rb != nil {
				// named results
				out2 := func(to *ssa.BasicBlock, t *State) { out(to, t) }
				x.block(rb, s, out2)
			} else {
				var r Val = TupleV{}
				res := g.fn.Signature.Results()
				switch res.Len() {
				case 0:
				case 1:
					r = s.zeroVal(res.At(0).Type())
				default:
					r = s.zeroVal(res)
				}
				g.regs = map[ssa.Value]Val{retV: r}
				out(retB, s)
			}
			continue
		}
		g.regs = map[ssa.Value]Val{}
		out(panicB, s)
	}
}

// runDefers runs the deferred calls of the top frame
func (x *X) runDefers(st *State, site ssa.Instruction, out outFn) []*State {
	states := []*State{st}
	for {
		var next []*State
		more := false
		for _, s := range states {
			f := s.top()
			if len(f.defers) == 0 {
				next = append(next, s)
				continue
			}
			more = true
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.deferCall = true
			outs := x.invoke(s, d.pos, d.call, d.fn, d.args)
			x.deferCall = false
			for _, o := range outs {
				if o.panicked {
					g := o.st.top()
					g.panicking, g.recovered, g.panicVal = true, false, o.pval
				}
				next = append(next, o.st)
			}
		}
		states = next
		if !more {
			return states
		}
		if len(states) > x.merge {
			states = x.mergeStates(states)
		}
	}
}

// splitResult splits a state by the truth of the last result: what is true of each case is kept apart
func (x *X) splitResult(st *State, r Val) []*State {
	last, more := r, TupleV{}
	if t, ok := r.(TupleV); ok {
		if len(t.f) == 0 {
			return one(st)
		}
		more, last = t, t.f[len(t.f)-1]
	}
	bv, ok := last.(BoolV)
	if !ok {
		return one(st)
	}
	with := func(s *State, b bool) {
		var v Val = boolC(b)
		if len(more.f) > 0 {
			t := TupleV{append([]Val(nil), more.f...)}
			t.f[len(t.f)-1] = v
			v = t
		}
		s.top().regs = map[ssa.Value]Val{retV: v}
	}
	if b, dec := st.decide(bv.c); dec {
		with(st, b)
		return one(st)
	}
	var res []*State
	other := st.clone()
	if s := x.assume(st, bv.c); s != nil {
		if s.settleFor(bv.c); !s.num.bot {
			with(s, true)
			res = append(res, s)
		}
	}
	if s := x.assume(other, bv.c.not()); s != nil {
		if s.settleFor(bv.c); !s.num.bot {
			with(s, false)
			res = append(res, s)
		}
	}
	return res
}

func (x *X) branch(b *ssa.BasicBlock, in *ssa.If, st *State, out outFn) {
	v := x.eval(st, in.Cond)
	bv, ok := v.(BoolV)
	if !ok {
		bv = st.freshBool("cond")
	}
	if t, ok := st.decide(bv.c); ok {
		to := b.Succs[1]
		if t {
			to = b.Succs[0]
		}
		out(to, x.edge(b, to, st))
		return
	}
	other := st.clone()
	if s := x.assume(st, bv.c); s != nil {
		if s.settleFor(bv.c); !s.num.bot {
			out(b.Succs[0], x.edge(b, b.Succs[0], s))
		}
	}
	if s := x.assume(other, bv.c.not()); s != nil {
		if s.settleFor(bv.c); !s.num.bot {
			out(b.Succs[1], x.edge(b, b.Succs[1], s))
		}
	}
}

// values

func (x *X) eval(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(st, v)
	case *ssa.Global:
		return x.global(st, v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return BuiltinV{v.Name()}
	}
	f := st.top()
	r, ok := f.regs[v]
	if !ok {
		panic(fmt.Sprintf("%s: no value for %s = %s", f.fn, v.Name(), v))
	}
	return st.resolve(r)
}

func (x *X) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return st.zeroVal(c.Type())
	}
	switch t := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return intC(i)
			}
			return IntV{symL(newSym("bigconst"))}
		case t.Info()&types.IsString != 0:
			return st.litStr(constant.StringVal(c.Value))
		case t.Info()&types.IsBoolean != 0:
			return boolC(constant.BoolVal(c.Value))
		}
	}
	return newUnk(c.Type(), true)
}

func (x *X) global(st *State, g *ssa.Global) Val {
	id, ok := globals[g]
	if !ok {
		// a variable of another package
		elem := g.Type().(*types.Pointer).Elem()
		var v Val
		if isIface(elem) && types.TypeString(elem, nil) == "error" {
			v = IfaceV{x.w.errorStringType(), PtrV{obj: newBaseObj(&Obj{kind: kCell, typ: types.Typ[types.String], val: nil, name: g.String(), opaque: true})}}
		} else {
			u := st.fresh(elem, g.Name())
			if uv, ok := u.(UnkV); ok {
				uv.nonnil = true
				u = uv
			}
			v = u
		}
		id = newBaseObj(&Obj{kind: kCell, typ: elem, val: v, name: g.String(), global: g})
		globals[g] = id
		if uv, ok := v.(UnkV); ok && uv.id > baseUnk {
			// identity of globals is kept by their object
		}
	}
	if _, ok := st.objs[id]; !ok {
		if baseObjs[id] == nil {
			panic("lost " + g.String())
		}
		st.objs[id] = baseObjs[id]
	}
	if o := baseObjs[id]; o != nil {
		x.adopt(st, o)
	}
	return PtrV{obj: id}
}

// adopt brings in a state the base objects a base object refers to
func (x *X) adopt(st *State, o *Obj) {
	if iv, ok := o.val.(IfaceV); ok {
		if p, ok := iv.v.(PtrV); ok {
			if _, ok := st.objs[p.obj]; !ok {
				st.objs[p.obj] = baseObjs[p.obj]
			}
		}
	}
}

var globals = map[*ssa.Global]int{}

// base objects created on the fly have negative ids
var negObj int

func newBaseObj(o *Obj) int {
	negObj--
	baseObjs[negObj] = o
	return negObj
}

func (w *World) errorStringType() types.Type {
	p := w.pkgs["errors"]
	if p != nil {
		if o := p.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return types.Universe.Lookup("error").Type()
}

func (x *X) set(st *State, in ssa.Instruction, v Val) { st.top().regs[in.(ssa.Value)] = v }

// fatal records a run time panic
func (x *X) fail(st *State, site ssa.Instruction, kind, format string, a ...interface{}) {
	x.oblige(st, site, kind, "", false, func() string { return fmt.Sprintf(format, a...) })
}

// require records that a condition must hold and goes on as if it did; nil when it never does
func (x *X) require(st *State, site ssa.Instruction, kind string, cs []Cond, detail string) *State {
	ok := true
	for _, c := range cs {
		t, dec := st.decide(c)
		if !dec || !t {
			ok = false
		}
	}
	x.oblige(st, site, kind, "", ok, func() string {
		var p []string
		for _, c := range cs {
			p = append(p, x.showCond(st, c))
		}
		return detail + ": can't establish " + strings.Join(p, " and ")
	})
	if ok {
		return st
	}
	for _, c := range cs {
		if st = x.assume(st, c); st == nil {
			return nil
		}
	}
	return st
}

func (x *X) showCond(st *State, c Cond) string {
	switch c.op {
	case cGE:
		return st.num.norm(c.e).String() + " >= 0"
	case cEQ:
		return st.num.norm(c.e).String() + " == 0"
	case cNE:
		return st.num.norm(c.e).String() + " != 0"
	}
	return "condition"
}

func geC(a, b Lin) Cond { return Cond{op: cGE, e: a.sub(b)} }

// force gives the possible concrete forms of a possibly unknown slice, pointer or interface
func (x *X) force(st *State, v Val) []Outcome {
	v = st.resolve(v)
	u, ok := v.(UnkV)
	if !ok {
		return []Outcome{{st: st, ret: v}}
	}
	var some func(s *State) Val
	switch t := u.typ.Underlying().(type) {
	case *types.Slice:
		some = func(s *State) Val {
			n, c := s.freshLen("len"), s.freshLen("cap")
			s.num.rawGE(c.sub(n))
			return s.unknownSlice(t.Elem(), n, c, "slice")
		}
	case *types.Pointer:
		if isOpaqueStruct(t.Elem()) {
			return []Outcome{{st: st, ret: v}}
		}
		some = func(s *State) Val {
			id := s.newObj(&Obj{kind: kCell, typ: t.Elem(), val: s.fresh(t.Elem(), "deref")})
			return PtrV{obj: id}
		}
	case *types.Map:
		some = func(s *State) Val { return RefV{s.newObj(&Obj{kind: kMap, typ: u.typ})} }
	case *types.Chan:
		some = func(s *State) Val { return RefV{s.newObj(&Obj{kind: kChan, typ: u.typ})} }
	default:
		return []Outcome{{st: st, ret: v}}
	}
	var out []Outcome
	if !u.nonnil {
		s := st.clone()
		s.res[u.id] = NilV{}
		out = append(out, Outcome{st: s, ret: NilV{}})
	}
	r := some(st)
	st.res[u.id] = r
	out = append(out, Outcome{st: st, ret: r})
	return out
}

// unknownSlice is a slice whose initial content is an unknown but fixed content
func (s *State) unknownSlice(elem types.Type, n, c Lin, name string) SliceV {
	v := s.newSliceOf(elem, n, c, name)
	if isByte(elem) {
		id := s.newContent(c, &Desc{what: name}, elem)
		s.addFact(v.obj, Fact{k: fSeg, lo: konst(0), hi: c, src: id, delta: konst(0)})
	}
	return v
}

// load reads a cell or an element
func (x *X) load(st *State, p PtrV, t types.Type) Val {
	o := st.objs[p.obj]
	if o == nil {
		return st.fresh(t, "gone")
	}
	if o.opaque {
		return st.fresh(t, "opq")
	}
	var v Val
	if p.elem {
		v = st.readElem(p.obj, p.idx)
	} else {
		v = o.val
	}
	for k, i := range p.path {
		v = st.resolve(v)
		sv, ok := v.(StructV)
		if !ok {
			if x.mon.load != nil {
				_ = k
			}
			return st.fresh(t, "field")
		}
		v = sv.f[i]
	}
	v = st.resolve(v)
	return x.copyVal(st, v)
}

// copyVal gives arrays inside a value an identity of their own
func (x *X) copyVal(st *State, v Val) Val {
	switch v := v.(type) {
	case ArrV:
		o := st.objs[v.obj]
		n := o.clone()
		return ArrV{st.newObj(n)}
	case StructV:
		has := false
		for _, f := range v.f {
			switch f.(type) {
			case ArrV, StructV:
				has = true
			}
		}
		if !has {
			return v
		}
		r := StructV{append([]Val(nil), v.f...)}
		for i := range r.f {
			r.f[i] = x.copyVal(st, r.f[i])
		}
		return r
	}
	return v
}

func setPath(st *State, v Val, path []int, n Val) (Val, bool) {
	if len(path) == 0 {
		return n, true
	}
	sv, ok := st.resolve(v).(StructV)
	if !ok {
		return v, false
	}
	r := StructV{append([]Val(nil), sv.f...)}
	f, ok := setPath(st, sv.f[path[0]], path[1:], n)
	if !ok {
		return v, false
	}
	r.f[path[0]] = f
	return r, true
}

func (x *X) store(st *State, site ssa.Instruction, p PtrV, v Val) {
	o := st.objs[p.obj]
	if o == nil || o.opaque {
		return
	}
	x.touched(st, site, p.obj)
	if x.mon.store != nil {
		x.mon.store(x, st, site, p, v)
	}
	v = x.copyVal(st, st.resolve(v))
	if p.elem {
		if x.mon.write != nil {
			x.mon.write(x, st, site, p.obj, p.idx, p.idx.addC(1))
		}
		if len(p.path) > 0 {
			cur := st.readElem(p.obj, p.idx)
			n, ok := setPath(st, cur, p.path, v)
			if !ok {
				n = st.fresh(o.typ, "el")
			}
			v = n
		}
		if st.arr(p.obj).content {
			x.note("write in a constant content at %s", x.w.instrPos(site))
			return
		}
		st.writeElem(p.obj, p.idx, v)
		return
	}
	n, ok := setPath(st, o.val, p.path, v)
	if !ok {
		return
	}
	c := o.clone()
	c.val = n
	st.setObj(p.obj, c)
}

// typeID identifies a type in the disequalities of unknown values
func typeID(t types.Type) int {
	k := types.TypeString(t, nil)
	if i, ok := typeIDs[k]; ok {
		return i
	}
	typeIDs[k] = -1 - len(typeIDs)
	return typeIDs[k]
}

var typeIDs = map[string]int{}

// sortedSites orders obligations
func (r *Rec) sorted() []oblKey {
	ks := make([]oblKey, 0, len(r.m))
	for k := range r.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := r.m[ks[i]], r.m[ks[j]]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if ks[i].kind != ks[j].kind {
			return ks[i].kind < ks[j].kind
		}
		return ks[i].what < ks[j].what
	})
	return ks
}

var _ = token.ADD
