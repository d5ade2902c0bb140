package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// sndAccess is an access to a cell that the goroutine of a Sender may share with its callers
type sndAccess struct {
	role  int // 0: any number of callers, -1: the end of NewSender, others: the goroutines
	write bool
	held  bool
	site  ssa.Instruction
}

type sndCell struct {
	p   PtrV
	typ types.Type
	acc map[sndAccess]bool
}

// sender analyses a Sender: its methods called by any number of goroutines, and its own goroutine
type sender struct {
	x     *X
	exact int
	role  int
	base  map[int]bool
	cells map[string]*sndCell
	lock  string
	queue *sndCell
	// the channels that the callers, and the goroutines, close and send on
	closes, sends [2]map[int]bool
	// the decided values of the booleans when the callers write shared cells
	boolAt map[string]map[int]bool
	waits  map[ssa.Instruction]*sndWaitAt
	making bool           // in NewSender
	first  map[string]int // the booleans as NewSender leaves them
	arrays map[sndArr]bool
}

// sndArr is an access to the array of the queue
type sndArr struct {
	site ssa.Instruction
	held bool
}

type sndWaitAt struct {
	role  int
	chans map[int]bool
}

func cellName(p PtrV) string { return fmt.Sprint(p.obj, p.path) }

func (s *sender) side() int {
	if s.role > 0 {
		return 1
	}
	return 0
}

func isQueue(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	el, ok := sl.Elem().Underlying().(*types.Slice)
	return ok && isByte(el.Elem())
}

// leaves are the parts of a cell that are not structures of the repository
func (s *sender) leaves(st *State, p PtrV, t types.Type, f func(p PtrV, t types.Type)) {
	if u, ok := t.Underlying().(*types.Struct); ok && inRepo(t) {
		for i := 0; i < u.NumFields(); i++ {
			s.leaves(st, PtrV{obj: p.obj, path: append(append([]int(nil), p.path...), i)}, u.Field(i).Type(), f)
		}
		return
	}
	f(p, t)
}

func (s *sender) pathType(st *State, p PtrV) types.Type {
	t := st.objs[p.obj].typ
	for _, i := range p.path {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		t = u.Field(i).Type()
	}
	return t
}

func (s *sender) access(st *State, site ssa.Instruction, p PtrV, write bool) {
	if s.base != nil && !s.base[p.obj] || p.elem {
		return
	}
	role := s.role
	if role == 0 {
		v, ok := s.x.driverVar(st, "sd", "started")
		if !ok {
			return
		}
		if b, dec := st.decide(v.(BoolV).c); dec && !b {
			return // nobody else has it
		}
	}
	if role == 0 && s.making {
		role = -1
	}
	t := s.pathType(st, p)
	if t == nil {
		return
	}
	held := s.held(st)
	s.leaves(st, p, t, func(q PtrV, t types.Type) {
		k := cellName(q)
		c := s.cells[k]
		if c == nil {
			c = &sndCell{p: q, typ: t, acc: map[sndAccess]bool{}}
			s.cells[k] = c
		}
		c.acc[sndAccess{role, write, held, site}] = true
	})
	if write && role == 0 {
		for _, b := range s.bools(st) {
			k := cellName(b)
			if s.boolAt[k] == nil {
				s.boolAt[k] = map[int]bool{}
			}
			s.boolAt[k][s.boolVal(st, b)] = true
		}
	}
}

func (s *sender) held(st *State) bool {
	v, ok := s.x.driverVar(st, "sd", "held")
	if !ok {
		return false
	}
	b, dec := st.decide(v.(BoolV).c)
	return dec && b
}

// bools are the boolean cells
func (s *sender) bools(st *State) []PtrV {
	var r []PtrV
	var ids []int
	for id := range s.base {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.objs[id]
		if o == nil || o.kind != kCell || o.typ == nil || o.opaque {
			continue
		}
		s.leaves(st, PtrV{obj: id}, o.typ, func(p PtrV, t types.Type) {
			if isBoolT(t) {
				r = append(r, p)
			}
		})
	}
	return r
}

// boolVal is 0 or 1, or 2 when it is not known
func (s *sender) boolVal(st *State, p PtrV) int {
	v, ok := st.resolve(s.peek(st, p)).(BoolV)
	if !ok {
		return 2
	}
	b, dec := st.decide(v.c)
	switch {
	case !dec:
		return 2
	case b:
		return 1
	}
	return 0
}

func (s *sender) peek(st *State, p PtrV) Val {
	o := st.objs[p.obj]
	if o == nil {
		return nil
	}
	v := o.val
	for _, i := range p.path {
		sv, ok := st.resolve(v).(StructV)
		if !ok {
			return nil
		}
		v = sv.f[i]
	}
	return st.resolve(v)
}

func (s *sender) poke(st *State, p PtrV, v Val) {
	o := st.objs[p.obj]
	n, ok := setPath(st, o.val, p.path, v)
	if !ok {
		panic(giveUp{"a shared cell that can't be written"})
	}
	c := o.clone()
	c.val = n
	st.setObj(p.obj, c)
}

// shared: several goroutines access the cell, and one at least writes it
func (c *sndCell) shared() bool {
	roles := map[int]bool{}
	wrote := false
	for a := range c.acc {
		roles[a.role] = true
		if a.write {
			wrote = true
		}
	}
	return wrote && (len(roles) > 1 || roles[0])
}

// foreign: others than the goroutine that is interpreted write the cell
func (s *sender) foreign(c *sndCell) bool {
	for a := range c.acc {
		if a.write && (a.role != s.role || a.role == 0) {
			return true
		}
	}
	return false
}

// settled: the callers do not write any more, in this state of the goroutine
func (s *sender) settled(st *State, c *sndCell) bool {
	if s.role <= 0 {
		return false
	}
	for a := range c.acc {
		if a.write && a.role != s.role && a.role != 0 {
			return false
		}
	}
	for _, b := range s.bools(st) {
		k := cellName(b)
		bc := s.cells[k]
		if bc == nil || !bc.shared() {
			continue
		}
		mine := true
		for a := range bc.acc {
			if a.write && a.role != s.role {
				mine = false
			}
			if !a.held {
				mine = false
			}
		}
		v := s.boolVal(st, b)
		if mine && v != 2 && !s.boolAt[k][v] && !s.boolAt[k][2] {
			return true
		}
	}
	return false
}

func (s *sender) sharedCells() []*sndCell {
	var ks []string
	for k, c := range s.cells {
		if c.shared() {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []*sndCell
	for _, k := range ks {
		r = append(r, s.cells[k])
	}
	return r
}

// anyQueue gives the queues that others may have left
func (s *sender) anyQueue(st *State, c *sndCell) []*State {
	elem := c.typ.Underlying().(*types.Slice).Elem()
	var r []*State
	mk := func(st *State, n Lin) {
		cp := st.freshLen("qcap")
		st.num.addGE(cp.sub(n))
		v := st.newSliceOf(elem, n, cp, "queue")
		id := st.newContent(cp, &Desc{what: "queue"}, elem)
		st.addFact(v.obj, Fact{k: fSeg, lo: konst(0), hi: n, src: id, delta: konst(0)})
		s.poke(st, c.p, v)
		s.know(st, SliceV{id, konst(0), n, cp})
		r = append(r, st)
	}
	if s.exact > 0 && s.role > 0 {
		for n := int64(1); n <= int64(s.exact); n++ {
			mk(st.clone(), konst(n))
		}
	} else {
		t := st.clone()
		n := t.freshLen("queued")
		mk(t, n)
	}
	s.poke(st, c.p, NilV{})
	s.know(st, NilV{})
	return append(r, st)
}

// know: the queue that is taken with the lock
func (s *sender) know(st *State, q Val) { st.ghost["queue"] = q }

func (s *sender) lockModel(x *X, st *State, c *callCtx) []Outcome {
	s.oneLock(st, c)
	sts := x.call1(st, "sndLock", c.site)
	sts = each(sts, func(st *State) []*State {
		if s.role < 0 || s.making {
			return one(st)
		}
		var q *sndCell
		stable := false
		for _, sc := range s.sharedCells() {
			if isQueue(sc.typ) {
				if q != nil && q != sc {
					panic(giveUp{"two queues"})
				}
				q = sc
			}
			if !s.foreign(sc) {
				continue
			}
			if isQueue(sc.typ) {
				if stable = s.settled(st, sc); stable {
					continue
				}
				continue
			}
			if s.settled(st, sc) {
				continue
			}
			s.poke(st, sc.p, st.fresh(sc.typ, "other"))
		}
		if q == nil || stable {
			return one(st)
		}
		r := one(st)
		if s.foreign(q) {
			r = s.anyQueue(st, q)
		}
		return each(r, func(st *State) []*State {
			known := st.ghost["queue"]
			delete(st.ghost, "queue")
			if known == nil {
				known = s.peek(st, q.p)
			}
			return x.call1(st, "sndLocked", c.site, known)
		})
	})
	var out []Outcome
	for _, st := range sts {
		out = append(out, void(st)...)
	}
	return out
}

func (s *sender) oneLock(st *State, c *callCtx) {
	p, ok := st.resolve(c.args[0]).(PtrV)
	if !ok {
		panic(giveUp{"an unknown lock"})
	}
	k := cellName(p)
	if s.lock == "" {
		s.lock = k
	}
	if s.lock != k {
		panic(giveUp{"two locks"})
	}
}

func (s *sender) queueCell() *sndCell {
	for _, c := range s.sharedCells() {
		if isQueue(c.typ) {
			return c
		}
	}
	return nil
}

func (s *sender) unlockModel(x *X, st *State, c *callCtx) []Outcome {
	s.oneLock(st, c)
	q := s.queueCell()
	var qv Val = NilV{}
	if q != nil {
		qv = s.peek(st, q.p)
	}
	over := false
	for _, b := range s.bools(st) {
		k := cellName(b)
		if bc := s.cells[k]; bc != nil && bc.shared() && s.boolVal(st, b) == 1-s.first[k] {
			over = true
		}
	}
	known := q != nil && !s.making
	sts := x.call1(st, "sndUnlock", c.site, qv, boolC(known), boolC(over))
	var out []Outcome
	for _, st := range sts {
		if !known || s.settled(st, q) {
			out = append(out, void(st)...)
			continue
		}
		// others change it from now on
		if sl, ok := st.resolve(s.peek(st, q.p)).(SliceV); ok {
			o := st.objs[sl.obj].clone()
			o.ghost = map[string]Val{"shared": NilV{}}
			st.objs[sl.obj] = o
		}
		for _, sc := range s.sharedCells() {
			if s.foreign(sc) && !s.settled(st, sc) {
				s.poke(st, sc.p, st.fresh(sc.typ, "other"))
			}
		}
		for _, st := range x.call1(st, "sndForget", c.site) {
			out = append(out, void(st)...)
		}
	}
	return out
}

// inQueue tells whether an array was the one of the queue when the lock was released
func (s *sender) inQueue(st *State, obj int) bool {
	o := st.objs[obj]
	return o != nil && o.ghost["shared"] != nil
}

func (s *sender) element(st *State, site ssa.Instruction, obj int) {
	if site == nil || site.Parent() == nil || site.Parent().Package() == s.x.w.driver || s.making || !s.inQueue(st, obj) {
		return
	}
	held := s.held(st)
	s.x.oblige(st, site, "S01:race", "the elements of the queue", held, func() string { return "the elements of the queue are accessed without the lock" })
}

func (s *sender) waiting(x *X, st *State, site ssa.Instruction, chans []Val, blocking bool) []*State {
	if s.making {
		return one(st)
	}
	if blocking {
		w := s.waits[site]
		if w == nil {
			w = &sndWaitAt{role: s.side(), chans: map[int]bool{}}
			s.waits[site] = w
		}
		for _, c := range chans {
			if r, ok := st.resolve(c).(RefV); ok {
				w.chans[r.obj] = true
			}
		}
	}
	return x.call1(st, "sndWait", site, boolC(blocking))
}

func (s *sender) monitor() *Mon {
	m := &Mon{model: map[string]modelFn{}, merge: 6}
	for _, l := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock"} {
		m.model[l] = s.lockModel
	}
	for _, l := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock"} {
		m.model[l] = s.unlockModel
	}
	call := func(name string) modelFn {
		return func(x *X, st *State, c *callCtx) []Outcome { return x.driverCall(st, name, c.site, c.args...) }
	}
	m.model["("+modpath+".Message).Marshal5424"] = call("sndMarshal")
	m.model["(*net.Buffers).WriteTo"] = call("sndWriteTo")
	m.load = func(x *X, st *State, site ssa.Instruction, p PtrV) {
		s.access(st, site, p, false)
		if p.elem {
			s.element(st, site, p.obj)
		}
	}
	m.store = func(x *X, st *State, site ssa.Instruction, p PtrV, v Val) {
		s.access(st, site, p, true)
	}
	m.write = func(x *X, st *State, site ssa.Instruction, obj int, lo, hi Lin) { s.element(st, site, obj) }
	m.spawn = func(x *X, st *State, site ssa.Instruction) []*State { return x.call1(st, "sndSpawned", site) }
	m.offer = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val, blocking bool) []*State {
		if isErrT(elem) {
			return x.call1(st, "sndReport", site, v, boolC(blocking))
		}
		return one(st)
	}
	m.sent = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch, v Val) []*State {
		if r, ok := st.resolve(ch).(RefV); ok && isSignal(elem) {
			s.sends[s.side()][r.obj] = true
		}
		return one(st)
	}
	m.closed = func(x *X, st *State, site ssa.Instruction, elem types.Type, ch Val) []*State {
		if r, ok := st.resolve(ch).(RefV); ok && isSignal(elem) {
			s.closes[s.side()][r.obj] = true
			return x.call1(st, "sndClosed", site)
		}
		if isErrT(elem) {
			return x.call1(st, "sndErrShut", site)
		}
		return one(st)
	}
	m.wait = s.waiting
	m.chanRecv = func(x *X, st *State, site ssa.Instruction, ch Val, t types.Type) []Outcome {
		if !isSignal(t) {
			return []Outcome{{st: st, ret: TupleV{[]Val{st.fresh(t, "recv"), boolC(true)}}}}
		}
		r, ok := st.resolve(ch).(RefV)
		if !ok {
			panic(giveUp{"an unknown channel"})
		}
		other := 1 - s.side()
		out := []Outcome{}
		for _, st := range x.call1(st, "sndRecv", site) {
			if s.closes[other][r.obj] {
				c := st.clone()
				out = append(out, Outcome{st: c, ret: TupleV{[]Val{c.zeroVal(t), boolC(false)}}})
			}
			if s.sends[other][r.obj] {
				out = append(out, Outcome{st: st, ret: TupleV{[]Val{st.zeroVal(t), boolC(true)}}})
			}
		}
		return out
	}
	return m
}

// signature changes as long as what the goroutines do to each other is not known
func (s *sender) signature() string {
	r := ""
	for _, c := range s.sharedCells() {
		roles := map[int]bool{}
		for a := range c.acc {
			if a.write {
				roles[a.role] = true
			}
		}
		r += cellName(c.p) + fmt.Sprint(roles) + ";"
	}
	return r + fmt.Sprint(s.closes, s.sends, s.boolAt)
}

// senderPass analyses the Sender: first NewSender, then its goroutine and its methods, until what they share is known
func senderPass(exact bool) func(w *World, r *Result) error {
	one := senderTry
	if !exact {
		return func(w *World, r *Result) error { return one(w, r, 0, 0) }
	}
	return func(w *World, r *Result) error {
		// the messages that are counted, and what it may cost
		bounds := [][2]int{{3, 4000000}, {2, 12000000}}
		if os.Getenv("VERIF_TIER") == "thorough" {
			bounds = [][2]int{{5, 30000000}, {4, 30000000}, {3, 30000000}, {2, 12000000}}
		}
		for i, b := range bounds {
			try := &Result{}
			err := one(w, try, b[0], b[1])
			if err != nil && err.Error() == overBudget && i+1 < len(bounds) {
				continue
			}
			r.Items = append(r.Items, try.Items...)
			r.Functions = append(r.Functions, try.Functions...)
			r.Notes = try.Notes
			if r.Notes == nil {
				r.Notes = map[string]int{}
			}
			r.Notes["messages whose bytes are counted"] = b[0]
			r.Steps += try.Steps
			return err
		}
		return nil
	}
}

const overBudget = "step budget exhausted"

// senderTry counts the bytes of that many messages, or of none
func senderTry(w *World, r *Result, exact, max int) (err error) {
	{
		var s *sender
		var x *X
		defer func() {
			if e := recover(); e != nil {
				g, ok := e.(giveUp)
				if !ok {
					panic(e)
				}
				err = fmt.Errorf("%s", g.why)
				// what is known is told
				if s != nil && x != nil {
					s.conclude()
					r.collect(x)
				}
			}
		}()
		s = &sender{exact: exact, cells: map[string]*sndCell{}, boolAt: map[string]map[int]bool{}, waits: map[ssa.Instruction]*sndWaitAt{}, first: map[string]int{}}
		for i := range s.closes {
			s.closes[i], s.sends[i] = map[int]bool{}, map[int]bool{}
		}
		x = newX(w, s.monitor())
		if max > 0 {
			x.max = max
		}
		exactKeys = 1
		if exact > 0 {
			exactKeys = 2
		}
		x.debug = sndDebug
		s.x = x
		s.making = true
		var made []Outcome
		begin := "SndNew"
		if exact > 0 {
			begin = "SndNewExact"
		}
		for _, o := range x.callFn(w.entry(), w.driver.Func(begin), nil, nil, nil) {
			if !o.panicked {
				made = append(made, o)
			}
		}
		if len(made) != 1 {
			return fmt.Errorf("%d ways to make a sender", len(made))
		}
		new := made[0]
		self, ok := new.st.resolve(new.ret).(PtrV)
		if !ok {
			return fmt.Errorf("no sender")
		}
		s.base = map[int]bool{}
		for id := range new.st.objs {
			if _, old := baseObjs[id]; !old {
				s.base[id] = true
			}
		}
		for _, b := range s.bools(new.st) {
			s.first[cellName(b)] = s.boolVal(new.st, b)
		}
		roots := append([]goRoot(nil), x.rec.roots...)
		first := x.rec
		if len(roots) == 0 {
			return fmt.Errorf("no goroutine")
		}
		s.making = false
		for k, c := range s.cells {
			if !s.base[c.p.obj] {
				delete(s.cells, k)
			}
		}
		n := types.NewPointer(w.driver.Func("SndNew").Signature.Results().At(0).Type().(*types.Pointer).Elem())
		for i := 0; ; i++ {
			if i > 8 {
				return fmt.Errorf("what the goroutines share is not known")
			}
			sig := s.signature()
			x.rec = newRec()
			x.rec.merge(first)
			x.rec.roots = append([]goRoot(nil), roots...)
			ended := 0
			for k := 0; k < len(x.rec.roots); k++ {
				g := x.rec.roots[k]
				s.role = k + 1
				st := g.st.clone()
				st.frames = nil
				st.ghost["sender"] = self
				for _, b := range x.call1(st, "sndStart", g.site) {
					for _, o := range x.invoke(b, g.site, g.call, g.fn, g.args) {
						if o.panicked {
							continue
						}
						ended++
						q := s.queueCell()
						x.call1(o.st, "sndEnd", g.site, boolC(q != nil && s.settled(o.st, q)))
					}
				}
				if k > 8 {
					return fmt.Errorf("too many goroutines")
				}
			}
			s.role = 0
			x.callFn(new.st.clone(), w.driver.Func("SndSend"), []Val{self}, nil, nil)
			out := x.callFn(new.st.clone(), w.driver.Func("SndEnd"), []Val{self}, nil, nil)
			ms := types.NewMethodSet(n)
			for j := 0; j < ms.Len(); j++ {
				f := w.prog.MethodValue(ms.At(j))
				if f == nil || !f.Object().Exported() || f.Name() == "Send" || f.Name() == "End" {
					continue
				}
				st := new.st.clone()
				args := []Val{self}
				for _, p := range f.Params[1:] {
					args = append(args, st.fresh(p.Type(), p.Name()))
				}
				x.callFn(st, f, args, nil, nil)
			}
			if s.signature() == sig {
				if ended == 0 {
					r.Items = append(r.Items, Item{Pos: "driver", Fn: "SndEnd", Kind: "S05:end", Bad: 1, Detail: "the goroutine of the sender never ends"})
				}
				if len(out) == 0 {
					r.Items = append(r.Items, Item{Pos: "driver", Fn: "SndEnd", Kind: "S05:end", Bad: 1, Detail: "End never returns"})
				}
				break
			}
		}
		s.conclude()
		r.collect(x)
		for _, f := range []string{"SndNew", "SndSend", "SndEnd"} {
			r.checkReached(w, f)
		}
		return nil
	}
}

var sndDebug = os.Getenv("SADEBUG") != ""

// conclude settles the obligations about accesses and waits
func (s *sender) conclude() {
	var ks []string
	for k := range s.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := s.cells[k]
		for a := range c.acc {
			ok := true
			why := ""
			for b := range c.acc {
				if !a.write && !b.write || a.held && b.held {
					continue
				}
				if a.role == b.role && a.role != 0 || a.role+b.role == -1 {
					continue // the same goroutine, or one after the other
				}
				if a.held {
					continue // the other one is to blame
				}
				ok = false
				why = s.x.w.instrPos(b.site)
			}
			s.x.oblige(nil, a.site, "S01:race", "", ok, func() string {
				return "accessed without the lock, and by another goroutine at " + why
			})
		}
	}
	for site, w := range s.waits {
		other := 1 - w.role
		ok := false
		for ch := range w.chans {
			if s.closes[other][ch] || s.sends[other][ch] {
				ok = true
			}
		}
		s.x.oblige(nil, site, "S05:wait", "", ok, func() string { return "it waits for nothing that the others do" })
	}
}

func init() {
	addPass("S_Any", senderPass(false))
	addPass("S_Exact", senderPass(true))
}

func init() {
	for id, rule := range map[string]string{
		"S01": "lockset analysis of the cells of a Sender, found from the interpretation of every method and of its goroutine: each access to a cell that a goroutine writes and another one touches holds the lock, elements of the queue included",
		"S02": "interpretation of NewSender, of Send and of the goroutine, each against any number of other callers (what others may write is unknown after each Lock): the queue is changed only by appending the encoded message and by taking off what was written, in order",
		"S03": "typestate of the lock in the same interpretation, and what is done while it is held: no Connect, no wait; errors are only offered",
		"S04": "typestate of the connection in the same interpretation, for every result of Connect and Write",
		"S05": "typestate of the end of the Sender in the same interpretation: each channel closed once, by its owner, after the last messages are written or can't be, and nothing is accepted or done after",
	} {
		addProp(&Prop{id: id, rule: rule, passes: []string{"S_Any", "S_Exact"}, want: checkOf(id), floor: 5})
	}
}
