package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value.
type Val interface{}

type (
	// IntV is any integer
	IntV struct{ e Lin }
	// BoolV is a boolean known through a condition
	BoolV struct{ c Cond }
	// NilV is the nil of any type
	NilV struct{}
	// UnkV is a value of a reference or opaque type nothing is known about (but its identity)
	UnkV struct {
		id     int
		typ    types.Type
		nonnil bool
	}
	// PtrV points in an object: a cell (path = fields) or an element of an array (idx, then fields)
	PtrV struct {
		obj  int
		elem bool
		idx  Lin
		path []int
	}
	// SliceV is a non nil slice
	SliceV struct {
		obj           int
		off, len, cap Lin
	}
	// StrV is a string: a piece of an immutable content object
	StrV struct {
		obj      int
		off, len Lin
	}
	// IfaceV is a non nil interface holding a value of a known dynamic type
	IfaceV struct {
		typ types.Type
		v   Val
	}
	// FuncV is a known function and its bindings
	FuncV struct {
		fn   *ssa.Function
		free []Val
	}
	// StructV is a struct value
	StructV struct{ f []Val }
	// ArrV is an array inside a struct or a cell: the elements are those of an object
	ArrV struct{ obj int }
	// TupleV holds the results of a call
	TupleV struct{ f []Val }
	// RefV is a map or a channel
	RefV struct{ obj int }
	// BuiltinV is a builtin used as a value
	BuiltinV struct{ name string }
)

type condOp int

const (
	cTrue condOp = iota
	cFalse
	cGE // e >= 0
	cEQ // e == 0
	cNE // e != 0
	cStrEQ
	cStrNE
)

// Cond is a condition that a branch may assume
type Cond struct {
	op   condOp
	e    Lin
	a, b StrV
}

func boolC(b bool) BoolV {
	if b {
		return BoolV{Cond{op: cTrue}}
	}
	return BoolV{Cond{op: cFalse}}
}

func (c Cond) not() Cond {
	switch c.op {
	case cTrue:
		c.op = cFalse
	case cFalse:
		c.op = cTrue
	case cGE: // e >= 0  ->  -e-1 >= 0
		c.e = c.e.neg().addC(-1)
	case cEQ:
		c.op = cNE
	case cNE:
		c.op = cEQ
	case cStrEQ:
		c.op = cStrNE
	case cStrNE:
		c.op = cStrEQ
	}
	return c
}

// objects

type objKind int

const (
	kCell objKind = iota
	kArr
	kMap
	kChan
)

// Obj is an object of the abstract heap. Immutable: replaced when it changes.
type Obj struct {
	kind objKind
	typ  types.Type // type of the cell, or of an element
	val  Val        // cell
	arr  *Arr
	name string
	// ghost attributes
	ghost  map[string]Val
	global *ssa.Global
	opaque bool     // std struct: no field is known
	frozen bool     // not to be written any more
	ents   []mapEnt // map: the entries, when exact
	exact  bool
}

// Arr is the knowledge about the elements of an array. Immutable.
type Arr struct {
	n       Lin
	content bool   // immutable content
	lit     string // constant content
	isLit   bool
	desc    *Desc // what this content is
	facts   []Fact
	tmpl    []Val // possible shapes of elements not otherwise known (nil: any)
	hasTmpl bool
	zero    bool // unknown elements are zero
}

type factKind int

const (
	fPt     factKind = iota // element lo is v
	fSeg                    // elements [lo,hi) are those of src at +delta
	fSet                    // bytes [lo,hi) are in set
	fSorted                 // elements [lo,hi) are increasing, gap at least g
	fMin                    // elements [lo,hi) are at least delta
	fMax                    // elements [lo,hi) are at most delta
)

// Fact is a piece of knowledge about a range of elements, vacuous when hi <= lo
type Fact struct {
	k      factKind
	lo, hi Lin
	v      Val
	src    int
	delta  Lin
	set    ByteSet
	g      int64
}

// Desc tells where an opaque content comes from
type Desc struct {
	what string
	args []Val
}

type mapEnt struct{ k, v Val }

func (o *Obj) clone() *Obj { c := *o; return &c }

func (a *Arr) clone() *Arr {
	c := *a
	c.facts = append([]Fact(nil), a.facts...)
	return &c
}

// Frame is an activation record
type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []Deferred
	// panic unwinding
	panicking bool
	panicVal  Val
	recovered bool
	site      ssa.Instruction // of the call
	inDefer   int             // depth index of the frame whose deferred call this is, +1
}

// Deferred is a deferred call
type Deferred struct {
	call *ssa.CallCommon
	pos  ssa.Instruction
	fn   Val
	args []Val
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		c.regs[k] = v
	}
	c.defers = append([]Deferred(nil), f.defers...)
	return &c
}

// State is an abstract state
type State struct {
	num    *Num
	objs   map[int]*Obj
	frames []*Frame
	res    map[int]Val
	ne     map[[2]int]bool // unknown values known to differ
	ghost  map[string]Val
	from   *ssa.BasicBlock // where the last edge comes from
	trail  []string        // positions of interest, diagnostics only
}

func newState() *State {
	return &State{num: newNum(), objs: map[int]*Obj{}, res: map[int]Val{}, ne: map[[2]int]bool{}, ghost: map[string]Val{}}
}

func (s *State) clone() *State {
	c := &State{num: s.num.clone(), from: s.from}
	c.objs = make(map[int]*Obj, len(s.objs))
	for k, v := range s.objs {
		c.objs[k] = v
	}
	c.res = make(map[int]Val, len(s.res))
	for k, v := range s.res {
		c.res[k] = v
	}
	c.ne = make(map[[2]int]bool, len(s.ne))
	for k, v := range s.ne {
		c.ne[k] = v
	}
	c.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		c.ghost[k] = v
	}
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c.frames[i] = f.clone()
	}
	c.trail = append([]string(nil), s.trail...)
	return c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

var objCount, unkCount int

func (s *State) newObj(o *Obj) int {
	objCount++
	s.objs[objCount] = o
	return objCount
}

func newUnk(t types.Type, nonnil bool) UnkV {
	unkCount++
	return UnkV{unkCount, t, nonnil}
}

func (s *State) setObj(id int, o *Obj) { s.objs[id] = o }

func (s *State) arr(id int) *Arr {
	o := s.objs[id]
	if o == nil || o.arr == nil {
		panic(fmt.Sprintf("object %d is no array", id))
	}
	return o.arr
}

func (s *State) setArr(id int, a *Arr) {
	o := s.objs[id].clone()
	o.arr = a
	s.objs[id] = o
}

// resolve follows what is known about an unknown value
func (s *State) resolve(v Val) Val {
	for {
		u, ok := v.(UnkV)
		if !ok {
			return v
		}
		r, ok := s.res[u.id]
		if !ok {
			return v
		}
		v = r
	}
}

// ints

func intC(c int64) IntV { return IntV{konst(c)} }

const maxLen = int64(1) << 48

func (s *State) freshInt(name string, lo, hi int64) IntV {
	y := newSym(name)
	if lo > -(1 << 62) {
		s.num.rawGE(symL(y).addC(-lo))
	}
	if hi < 1<<62 {
		s.num.rawGE(symL(y).neg().addC(hi))
	}
	return IntV{symL(y)}
}

func (s *State) freshByte(name string) IntV {
	y := newSym(name)
	s.num.sets[y] = allBytes
	return IntV{symL(y)}
}

func (s *State) freshLen(name string) Lin {
	y := newSym(name)
	s.num.rawGE(symL(y))
	symTab[y].lo, symTab[y].hi = 0, maxLen
	return symL(y)
}

func (s *State) freshBool(name string) BoolV {
	y := newSym(name)
	s.num.rawGE(symL(y))
	s.num.rawGE(symL(y).neg().addC(1))
	return BoolV{Cond{op: cEQ, e: symL(y).addC(-1)}}
}

// intRange returns the bounds of an integer type
func intRange(t types.Type) (lo, hi int64, full bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, true
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, false
	case types.Uint8:
		return 0, 255, false
	case types.Int16:
		return -1 << 15, 1<<15 - 1, false
	case types.Uint16:
		return 0, 1<<16 - 1, false
	case types.Int32:
		return -1 << 31, 1<<31 - 1, false
	case types.Uint32:
		return 0, 1<<32 - 1, false
	}
	return 0, 0, true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// strings and contents

func (s *State) litStr(v string) StrV {
	// literals are shared by identity
	if id, ok := litIDs[v]; ok {
		if _, ok := s.objs[id]; !ok {
			s.objs[id] = litObjs[v]
		}
		return StrV{id, konst(0), konst(int64(len(v)))}
	}
	objCount++
	o := &Obj{kind: kArr, typ: types.Typ[types.Byte], arr: &Arr{n: konst(int64(len(v))), content: true, lit: v, isLit: true}}
	litIDs[v], litObjs[v] = objCount, o
	s.objs[objCount] = o
	return StrV{objCount, konst(0), konst(int64(len(v)))}
}

var (
	litIDs  = map[string]int{}
	litObjs = map[string]*Obj{}
)

// newContent creates an immutable content object of unknown bytes
func (s *State) newContent(n Lin, desc *Desc, elem types.Type) int {
	return s.newObj(&Obj{kind: kArr, typ: elem, arr: &Arr{n: n, content: true, desc: desc}})
}

// freshStr returns an unknown string
func (s *State) freshStr(name string, desc *Desc) StrV {
	n := s.freshLen("len" + name)
	return StrV{s.newContent(n, desc, types.Typ[types.Byte]), konst(0), n}
}

// newSlice allocates a backing array of unknown content and returns the slice of it
func (s *State) newSliceOf(elem types.Type, n, c Lin, name string) SliceV {
	a := &Arr{n: c}
	id := s.newObj(&Obj{kind: kArr, typ: elem, arr: a, name: name})
	return SliceV{id, konst(0), n, c}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// zeroVal returns the zero value of a type
func (s *State) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return intC(0)
		case u.Info()&types.IsString != 0:
			return s.litStr("")
		case u.Info()&types.IsBoolean != 0:
			return boolC(false)
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return newUnk(t, true)
	case *types.Struct:
		if !inRepo(t) {
			return zeroOpaque(t)
		}
		r := StructV{make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = s.zeroVal(u.Field(i).Type())
		}
		return r
	case *types.Array:
		return ArrV{s.newObj(&Obj{kind: kArr, typ: u.Elem(), arr: &Arr{n: konst(u.Len()), zero: true}})}
	case *types.Tuple:
		r := TupleV{make([]Val, u.Len())}
		for i := range r.f {
			r.f[i] = s.zeroVal(u.At(i).Type())
		}
		return r
	}
	return NilV{}
}

// the zero value of a std struct is one well known opaque value
func zeroOpaque(t types.Type) Val {
	k := types.TypeString(t, nil)
	if v, ok := zeroOpq[k]; ok {
		return v
	}
	v := newUnk(t, true)
	zeroOpq[k] = v
	return v
}

var zeroOpq = map[string]UnkV{}

// fresh returns an unknown value of a type
func (s *State) fresh(t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if isByte(t) {
				return s.freshByte(name)
			}
			lo, hi, full := intRange(t)
			if full {
				if isUnsigned(t) {
					return s.freshInt(name, 0, 1<<62)
				}
				return IntV{symL(newSym(name))}
			}
			return s.freshInt(name, lo, hi)
		case u.Info()&types.IsString != 0:
			return s.freshStr(name, nil)
		case u.Info()&types.IsBoolean != 0:
			return s.freshBool(name)
		}
		return newUnk(t, true)
	case *types.Struct:
		if !inRepo(t) {
			return newUnk(t, true)
		}
		r := StructV{make([]Val, u.NumFields())}
		for i := range r.f {
			r.f[i] = s.fresh(u.Field(i).Type(), u.Field(i).Name())
		}
		return r
	case *types.Array:
		return ArrV{s.newObj(&Obj{kind: kArr, typ: u.Elem(), arr: &Arr{n: konst(u.Len())}})}
	case *types.Tuple:
		r := TupleV{make([]Val, u.Len())}
		for i := range r.f {
			r.f[i] = s.fresh(u.At(i).Type(), name)
		}
		return r
	}
	return newUnk(t, false)
}

// inRepo tells whether the fields of a struct type are modelled
func inRepo(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		p := n.Obj().Pkg()
		return p != nil && (repoPkgs[p.Path()] || knownStructs[p.Path()+"."+n.Obj().Name()])
	}
	return true
}

// knownStructs are struct types of the standard library whose fields are modelled
var knownStructs = map[string]bool{"net.OpError": true, "os.SyscallError": true, "net.UnixAddr": true, "net.TCPAddr": true, "net.IPAddr": true, "net.UnixConn": true, "net.TCPConn": true, "time.Ticker": true}

// isAggregateOpaque: struct types of other packages
func isOpaqueStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok && !inRepo(t)
}

func (s *State) show(v Val) string {
	v = s.resolve(v)
	switch v := v.(type) {
	case nil:
		return "_"
	case IntV:
		return s.num.norm(v.e).String()
	case BoolV:
		switch v.c.op {
		case cTrue:
			return "true"
		case cFalse:
			return "false"
		}
		return "bool?"
	case NilV:
		return "nil"
	case UnkV:
		return fmt.Sprintf("?%d(%s)", v.id, types.TypeString(v.typ, shortQual))
	case PtrV:
		if v.elem {
			return fmt.Sprintf("&#%d[%s]%v", v.obj, s.num.norm(v.idx), v.path)
		}
		return fmt.Sprintf("&#%d%v", v.obj, v.path)
	case SliceV:
		return fmt.Sprintf("#%d[%s:+%s cap %s]", v.obj, s.num.norm(v.off), s.num.norm(v.len), s.num.norm(v.cap))
	case StrV:
		if o := s.objs[v.obj]; o != nil && o.arr.isLit {
			return fmt.Sprintf("%q[%s:+%s]", o.arr.lit, s.num.norm(v.off), s.num.norm(v.len))
		}
		return fmt.Sprintf("str#%d[%s:+%s]", v.obj, s.num.norm(v.off), s.num.norm(v.len))
	case IfaceV:
		return types.TypeString(v.typ, shortQual) + "(" + s.show(v.v) + ")"
	case FuncV:
		return v.fn.Name()
	case StructV:
		var p []string
		for _, f := range v.f {
			p = append(p, s.show(f))
		}
		return "{" + strings.Join(p, " ") + "}"
	case TupleV:
		var p []string
		for _, f := range v.f {
			p = append(p, s.show(f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case ArrV:
		return fmt.Sprintf("arr#%d", v.obj)
	case RefV:
		return fmt.Sprintf("ref#%d", v.obj)
	}
	return fmt.Sprintf("%T", v)
}

func shortQual(p *types.Package) string { return p.Name() }

func (s *State) dump() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "frame %s\n", f.fn.Name())
		var ks []ssa.Value
		for k := range f.regs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, k := range ks {
			fmt.Fprintf(&sb, "  %s = %s\n", k.Name(), s.show(f.regs[k]))
		}
	}
	var ids []int
	for id := range s.objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := s.objs[id]
		if o.arr != nil {
			if o.arr.isLit {
				continue
			}
			fmt.Fprintf(&sb, "  #%d arr n=%s content=%v", id, s.num.norm(o.arr.n), o.arr.content)
			for _, f := range o.arr.facts {
				fmt.Fprintf(&sb, " %s", s.showFact(f))
			}
			sb.WriteString("\n")
		} else if o.kind == kCell {
			fmt.Fprintf(&sb, "  #%d cell %s\n", id, s.show(o.val))
		}
	}
	for k, v := range s.ghost {
		fmt.Fprintf(&sb, "  ghost %s = %s\n", k, s.show(v))
	}
	fmt.Fprintf(&sb, "  ineq")
	for _, c := range s.num.ineq {
		fmt.Fprintf(&sb, " %s>=0;", c)
	}
	sb.WriteString("\n  eq")
	for _, k := range eqOrder(s.num.eqs) {
		fmt.Fprintf(&sb, " %s=%s;", symName(k), s.num.eqs[k])
	}
	sb.WriteString("\n")
	return sb.String()
}

func (s *State) showFact(f Fact) string {
	lo, hi := s.num.norm(f.lo), s.num.norm(f.hi)
	switch f.k {
	case fPt:
		return fmt.Sprintf("[%s]=%s", lo, s.show(f.v))
	case fSeg:
		return fmt.Sprintf("[%s,%s)=#%d+%s", lo, hi, f.src, s.num.norm(f.delta))
	case fSet:
		return fmt.Sprintf("[%s,%s)in%s", lo, hi, f.set)
	}
	if f.k == fMin || f.k == fMax {
		return fmt.Sprintf("[%s,%s)%s%s", lo, hi, map[factKind]string{fMin: ">=", fMax: "<="}[f.k], s.num.norm(f.delta))
	}
	return fmt.Sprintf("[%s,%s)sorted+%d", lo, hi, f.g)
}
