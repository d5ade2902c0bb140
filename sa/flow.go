package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// wtoElem is an element of a weak topological order: a block, or a component (a loop) and its head
type wtoElem struct {
	b    *ssa.BasicBlock
	comp bool
	body []*wtoElem
}

// unrollTest is an exit test of a loop: a value known at its head against an invariant bound
type unrollTest struct {
	what  ssa.Value
	bound ssa.Value
	test  *ssa.BinOp
}

type fnInfo struct {
	wto    []*wtoElem
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	index  map[ssa.Value]int
	unroll map[*ssa.BasicBlock][]unrollTest
	guards map[*ssa.BinOp]bool
	modes  map[*ssa.BasicBlock][]*ssa.Phi
}

var infos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := infos[fn]; ok {
		return i
	}
	i := &fnInfo{}
	infos[fn] = i
	i.wto = wtoOf(fn)
	i.index = indexOf(fn)
	i.live = liveness(fn)
	i.unroll = map[*ssa.BasicBlock][]unrollTest{}
	i.guards = map[*ssa.BinOp]bool{}
	i.modes = map[*ssa.BasicBlock][]*ssa.Phi{}
	var walk func(es []*wtoElem)
	walk = func(es []*wtoElem) {
		for _, e := range es {
			if e.comp {
				i.unroll[e.b] = unrollTests(e)
				i.modes[e.b] = modesOf(e.b)
				for _, t := range i.unroll[e.b] {
					i.guards[t.test] = true
				}
				walk(e.body)
			}
		}
	}
	walk(i.wto)
	return i
}

func valueIndex(fn *ssa.Function) map[ssa.Value]int { return infoOf(fn).index }

func indexOf(fn *ssa.Function) map[ssa.Value]int {
	m := map[ssa.Value]int{retV: -1}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	return m
}

// wtoOf is Bourdoncle's algorithm
func wtoOf(fn *ssa.Function) []*wtoElem {
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	const inf = int(^uint(0) >> 1)
	var stack []*ssa.BasicBlock
	var visit func(v *ssa.BasicBlock, part *[]*wtoElem) int
	component := func(v *ssa.BasicBlock) *wtoElem {
		e := &wtoElem{b: v, comp: true}
		for _, s := range v.Succs {
			if dfn[s] == 0 {
				visit(s, &e.body)
			}
		}
		return e
	}
	visit = func(v *ssa.BasicBlock, part *[]*wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			m := dfn[s]
			if m == 0 {
				m = visit(s, part)
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for top != v {
					dfn[top] = 0
					top = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]*wtoElem{component(v)}, *part...)
			} else {
				*part = append([]*wtoElem{{b: v}}, *part...)
			}
		}
		return head
	}
	var r []*wtoElem
	visit(fn.Blocks[0], &r)
	return r
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

// liveness gives the registers alive at the beginning of a block, its phis aside
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	always := map[ssa.Value]bool{}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if isReg(*op) {
					always[*op] = true
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for again := true; again; {
		again = false
		for k := len(fn.Blocks) - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			l := map[ssa.Value]bool{}
			for v := range always {
				l[v] = true
			}
			for _, s := range b.Succs {
				for v := range live[s] {
					l[v] = true
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for j, e := range p.Edges {
						if s.Preds[j] == b && isReg(e) {
							l[e] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok && !always[v] {
					delete(l, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && isReg(*op) {
						l[*op] = true
					}
				}
			}
			// the phis are defined by the edge
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !always[p] {
					delete(l, p)
				}
			}
			if len(l) != len(live[b]) {
				live[b] = l
				again = true
			}
		}
	}
	return live
}

func compBlocks(e *wtoElem, m map[*ssa.BasicBlock]bool) {
	m[e.b] = true
	for _, b := range e.body {
		compBlocks(b, m)
	}
}

// modesOf finds the integers of a loop head that only take a few constants: the states of an automaton
func modesOf(b *ssa.BasicBlock) (r []*ssa.Phi) {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntT(phi.Type()) {
			continue
		}
		values := map[string]bool{}
		seen := map[*ssa.Phi]bool{}
		var only func(v ssa.Value) bool
		only = func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.Const:
				values[v.String()] = true
				return true
			case *ssa.Phi:
				if seen[v] {
					return true
				}
				seen[v] = true
				for _, e := range v.Edges {
					if !only(e) {
						return false
					}
				}
				return true
			}
			return false
		}
		if only(phi) && len(values) < 9 {
			r = append(r, phi)
		}
	}
	return
}

// unrollTests finds the exits of a loop that compare a value known at its head, a constant apart, with a value the loop doesn't change
func unrollTests(e *wtoElem) []unrollTest {
	in := map[*ssa.BasicBlock]bool{}
	compBlocks(e, in)
	var inv func(v ssa.Value) bool
	inv = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.BinOp:
			if _, ok := v.Y.(*ssa.Const); ok && (v.Op == token.ADD || v.Op == token.SUB) && inv(v.X) {
				return true
			}
		case *ssa.Const:
			return true
		case *ssa.Parameter, *ssa.FreeVar:
			return true
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := v.Call.Args[0]
				if i, ok := a.(ssa.Instruction); !ok || !in[i.Block()] {
					return true
				}
			}
		}
		if i, ok := v.(ssa.Instruction); ok {
			return !in[i.Block()]
		}
		return false
	}
	// vary tells if a value changes in the loop and can be read at its head
	var vary func(v ssa.Value) bool
	vary = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Phi:
			return v.Block() == e.b
		case *ssa.BinOp:
			if v.Op == token.ADD || v.Op == token.SUB {
				if _, ok := v.Y.(*ssa.Const); ok {
					return vary(v.X)
				}
				if _, ok := v.X.(*ssa.Const); ok {
					return vary(v.Y)
				}
			}
		case *ssa.Call:
			if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return vary(v.Call.Args[0])
			}
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return false
			}
			a := v.X
			for {
				f, ok := a.(*ssa.FieldAddr)
				if !ok {
					break
				}
				a = f.X
			}
			switch a.(type) {
			case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
				return inv(a)
			}
		}
		return false
	}
	var r []unrollTest
	for b := range in {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || (in[b.Succs[0]] && in[b.Succs[1]]) {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch c.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		if isIntT(c.X.Type()) {
			if vary(c.X) && inv(c.Y) {
				r = append(r, unrollTest{c.X, c.Y, c})
			} else if vary(c.Y) && inv(c.X) {
				r = append(r, unrollTest{c.Y, c.X, c})
			}
		}
	}
	// a stable order
	idx := indexOf(e.b.Parent())
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if idx[r[j].test] < idx[r[i].test] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	return r
}

var _ types.Type
