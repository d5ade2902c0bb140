package main

import (
	"go/types"
	"sort"
)

func (s *State) ge(a, b Lin) bool { return s.num.entailsGE(a.sub(b)) } // a >= b
func (s *State) gt(a, b Lin) bool { return s.num.entailsGE(a.sub(b).addC(-1)) }
func (s *State) eqL(a, b Lin) bool {
	return s.num.entailsEQ(a.sub(b))
}

// readElem returns the element idx of an array
func (s *State) readElem(obj int, idx Lin) Val { return s.readElemD(obj, idx, 0) }

func (s *State) readElemD(obj int, idx Lin, depth int) Val {
	o := s.objs[obj]
	a := o.arr
	if a.isLit {
		i := s.num.norm(idx)
		if i.isConst() && i.c >= 0 && i.c < int64(len(a.lit)) {
			return intC(int64(a.lit[i.c]))
		}
		for _, f := range a.facts {
			if f.k == fPt && s.eqL(f.lo, idx) {
				return f.v
			}
		}
		v := s.freshByte("ch")
		var set ByteSet
		for k := 0; k < len(a.lit); k++ {
			if s.num.entailsNE(idx.addC(int64(-k))) {
				continue
			}
			set.set(int(a.lit[k]))
		}
		s.num.addSet(v.e, set)
		return v
	}
	for _, f := range a.facts {
		if f.k == fPt && s.eqL(f.lo, idx) {
			if depth == 0 && !a.content {
				s.applyOrder(a, idx, f.v)
			}
			return f.v
		}
	}
	if depth < 8 {
		for _, f := range a.facts {
			if f.k == fSeg && s.ge(idx, f.lo) && s.gt(f.hi, idx) {
				v := s.readElemD(f.src, idx.add(f.delta), depth+1)
				s.applySets(a, idx, v)
				return v
			}
		}
	}
	var v Val
	if a.zero {
		only := true
		for _, f := range a.facts {
			if f.k != fPt || !s.num.entailsNE(f.lo.sub(idx)) {
				if f.k == fSet && f.set == rangeSet(0, 0) {
					continue
				}
				only = false
			}
		}
		if only && !a.hasTmpl {
			v = s.zeroVal(o.typ)
			s.addFact(obj, Fact{k: fPt, lo: idx, hi: idx.addC(1), v: v})
			return v
		}
	}
	v = s.instTmpl(o, a)
	s.applySets(a, idx, v)
	if iv, ok := v.(IntV); ok && isByte(o.typ) && len(a.facts) > 1 {
		// one of the pieces
		if b := s.bytesIn(obj, konst(0), a.n, 0); b != allBytes {
			s.num.addSet(iv.e, b)
		}
	}
	s.applyOrder(a, idx, v)
	s.addFact(obj, Fact{k: fPt, lo: idx, hi: idx.addC(1), v: v})
	return v
}

// applyOrder adds to the value of an element what the ordered ranges say
func (s *State) applyOrder(a *Arr, idx Lin, v Val) {
	iv, ok := v.(IntV)
	if !ok {
		return
	}
	for _, f := range a.facts {
		if f.k != fSorted && f.k != fMin && f.k != fMax || !(s.ge(idx, f.lo) && s.gt(f.hi, idx)) {
			continue
		}
		switch f.k {
		case fMin:
			s.num.addGE(iv.e.sub(f.delta))
			continue
		case fMax:
			s.num.addGE(f.delta.sub(iv.e))
			continue
		}
		for _, p := range a.facts {
			if p.k != fPt || !(s.ge(p.lo, f.lo) && s.gt(f.hi, p.lo)) {
				continue
			}
			pv, ok := p.v.(IntV)
			if !ok {
				continue
			}
			d := idx.sub(p.lo)
			switch {
			case s.num.entailsGE(d): // idx >= p: v - pv >= g*d
				s.num.addGE(iv.e.sub(pv.e).sub(d.scale(f.g)))
			case s.num.entailsGE(d.neg()):
				s.num.addGE(pv.e.sub(iv.e).add(d.scale(f.g)))
			}
		}
	}
}

func (s *State) applySets(a *Arr, idx Lin, v Val) {
	iv, ok := v.(IntV)
	if !ok {
		return
	}
	for _, f := range a.facts {
		if f.k == fSet && s.ge(idx, f.lo) && s.gt(f.hi, idx) {
			s.num.addSet(iv.e, f.set)
		}
	}
}

// instTmpl returns an element of which only the templates are known
func (s *State) instTmpl(o *Obj, a *Arr) Val {
	if !a.hasTmpl {
		v := s.fresh(o.typ, "el")
		return v
	}
	if len(a.tmpl) == 1 && !a.zero {
		if iv, ok := a.tmpl[0].(IfaceV); ok {
			return IfaceV{iv.typ, s.fresh(iv.typ, "el")}
		}
		if _, ok := a.tmpl[0].(NilV); ok {
			return NilV{}
		}
	}
	if isIface(o.typ) && !a.zero {
		for _, t := range a.tmpl {
			switch t := t.(type) {
			case IfaceV:
			case UnkV:
				if !t.nonnil {
					return s.fresh(o.typ, "el")
				}
			default:
				return s.fresh(o.typ, "el")
			}
		}
		return newUnk(o.typ, true)
	}
	return s.fresh(o.typ, "el")
}

// template forgets everything of an element but its shape
func (s *State) template(v Val) Val {
	switch v := s.resolve(v).(type) {
	case IfaceV:
		return IfaceV{v.typ, nil}
	case NilV:
		return v
	case UnkV:
		return UnkV{0, v.typ, v.nonnil}
	case IntV, BoolV, StrV:
		return IntV{}
	}
	return UnkV{}
}

func tmplKey(v Val) string {
	switch v := v.(type) {
	case IfaceV:
		return "i" + types.TypeString(v.typ, nil)
	case NilV:
		return "nil"
	case UnkV:
		if v.nonnil {
			return "U"
		}
		return "u"
	}
	return "o"
}

func addTmpl(l []Val, v Val) []Val {
	k := tmplKey(v)
	for _, o := range l {
		if tmplKey(o) == k {
			return l
		}
	}
	return append(append([]Val(nil), l...), v)
}

func (s *State) addFact(obj int, f Fact) {
	a := s.arr(obj).clone()
	if f.k != fPt && s.ge(f.lo, f.hi) {
		return // empty
	}
	// merge with an adjacent one
	for i, o := range a.facts {
		if o.k != f.k {
			continue
		}
		switch f.k {
		case fSeg:
			if o.src == f.src && s.eqL(o.delta, f.delta) {
				if s.eqL(o.hi, f.lo) {
					a.facts[i].hi = f.hi
					s.setArr(obj, a)
					return
				}
				if s.eqL(f.hi, o.lo) {
					a.facts[i].lo = f.lo
					s.setArr(obj, a)
					return
				}
				if s.ge(f.lo, o.lo) && s.ge(o.hi, f.hi) {
					return
				}
			}
		case fSet:
			if o.set == f.set {
				if s.eqL(o.hi, f.lo) {
					a.facts[i].hi = f.hi
					s.setArr(obj, a)
					return
				}
				if s.eqL(f.hi, o.lo) {
					a.facts[i].lo = f.lo
					s.setArr(obj, a)
					return
				}
				if s.ge(f.lo, o.lo) && s.ge(o.hi, f.hi) {
					return
				}
			}
		case fPt:
			if s.eqL(o.lo, f.lo) {
				a.facts[i].v = f.v
				s.setArr(obj, a)
				return
			}
		}
	}
	a.facts = append(a.facts, f)
	s.setArr(obj, a)
}

// writeKill forgets what is known about [lo,hi) of a mutable array
func (s *State) writeKill(obj int, lo, hi Lin) {
	if s.ge(lo, hi) {
		return
	}
	a := s.arr(obj)
	if a.content {
		panic("write in an immutable content")
	}
	n := a.clone()
	n.facts = nil
	if a.zero {
		l, h := s.num.norm(lo), s.num.norm(hi)
		switch {
		case isByte(s.objs[obj].typ):
			n.zero = false
			a = a.clone()
			a.facts = append(a.facts, Fact{k: fSet, lo: konst(0), hi: a.n, set: rangeSet(0, 0)})
		case !l.isConst() || !h.isConst():
			n.zero, n.hasTmpl, n.tmpl = false, false, nil
		}
	}
	for _, f := range a.facts {
		// untouched?
		if s.ge(f.lo, hi) || s.ge(lo, f.hi) {
			n.facts = append(n.facts, f)
			continue
		}
		if f.k == fPt {
			if n.hasTmpl && !(s.ge(f.lo, lo) && s.ge(hi, f.hi)) {
				n.tmpl = addTmpl(n.tmpl, s.template(f.v))
			}
			continue
		}
		if s.ge(f.hi, lo) { // keep [f.lo, lo)
			l := f
			l.hi = lo
			if !s.ge(l.lo, l.hi) {
				n.facts = append(n.facts, l)
			}
		}
		if s.ge(hi, f.lo) { // keep [hi, f.hi)
			r := f
			r.lo = hi
			if !s.ge(r.lo, r.hi) {
				n.facts = append(n.facts, r)
			}
		}
	}
	s.setArr(obj, n)
}

// clearRange makes elements zero
func (s *State) clearRange(obj int, lo, hi Lin) {
	s.writeKill(obj, lo, hi)
	o := s.objs[obj]
	if isByte(o.typ) {
		s.addFact(obj, Fact{k: fSet, lo: lo, hi: hi, set: rangeSet(0, 0)})
		return
	}
	if a := s.arr(obj); a.hasTmpl {
		n := a.clone()
		n.tmpl = addTmpl(n.tmpl, s.template(s.zeroVal(o.typ)))
		s.setArr(obj, n)
	}
}

// writeElem stores an element
func (s *State) writeElem(obj int, idx Lin, v Val) {
	a := s.arr(obj)
	// a byte set over the range survives a value of the set, sorted ranges are extended lazily
	var keep []Fact
	if iv, ok := v.(IntV); ok {
		for _, f := range a.facts {
			if f.k == fSet {
				if vs, ok := s.num.setOf(iv.e); ok && vs.subset(f.set) {
					keep = append(keep, f)
				}
			}
		}
	}
	s.writeKill(obj, idx, idx.addC(1))
	for _, f := range keep {
		n := s.arr(obj).clone()
		var fs []Fact
		for _, g := range n.facts {
			if g.k == fSet && g.set == f.set && s.ge(g.lo, f.lo) && s.ge(f.hi, g.hi) {
				continue
			}
			fs = append(fs, g)
		}
		n.facts = append(fs, f)
		s.setArr(obj, n)
	}
	if src, at, ok := s.originOf(v); ok {
		// a byte copied from a content
		s.addFact(obj, Fact{k: fSeg, lo: idx, hi: idx.addC(1), src: src, delta: at.sub(idx)})
		return
	}
	s.addFact(obj, Fact{k: fPt, lo: idx, hi: idx.addC(1), v: v})
}

// originOf finds the only content that has v as an element
func (s *State) originOf(v Val) (src int, at Lin, ok bool) {
	iv, isInt := v.(IntV)
	if !isInt || iv.e.isConst() {
		return
	}
	for id, o := range s.objs {
		if o == nil || o.kind != kArr || !o.arr.content || o.arr.isLit {
			continue
		}
		for _, f := range o.arr.facts {
			if g, is := f.v.(IntV); f.k == fPt && is && g.e.eq(iv.e) {
				if ok {
					return 0, Lin{}, false
				}
				src, at, ok = id, f.lo, true
			}
		}
	}
	return
}

// clip restricts a fact to [lo,hi)
func (s *State) clip(f Fact, lo, hi Lin) (Fact, bool) {
	if s.ge(f.lo, hi) || s.ge(lo, f.hi) {
		return f, false
	}
	if f.k == fPt {
		return f, s.ge(f.lo, lo) && s.ge(hi, f.hi)
	}
	switch {
	case s.ge(f.lo, lo):
	case s.ge(lo, f.lo):
		f.lo = lo
	default:
		return f, false
	}
	switch {
	case s.ge(hi, f.hi):
	case s.ge(f.hi, hi):
		f.hi = hi
	default:
		return f, false
	}
	return f, !s.ge(f.lo, f.hi)
}

// factsOf returns what is known of [lo,lo+n) of an array, moved by shift
func (s *State) factsOf(obj int, lo, n, shift Lin) []Fact {
	a := s.arr(obj)
	hi := lo.add(n)
	if a.content && (a.isLit || a.desc != nil || !s.covered(a, lo, hi)) {
		// an immutable content: refer to it
		return []Fact{{k: fSeg, lo: lo.add(shift), hi: hi.add(shift), src: obj, delta: shift.neg()}}
	}
	var r []Fact
	for _, f := range a.facts {
		if g, ok := s.clip(f, lo, hi); ok {
			g.lo = g.lo.add(shift)
			g.hi = g.hi.add(shift)
			if g.k == fSeg {
				g.delta = g.delta.sub(shift)
			}
			r = append(r, g)
		}
	}
	// what a sorted range says of the part that is kept
	for _, f := range a.facts {
		if f.k != fSorted || !s.ge(lo, f.lo) || !s.ge(f.hi, hi) {
			continue
		}
		for _, p := range a.facts {
			iv, ok := p.v.(IntV)
			if p.k != fPt || !ok || !s.ge(p.lo, f.lo) || !s.gt(f.hi, p.lo) {
				continue
			}
			if d := s.num.norm(lo.sub(p.lo)); d.isConst() && d.c > 0 && d.c <= 3 {
				r = append(r, Fact{k: fMin, lo: lo.add(shift), hi: hi.add(shift), delta: iv.e.addC(d.c * f.g)})
			}
			if d := s.num.norm(p.lo.sub(hi)); d.isConst() && d.c >= 0 && d.c <= 3 {
				r = append(r, Fact{k: fMax, lo: lo.add(shift), hi: hi.add(shift), delta: iv.e.addC(-(d.c + 1) * f.g)})
			}
		}
	}
	return r
}

// boundedIn tells whether the elements of a range are at least (at most) v
func (s *State) boundedIn(obj int, lo, hi Lin, k factKind, v Lin) bool {
	if s.ge(lo, hi) {
		return true
	}
	a := s.arr(obj)
	if k == fMin && a.zero && len(a.facts) == 0 && !a.hasTmpl {
		return s.ge(konst(0), v)
	}
	for _, f := range a.facts {
		if f.k == k && s.ge(lo, f.lo) && s.ge(f.hi, hi) {
			if k == fMin && s.ge(f.delta, v) || k == fMax && s.ge(v, f.delta) {
				return true
			}
		}
		if f.k == fPt && s.eqL(f.lo, lo) && s.ge(f.hi, hi) {
			if iv, ok := f.v.(IntV); ok {
				if k == fMin && s.ge(iv.e, v) || k == fMax && s.ge(v, iv.e) {
					return true
				}
			}
		}
		if f.k == fPt && f.lo.addC(1).eq(hi) && !f.lo.eq(lo) {
			if iv, ok := f.v.(IntV); ok && (k == fMin && s.ge(iv.e, v) || k == fMax && s.ge(v, iv.e)) && s.boundedIn(obj, lo, f.lo, k, v) {
				return true
			}
		}
		if f.k != fSorted {
			continue
		}
		for _, p := range a.facts {
			iv, ok := p.v.(IntV)
			if p.k != fPt || !ok || !s.ge(p.lo, f.lo) || !s.gt(f.hi, p.lo) {
				continue
			}
			if k == fMin && s.ge(f.hi, hi) && s.ge(lo, p.lo) && s.ge(iv.e.add(lo.sub(p.lo).scale(f.g)), v) {
				return true
			}
			if k == fMax && s.ge(lo, f.lo) && s.ge(p.hi, hi) && s.ge(v, iv.e.sub(p.hi.sub(hi).scale(f.g))) {
				return true
			}
		}
	}
	return false
}

// covered tells whether segments and points describe the whole range
func (s *State) covered(a *Arr, lo, hi Lin) bool {
	pos := lo
	for i := 0; i < 40; i++ {
		if s.ge(pos, hi) {
			return true
		}
		next, ok := s.factAt(a, pos, nil)
		if !ok {
			return false
		}
		pos = next.hi
	}
	return false
}

// factAt returns a segment (or a point, or a constant fill) that begins at or contains pos
func (s *State) factAt(a *Arr, pos Lin, skip map[int]bool) (Fact, bool) {
	for i, f := range a.facts {
		if skip[i] {
			continue
		}
		if (f.k == fSeg || f.k == fPt) && s.eqL(f.lo, pos) {
			return f, true
		}
	}
	for i, f := range a.facts {
		if skip[i] {
			continue
		}
		if f.k == fSeg && s.ge(pos, f.lo) && s.gt(f.hi, pos) {
			g := f
			g.lo = pos
			return g, true
		}
	}
	return Fact{}, false
}

// copyRange copies n elements between arrays (memmove semantics)
func (s *State) copyRange(dst int, dlo Lin, src int, slo, n Lin) {
	fs := s.factsOf(src, slo, n, dlo.sub(slo))
	s.writeKill(dst, dlo, dlo.add(n))
	for _, f := range fs {
		s.addFact(dst, f)
	}
	sa, da := s.arr(src), s.arr(dst)
	if sa.hasTmpl || sa.zero || da.hasTmpl {
		s.mergeTmpl(dst, sa)
	}
}

// mergeTmpl: elements of unknown provenance now may be those of sa
func (s *State) mergeTmpl(dst int, sa *Arr) {
	d := s.arr(dst).clone()
	if !sa.hasTmpl && !sa.zero && !sa.content {
		// nothing is known of what is copied but its facts
		return
	}
	if sa.hasTmpl {
		for _, t := range sa.tmpl {
			d.tmpl = addTmpl(d.tmpl, t)
		}
		d.hasTmpl = true
	}
	if sa.zero {
		d.zero = true
	}
	s.setArr(dst, d)
}

// strOfBytes converts a slice of bytes to a string
func (s *State) strOfBytes(v SliceV) StrV {
	a := s.arr(v.obj)
	for _, f := range a.facts {
		if f.k == fSeg && s.ge(v.off, f.lo) && s.ge(f.hi, v.off.add(v.len)) && !s.hasOverride(a, v.off, v.off.add(v.len)) {
			// what is known of the bytes is known of those of the source
			for _, g := range a.facts {
				if g.k == fSet && s.ge(g.lo, f.lo) && s.ge(f.hi, g.hi) {
					s.addSetRange(f.src, g.lo.add(f.delta), g.hi.add(f.delta), g.set, 1)
				}
			}
			return StrV{f.src, v.off.add(f.delta), v.len}
		}
	}
	if a.content {
		return StrV{v.obj, v.off, v.len}
	}
	fs := s.factsOf(v.obj, v.off, v.len, v.off.neg())
	id := s.newContent(v.len, nil, types.Typ[types.Byte])
	for _, f := range fs {
		s.addFact(id, f)
	}
	return StrV{id, konst(0), v.len}
}

// hasOverride: byte facts that a segment would hide
func (s *State) hasOverride(a *Arr, lo, hi Lin) bool { return false }

// bytesOfStr converts a string to a new slice of bytes
func (s *State) bytesOfStr(v StrV) SliceV {
	id := s.newObj(&Obj{kind: kArr, typ: types.Typ[types.Byte], arr: &Arr{n: v.len}, name: "[]byte(string)"})
	for _, f := range s.factsOf(v.obj, v.off, v.len, v.off.neg()) {
		s.addFact(id, f)
	}
	return SliceV{id, konst(0), v.len, v.len}
}

// concat returns the concatenation of strings
func (s *State) concat(vs ...StrV) StrV {
	if len(vs) == 1 {
		return vs[0]
	}
	n := konst(0)
	lit, isLit := "", true
	for _, v := range vs {
		n = n.add(v.len)
		if l, ok := s.litOf(v); ok && isLit {
			lit += l
		} else {
			isLit = false
		}
	}
	if isLit {
		return s.litStr(lit)
	}
	id := s.newContent(n, nil, types.Typ[types.Byte])
	pos := konst(0)
	for _, v := range vs {
		for _, f := range s.factsOf(v.obj, v.off, v.len, pos.sub(v.off)) {
			s.addFact(id, f)
		}
		pos = pos.add(v.len)
	}
	return StrV{id, konst(0), n}
}

// litKnown is litOf for short contents too, all the bytes of which are known
func (s *State) litKnown(v StrV) (string, bool) {
	if l, ok := s.litOf(v); ok {
		return l, true
	}
	n := s.num.norm(v.len)
	if !n.isConst() || n.c > 20 || n.c < 0 {
		return "", false
	}
	b := make([]byte, n.c)
	for i := range b {
		w, _ := s.knownAt(v.obj, v.off.addC(int64(i)), 0)
		iv, ok := w.(IntV)
		if !ok {
			return "", false
		}
		k := s.num.norm(iv.e)
		if !k.isConst() || k.c < 0 || k.c > 255 {
			return "", false
		}
		b[i] = byte(k.c)
	}
	return string(b), true
}

// litOf returns the constant a string is
func (s *State) litOf(v StrV) (string, bool) {
	n := s.num.norm(v.len)
	if n.isConst() && n.c == 0 {
		return "", true
	}
	a := s.arr(v.obj)
	off := s.num.norm(v.off)
	if !a.isLit || !off.isConst() || !n.isConst() {
		return "", false
	}
	if off.c < 0 || off.c+n.c > int64(len(a.lit)) || n.c < 0 {
		return "", false
	}
	return a.lit[off.c : off.c+n.c], true
}

// setsOver returns the set all the bytes of [lo,hi) are in
func (s *State) bytesIn(obj int, lo, hi Lin, depth int) ByteSet {
	if s.ge(lo, hi) {
		return ByteSet{}
	}
	a := s.arr(obj)
	if a.isLit {
		var b ByteSet
		for i := 0; i < len(a.lit); i++ {
			k := konst(int64(i))
			if s.gt(lo, k) || s.ge(k, hi) {
				continue
			}
			b.set(int(a.lit[i]))
		}
		return b
	}
	r := allBytes
	for _, f := range a.facts {
		if f.k == fSet && s.ge(lo, f.lo) && s.ge(f.hi, hi) {
			r = r.and(f.set)
		}
	}
	if depth > 6 {
		return r
	}
	// piecewise
	u := ByteSet{}
	pos := lo
	for i := 0; i < 60; i++ {
		if s.ge(pos, hi) {
			return r.and(u)
		}
		f, ok := s.pieceAt(a, pos)
		if !ok {
			return r
		}
		end := f.hi
		if !s.ge(hi, end) {
			if !s.ge(end, hi) {
				return r
			}
			end = hi
		}
		switch f.k {
		case fSeg:
			u = u.or(s.bytesIn(f.src, pos.add(f.delta), end.add(f.delta), depth+1))
		case fSet:
			u = u.or(f.set)
		case fPt:
			iv, ok := f.v.(IntV)
			if !ok {
				return r
			}
			b, _ := s.num.setOf(iv.e)
			u = u.or(b)
		}
		pos = end
	}
	return r
}

// pieceAt is factAt that also uses byte sets
func (s *State) pieceAt(a *Arr, pos Lin) (Fact, bool) {
	if f, ok := s.factAt(a, pos, nil); ok {
		return f, true
	}
	for _, f := range a.facts {
		if f.k == fSet && s.ge(pos, f.lo) && s.gt(f.hi, pos) {
			f.lo = pos
			return f, true
		}
	}
	for _, f := range a.facts {
		if f.k == fSet && s.eqL(pos, f.lo) {
			return f, true
		}
	}
	return Fact{}, false
}

// saturate extends range facts with the points next to them (before a join forgets the points)
func (s *State) saturate(obj int) {
	o := s.objs[obj]
	if o == nil || o.arr == nil || o.arr.isLit {
		return
	}
	byteLike := isByte(o.typ)
	if !byteLike && !isIntT(o.typ) {
		return
	}
	var pts []Fact
	if byteLike {
		s.setPts(obj, konst(0), o.arr.n, konst(0), 0, &pts)
	}
	for again, n := true, 0; again && n < 20; n++ {
		again = false
		a := s.arr(obj)
		for i, f := range a.facts {
			switch f.k {
			case fSet:
				for _, p := range pts {
					if s.eqL(p.lo, f.hi) || s.eqL(p.hi, f.lo) {
						if p.set.subset(f.set) {
							na := a.clone()
							if s.eqL(p.lo, f.hi) {
								na.facts[i].hi = p.hi
							} else {
								na.facts[i].lo = p.lo
							}
							s.setArr(obj, na)
							again = true
							break
						}
					}
				}
			case fSorted:
				last, ok := s.ptAt(a, f.hi.addC(-1))
				next, ok2 := s.ptAt(a, f.hi)
				if ok && ok2 && s.ge(next.e, last.e.addC(f.g)) {
					na := a.clone()
					na.facts[i].hi = f.hi.addC(1)
					s.setArr(obj, na)
					again = true
				}
			}
			if again {
				break
			}
		}
	}
	if byteLike && !o.arr.content {
		// a first set, of one byte
		for _, p := range pts {
			if p.g == 1 {
				continue
			}
			in := false
			for _, f := range s.arr(obj).facts {
				if f.k == fSet && s.ge(p.lo, f.lo) && s.ge(f.hi, p.hi) {
					in = true
				}
			}
			if !in {
				s.addFact(obj, Fact{k: fSet, lo: p.lo, hi: p.hi, set: p.set})
			}
		}
	}
	if !byteLike && !o.arr.content {
		// a first sorted range from adjacent points
		a := s.arr(obj)
		for _, f := range a.facts {
			if f.k == fSorted {
				return
			}
		}
		for _, p := range a.facts {
			if p.k != fPt {
				continue
			}
			q, ok := s.ptAt(a, p.hi)
			if !ok {
				continue
			}
			pv, ok := p.v.(IntV)
			if ok && s.ge(q.e, pv.e.addC(1)) {
				s.addFact(obj, Fact{k: fSorted, lo: p.lo, hi: p.lo.addC(2), g: 1})
				s.saturate(obj)
				return
			}
		}
	}
}

func (s *State) saturateAll() {
	ids := make([]int, 0, len(s.objs))
	for id, o := range s.objs {
		if id > baseObj && o.kind == kArr {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		s.saturate(id)
	}
}

func (s *State) ptAt(a *Arr, idx Lin) (IntV, bool) {
	for _, f := range a.facts {
		if f.k == fPt && s.eqL(f.lo, idx) {
			v, ok := f.v.(IntV)
			return v, ok
		}
	}
	return IntV{}, false
}

// setPts appends the single bytes of [lo,hi), of which a set of values is known, moved by shift
// (g tells a constant)
func (s *State) setPts(obj int, lo, hi, shift Lin, depth int, r *[]Fact) {
	a := s.arr(obj)
	if a.isLit {
		return
	}
	for _, f := range a.facts {
		switch f.k {
		case fPt:
			iv, ok := f.v.(IntV)
			if !ok || depth > 0 && !(s.ge(f.lo, lo) && s.gt(hi, f.lo)) {
				continue
			}
			b, ok := s.num.setOf(iv.e)
			if !ok || b == allBytes {
				continue
			}
			p := Fact{k: fSet, lo: f.lo.add(shift), hi: f.hi.add(shift), set: b}
			if s.num.norm(iv.e).isConst() {
				p.g = 1
			}
			*r = append(*r, p)
		case fSeg:
			if depth < 1 {
				s.setPts(f.src, f.lo.add(f.delta), f.hi.add(f.delta), f.delta.neg(), depth+1, r)
			}
		}
	}
}

// settle draws what follows from the single elements and the ranges of an array that can't overlap:
// an element whose value is in no way in the set of a range is outside of it
func (s *State) settle(obj int, sym Sym) {
	o := s.objs[obj]
	if o == nil || o.arr == nil || o.arr.isLit || !isByte(o.typ) {
		return
	}
	a := o.arr
	type pt struct {
		f Fact
		b ByteSet
		x bool // of interest
	}
	var pts []pt
	ranges := false
	for _, f := range a.facts {
		switch f.k {
		case fPt:
			if iv, ok := f.v.(IntV); ok {
				b, _ := s.num.setOf(iv.e)
				pts = append(pts, pt{f, b, sym < 0 || len(iv.e.t) == 1 && iv.e.t[0].s == sym})
			}
		case fSet, fSeg:
			ranges = true
		}
	}
	if len(pts) == 0 {
		return
	}
	for n := 0; n < 2; n++ {
		for i, p := range pts {
			for _, q := range pts[:i] {
				if (p.x || q.x) && p.b != allBytes && q.b != allBytes && p.b.and(q.b).empty() {
					if s.num.addNE(p.f.lo.sub(q.f.lo)); s.num.bot {
						return
					}
				}
			}
		}
		if !ranges {
			return
		}
		for _, f := range a.facts {
			if f.k != fSet && f.k != fSeg {
				continue
			}
			set := f.set
			if f.k == fSeg {
				set = s.bytesIn(f.src, f.lo.add(f.delta), f.hi.add(f.delta), 1)
			}
			if set == allBytes {
				continue
			}
			for i, p := range pts {
				if !p.x || p.b.subset(set) {
					continue
				}
				from := s.ge(p.f.lo, f.lo)
				to := s.gt(f.hi, p.f.lo)
				switch {
				case from && to:
					if iv := p.f.v.(IntV); !iv.e.isConst() {
						s.num.addSet(iv.e, set)
						pts[i].b, _ = s.num.setOf(iv.e)
					} else if p.b.and(set).empty() {
						s.num.bot = true
					}
				case !p.b.and(set).empty():
				case from:
					s.num.addGE(p.f.lo.sub(f.hi))
				case to:
					s.num.addGE(f.lo.sub(p.f.lo).addC(-1))
				}
				if s.num.bot {
					return
				}
			}
		}
	}
}

// settleAll settles the arrays one element of which is a value (all, for a negative one)
func (s *State) settleAll(sym Sym, all bool) {
	ids := make([]int, 0, len(s.objs))
	for id, o := range s.objs {
		if id <= baseObj || o.kind != kArr || o.arr == nil || o.arr.isLit || !isByte(o.typ) {
			continue
		}
		if sym < 0 {
			if !o.arr.content || all {
				ids = append(ids, id)
			}
			continue
		}
		for _, f := range o.arr.facts {
			if f.k == fPt {
				if iv, ok := f.v.(IntV); ok && len(iv.e.t) == 1 && iv.e.t[0].s == sym {
					ids = append(ids, id)
					break
				}
			}
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		if s.settle(id, sym); s.num.bot {
			return
		}
	}
}

// settleFor settles what a condition on a byte tells
func (s *State) settleFor(c Cond) {
	if c.op != cGE && c.op != cEQ && c.op != cNE || len(c.e.t) != 1 {
		return
	}
	if b, ok := s.num.setOf(symL(c.e.t[0].s)); ok && b != allBytes {
		s.settleAll(c.e.t[0].s, false)
	}
}
