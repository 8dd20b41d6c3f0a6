package main

import (
	"fmt"
	"go/types"
)

// SymPtr points at an element (or a field of it) of a slice at a symbolic index.
type SymPtr struct {
	arr    []V
	idx    *Term
	feas   []int64
	fields []int
	et     types.Type // element type
	ft     types.Type // type at the end of the field path
}

// pendStore is a store to a slice at a symbolic index that has not been resolved.
type pendStore struct {
	key *V
	rel *Term // idx - cap
	idx *Term
	arr []V
	v   V
}

func sliceKey(a []V) *V {
	if cap(a) == 0 {
		return nil
	}
	return &a[:cap(a)][cap(a)-1]
}

const maxSymIdx = 1 << 17

func (it *Interp) hasPend(a []V) bool {
	if len(it.pend) == 0 {
		return false
	}
	k := sliceKey(a)
	for _, q := range it.pend {
		if q.key == k {
			return true
		}
	}
	return false
}

// indexAddr resolves &arr[v]: a real pointer, or a SymPtr when the index is symbolic.
func (it *Interp) indexAddr(v V, arr []V, et types.Type) V {
	t, sym := v.P.(*Term)
	if !sym {
		i := int64(v.N)
		if i < 0 || i >= int64(len(arr)) {
			it.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, len(arr)))
		}
		if len(it.pend) > 0 {
			if q := it.findPend(arr, it.tt.Int(i)); q != nil {
				return V{P: &q.v}
			}
		}
		return V{P: &arr[i]}
	}
	in := it.tt.And(it.tt.Le(it.tt.Int(0), t), it.tt.Lt(t, it.tt.Int(int64(len(arr)))))
	if t.big {
		in = it.tt.Lt(t, it.tt.IntG(uint64(len(arr)), GU64))
	}
	if !it.p.branch(in) {
		it.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", len(arr)))
	}
	t = it.p.fold(t)
	if t.op == OConst {
		return it.indexAddr(V{N: uint64(t.c)}, arr, et)
	}
	feas := it.p.values(t)
	if it.raceOn || feas == nil || len(feas) == 1 || t.big {
		return it.indexAddr(V{N: it.p.concretize(t)}, arr, et)
	}
	if len(it.pend) > 0 {
		if q := it.findPend(arr, t); q != nil {
			return V{P: &q.v}
		}
		t = it.p.fold(t)
		if t.op == OConst {
			return it.indexAddr(V{N: uint64(t.c)}, arr, et)
		}
		feas = it.p.values(t)
		if feas == nil {
			return it.indexAddr(V{N: it.p.concretize(t)}, arr, et)
		}
	}
	return V{P: &SymPtr{arr: arr, idx: t, feas: feas, et: et, ft: et}}
}

// findPend returns the latest pending store that the path decides to be at this index.
func (it *Interp) findPend(arr []V, idx *Term) *pendStore {
	k := sliceKey(arr)
	if k == nil {
		return nil
	}
	var rel *Term
	for i := len(it.pend) - 1; i >= 0; i-- {
		q := it.pend[i]
		if q.key != k {
			continue
		}
		if rel == nil {
			rel = it.tt.Sub(idx, it.tt.Int(int64(cap(arr))), GI64)
		}
		if it.p.branch(it.tt.Eq(rel, q.rel)) {
			return q
		}
	}
	return nil
}

// flush resolves every pending store of the slice's backing array.
func (it *Interp) flush(a []V) {
	if len(it.pend) == 0 {
		return
	}
	k := sliceKey(a)
	if k == nil {
		return
	}
	var keep []*pendStore
	for _, q := range it.pend {
		if q.key != k {
			keep = append(keep, q)
			continue
		}
		i := int64(it.p.concretize(q.idx))
		assign(&q.arr[i], q.v)
	}
	it.pend = keep
}

func (it *Interp) elemAt(sp *SymPtr, i int64) *V {
	p := &sp.arr[i]
	for _, f := range sp.fields {
		p = &p.P.(*Agg).e[f]
	}
	return p
}

func sameV(a, b V) bool {
	switch x := a.P.(type) {
	case nil:
		return b.P == nil && a.N == b.N
	case *Term:
		y, ok := b.P.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.P.(*Agg)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !sameV(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case []V:
		y, ok := b.P.([]V)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		if cap(x) == 0 {
			return (x == nil) == (y == nil)
		}
		return sliceKey(x) == sliceKey(y)
	case Iface:
		y, ok := b.P.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameV(x.v, y.v)
	case *V:
		y, ok := b.P.(*V)
		return ok && x == y
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	case *Closure:
		y, ok := b.P.(*Closure)
		return ok && x == y
	case *MapV:
		y, ok := b.P.(*MapV)
		return ok && x == y
	case *ChanV:
		y, ok := b.P.(*ChanV)
		return ok && x == y
	}
	return false
}

func scalarType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return typeInfo(t).c == cInt || typeInfo(t).c == cBool || typeInfo(t).c == cFloat
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// load reads through a symbolic pointer: scalars are merged into a table or a selection,
// anything else forks over the classes of indices that hold the same value.
func (it *Interp) load(sp *SymPtr) V {
	same := true
	first := it.elemAt(sp, sp.feas[0])
	for _, i := range sp.feas[1:] {
		if !sameV(*first, *it.elemAt(sp, i)) {
			same = false
			break
		}
	}
	if same {
		return copyV(*first)
	}
	if scalarType(sp.ft) {
		vs := make([]V, len(sp.feas))
		for k, i := range sp.feas {
			vs[k] = *it.elemAt(sp, i)
		}
		return it.mergeVals(sp, vs, sp.ft)
	}
	var reps []V
	lo, hi := sp.feas[0], sp.feas[0]
	for _, i := range sp.feas {
		if i < lo {
			lo = i
		}
		if i > hi {
			hi = i
		}
	}
	cl := make([]int64, hi-lo+1)
	for _, i := range sp.feas {
		v := *it.elemAt(sp, i)
		c := -1
		for k := range reps {
			if sameV(reps[k], v) {
				c = k
				break
			}
		}
		if c < 0 {
			c = len(reps)
			reps = append(reps, v)
		}
		cl[i-lo] = int64(c)
	}
	k := it.p.concretize(it.tt.Tab(sp.idx, lo, cl))
	return copyV(reps[k])
}

func (it *Interp) mergeVals(sp *SymPtr, vs []V, t types.Type) V {
	if st, ok := t.Underlying().(*types.Struct); ok {
		a := &Agg{e: make([]V, st.NumFields())}
		fv := make([]V, len(vs))
		for f := range a.e {
			for i := range vs {
				fv[i] = vs[i].P.(*Agg).e[f]
			}
			a.e[f] = it.mergeVals(sp, fv, st.Field(f).Type())
		}
		return V{P: a}
	}
	ti := typeInfo(t)
	conc, same := true, true
	for i := range vs {
		if vs[i].P != nil {
			conc = false
		}
		if i > 0 && !sameV(vs[0], vs[i]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if conc && ti.c == cInt && ti.gk != GU64 {
		lo, hi := sp.feas[0], sp.feas[0]
		for _, i := range sp.feas {
			if i < lo {
				lo = i
			}
			if i > hi {
				hi = i
			}
		}
		tab := make([]int64, hi-lo+1)
		for i := range tab {
			tab[i] = int64(vs[0].N)
		}
		for k, i := range sp.feas {
			tab[i-lo] = int64(vs[k].N)
		}
		return it.val(it.tt.Tab(sp.idx, lo, tab))
	}
	out := it.term(vs[0], ti)
	for k := 1; k < len(vs); k++ {
		out = it.tt.Ite(it.tt.Eq(sp.idx, it.tt.Int(sp.feas[k])), it.term(vs[k], ti), out)
	}
	return it.val(out)
}

// store writes through a symbolic pointer by recording a pending store.
func (it *Interp) store(sp *SymPtr, v V) {
	whole := v
	if len(sp.fields) > 0 {
		base := &SymPtr{arr: sp.arr, idx: sp.idx, feas: sp.feas, et: sp.et, ft: sp.et}
		whole = it.load(base)
		p := &whole
		for _, f := range sp.fields {
			p = &p.P.(*Agg).e[f]
		}
		assign(p, v)
	}
	t := it.p.fold(sp.idx)
	if t.op == OConst {
		assign(&sp.arr[t.c], whole)
		return
	}
	q := &pendStore{key: sliceKey(sp.arr), rel: it.tt.Sub(t, it.tt.Int(int64(cap(sp.arr))), GI64), idx: t, arr: sp.arr, v: copyV(whole)}
	it.pend = append(it.pend, q)
}

// values lists the values the term can have on this path, or nil when unknown.
func (p *Path) values(t *Term) []int64 {
	g := p.join(t)
	if g == nil {
		if t.hi-t.lo < 4096 && !t.big {
			var o []int64
			for v := t.lo; v <= t.hi; v++ {
				o = append(o, v)
			}
			return o
		}
		return nil
	}
	col := g.colAt(p, t, g.alive)
	if col.isC {
		return []int64{int64(col.c)}
	}
	seen := map[int64]bool{}
	var o []int64
	for _, i := range g.alive {
		v := int64(col.v[i])
		if !seen[v] {
			seen[v] = true
			o = append(o, v)
			if len(o) > maxSymIdx {
				return nil
			}
		}
	}
	return o
}
