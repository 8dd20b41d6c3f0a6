package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// V is a runtime value: a concrete scalar in N (P == nil), or P holds a *Term (symbolic
// scalar), *V (pointer), *Agg, []V (slice), string, Iface, *Closure, *MapV, *ChanV, Tup.
type V struct {
	N uint64
	P any
}
type Agg struct{ e []V }
type Tup []V
type Iface struct {
	t types.Type
	v V
}
type Closure struct {
	fn     *ssa.Function
	env    []V
	native func(it *Interp, g *G, args []V) V
	name   string
}
type MapV struct {
	keys []V
	vals []V
	kt   types.Type
}
type ChanV struct {
	buf    []V
	vcs    [][]int
	cap    int
	closed bool
	cvc    []int
	recvq  int // waiting receivers (unbuffered)
}

type cls uint8

const (
	cOther cls = iota
	cInt
	cBool
	cFloat
	cString
)

type tinfo struct {
	c  cls
	gk GK
	fk Kind
}

func typeInfo(t types.Type) tinfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tinfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{c: cBool}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{c: cInt, gk: GI64}
	case types.Int8:
		return tinfo{c: cInt, gk: GI8}
	case types.Int16:
		return tinfo{c: cInt, gk: GI16}
	case types.Int32, types.UntypedRune:
		return tinfo{c: cInt, gk: GI32}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{c: cInt, gk: GU64}
	case types.Uint8:
		return tinfo{c: cInt, gk: GU8}
	case types.Uint16:
		return tinfo{c: cInt, gk: GU16}
	case types.Uint32:
		return tinfo{c: cInt, gk: GU32}
	case types.Float64, types.UntypedFloat:
		return tinfo{c: cFloat, fk: KF64}
	case types.Float32:
		return tinfo{c: cFloat, fk: KF32}
	case types.String, types.UntypedString:
		return tinfo{c: cString}
	}
	return tinfo{}
}

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return V{P: ""}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return V{P: (*V)(nil)}
		}
		return V{}
	case *types.Struct:
		a := &Agg{e: make([]V, u.NumFields())}
		for i := range a.e {
			a.e[i] = zero(u.Field(i).Type())
		}
		return V{P: a}
	case *types.Array:
		a := &Agg{e: make([]V, u.Len())}
		for i := range a.e {
			a.e[i] = zero(u.Elem())
		}
		return V{P: a}
	case *types.Slice:
		return V{P: []V(nil)}
	case *types.Pointer:
		return V{P: (*V)(nil)}
	case *types.Interface:
		return V{P: Iface{}}
	case *types.Signature:
		return V{P: (*Closure)(nil)}
	case *types.Map:
		return V{P: (*MapV)(nil)}
	case *types.Chan:
		return V{P: (*ChanV)(nil)}
	case *types.Tuple:
		tu := make(Tup, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return V{P: tu}
	}
	panic(unsupported("zero of %v", t))
}

func copyV(v V) V {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{e: make([]V, len(a.e))}
		for i, x := range a.e {
			if x.P == nil {
				n.e[i] = x
			} else {
				n.e[i] = copyV(x)
			}
		}
		return V{P: n}
	}
	return v
}

// assign stores v into *dst, keeping aggregate identity.
func assign(dst *V, v V) {
	if a, ok := v.P.(*Agg); ok {
		if d, ok := dst.P.(*Agg); ok && len(d.e) == len(a.e) {
			if d == a {
				return
			}
			for i := range a.e {
				assign(&d.e[i], a.e[i])
			}
			return
		}
		*dst = copyV(v)
		return
	}
	*dst = v
}

// ---------- compiled functions ----------
type opnd struct {
	reg int // >=0 register; -1 constant; -2 global; -3 absent
	v   V
	g   *ssa.Global
}
type cinstr struct {
	in   ssa.Instruction
	dst  int
	ops  []opnd
	ti   tinfo
	ti2  tinfo
	fn   *ssa.Function // static callee
	nat  intrinsic
	t    types.Type
	es   int64
	scan bool // element contains pointers
}
type cblock struct {
	phis  []cinstr
	ins   []cinstr
	preds map[int]int
	succs []int
}
type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	nat    intrinsic
	name   string
	repo   bool
}

type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	infos   map[*ssa.Function]*fnInfo
	pkgs    map[string]*ssa.Package
	sizes   types.Sizes
	repoMod string
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if fi, ok := pr.infos[fn]; ok {
		return fi
	}
	fi := pr.compile(fn)
	pr.infos[fn] = fi
	return fi
}

func (pr *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, name: fn.String()}
	if fn.Pkg != nil {
		fi.repo = strings.HasPrefix(fn.Pkg.Pkg.Path(), pr.repoMod)
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		fi.repo = strings.HasPrefix(fn.Origin().Pkg.Pkg.Path(), pr.repoMod)
	}
	if n, ok := lookupIntrinsic(fn); ok {
		fi.nat = n
		return fi
	}
	idx := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	op := func(v ssa.Value) opnd {
		if v == nil {
			return opnd{reg: -3}
		}
		if r, ok := idx[v]; ok {
			return opnd{reg: r}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return opnd{reg: -1, v: constV(v)}
		case *ssa.Global:
			return opnd{reg: -2, g: v}
		case *ssa.Function:
			return opnd{reg: -1, v: V{P: &Closure{fn: v}}}
		case *ssa.Builtin:
			return opnd{reg: -3}
		}
		panic(unsupported("operand %T", v))
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		cb.preds = map[int]int{}
		for i, p := range b.Preds {
			cb.preds[p.Index] = i
		}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			c := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = idx[v]
				c.t = v.Type()
				if _, isT := c.t.(*types.Tuple); !isT {
					c.ti = typeInfo(c.t)
				}
			}
			for _, o := range in.Operands(nil) {
				if *o == nil {
					c.ops = append(c.ops, opnd{reg: -3})
				} else {
					c.ops = append(c.ops, op(*o))
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				c.ti = typeInfo(x.X.Type())
				c.t = x.X.Type()
				c.ti2 = typeInfo(x.Y.Type())
			case *ssa.Convert:
				c.ti2 = typeInfo(x.X.Type())
			case *ssa.Call:
				c.fn = x.Call.StaticCallee()
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append") {
					et := x.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
					c.es = pr.sizes.Sizeof(et)
					c.scan = hasPointers(et)
				}
			case *ssa.Phi:
				cb.phis = append(cb.phis, c)
				continue
			}
			cb.ins = append(cb.ins, c)
		}
	}
	return fi
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	}
	return true
}

func constV(c *ssa.Const) V {
	if c.Value == nil {
		return zero(c.Type())
	}
	ti := typeInfo(c.Type())
	switch ti.c {
	case cBool:
		if constant.BoolVal(c.Value) {
			return V{N: 1}
		}
		return V{}
	case cInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{N: ti.gk.canon(uint64(i))}
		}
		u, _ := constant.Uint64Val(v)
		return V{N: ti.gk.canon(u)}
	case cFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.fk == KF32 {
			g, _ := constant.Float32Val(c.Value)
			f = float64(g)
		}
		return V{N: math.Float64bits(f)}
	case cString:
		return V{P: constant.StringVal(c.Value)}
	}
	panic(unsupported("constant %v", c))
}

// ---------- interpreter ----------
type targetPanic struct {
	v   V
	msg string
}

type deferred struct {
	fn   V
	bi   *ssa.Builtin
	args []V
	next *deferred
	invk *ssa.CallCommon
}

type frame struct {
	fi        *fnInfo
	regs      []V
	blk, prev int
	defers    *deferred
	panicking bool
	pan       any
	recovered bool
	result    V
	caller    *frame
}

type G struct {
	id    int
	ch    chan struct{}
	vc    []int
	done  bool
	ready func() bool // nil: runnable
	depth int
}

type Interp struct {
	pr                   *Program
	p                    *Path
	tt                   *TermTab
	w                    *Worker
	globals              map[*ssa.Global]*V
	inited               map[*ssa.Package]bool
	gs                   []*G
	cur                  *G
	abort                any
	killing              bool
	shadow               map[*V]*shadowCell
	locks                map[*V]*lockState
	maxSteps             int64
	fifo                 bool
	raceOn               bool
	turn                 int
	wg                   sync.WaitGroup
	onF64, onIntn, onU32 V
	order                []int
	nTasks               int
	pend                 []*pendStore
}

type shadowCell struct {
	wg, wc int
	reads  map[int]int
}
type lockState struct {
	held    bool
	n       int64
	vc      []int
	readers int
}

func (it *Interp) term(v V, ti tinfo) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	switch ti.c {
	case cInt:
		return it.tt.IntG(v.N, ti.gk)
	case cBool:
		return it.tt.Bool(v.N != 0)
	case cFloat:
		return it.tt.FK(math.Float64frombits(v.N), ti.fk)
	}
	panic(unsupported("term of non-scalar"))
}

// val turns a term into a value, folding path constants.
func (it *Interp) val(t *Term) V {
	t = it.p.fold(t)
	if t.op == OConst {
		return V{N: uint64(t.c)}
	}
	return V{P: t}
}

func (it *Interp) get(f *frame, o *opnd) V {
	switch o.reg {
	case -1:
		return o.v
	case -2:
		return V{P: it.global(o.g)}
	case -3:
		return V{}
	}
	return f.regs[o.reg]
}

func (it *Interp) global(g *ssa.Global) *V {
	if p, ok := it.globals[g]; ok {
		return p
	}
	z := zero(g.Type().(*types.Pointer).Elem())
	p := &z
	it.globals[g] = p
	if g.Pkg != nil && !it.inited[g.Pkg] {
		it.inited[g.Pkg] = true
		if strings.HasPrefix(g.Name(), "init$guard") {
			return p
		}
		if init := g.Pkg.Func("init"); init != nil && !skipInit[g.Pkg.Pkg.Path()] {
			gr := it.cur
			ro := it.raceOn
			it.raceOn = false
			it.call(gr, init, nil, nil, nil)
			it.raceOn = ro
		}
	}
	return p
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/godebug": true, "math/rand": true, "time": true, "log": true}

func (it *Interp) goPanic(msg string) {
	panic(targetPanic{v: V{P: Iface{t: types.Typ[types.String], v: V{P: msg}}}, msg: msg})
}

func (it *Interp) concInt(v V) int64 {
	if t, ok := v.P.(*Term); ok {
		return int64(it.p.concretize(t))
	}
	return int64(v.N)
}

func (it *Interp) cond(v V) bool {
	if t, ok := v.P.(*Term); ok {
		return it.p.branch(t)
	}
	return v.N != 0
}

func (it *Interp) callV(g *G, f V, args []V, caller *frame) V {
	c, ok := f.P.(*Closure)
	if !ok {
		panic(unsupported("call of %T", f.P))
	}
	if c == nil {
		it.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if c.native != nil {
		return c.native(it, g, args)
	}
	return it.call(g, c.fn, args, c.env, caller)
}

func (it *Interp) call(g *G, fn *ssa.Function, args []V, env []V, caller *frame) V {
	fi := it.pr.info(fn)
	if fi.nat != nil {
		return fi.nat(it, g, fn, args)
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("function without body: %s", fn.String()))
	}
	if fi.repo {
		it.w.noteFn(fi)
	}
	g.depth++
	if g.depth > 2000 {
		panic(unsupported("call depth"))
	}
	f := &frame{fi: fi, regs: make([]V, fi.nregs), caller: caller}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], env)
	for {
		done := it.runFrame(g, f)
		if done {
			break
		}
	}
	g.depth--
	return f.result
}

// runFrame executes until return; handles panics with deferred calls.
func (it *Interp) runFrame(g *G, f *frame) (done bool) {
	defer func() {
		if f.blk < 0 {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		f.panicking = true
		f.pan = tp
		d0 := g.depth
		it.runDefers(g, f)
		g.depth = d0
		if f.panicking {
			panic(f.pan)
		}
		// recovered
		if rb := f.fi.fn.Recover; rb != nil {
			f.prev = -1
			f.blk = rb.Index
			done = false
			return
		}
		f.result = zeroResult(f.fi.fn)
		done = true
	}()
	it.exec(g, f)
	return true
}

func zeroResult(fn *ssa.Function) V {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return V{}
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (it *Interp) runDefers(g *G, f *frame) {
	for f.defers != nil {
		d := f.defers
		f.defers = d.next
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					f.panicking = true
					f.pan = tp
				}
			}()
			if d.bi != nil {
				it.builtin(g, f, d.bi, nil, d.args, nil)
			} else {
				it.callV(g, d.fn, d.args, f)
			}
		}()
	}
}

func (it *Interp) deref(v V) *V {
	if sp, ok := v.P.(*SymPtr); ok {
		return it.elemAt(sp, int64(it.p.concretize(sp.idx)))
	}
	p, ok := v.P.(*V)
	if !ok {
		panic(unsupported("deref of %T", v.P))
	}
	if p == nil {
		it.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

func (it *Interp) access(g *G, p *V, write bool) {
	if a, ok := p.P.(*Agg); ok {
		for i := range a.e {
			it.access(g, &a.e[i], write)
		}
		return
	}
	s := it.shadow[p]
	if s == nil {
		s = &shadowCell{wg: -1}
		it.shadow[p] = s
	}
	if s.wg >= 0 && s.wg != g.id && vcAt(g.vc, s.wg) < s.wc {
		it.w.race(it.p, "data race: unsynchronised access to memory written by another goroutine")
		panic(pathEnd{"race"})
	}
	if write {
		for r, c := range s.reads {
			if r != g.id && vcAt(g.vc, r) < c {
				it.w.race(it.p, "data race: write to memory read by another goroutine")
				panic(pathEnd{"race"})
			}
		}
		s.wg, s.wc = g.id, vcAt(g.vc, g.id)
		s.reads = nil
	} else {
		if s.reads == nil {
			s.reads = map[int]int{}
		}
		s.reads[g.id] = vcAt(g.vc, g.id)
	}
}
func vcAt(v []int, i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func vcJoin(a, b []int) []int {
	out := append([]int(nil), a...)
	for i, x := range b {
		if i >= len(out) {
			out = append(out, x)
		} else if x > out[i] {
			out[i] = x
		}
	}
	return out
}
func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (it *Interp) exec(g *G, f *frame) {
	fi := f.fi
	p := it.p
	for {
		b := &fi.blocks[f.blk]
		if len(b.phis) > 0 && f.prev >= 0 {
			e := b.preds[f.prev]
			if len(b.phis) == 1 {
				f.regs[b.phis[0].dst] = it.get(f, &b.phis[0].ops[e])
			} else {
				tmp := make([]V, len(b.phis))
				for i := range b.phis {
					tmp[i] = it.get(f, &b.phis[i].ops[e])
				}
				for i := range b.phis {
					f.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		p.steps += int64(len(b.ins))
		if p.steps > it.maxSteps {
			it.w.stepLimit(p)
			panic(pathEnd{"steps"})
		}
		if it.w.stop() {
			panic(pathEnd{"stopped"})
		}
		next := -1
		for k := range b.ins {
			c := &b.ins[k]
			switch in := c.in.(type) {
			case *ssa.BinOp:
				x, y := it.get(f, &c.ops[0]), it.get(f, &c.ops[1])
				f.regs[c.dst] = it.binop(in.Op, c, x, y)
			case *ssa.UnOp:
				x := it.get(f, &c.ops[0])
				switch in.Op {
				case token.MUL:
					if sp, ok := x.P.(*SymPtr); ok {
						f.regs[c.dst] = it.load(sp)
						break
					}
					q := it.deref(x)
					if it.raceOn {
						it.access(g, q, false)
					}
					if q.P == nil {
						f.regs[c.dst] = *q
					} else {
						f.regs[c.dst] = copyV(*q)
					}
				case token.ARROW:
					v, ok := it.recv(g, x, in)
					if in.CommaOk {
						b := V{}
						if ok {
							b.N = 1
						}
						f.regs[c.dst] = V{P: Tup{v, b}}
					} else {
						f.regs[c.dst] = v
					}
				case token.NOT:
					if t, ok := x.P.(*Term); ok {
						f.regs[c.dst] = it.val(it.tt.Not(t))
					} else {
						f.regs[c.dst] = V{N: 1 - x.N}
					}
				case token.SUB:
					if c.ti.c == cFloat {
						if t, ok := x.P.(*Term); ok {
							f.regs[c.dst] = it.val(it.tt.FNeg(t))
						} else {
							f.regs[c.dst] = V{N: math.Float64bits(-math.Float64frombits(x.N))}
						}
					} else if t, ok := x.P.(*Term); ok {
						f.regs[c.dst] = it.val(it.tt.Sub(it.tt.Int(0), t, c.ti.gk))
					} else {
						f.regs[c.dst] = V{N: c.ti.gk.canon(-x.N)}
					}
				case token.XOR:
					if t, ok := x.P.(*Term); ok {
						if c.ti.gk.signed() {
							f.regs[c.dst] = it.val(it.tt.Sub(it.tt.Int(-1), t, c.ti.gk))
						} else {
							m := c.ti.gk.canon(^uint64(0))
							f.regs[c.dst] = it.val(it.tt.Sub(it.tt.IntG(m, c.ti.gk), t, c.ti.gk))
						}
					} else {
						f.regs[c.dst] = V{N: c.ti.gk.canon(^x.N)}
					}
				default:
					panic(unsupported("unop %v", in.Op))
				}
			case *ssa.Store:
				pv := it.get(f, &c.ops[0])
				if sp, ok := pv.P.(*SymPtr); ok {
					it.store(sp, it.get(f, &c.ops[1]))
					break
				}
				q := it.deref(pv)
				if it.raceOn {
					it.access(g, q, true)
				}
				v := it.get(f, &c.ops[1])
				if v.P == nil {
					*q = v
				} else {
					assign(q, v)
				}
			case *ssa.FieldAddr:
				pv := it.get(f, &c.ops[0])
				if sp, ok := pv.P.(*SymPtr); ok {
					n := *sp
					n.fields = append(append([]int(nil), sp.fields...), in.Field)
					n.ft = sp.ft.Underlying().(*types.Struct).Field(in.Field).Type()
					f.regs[c.dst] = V{P: &n}
					break
				}
				q := it.deref(pv)
				a, ok := q.P.(*Agg)
				if !ok {
					panic(unsupported("field of %T", q.P))
				}
				f.regs[c.dst] = V{P: &a.e[in.Field]}
			case *ssa.Field:
				x := it.get(f, &c.ops[0])
				f.regs[c.dst] = copyV(x.P.(*Agg).e[in.Field])
			case *ssa.IndexAddr:
				x := it.get(f, &c.ops[0])
				var arr []V
				switch q := x.P.(type) {
				case []V:
					f.regs[c.dst] = it.indexAddr(it.get(f, &c.ops[1]), q, in.Type().Underlying().(*types.Pointer).Elem())
					continue
				case *V:
					if q == nil {
						it.goPanic("nil dereference")
					}
					arr = q.P.(*Agg).e
				case *SymPtr:
					// an array inside an element: pick the element
					arr = it.elemAt(q, int64(it.p.concretize(q.idx))).P.(*Agg).e
				default:
					panic(unsupported("index of %T", x.P))
				}
				i := it.index(it.get(f, &c.ops[1]), len(arr))
				f.regs[c.dst] = V{P: &arr[i]}
			case *ssa.Index:
				x := it.get(f, &c.ops[0])
				switch q := x.P.(type) {
				case *Agg:
					i := it.index(it.get(f, &c.ops[1]), len(q.e))
					f.regs[c.dst] = copyV(q.e[i])
				case string:
					i := it.index(it.get(f, &c.ops[1]), len(q))
					f.regs[c.dst] = V{N: uint64(q[i])}
				default:
					panic(unsupported("index value of %T", x.P))
				}
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.If:
				v := it.get(f, &c.ops[0])
				r := v.N != 0
				if t, ok := v.P.(*Term); ok {
					r = p.branch(t)
				}
				if r {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Return:
				switch len(c.ops) {
				case 0:
					f.result = V{}
				case 1:
					f.result = it.get(f, &c.ops[0])
				default:
					tu := make(Tup, len(c.ops))
					for i := range c.ops {
						tu[i] = it.get(f, &c.ops[i])
					}
					f.result = V{P: tu}
				}
				f.blk = -1
				return
			case *ssa.Call:
				f.regs[c.dst] = it.doCall(g, f, c, &in.Call)
			case *ssa.Alloc:
				z := zero(in.Type().Underlying().(*types.Pointer).Elem())
				f.regs[c.dst] = V{P: &z}
			case *ssa.Extract:
				f.regs[c.dst] = it.get(f, &c.ops[0]).P.(Tup)[in.Index]
			case *ssa.MakeClosure:
				env := make([]V, len(c.ops)-1)
				for i := range env {
					env[i] = it.get(f, &c.ops[i+1])
				}
				f.regs[c.dst] = V{P: &Closure{fn: in.Fn.(*ssa.Function), env: env}}
			case *ssa.MakeInterface:
				f.regs[c.dst] = V{P: Iface{t: in.X.Type(), v: copyV(it.get(f, &c.ops[0]))}}
			case *ssa.ChangeInterface, *ssa.ChangeType:
				f.regs[c.dst] = it.get(f, &c.ops[0])
			case *ssa.Convert:
				f.regs[c.dst] = it.convert(c, it.get(f, &c.ops[0]), in)
			case *ssa.Slice:
				f.regs[c.dst] = it.slice(f, c, in)
			case *ssa.MakeSlice:
				n := it.concInt(it.get(f, &c.ops[0]))
				m := it.concInt(it.get(f, &c.ops[1]))
				if n < 0 || n > 1<<28 {
					it.goPanic("runtime error: makeslice: len out of range")
				}
				if m < n || m > 1<<28 {
					it.goPanic("runtime error: makeslice: cap out of range")
				}
				et := in.Type().Underlying().(*types.Slice).Elem()
				s := make([]V, m)
				z := zero(et)
				if z.P != nil {
					for i := range s {
						s[i] = copyV(z)
					}
				}
				f.regs[c.dst] = V{P: s[:n]}
			case *ssa.TypeAssert:
				f.regs[c.dst] = it.typeAssert(in, it.get(f, &c.ops[0]))
			case *ssa.Range:
				x := it.get(f, &c.ops[0])
				f.regs[c.dst] = V{P: &iter{x: x}}
			case *ssa.Next:
				f.regs[c.dst] = it.next(in, it.get(f, &c.ops[0]))
			case *ssa.MakeMap:
				f.regs[c.dst] = V{P: &MapV{kt: in.Type().Underlying().(*types.Map).Key()}}
			case *ssa.Lookup:
				f.regs[c.dst] = it.lookup(in, it.get(f, &c.ops[0]), it.get(f, &c.ops[1]))
			case *ssa.MapUpdate:
				m := it.get(f, &c.ops[0]).P.(*MapV)
				if m == nil {
					it.goPanic("assignment to entry in nil map")
				}
				k, v := it.get(f, &c.ops[1]), it.get(f, &c.ops[2])
				k = it.concKey(k)
				if i := it.mapFind(m, k); i >= 0 {
					m.vals[i] = copyV(v)
				} else {
					m.keys = append(m.keys, copyV(k))
					m.vals = append(m.vals, copyV(v))
				}
			case *ssa.Panic:
				x := it.get(f, &c.ops[0])
				panic(targetPanic{v: x, msg: panicMsg(x)})
			case *ssa.Defer:
				d := &deferred{next: f.defers}
				it.prepCall(f, c, &in.Call, d)
				f.defers = d
			case *ssa.RunDefers:
				it.runDefers(g, f)
				if f.panicking {
					// a deferred call panicked during normal return
					pn := f.pan
					panic(pn)
				}
			case *ssa.Go:
				d := &deferred{}
				it.prepCall(f, c, &in.Call, d)
				it.spawn(g, func(ng *G) {
					if d.bi != nil {
						it.builtin(ng, nil, d.bi, nil, d.args, nil)
					} else {
						it.callV(ng, d.fn, d.args, nil)
					}
				})
			case *ssa.MakeChan:
				n := it.concInt(it.get(f, &c.ops[0]))
				f.regs[c.dst] = V{P: &ChanV{cap: int(n)}}
			case *ssa.Send:
				it.send(g, it.get(f, &c.ops[0]), it.get(f, &c.ops[1]))
			case *ssa.Select:
				f.regs[c.dst] = it.selectStmt(g, f, c, in)
			case *ssa.SliceToArrayPointer:
				s := it.get(f, &c.ops[0]).P.([]V)
				n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				if int64(len(s)) < n {
					it.goPanic("runtime error: slice to array conversion")
				}
				f.regs[c.dst] = V{P: &V{P: &Agg{e: s[:n:n]}}}
			default:
				panic(unsupported("instruction %T in %s", in, fi.name))
			}
		}
		f.prev = f.blk
		f.blk = next
	}
}

func panicMsg(x V) string {
	if i, ok := x.P.(Iface); ok {
		if s, ok := i.v.P.(string); ok {
			return s
		}
		if i.t != nil {
			return "panic value of type " + i.t.String()
		}
	}
	return "panic"
}

func (it *Interp) index(v V, n int) int64 {
	if t, ok := v.P.(*Term); ok {
		in := it.tt.And(it.tt.Le(it.tt.Int(0), t), it.tt.Lt(t, it.tt.Int(int64(n))))
		if t.big {
			in = it.tt.Lt(t, it.tt.IntG(uint64(n), GU64))
		}
		if !it.p.branch(in) {
			it.goPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return int64(it.p.concretize(t))
	}
	i := int64(v.N)
	if i < 0 || i >= int64(n) {
		it.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
	}
	return i
}

func (it *Interp) slice(f *frame, c *cinstr, in *ssa.Slice) V {
	x := it.get(f, &c.ops[0])
	bound := func(i int, def int64) int64 {
		if c.ops[i].reg == -3 {
			return def
		}
		return it.concInt(it.get(f, &c.ops[i]))
	}
	if s, ok := x.P.(string); ok {
		lo, hi := bound(1, 0), bound(2, int64(len(s)))
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			it.goPanic("runtime error: slice bounds out of range")
		}
		return V{P: s[lo:hi]}
	}
	var arr []V
	switch q := x.P.(type) {
	case []V:
		arr = q
	case *V:
		if q == nil {
			it.goPanic("nil dereference")
		}
		arr = q.P.(*Agg).e
		arr = arr[:len(arr):len(arr)]
	default:
		panic(unsupported("slice of %T", x.P))
	}
	lo := bound(1, 0)
	hi := bound(2, int64(len(arr)))
	mx := bound(3, int64(cap(arr)))
	if mx != int64(cap(arr)) {
		it.flush(arr)
	}
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(arr)) {
		it.goPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(arr)))
	}
	if arr == nil {
		return V{P: []V(nil)}
	}
	return V{P: arr[lo:hi:mx]}
}

func (it *Interp) prepCall(f *frame, c *cinstr, cc *ssa.CallCommon, d *deferred) {
	args := make([]V, 0, len(c.ops))
	for i := 1; i < len(c.ops); i++ {
		args = append(args, it.get(f, &c.ops[i]))
	}
	if cc.IsInvoke() {
		fn, recv := it.method(it.get(f, &c.ops[0]), cc.Method)
		d.fn = V{P: &Closure{fn: fn}}
		d.args = append([]V{recv}, args...)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		d.bi = b
		d.args = args
		return
	}
	d.fn = it.get(f, &c.ops[0])
	d.args = args
}

func (it *Interp) method(iv V, m *types.Func) (*ssa.Function, V) {
	i, ok := iv.P.(Iface)
	if !ok {
		panic(unsupported("invoke on %T", iv.P))
	}
	if i.t == nil {
		it.goPanic("runtime error: invalid memory address or nil pointer dereference (nil interface)")
	}
	fn := it.pr.lookupMethod(i.t, m)
	if fn == nil {
		panic(unsupported("method %v of %v", m, i.t))
	}
	return fn, i.v
}

var methMu sync.Mutex
var methCache = map[string]*ssa.Function{}

type methKey struct {
	t types.Type
	m string
}

var methCache2 sync.Map

func (pr *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := methCache2.Load(k); ok {
		return f.(*ssa.Function)
	}
	pr.mu.Lock()
	f := pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	pr.mu.Unlock()
	methCache2.Store(k, f)
	return f
}

func (it *Interp) doCall(g *G, f *frame, c *cinstr, cc *ssa.CallCommon) V {
	n := len(c.ops) - 1
	args := make([]V, n)
	for i := 0; i < n; i++ {
		args[i] = it.get(f, &c.ops[i+1])
	}
	if cc.IsInvoke() {
		fn, recv := it.method(it.get(f, &c.ops[0]), cc.Method)
		return it.call(g, fn, append([]V{copyV(recv)}, args...), nil, f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return it.builtin(g, f, b, c, args, cc)
	}
	if c.fn != nil {
		if c.ops[0].reg < 0 {
			if c.fn.Name() == "init" && c.fn.Synthetic != "" && c.fn.Pkg != f.fi.fn.Pkg {
				return V{} // package initialisers run lazily
			}
			return it.call(g, c.fn, args, nil, f)
		}
	}
	return it.callV(g, it.get(f, &c.ops[0]), args, f)
}

// ---------- binary operations ----------
func (it *Interp) binop(op token.Token, c *cinstr, x, y V) V {
	ti := c.ti
	if x.P == nil && y.P == nil {
		switch ti.c {
		case cInt:
			if r, ok := it.intOp(op, ti.gk, c.ti2, x.N, y.N); ok {
				return V{N: r}
			}
		case cFloat:
			a, b := math.Float64frombits(x.N), math.Float64frombits(y.N)
			switch op {
			case token.ADD:
				return V{N: math.Float64bits(foldF(OFAdd, ti.fk, a, b))}
			case token.SUB:
				return V{N: math.Float64bits(foldF(OFSub, ti.fk, a, b))}
			case token.MUL:
				return V{N: math.Float64bits(foldF(OFMul, ti.fk, a, b))}
			case token.QUO:
				return V{N: math.Float64bits(foldF(OFDiv, ti.fk, a, b))}
			case token.LSS:
				return bv(a < b)
			case token.LEQ:
				return bv(a <= b)
			case token.GTR:
				return bv(a > b)
			case token.GEQ:
				return bv(a >= b)
			case token.EQL:
				return bv(a == b)
			case token.NEQ:
				return bv(a != b)
			}
		case cBool:
			switch op {
			case token.EQL:
				return bv(x.N == y.N)
			case token.NEQ:
				return bv(x.N != y.N)
			case token.AND:
				return V{N: x.N & y.N}
			case token.OR:
				return V{N: x.N | y.N}
			}
		}
	}
	tt := it.tt
	switch op {
	case token.EQL:
		return it.val(it.eq(x, y, c.t))
	case token.NEQ:
		return it.val(tt.Not(it.eq(x, y, c.t)))
	}
	switch ti.c {
	case cString:
		a, b := x.P.(string), y.P.(string)
		switch op {
		case token.ADD:
			return V{P: a + b}
		case token.LSS:
			return bv(a < b)
		case token.LEQ:
			return bv(a <= b)
		case token.GTR:
			return bv(a > b)
		case token.GEQ:
			return bv(a >= b)
		}
	case cBool:
		a, b := it.term(x, ti), it.term(y, ti)
		switch op {
		case token.AND:
			return it.val(tt.And(a, b))
		case token.OR:
			return it.val(tt.Or(a, b))
		}
	case cFloat:
		a, b := it.term(x, ti), it.term(y, ti)
		switch op {
		case token.ADD:
			return it.val(tt.FBin(OFAdd, a, b))
		case token.SUB:
			return it.val(tt.FBin(OFSub, a, b))
		case token.MUL:
			return it.val(tt.FBin(OFMul, a, b))
		case token.QUO:
			return it.val(tt.FBin(OFDiv, a, b))
		case token.LSS:
			return it.val(tt.FCmp(OFLt, a, b))
		case token.LEQ:
			return it.val(tt.FCmp(OFLe, a, b))
		case token.GTR:
			return it.val(tt.FCmp(OFLt, b, a))
		case token.GEQ:
			return it.val(tt.FCmp(OFLe, b, a))
		}
	case cInt:
		a := it.term(x, ti)
		if op == token.SHL || op == token.SHR {
			s := uint64(it.concInt(y))
			if c.ti2.gk.signed() && int64(s) < 0 {
				it.goPanic("runtime error: negative shift amount")
			}
			if op == token.SHL {
				return it.val(tt.ShlC(a, s, ti.gk))
			}
			return it.val(tt.ShrC(a, s, ti.gk))
		}
		b := it.term(y, ti)
		switch op {
		case token.ADD:
			return it.val(tt.Add(a, b, ti.gk))
		case token.SUB:
			return it.val(tt.Sub(a, b, ti.gk))
		case token.MUL:
			return it.val(tt.Mul(a, b, ti.gk))
		case token.QUO, token.REM:
			if it.p.branch(tt.Eq(b, tt.Int(0))) {
				it.goPanic("runtime error: integer divide by zero")
			}
			return it.val(tt.DivRem(a, b, ti.gk, op == token.REM))
		case token.AND:
			return it.val(tt.Bit(OAnd, a, b, ti.gk))
		case token.OR:
			return it.val(tt.Bit(OOr, a, b, ti.gk))
		case token.XOR:
			return it.val(tt.Bit(OXor, a, b, ti.gk))
		case token.AND_NOT:
			if b.isConst() {
				return it.val(tt.Bit(OAnd, a, tt.IntG(ti.gk.canon(^uint64(b.c)), ti.gk), ti.gk))
			}
			n := it.concInt(y)
			return it.val(tt.Bit(OAnd, a, tt.IntG(ti.gk.canon(^uint64(n)), ti.gk), ti.gk))
		case token.LSS:
			return it.val(tt.Lt(a, b))
		case token.LEQ:
			return it.val(tt.Le(a, b))
		case token.GTR:
			return it.val(tt.Lt(b, a))
		case token.GEQ:
			return it.val(tt.Le(b, a))
		}
	}
	panic(unsupported("binop %v on %v", op, c.t))
}

func bv(b bool) V {
	if b {
		return V{N: 1}
	}
	return V{}
}

func (it *Interp) intOp(op token.Token, g GK, yt tinfo, a, b uint64) (uint64, bool) {
	sg := g.signed()
	x, y := int64(a), int64(b)
	B := func(c bool) (uint64, bool) {
		if c {
			return 1, true
		}
		return 0, true
	}
	switch op {
	case token.ADD:
		return g.canon(a + b), true
	case token.SUB:
		return g.canon(a - b), true
	case token.MUL:
		return g.canon(a * b), true
	case token.QUO:
		if b == 0 {
			it.goPanic("runtime error: integer divide by zero")
		}
		if sg {
			if y == -1 {
				return g.canon(-a), true
			}
			return g.canon(uint64(x / y)), true
		}
		return a / b, true
	case token.REM:
		if b == 0 {
			it.goPanic("runtime error: integer divide by zero")
		}
		if sg {
			if y == -1 {
				return 0, true
			}
			return g.canon(uint64(x % y)), true
		}
		return a % b, true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return g.canon(a ^ b), true
	case token.AND_NOT:
		return g.canon(a &^ b), true
	case token.SHL, token.SHR:
		if yt.gk.signed() && y < 0 {
			it.goPanic("runtime error: negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return 0, true
			}
			return g.canon(a << b), true
		}
		if sg {
			if b > 63 {
				b = 63
			}
			return uint64(x >> b), true
		}
		if b >= 64 {
			return 0, true
		}
		return a >> b, true
	case token.LSS:
		if sg {
			return B(x < y)
		}
		return B(a < b)
	case token.LEQ:
		if sg {
			return B(x <= y)
		}
		return B(a <= b)
	case token.GTR:
		if sg {
			return B(x > y)
		}
		return B(a > b)
	case token.GEQ:
		if sg {
			return B(x >= y)
		}
		return B(a >= b)
	case token.EQL:
		return B(a == b)
	case token.NEQ:
		return B(a != b)
	}
	return 0, false
}

// eq builds the equality of two values of type t.
func (it *Interp) eq(x, y V, t types.Type) *Term {
	tt := it.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := typeInfo(t)
		switch ti.c {
		case cInt, cBool:
			return tt.Eq(it.term(x, ti), it.term(y, ti))
		case cFloat:
			return tt.FCmp(OFEq, it.term(x, ti), it.term(y, ti))
		case cString:
			return tt.Bool(x.P.(string) == y.P.(string))
		}
		return tt.Bool(x.P == y.P)
	case *types.Struct:
		a, b := x.P.(*Agg), y.P.(*Agg)
		var cs []*Term
		for i := range a.e {
			if u.Field(i).Name() == "_" {
				continue
			}
			c := it.p.fold(it.eq(a.e[i], b.e[i], u.Field(i).Type()))
			if c == tt.F {
				return c
			}
			cs = append(cs, c)
		}
		return tt.And(cs...)
	case *types.Array:
		a, b := x.P.(*Agg), y.P.(*Agg)
		var cs []*Term
		for i := range a.e {
			c := it.p.fold(it.eq(a.e[i], b.e[i], u.Elem()))
			if c == tt.F {
				return c
			}
			cs = append(cs, c)
		}
		return tt.And(cs...)
	case *types.Interface:
		a, aok := x.P.(Iface)
		b, bok := y.P.(Iface)
		if !aok || !bok {
			panic(unsupported("interface comparison"))
		}
		if a.t == nil || b.t == nil {
			return tt.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tt.F
		}
		return it.eq(a.v, b.v, a.t)
	case *types.Pointer:
		return tt.Bool(x.P.(*V) == y.P.(*V))
	case *types.Slice:
		// comparison with nil only
		a, b := x.P.([]V), y.P.([]V)
		return tt.Bool(a == nil && b == nil)
	case *types.Signature:
		a, b := x.P.(*Closure), y.P.(*Closure)
		return tt.Bool(a == nil && b == nil)
	case *types.Map:
		return tt.Bool(x.P.(*MapV) == y.P.(*MapV))
	case *types.Chan:
		return tt.Bool(x.P.(*ChanV) == y.P.(*ChanV))
	}
	panic(unsupported("equality on %v", t))
}

// ---------- conversions ----------
func (it *Interp) convert(c *cinstr, x V, in *ssa.Convert) V {
	from, to := c.ti2, c.ti
	tt := it.tt
	switch {
	case from.c == cInt && to.c == cInt:
		if t, ok := x.P.(*Term); ok {
			return it.val(tt.Wrap(t, to.gk))
		}
		return V{N: to.gk.canon(x.N)}
	case from.c == cInt && to.c == cFloat:
		t := it.term(x, from)
		return it.val(tt.I2F(t, to.fk, !from.gk.signed()))
	case from.c == cFloat && to.c == cFloat:
		return it.val(tt.FCvt(it.term(x, from), to.fk))
	case from.c == cFloat && to.c == cInt:
		t, ok := x.P.(*Term)
		if !ok {
			return V{N: f2i(math.Float64frombits(x.N), to.gk)}
		}
		return it.f2i(t, to.gk)
	case from.c == cBool && to.c == cBool:
		return x
	case from.c == cString && to.c == cString:
		return x
	case to.c == cString:
		if s, ok := x.P.([]V); ok {
			b := make([]byte, len(s))
			for i := range s {
				b[i] = byte(it.concInt(s[i]))
			}
			return V{P: string(b)}
		}
		if from.c == cInt {
			return V{P: string(rune(it.concInt(x)))}
		}
	case from.c == cString:
		s := x.P.(string)
		if sl, ok := in.Type().Underlying().(*types.Slice); ok {
			if typeInfo(sl.Elem()).gk == GU8 {
				out := make([]V, len(s))
				for i := range out {
					out[i] = V{N: uint64(s[i])}
				}
				return V{P: out}
			}
			var out []V
			for _, r := range s {
				out = append(out, V{N: uint64(r)})
			}
			return V{P: out}
		}
	}
	if _, ok := x.P.(*V); ok {
		return x // unsafe.Pointer conversions keep the pointer
	}
	panic(unsupported("convert %v to %v", in.X.Type(), in.Type()))
}

func (it *Interp) f2i(t *Term, g GK) V {
	lo, hi := g.rng()
	p := it.p
	t = p.fold(t)
	if t.op == OConst {
		return V{N: f2i(fval(t), g)}
	}
	if r := it.tt.F2I(t, g, lo, hi); r.op != OF2I {
		return it.val(r)
	}
	if gr := p.join(t); gr != nil {
		col := gr.colAt(p, t, gr.alive)
		if col.isC {
			return V{N: f2i(math.Float64frombits(col.c), g)}
		}
		first := true
		for _, i := range gr.alive {
			v := int64(f2i(math.Float64frombits(col.v[i]), g))
			if first || v < lo {
				lo = v
			}
			if first || v > hi {
				hi = v
			}
			first = false
		}
		// linear in a single variable?
		var fv []int32
		for _, v := range t.sup {
			if !p.fixedSet[v] {
				fv = append(fv, v)
			}
		}
		if len(fv) == 1 && lo != hi {
			b := gr.base[fv[0]]
			i0 := gr.alive[0]
			y0 := int64(f2i(math.Float64frombits(col.v[i0]), g))
			for _, i1 := range gr.alive[1:] {
				if b[i1] == b[i0] {
					continue
				}
				y1 := int64(f2i(math.Float64frombits(col.v[i1]), g))
				if (y1-y0)%(b[i1]-b[i0]) != 0 {
					break
				}
				k := (y1 - y0) / (b[i1] - b[i0])
				m := y0 - k*b[i0]
				ok := true
				for _, i := range gr.alive {
					if int64(f2i(math.Float64frombits(col.v[i]), g)) != k*b[i]+m {
						ok = false
						break
					}
				}
				if ok {
					vt := it.tt.vars[fv[0]].term
					if r := it.tt.linComb(vt, k, it.tt.Int(m), 1); r != nil {
						return it.val(r)
					}
				}
				break
			}
		}
	}
	return it.val(it.tt.F2I(t, g, lo, hi))
}

// ---------- type assertions, maps, iteration ----------
func (it *Interp) typeAssert(in *ssa.TypeAssert, x V) V {
	i, ok := x.P.(Iface)
	if !ok {
		panic(unsupported("type assertion on %T", x.P))
	}
	good := false
	var v V
	if i.t != nil {
		if types.IsInterface(in.AssertedType) {
			it.pr.mu.Lock()
			good = types.Implements(i.t, in.AssertedType.Underlying().(*types.Interface))
			it.pr.mu.Unlock()
			v = x
		} else {
			good = types.Identical(i.t, in.AssertedType)
			v = i.v
		}
	}
	if in.CommaOk {
		if !good {
			return V{P: Tup{zero(in.AssertedType), V{}}}
		}
		return V{P: Tup{copyV(v), V{N: 1}}}
	}
	if !good {
		it.goPanic(fmt.Sprintf("interface conversion: %v is not %v", i.t, in.AssertedType))
	}
	return copyV(v)
}

type iter struct {
	x V
	i int
	m []V
}

func (it *Interp) next(in *ssa.Next, x V) V {
	r := x.P.(*iter)
	if in.IsString {
		s := r.x.P.(string)
		if r.i >= len(s) {
			return V{P: Tup{V{}, V{}, V{}}}
		}
		for j, c := range s[r.i:] {
			if j == 0 {
				i := r.i
				n := len(string(c))
				r.i += n
				return V{P: Tup{V{N: 1}, V{N: uint64(i)}, V{N: uint64(c)}}}
			}
		}
	}
	m := r.x.P.(*MapV)
	if m == nil || r.i >= len(m.keys) {
		tup := in.Type().(*types.Tuple)
		k, v := V{}, V{}
		if tup.At(1).Type() != types.Typ[types.Invalid] {
			k = zero(tup.At(1).Type())
		}
		if tup.At(2).Type() != types.Typ[types.Invalid] {
			v = zero(tup.At(2).Type())
		}
		return V{P: Tup{V{}, k, v}}
	}
	i := r.i
	r.i++
	return V{P: Tup{V{N: 1}, copyV(m.keys[i]), copyV(m.vals[i])}}
}

func (it *Interp) concKey(k V) V {
	switch q := k.P.(type) {
	case *Term:
		return V{N: it.p.concretize(q)}
	case *Agg:
		n := &Agg{e: make([]V, len(q.e))}
		for i := range q.e {
			n.e[i] = it.concKey(q.e[i])
		}
		return V{P: n}
	case Iface:
		return V{P: Iface{t: q.t, v: it.concKey(q.v)}}
	}
	return k
}
func (it *Interp) mapFind(m *MapV, k V) int {
	for i := range m.keys {
		e := it.p.fold(it.eq(m.keys[i], k, m.kt))
		if e == it.tt.T {
			return i
		}
	}
	return -1
}
func (it *Interp) lookup(in *ssa.Lookup, x, k V) V {
	if s, ok := x.P.(string); ok {
		i := it.index(k, len(s))
		return V{N: uint64(s[i])}
	}
	m := x.P.(*MapV)
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	i := -1
	if m != nil {
		i = it.mapFind(m, it.concKey(k))
	}
	v := zero(vt)
	if i >= 0 {
		v = copyV(m.vals[i])
	}
	if in.CommaOk {
		return V{P: Tup{v, bv(i >= 0)}}
	}
	return v
}

// ---------- builtins ----------
func growCap(oldCap, newLen int, es int64, scan bool) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if es == 0 {
		return newLen
	}
	mem := int64(newcap) * es
	if mem > 1<<26 {
		return newcap
	}
	r := roundup(mem, scan)
	return int(r / es)
}

var ruMu sync.Mutex
var ruCache = map[int64]int64{}

func roundup(n int64, scan bool) int64 {
	k := n * 2
	if scan {
		k++
	}
	ruMu.Lock()
	defer ruMu.Unlock()
	if v, ok := ruCache[k]; ok {
		return v
	}
	var r int64
	if scan {
		w := (n + 7) / 8
		r = int64(cap(append([]*byte(nil), make([]*byte, w)...))) * 8
	} else {
		r = int64(cap(append([]byte(nil), make([]byte, n)...)))
	}
	ruCache[k] = r
	return r
}

func (it *Interp) builtin(g *G, f *frame, b *ssa.Builtin, c *cinstr, args []V, cc *ssa.CallCommon) V {
	switch b.Name() {
	case "len":
		switch x := args[0].P.(type) {
		case []V:
			return V{N: uint64(len(x))}
		case string:
			return V{N: uint64(len(x))}
		case *Agg:
			return V{N: uint64(len(x.e))}
		case *V:
			return V{N: uint64(len(x.P.(*Agg).e))}
		case *MapV:
			if x == nil {
				return V{}
			}
			return V{N: uint64(len(x.keys))}
		case *ChanV:
			if x == nil {
				return V{}
			}
			return V{N: uint64(len(x.buf))}
		}
	case "cap":
		switch x := args[0].P.(type) {
		case []V:
			return V{N: uint64(cap(x))}
		case *Agg:
			return V{N: uint64(len(x.e))}
		case *V:
			return V{N: uint64(len(x.P.(*Agg).e))}
		case *ChanV:
			return V{N: uint64(x.cap)}
		}
	case "append":
		s := args[0].P.([]V)
		it.flush(s)
		var add []V
		switch y := args[1].P.(type) {
		case []V:
			it.flush(y)
			add = y
		case string:
			for i := 0; i < len(y); i++ {
				add = append(add, V{N: uint64(y[i])})
			}
		}
		n := len(s) + len(add)
		if len(add) == 0 {
			return args[0]
		}
		if n > cap(s) {
			nc := growCap(cap(s), n, c.es, c.scan)
			ns := make([]V, n, nc)
			copy(ns, s)
			// unused capacity holds zero values
			if nc > n {
				z := zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
				if z.P != nil {
					full := ns[:nc]
					for i := n; i < nc; i++ {
						full[i] = copyV(z)
					}
				}
			}
			for i := range s {
				if it.raceOn {
					it.access(g, &s[i], false)
				}
				if _, ok := s[i].P.(*Agg); ok {
					ns[i] = copyV(s[i])
				}
			}
			for i, x := range add {
				if it.raceOn {
					it.access(g, &add[i], false)
				}
				ns[len(s)+i] = copyV(x)
			}
			return V{P: ns}
		}
		tmp := make([]V, len(add))
		for i := range add {
			if it.raceOn {
				it.access(g, &add[i], false)
			}
			tmp[i] = copyV(add[i])
		}
		ns := s[:n]
		for i := range tmp {
			if it.raceOn {
				it.access(g, &ns[len(s)+i], true)
			}
			assign(&ns[len(s)+i], tmp[i])
		}
		return V{P: ns}
	case "copy":
		d := args[0].P.([]V)
		it.flush(d)
		var s []V
		switch y := args[1].P.(type) {
		case []V:
			it.flush(y)
			s = y
		case string:
			for i := 0; i < len(y); i++ {
				s = append(s, V{N: uint64(y[i])})
			}
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]V, n)
		for i := 0; i < n; i++ {
			if it.raceOn {
				it.access(g, &s[i], false)
			}
			tmp[i] = copyV(s[i])
		}
		for i := 0; i < n; i++ {
			if it.raceOn {
				it.access(g, &d[i], true)
			}
			assign(&d[i], tmp[i])
		}
		return V{N: uint64(n)}
	case "close":
		ch := args[0].P.(*ChanV)
		if ch.closed {
			it.goPanic("close of closed channel")
		}
		ch.closed = true
		ch.cvc = append([]int(nil), g.vc...)
		g.tick()
		return V{}
	case "panic":
		panic(targetPanic{v: args[0], msg: panicMsg(args[0])})
	case "recover":
		if f != nil && f.caller != nil && f.caller.panicking {
			f.caller.panicking = false
			return f.caller.pan.(targetPanic).v
		}
		return V{P: Iface{}}
	case "print", "println":
		return V{}
	case "delete":
		m := args[0].P.(*MapV)
		if m != nil {
			if i := it.mapFind(m, it.concKey(args[1])); i >= 0 {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
			}
		}
		return V{}
	case "clear":
		switch m := args[0].P.(type) {
		case *MapV:
			if m != nil {
				m.keys, m.vals = nil, nil
			}
		case []V:
			z := zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range m {
				assign(&m[i], z)
			}
		}
		return V{}
	case "min", "max":
		r := args[0]
		ti := c.ti
		for _, a := range args[1:] {
			if ti.c == cString {
				if (a.P.(string) < r.P.(string)) == (b.Name() == "min") {
					r = a
				}
				continue
			}
			x, y := it.term(a, ti), it.term(r, ti)
			if ti.c == cFloat {
				n := 0
				if b.Name() == "min" {
					n = 1
				}
				r = it.val(it.tt.FBinF(n, y, x))
				continue
			}
			lt := it.tt.Lt(x, y)
			if b.Name() == "max" {
				lt = it.tt.Lt(y, x)
			}
			r = it.val(it.tt.Ite(it.p.fold(lt), x, y))
		}
		return r
	case "ssa:wrapnilchk":
		if q, ok := args[0].P.(*V); ok && q == nil {
			it.goPanic("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported("builtin %s", b.Name()))
}
