package main

import (
	"fmt"
	"math"
	"strings"
)

// Group is a set of variables together with the explicit list of joint values that the
// path condition (as far as absorbed) still allows: finite-domain propagation that prunes
// infeasible branches before the solver is asked. It always over-approximates.
type Group struct {
	vars  []int32
	base  map[int32][]int64
	n     int
	alive []int32
	memo  map[*Term]column
}
type column struct {
	v   []uint64
	c   uint64
	isC bool
}

func (g *Group) colAt(p *Path, t *Term, alive []int32) column {
	if t.op == OConst {
		return column{c: uint64(t.c), isC: true}
	}
	if c, ok := g.memo[t]; ok {
		return c
	}
	if t.op == OVar || t.op == OFVar {
		id := int32(t.c)
		if b, ok := g.base[id]; ok {
			v := make([]uint64, g.n)
			for _, i := range alive {
				v[i] = uint64(b[i])
			}
			c := column{v: v}
			g.memo[t] = c
			return c
		}
		if p.isFixed(id) {
			return column{c: p.fixedVal[id], isC: true}
		}
		panic("colAt: variable outside group")
	}
	na := len(t.args)
	cols := make([]column, na)
	allC := true
	for i, a := range t.args {
		cols[i] = g.colAt(p, a, alive)
		allC = allC && cols[i].isC
	}
	args := make([]uint64, na)
	for i := range cols {
		if cols[i].isC {
			args[i] = cols[i].c
		}
	}
	var out column
	if allC {
		out = column{c: apply(t, args), isC: true}
	} else {
		v := make([]uint64, g.n)
		for _, i := range alive {
			for j := range cols {
				if !cols[j].isC {
					args[j] = cols[j].v[i]
				}
			}
			v[i] = apply(t, args)
		}
		out = column{v: v}
	}
	g.memo[t] = out
	return out
}

type PCEntry struct {
	t     *Term
	g     *Group
	alive []int32
	gen   int
	smt   string
	table bool
}

type Path struct {
	w          *Worker
	tt         *TermTab
	prefix     []int64
	pos        int
	taken      []int64
	inModel    map[string]uint64
	model      []uint64 // per var id
	vars       []int32
	inPath     []bool
	groupOf    []*Group
	fixedSet   []bool
	fixedVal   []uint64
	dirty      []bool
	known      map[*Term]uint64
	foldMemo   map[*Term]uint64
	pc         []PCEntry
	asserts    []assertRec
	nameCnt    map[string]int
	observed   []obsRec
	reached    map[string]bool
	covers     []coverRec
	steps      int64
	forks      int
	infeasible bool
}
type assertRec struct {
	PCEntry
	msg string
}
type obsRec struct {
	name string
	v    V
	isF  bool
	isB  bool
}

func (p *Path) isFixed(id int32) bool { return int(id) < len(p.fixedSet) && p.fixedSet[id] }

func (p *Path) grow(id int32) {
	for len(p.fixedSet) <= int(id) {
		p.fixedSet = append(p.fixedSet, false)
		p.fixedVal = append(p.fixedVal, 0)
		p.dirty = append(p.dirty, false)
		p.groupOf = append(p.groupOf, nil)
		p.model = append(p.model, 0)
		p.inPath = append(p.inPath, false)
	}
}

func (p *Path) uniqueName(name string) string {
	n := p.nameCnt[name]
	p.nameCnt[name]++
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// newVar creates a symbolic integer in [lo,hi].
func (p *Path) newVar(name string, lo, hi int64) *Term {
	if lo > hi {
		panic(unsupported("empty domain for %s", name))
	}
	name = p.uniqueName(name)
	if lo == hi {
		p.w.note(p, name, uint64(lo))
	}
	t := p.tt.Var(name, lo, hi)
	id := int32(t.c)
	p.grow(id)
	p.inPath[id] = true
	p.vars = append(p.vars, id)
	if v, ok := p.inModel[name]; ok && int64(v) >= lo && int64(v) <= hi {
		p.model[id] = v
	} else {
		p.model[id] = uint64(lo)
	}
	if hi-lo < int64(p.w.joinLimit) {
		n := int(hi - lo + 1)
		g := &Group{vars: []int32{id}, base: map[int32][]int64{}, n: n, memo: map[*Term]column{}}
		b := make([]int64, n)
		g.alive = make([]int32, n)
		for i := range b {
			b[i] = lo + int64(i)
			g.alive[i] = int32(i)
		}
		g.base[id] = b
		p.groupOf[id] = g
		if n == 1 {
			p.fix(id, uint64(lo))
		}
	} else {
		p.dirty[id] = true
	}
	// domain constraint for the solver, when the bit width allows other values
	w := bitsFor(lo, hi)
	if w < 64 && (lo != -(int64(1)<<(w-1)) || hi != int64(1)<<(w-1)-1) {
		p.pc = append(p.pc, PCEntry{smt: "dom", g: nil, t: t})
	}
	return t
}

func (p *Path) newFVar(name string) *Term {
	name = p.uniqueName(name)
	t := p.tt.FVar(name)
	id := int32(t.c)
	p.grow(id)
	p.inPath[id] = true
	p.vars = append(p.vars, id)
	if v, ok := p.inModel[name]; ok {
		p.model[id] = v
	} else {
		p.model[id] = math.Float64bits(0.5)
	}
	p.dirty[id] = true
	return t
}

func (p *Path) fix(id int32, v uint64) {
	p.fixedSet[id] = true
	p.fixedVal[id] = v
}

// fold turns t into a constant when the path pins it.
func (p *Path) fold(t *Term) *Term {
	if t.op == OConst {
		return t
	}
	if v, ok := p.known[t]; ok {
		return p.constOf(t, v)
	}
	for _, v := range t.sup {
		if !p.fixedSet[v] {
			return t
		}
	}
	v := evalTerm(t, func(id int32) uint64 { return p.fixedVal[id] }, p.foldMemo)
	return p.constOf(t, v)
}
func (p *Path) constOf(t *Term, v uint64) *Term {
	switch t.k {
	case KBool:
		return p.tt.Bool(v != 0)
	case KF64, KF32:
		return p.tt.FK(math.Float64frombits(v), t.k)
	}
	if t.big {
		return p.tt.IntG(v, GU64)
	}
	return p.tt.Int(int64(v))
}

// join returns one group containing all unfixed support variables of t, or nil.
func (p *Path) join(t *Term) *Group {
	var gs []*Group
	prod := 1
	for _, v := range t.sup {
		if p.fixedSet[v] {
			continue
		}
		g := p.groupOf[v]
		if g == nil {
			return nil
		}
		dup := false
		for _, x := range gs {
			if x == g {
				dup = true
			}
		}
		if !dup {
			gs = append(gs, g)
			prod *= len(g.alive)
			if prod > p.w.joinLimit {
				return nil
			}
		}
	}
	if len(gs) == 0 {
		return nil
	}
	if len(gs) == 1 {
		return gs[0]
	}
	ng := &Group{base: map[int32][]int64{}, n: prod, memo: map[*Term]column{}}
	for _, g := range gs {
		for _, v := range g.vars {
			if !p.fixedSet[v] {
				ng.vars = append(ng.vars, v)
				ng.base[v] = make([]int64, prod)
			}
		}
	}
	idx := make([]int, len(gs))
	for k := 0; k < prod; k++ {
		for gi, g := range gs {
			src := g.alive[idx[gi]]
			for _, v := range g.vars {
				if b := ng.base[v]; b != nil {
					b[k] = g.base[v][src]
				}
			}
		}
		for gi := len(gs) - 1; gi >= 0; gi-- {
			idx[gi]++
			if idx[gi] < len(gs[gi].alive) {
				break
			}
			idx[gi] = 0
		}
	}
	ng.alive = make([]int32, prod)
	for i := range ng.alive {
		ng.alive[i] = int32(i)
	}
	for _, v := range ng.vars {
		p.groupOf[v] = ng
	}
	return ng
}

func (p *Path) exact(g *Group) bool {
	for _, v := range g.vars {
		if p.dirty[v] {
			return false
		}
	}
	return true
}

const (
	clsFalse = iota
	clsTrue
	clsMixed   // exact: both sides feasible
	clsUnknown // ask the solver
)

func (p *Path) classify(c *Term) (int, *Group, column) {
	g := p.join(c)
	if g == nil {
		return clsUnknown, nil, column{}
	}
	col := g.colAt(p, c, g.alive)
	if col.isC {
		return int(col.c), g, col
	}
	t, f := false, false
	for _, i := range g.alive {
		if col.v[i] != 0 {
			t = true
		} else {
			f = true
		}
		if t && f {
			break
		}
	}
	if !f {
		return clsTrue, g, col
	}
	if !t {
		return clsFalse, g, col
	}
	if p.exact(g) {
		return clsMixed, g, col
	}
	return clsUnknown, g, col
}

// absorb records that c has value want on this path.
func (p *Path) absorb(c *Term, want bool, g *Group, col column) {
	t := c
	if !want {
		t = p.tt.Not(c)
	}
	e := PCEntry{t: t}
	if g != nil {
		e.g = g
		e.alive = g.alive
	}
	p.pc = append(p.pc, e)
	if g == nil {
		for _, v := range c.sup {
			p.dirty[v] = true
		}
		// equality with a constant pins a variable
		if want && c.op == OEq0 {
			a := c.args[0]
			if a.op == OVar {
				p.fix(int32(a.c), 0)
			} else if a.op == OLin && len(a.args) == 1 && a.args[0].op == OVar && a.coef[0] == 1 {
				p.fix(int32(a.args[0].c), uint64(-a.c))
			}
		}
		return
	}
	if col.isC {
		return
	}
	w := uint64(0)
	if want {
		w = 1
	}
	var na []int32
	for _, i := range g.alive {
		if col.v[i] == w {
			na = append(na, i)
		}
	}
	p.narrow(g, na)
}

func (p *Path) narrow(g *Group, na []int32) {
	if len(na) == len(g.alive) {
		return
	}
	if len(na) == 0 {
		p.infeasible = true
		panic(pathEnd{"infeasible"})
	}
	if len(na)*4 < g.n && g.n > 64 || len(na) == 1 {
		ng := &Group{base: map[int32][]int64{}, n: len(na), memo: map[*Term]column{}, vars: g.vars}
		for _, v := range g.vars {
			b := make([]int64, len(na))
			for k, i := range na {
				b[k] = g.base[v][i]
			}
			ng.base[v] = b
		}
		ng.alive = make([]int32, len(na))
		for i := range ng.alive {
			ng.alive[i] = int32(i)
		}
		for _, v := range g.vars {
			p.groupOf[v] = ng
		}
		g = ng
	} else {
		// columns computed so far stay valid for the subset; snapshots keep the old slice
		g.alive = na
	}
	for _, v := range g.vars {
		if p.fixedSet[v] {
			continue
		}
		b := g.base[v]
		x := b[g.alive[0]]
		same := true
		for _, i := range g.alive[1:] {
			if b[i] != x {
				same = false
				break
			}
		}
		if same {
			p.fix(v, uint64(x))
		}
	}
}

func (p *Path) evalModel(t *Term) uint64 {
	return evalTerm(t, func(id int32) uint64 { return p.model[id] }, map[*Term]uint64{})
}

func (p *Path) modelMap() map[string]uint64 {
	m := make(map[string]uint64, len(p.vars))
	for _, v := range p.vars {
		m[p.tt.vars[v].name] = p.model[v]
	}
	return m
}

func (p *Path) altModel(g *Group, i int32) map[string]uint64 {
	m := p.modelMap()
	for _, v := range g.vars {
		m[p.tt.vars[v].name] = uint64(g.base[v][i])
	}
	return m
}

// pcStrings renders the path condition for the solver.
func (p *Path) pcStrings() []string {
	s := p.w.solver
	out := make([]string, 0, len(p.pc))
	for i := range p.pc {
		e := &p.pc[i]
		if e.gen != s.gen {
			if e.t.op == OVar && e.g == nil && e.t.k == KInt {
				v := p.tt.vars[e.t.c]
				x := s.varName(int32(e.t.c))
				w := bitsFor(v.lo, v.hi)
				e.smt = "(and (bvsle " + bvConst(v.lo, w) + " " + x + ") (bvsle " + x + " " + bvConst(v.hi, w) + "))"
			} else {
				e.smt = p.emitEntry(e)
			}
			e.gen = s.gen
		}
		out = append(out, e.smt)
	}
	return out
}

func (p *Path) emitEntry(e *PCEntry) string {
	s := p.w.solver
	if (e.t.float || e.table) && e.g != nil {
		return s.tableOf(p, e.t, e.g, e.alive)
	}
	x, _ := s.emit(e.t)
	return x
}

// ask the solver whether pc ∧ t is satisfiable.
func (p *Path) ask(t *Term) (satResult, map[int32]uint64) {
	s := p.w.solver
	if s.cmd == nil || s.defs > 12000 {
		s.close()
		if err := s.start(); err != nil {
			panic(unsupported("solver: %v", err))
		}
	}
	pc := p.pcStrings()
	x := ""
	if t != nil {
		e := PCEntry{t: t}
		if t.float {
			if g := p.join(t); g != nil {
				e.g, e.alive = g, g.alive
			}
		}
		x = p.emitEntry(&e)
	}
	r, m := s.check(pc, x, p.vars)
	if r == resSat {
		// validate the model by evaluation with the real (native) operations
		full := make([]uint64, len(p.model))
		copy(full, p.model)
		for id, v := range m {
			full[id] = v
		}
		ev := func(q *Term) bool {
			return evalTerm(q, func(id int32) uint64 { return full[id] }, map[*Term]uint64{}) != 0
		}
		ok := t == nil || ev(t)
		for i := range p.pc {
			if p.pc[i].t.k == KBool && ok {
				ok = ev(p.pc[i].t)
			}
		}
		if !ok {
			p.w.spurious++
			return resUnknown, nil
		}
		mm := map[int32]uint64{}
		for _, id := range p.vars {
			mm[id] = full[id]
		}
		return resSat, mm
	}
	return r, nil
}

func (p *Path) nameModel(m map[int32]uint64) map[string]uint64 {
	out := map[string]uint64{}
	for _, v := range p.vars {
		if x, ok := m[v]; ok {
			out[p.tt.vars[v].name] = x
		} else {
			out[p.tt.vars[v].name] = p.model[v]
		}
	}
	return out
}

func (p *Path) decide(v int64) { p.taken = append(p.taken, v) }
func (p *Path) nextDecision() (int64, bool) {
	if p.pos < len(p.prefix) {
		v := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, v)
		return v, true
	}
	return 0, false
}

func (p *Path) schedule(v int64, m map[string]uint64) {
	pre := make([]int64, len(p.taken)+1)
	copy(pre, p.taken)
	pre[len(p.taken)] = v
	p.w.push(workItem{pre, m})
}

// branch decides a symbolic condition, forking when both outcomes are possible.
func (p *Path) branch(c *Term) bool {
	c = p.fold(c)
	if c == p.tt.T {
		return true
	}
	if c == p.tt.F {
		return false
	}
	neg := false
	if c.op == ONot {
		c = c.args[0]
		neg = true
	}
	r := p.branch1(c, neg)
	return r != neg
}

// branch1 decides c. Decisions are recorded as the truth of the source condition
// (c, or its negation when neg), which does not depend on term numbering.
func (p *Path) branch1(c *Term, neg bool) bool {
	rec := func(v bool) int64 {
		if v != neg {
			return 1
		}
		return 0
	}
	cls, g, col := p.classify(c)
	switch cls {
	case clsTrue:
		return true
	case clsFalse:
		return false
	}
	if d, ok := p.nextDecision(); ok {
		v := (d != 0) != neg
		p.absorb(c, v, g, col)
		return v
	}
	p.forks++
	side := p.evalModel(c) != 0
	if cls == clsMixed {
		for _, i := range g.alive {
			if (col.v[i] != 0) != side {
				p.schedule(rec(!side), p.altModel(g, i))
				break
			}
		}
	} else {
		t := c
		if side {
			t = p.tt.Not(c)
		}
		r, m := p.ask(t)
		switch r {
		case resSat:
			p.schedule(rec(!side), p.nameModel(m))
		case resUnknown:
			p.w.inconclusive(p, "branch feasibility unknown")
		}
	}
	p.decide(rec(side))
	p.absorb(c, side, g, col)
	return side
}

// concretize forks over every feasible value of an integer term.
func (p *Path) concretize(t *Term) uint64 {
	t = p.fold(t)
	if t.op == OConst {
		return uint64(t.c)
	}
	if t.k == KBool {
		if p.branch(t) {
			return 1
		}
		return 0
	}
	eqc := func(v uint64) *Term { return p.tt.Eq(t, p.constOf(t, v)) }
	g := p.join(t)
	if g != nil {
		col := g.colAt(p, t, g.alive)
		if col.isC {
			return col.c
		}
		first := map[uint64]int32{}
		var order []uint64
		for _, i := range g.alive {
			if _, ok := first[col.v[i]]; !ok {
				first[col.v[i]] = i
				order = append(order, col.v[i])
			}
		}
		if len(order) == 1 {
			return order[0]
		}
		take := func(v uint64) uint64 {
			c := eqc(v)
			e := PCEntry{t: c, g: g, alive: g.alive}
			if c.float {
				g.colAt(p, c, g.alive)
			}
			p.pc = append(p.pc, e)
			var na []int32
			for _, i := range g.alive {
				if col.v[i] == v {
					na = append(na, i)
				}
			}
			p.narrow(g, na)
			return v
		}
		if d, ok := p.nextDecision(); ok {
			return take(uint64(d))
		}
		p.forks++
		cur := p.evalModel(t)
		ex := p.exact(g)
		for _, v := range order {
			if v == cur {
				continue
			}
			if ex {
				p.schedule(int64(v), p.altModel(g, first[v]))
			} else {
				r, m := p.ask(eqc(v))
				switch r {
				case resSat:
					p.schedule(int64(v), p.nameModel(m))
				case resUnknown:
					p.w.inconclusive(p, "value feasibility unknown")
				}
			}
		}
		p.decide(int64(cur))
		return take(cur)
	}
	if d, ok := p.nextDecision(); ok {
		p.absorb(eqc(uint64(d)), true, nil, column{})
		p.known[t] = uint64(d)
		return uint64(d)
	}
	p.forks++
	cur := p.evalModel(t)
	block := []*Term{p.tt.Not(eqc(cur))}
	for n := 0; ; n++ {
		if n > 4096 {
			p.w.inconclusive(p, "more than 4096 values to enumerate")
			break
		}
		r, m := p.ask(p.tt.And(block...))
		if r == resUnsat {
			break
		}
		if r == resUnknown {
			p.w.inconclusive(p, "value enumeration unknown")
			break
		}
		full := make([]uint64, len(p.model))
		copy(full, p.model)
		for id, v := range m {
			full[id] = v
		}
		v := evalTerm(t, func(id int32) uint64 { return full[id] }, map[*Term]uint64{})
		p.schedule(int64(v), p.nameModel(m))
		block = append(block, p.tt.Not(eqc(v)))
	}
	p.decide(int64(cur))
	p.absorb(eqc(cur), true, nil, column{})
	p.known[t] = cur
	return cur
}

// choose forks over 0..n-1 unconditionally (scheduling choices).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.nextDecision(); ok {
		return int(d)
	}
	p.forks++
	for i := 1; i < n; i++ {
		p.schedule(int64(i), p.modelMap())
	}
	p.decide(0)
	return 0
}

// assume restricts the path to c.
func (p *Path) assume(c *Term) {
	c = p.fold(c)
	if c == p.tt.T {
		return
	}
	if c == p.tt.F {
		panic(pathEnd{"assume"})
	}
	cls, g, col := p.classify(c)
	if cls == clsTrue {
		return
	}
	if cls == clsFalse {
		panic(pathEnd{"assume"})
	}
	if _, ok := p.nextDecision(); ok {
		p.absorb(c, true, g, col)
		return
	}
	if p.evalModel(c) == 0 {
		if cls == clsMixed {
			for _, i := range g.alive {
				if col.v[i] != 0 {
					for _, v := range g.vars {
						p.model[v] = uint64(g.base[v][i])
					}
					break
				}
			}
		} else {
			r, m := p.ask(c)
			if r == resUnsat {
				panic(pathEnd{"assume"})
			}
			if r == resUnknown {
				p.w.inconclusive(p, "assumption feasibility unknown")
				panic(pathEnd{"inconclusive"})
			}
			for id, v := range m {
				p.model[id] = v
			}
		}
	}
	p.decide(1)
	p.absorb(c, true, g, col)
}

func (p *Path) assert(c *Term, msg string) {
	c = p.fold(c)
	p.w.nAsserts++
	if c == p.tt.T {
		p.w.nAssertConst++
		return
	}
	e := PCEntry{t: c}
	if p.w.cfg.Poly {
		if c.float {
			if g := p.join(c); g != nil {
				e.g, e.alive = g, g.alive
				g.colAt(p, c, g.alive)
			}
		}
	} else {
		// domain propagation first; what it leaves open goes to the solver as a table
		cls, g, _ := p.classify(c)
		if cls == clsTrue {
			p.w.nAssertProp++
			return
		}
		if g != nil {
			e.g, e.alive, e.table = g, g.alive, true
		}
	}
	p.asserts = append(p.asserts, assertRec{e, msg})
}

// flushAsserts decides the assertions collected on this path: pc ∧ ¬(a1 ∧ ... ∧ an).
func (p *Path) flushAsserts() {
	if len(p.asserts) == 0 {
		return
	}
	var as []assertRec
	for _, a := range p.asserts {
		if f := p.fold(a.t); f != p.tt.T {
			if f.op == OConst {
				a.PCEntry = PCEntry{t: f}
			}
			as = append(as, a)
		}
	}
	p.asserts = nil
	if len(as) == 0 {
		return
	}
	s := p.w.solver
	if s.cmd == nil || s.defs > 12000 {
		s.close()
		if err := s.start(); err != nil {
			panic(unsupported("solver: %v", err))
		}
	}
	pc := p.pcStrings()
	query := func() string {
		var b strings.Builder
		b.WriteString("(or")
		for i := range as {
			b.WriteString(" (not " + p.emitEntry(&as[i].PCEntry) + ")")
		}
		return b.String() + ")"
	}
	// where every assertion can also be put as a table, polynomials get little time
	groups := make([]*Group, len(as))
	tables := true
	for i := range as {
		if groups[i] = p.join(as[i].t); groups[i] == nil && as[i].t.op != OConst {
			tables = false
			break
		}
	}
	x := query()
	s.tryMs = 0
	if tables {
		s.tryMs = 4000
	}
	r, m := s.check(pc, x, p.vars)
	s.tryMs = 0
	if r == resUnknown && tables {
		for i := range as {
			g := p.join(as[i].t)
			if g != nil {
				as[i].g, as[i].alive, as[i].table = g, g.alive, true
			}
		}
		if s.cmd == nil {
			if err := s.start(); err != nil {
				panic(unsupported("solver: %v", err))
			}
		}
		pc = p.pcStrings()
		r, m = s.check(pc, query(), p.vars)
	}
	p.w.nDecided++
	switch r {
	case resUnsat:
		return
	case resUnknown:
		p.w.inconclusive(p, "assertion query unknown: "+as[0].msg)
		return
	}
	full := make([]uint64, len(p.model))
	copy(full, p.model)
	for id, v := range m {
		full[id] = v
	}
	ev := func(q *Term) bool {
		return evalTerm(q, func(id int32) uint64 { return full[id] }, map[*Term]uint64{}) != 0
	}
	for i := range p.pc {
		if p.pc[i].t.k == KBool && !ev(p.pc[i].t) {
			p.w.spurious++
			p.w.inconclusive(p, "solver model does not satisfy the path natively")
			return
		}
	}
	mm := map[int32]uint64{}
	for _, id := range p.vars {
		mm[id] = full[id]
	}
	for i := range as {
		if !ev(as[i].t) {
			p.w.violation(p, as[i].msg, p.nameModel(mm))
			return
		}
	}
	p.w.spurious++
	p.w.inconclusive(p, "solver model does not violate the assertion natively")
}

type pathEnd struct{ why string }

// coverRec is a condition that some path has to be able to satisfy.
type coverRec struct {
	t   *Term
	msg string
}

// flushCovers asks, at the end of a path, which of its cover conditions it can satisfy. A
// condition the solver cannot decide counts as satisfied.
func (p *Path) flushCovers(done func(string) bool) map[string]bool {
	out := map[string]bool{}
	for _, c := range p.covers {
		if out[c.msg] {
			continue
		}
		out[c.msg] = done(c.msg)
		if out[c.msg] {
			continue
		}
		t := p.fold(c.t)
		if t.op == OConst {
			out[c.msg] = t.c != 0
			continue
		}
		if p.evalModel(t) != 0 {
			out[c.msg] = true
			continue
		}
		r, _ := p.ask(t)
		p.w.nDecided++
		out[c.msg] = r != resUnsat
	}
	return out
}
