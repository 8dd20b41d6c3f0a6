// Package algo: the evolutionary algorithms seen through the functions they are given. Every
// fitness is chosen by the solver, as are the points that mutate and the order in which the
// workers finish.
package algo

import (
	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type G = normgeom.NormPointGroup

// What a variant checks: v = configuration + 100*mode.
const (
	selection = iota // the best and the surviving groups
	combining        // the combination of beneficial mutations
	protocol         // what the fitness functions are asked; data races
)

// key is the content of a group of up to four points; a point is known by its X, and its Y
// belongs to it. In groups of more points, points that are blocks apart move together.
type key [4]int

var blocks int // 0: every point is its own

func keyOf(g G) key {
	var k key
	n := len(g)
	if blocks > 0 {
		n = blocks
	}
	for i := range g {
		b, id := i%n, int(g[i].X)
		if g[i].Y != yOf(id, i) {
			id = -1 // torn
		}
		if i < n {
			k[b] = id
		} else if k[b] != id {
			k[b] = -1
		}
	}
	return k
}

func yOf(id, i int) float64 { return float64(id+i) + 0.5 }

// world is everything the algorithm is given.
type world struct {
	mode   int
	all    bool
	np     int // points per group
	levels int
	f      map[key]float64
	nextID int
	// the current generation
	muts  []mutCall
	evals []*fn
	twice bool
	prev  []key
	picks []int // the points moved in each call of Mutate
	call  int   // the calls of Mutate so far
	vals  []float64
	apart bool // different contents have different fitnesses
	rare  int  // if not 0, only every rare-th content can have a fitness above 0
	long  *long
	rep   int // how many points move together
}

// long: the fitnesses are fixed numbers, which grow slowly, but for every so many-th content,
// whose fitness is arbitrary; the mutations are fixed as well.
type long struct {
	s     uint32
	every int // from one arbitrary fitness to the next
	left  int // how many of them there are
	count int
	// an arbitrary fitness is one of three
	coarse bool
}

func (l *long) next(n int) int {
	l.s = l.s*1664525 + 1013904223
	return int(l.s>>8) % n
}

func (w *world) longVal() float64 {
	l := w.long
	l.count++
	v := (l.count/7+l.next(40)*l.next(30))%4096 + 1
	if l.count%l.every == 0 && l.left > 0 {
		l.left--
		if l.coarse {
			return float64(v+1500*sym.Int("f", 0, 2)) / 4096
		}
		return float64(sym.Int("f", v-30, v+200)) / 4096
	}
	return float64(v) / 4096
}

type mutCall struct {
	base, child key
	muts        []mutation.Mutation
}

// fn is an incremental fitness function: it keeps the group it evaluated last.
type fn struct {
	w      *world
	id     int
	known  bool
	cur    G
	base   *fn
	cache  []fitness.CacheData
	data   *entry
	sees   int
	evals  int // evaluations in this generation
	last   key
	lastF  float64
	nmut   int
	errMsg string
}

// entry is what the functions put into the shared caches.
type entry struct {
	k    key
	hash uint32
}

func (e *entry) Equals(o fitness.CacheData) bool { return o.(*entry).k == e.k }
func (e *entry) Hash() uint64                    { return uint64(e.k[0]*7 + e.k[1]) }
func (e *entry) Data() float64                   { return 0 }
func (e *entry) CachedHash() uint32              { return e.hash }
func (e *entry) SetCachedHash(h uint32)          { e.hash = h }

func (f *fn) fail(m string) {
	if f.errMsg == "" {
		f.errMsg = m
	}
}

func (f *fn) Calculate(d fitness.PointsData) float64 {
	switch {
	case !f.known:
		f.cur = d.Points.Copy()
		f.known = true
	case f.base != nil:
		if !f.base.known {
			f.fail("a function is based on one that has not evaluated anything")
		}
		f.cur = append(f.cur[:0], f.base.cur...)
		for _, m := range d.Mutations {
			if m.Index < 0 || m.Index >= len(f.cur) || f.cur[m.Index] != m.Old {
				f.fail("a mutation does not start from the point of the base")
				continue
			}
			f.cur[m.Index] = m.New
		}
	}
	f.base = nil
	if len(f.cur) != len(d.Points) {
		f.fail("a group changed its size")
	} else {
		for i := range f.cur {
			if f.cur[i] != d.Points[i] {
				f.fail("what a function evaluated before, or its base with the mutations, is not the group to evaluate")
			}
		}
	}
	f.nmut = len(d.Mutations)
	f.last = keyOf(d.Points)
	f.evals++
	f.lastF = f.w.val(f.last)
	// consult the shared cache, as the real functions do
	e := &entry{k: f.last}
	if n := len(f.cache); n > 0 {
		i := uint32(e.Hash() % uint64(n))
		e.hash = i
		if c := f.cache[i]; c != nil {
			if c.Equals(e) {
				f.sees++
			}
		}
	}
	f.data = e
	return f.lastF
}

func (f *fn) SetBase(o fitness.CacheFunction) { f.base = o.(*fn) }
func (f *fn) Cache() []fitness.CacheData {
	if f.data == nil {
		return nil
	}
	return []fitness.CacheData{f.data}
}
func (f *fn) SetCache(c []fitness.CacheData) { f.cache = c }

// Mutate changes any subset of the points (chosen by the solver), each to a new place.
func (w *world) Mutate(g G, mutated func(mutation.Mutation)) {
	c := mutCall{base: keyOf(g)}
	nb := len(g)
	if blocks > 0 {
		nb = blocks
	}
	n := 1 << uint(nb)
	which := n - 1
	if w.long != nil {
		which = w.long.next(n)
	} else if len(g) > 1 && !w.all {
		if w.call == len(w.picks) {
			w.picks = append(w.picks, sym.Pick("mut", n))
		}
		which = w.picks[w.call]
		w.call++
	}
	var ids [4]int
	for i := range g {
		if which&(1<<uint(i%nb)) == 0 {
			continue
		}
		old := g[i]
		if i < nb {
			w.nextID++
			ids[i] = w.nextID
		}
		g[i].X = float64(ids[i%nb])
		g[i].Y = yOf(ids[i%nb], i)
		m := mutation.Mutation{Old: old, New: g[i], Index: i}
		mutated(m)
		c.muts = append(c.muts, m)
	}
	c.child = keyOf(g)
	w.val(c.child)
	w.muts = append(w.muts, c)
}

func newWorld(np, levels int) *world {
	blocks = 0
	return &world{np: np, levels: levels, f: map[key]float64{}}
}

// val gives every content its fitness, chosen by the solver when the content first appears.
func (w *world) val(k key) float64 {
	if v, ok := w.f[k]; ok {
		return v
	}
	if w.rare > 0 && len(w.f)%w.rare != w.rare/2 {
		w.f[k] = 0
		return 0
	}
	if w.long != nil {
		w.f[k] = w.longVal()
		return w.f[k]
	}
	v := sym.Float("f", 0, w.levels, 64)
	if w.apart {
		var ok []bool
		for _, o := range w.vals {
			ok = append(ok, o != v)
		}
		sym.Assume(sym.And(ok...))
		w.vals = append(w.vals, v)
	}
	w.f[k] = v
	return v
}

// initial is the content of the group made in call i of group.
func (w *world) initial(i int) key {
	var k key
	for p := 0; p < w.np; p++ {
		k[p] = i
	}
	return k
}

// table chooses the fitnesses of the first population.
func (w *world) table(size int) {
	for i := 0; i < size; i++ {
		w.val(w.initial(i))
	}
}

func (w *world) group() G {
	id := w.nextID
	w.nextID++
	var g G
	n := w.np
	if blocks > 0 {
		n *= w.rep
	}
	for i := 0; i < n; i++ {
		g = append(g, normgeom.NormPoint{X: float64(id), Y: yOf(id, i)})
	}
	return g
}

// generation forgets the previous one.
func (w *world) generation() {
	w.muts = nil
	for _, f := range w.evals {
		f.evals = 0
	}
}

func (w *world) evaluators(kind int) func(n int) evaluator.Evaluator {
	return func(n int) evaluator.Evaluator {
		var cf []fitness.CacheFunction
		for i := 0; i < n; i++ {
			f := &fn{w: w, id: i}
			w.evals = append(w.evals, f)
			cf = append(cf, f)
		}
		return evaluator.NewParallel(cf, kind)
	}
}

// evaluated: the contents evaluated in this generation.
func (w *world) evaluated() []key {
	var out []key
	for _, f := range w.evals {
		if w.mode == protocol {
			sym.Assert(f.errMsg == "", "incremental evaluation: "+f.errMsg)
			sym.Assert(f.evals <= 1, "a function evaluates twice in one generation")
		}
		if f.evals > 0 {
			out = append(out, f.last)
		}
	}
	return out
}

// beats: the best group is the best of those evaluated.
func (w *world) checkBest(a algorithm.Algorithm, gen int, before float64) float64 {
	ev := w.evaluated()
	b := a.Stats().BestFitness
	best := keyOf(a.Best())
	sym.ObserveF("best", b)
	if w.mode != selection {
		return b
	}
	var ok, in []bool
	for _, k := range ev {
		ok = append(ok, w.val(k) <= b)
		in = append(in, k == best)
	}
	sym.Assert(sym.And(ok...), "the best fitness is lower than that of a group evaluated in this generation")
	sym.Assert(w.val(best) == b, "the fitness reported is not that of the best group")
	sym.Assert(sym.Or(in...), "the best group was not evaluated in this generation")
	sym.Assert(b >= before, "the best fitness decreased")
	n := w.np
	if blocks > 0 {
		n *= w.rep
	}
	sym.Assert(len(a.Best()) == n, "the best group has another number of points")
	sym.Assert(a.Stats().Generation == gen, "the number of generations is wrong")
	return b
}

// survivors: the groups mutated are copies of the cutoff best evaluated in the last generation.
func (w *world) checkBases(prev []key, cutoff, children int) {
	if w.mode == protocol {
		w.checkAsked()
	}
	if w.mode != selection {
		return
	}
	sym.Assert(len(w.muts) == children, "the number of children is wrong")
	var bases []key
	for i, m := range w.muts {
		if i < cutoff {
			bases = append(bases, m.base)
			same, avail := 1, 0
			for j := 0; j < i; j++ {
				if m.base == w.muts[j].base {
					same++
				}
			}
			for _, k := range prev {
				if k == m.base {
					avail++
				}
			}
			// a combined group may be equal to the only child it combines
			sym.Assert(same <= avail, "two of the first children come from the same group")
		} else {
			sym.Assert(m.base == bases[i%cutoff], "the children are not spread evenly over the surviving groups")
		}
	}
	for _, b := range bases {
		var in, ge []bool
		for _, k := range prev {
			in = append(in, k == b)
			surv := false
			for _, x := range bases {
				if x == k {
					surv = true
				}
			}
			if !surv {
				ge = append(ge, w.val(b) >= w.val(k))
			}
		}
		sym.Assert(sym.Or(in...), "a surviving group was not evaluated in the last generation")
		sym.Assert(sym.And(ge...), "a group survives although a better one does not")
	}
	// elites and children are evaluated
	ev := w.evaluated()
	has := func(k key) bool {
		for _, x := range ev {
			if x == k {
				return true
			}
		}
		return false
	}
	for _, b := range bases {
		sym.Assert(has(b), "a surviving group is not evaluated again")
	}
	for _, m := range w.muts {
		sym.Assert(has(m.child), "a child is not evaluated")
	}
}

// A configuration: all schedules are explored in the generations listed in free (bit 0 is
// the initial population, bit g generation g), the order of starting in the others; sorted
// populations start with falling fitnesses.
// checkAsked: the mutations a function is given are those the mutator reported for the group.
func (w *world) checkAsked() {
	for _, f := range w.evals {
		if f.evals == 0 {
			continue
		}
		for _, m := range w.muts {
			if m.child == f.last && len(m.muts) > 0 {
				sym.Assert(f.nmut == len(m.muts), "a function is not given the mutations of the group")
			}
		}
	}
}

type cfg struct {
	size, cutoff, np, steps, levels, pow int
	free                                 int
	sorted                               bool
	all                                  bool // every point of a child moves
	rare                                 int  // if not 0, only every so many-th content can have a fitness above 0
}

func (c cfg) fifo(gen int) { sym.Fifo(c.free&(1<<uint(gen)) == 0) }

func (w *world) order(c cfg) {
	if !c.sorted {
		return
	}
	var ok []bool
	for i := 1; i < c.size; i++ {
		ok = append(ok, w.val(w.initial(i-1)) >= w.val(w.initial(i)))
	}
	sym.Assume(sym.And(ok...))
}

// every: for long runs, how often a fitness is arbitrary, and how many are
type longCfg struct{ size, cutoff, np, steps, pow, every, left, rep int }

var longCfgs = []longCfg{
	{8, 2, 3, 40, 3, 60, 3, 1},
	{150, 10, 2, 3, 2, 130, 3, 1},
	{10, 1, 4, 25, 1, 70, 3, 1},
	{60, 7, 2, 6, 4, 90, 3, 1},
	{300, 5, 2, 2, 5, 200, 2, 1},
	{9, 4, 1, 30, 0, 50, 3, 1},
	{6, 1, 3, 4, 1, 7, 3, 100},
	{9, 2, 4, 3, 2, 7, 3, 20},
	{5, 1, 4, 6, 1, 5, 3, 10},
	{7, 1, 2, 280, 1, 500, 3, 1},
}

// Long: many generations, or many groups. v = configuration + 10 for the modified genetic
// algorithm + 100*mode.
func Long(v int) {
	c := longCfgs[v%10]
	sym.Fifo(true)
	w := newWorld(c.np, 0)
	w.mode = v / 100
	if c.rep > 1 {
		blocks, w.rep = c.np, c.rep
	}
	w.long = &long{s: uint32(v%10)*2654435761 + 1, every: c.every, left: c.left, coarse: c.size > 50}
	w.table(c.size)
	var a algorithm.Algorithm
	children := c.size - c.cutoff
	genetic := v/10%10 == 1
	if genetic {
		children -= c.cutoff
		a = algorithm.NewModifiedGenetic(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	} else {
		a = algorithm.NewSimple(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	}
	w.nextID = c.size - 1
	b := w.checkBest(a, 0, 0)
	for g := 1; g <= c.steps; g++ {
		prev := w.evaluated()
		w.generation()
		a.Step()
		b = w.checkBest(a, g, b)
		w.checkBases(prev, c.cutoff, children)
		if genetic {
			w.checkCombined(c.cutoff)
		}
	}
}

var simpleCfgs = []cfg{
	{4, 1, 1, 0, 8, 1, 1, false, false, 0},
	{3, 1, 1, 1, 8, 1, 2, false, false, 0},
	{3, 1, 1, 2, 8, 1, 4, true, false, 0},
	{4, 2, 1, 1, 8, 2, 0, true, false, 0},
	{4, 1, 1, 1, 8, 0, 2, true, false, 0},
	{5, 2, 1, 1, 8, 3, 0, true, false, 0},
	{3, 1, 2, 1, 8, 1, 0, true, false, 0},
	{3, 1, 1, 3, 8, 1, 0, true, false, 0},
}

// Simple: v = configuration.
func Simple(v int) {
	c := simpleCfgs[v%100]
	c.fifo(0)
	w := newWorld(c.np, c.levels)
	w.mode = v / 100
	w.all = c.all
	w.rare = c.rare
	w.table(c.size)
	w.order(c)
	a := algorithm.NewSimple(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	w.nextID = c.size - 1
	b := w.checkBest(a, 0, 0)
	for g := 1; g <= c.steps; g++ {
		c.fifo(g)
		prev := w.evaluated()
		w.generation()
		a.Step()
		b = w.checkBest(a, g, b)
		w.checkBases(prev, c.cutoff, c.size-c.cutoff)
	}
}

var genCfgs = []cfg{
	{5, 1, 1, 0, 8, 1, 1, false, false, 0},
	{4, 1, 1, 1, 8, 1, 2, false, false, 0},
	{4, 1, 1, 2, 8, 1, 4, true, false, 0},
	{4, 1, 2, 1, 8, 1, 2, true, false, 0},
	{5, 1, 2, 1, 8, 2, 0, true, false, 0},
	{6, 2, 1, 1, 8, 2, 0, true, false, 0},
	{7, 2, 1, 1, 8, 2, 0, true, false, 0},
	{4, 1, 2, 2, 8, 0, 0, true, false, 0},
	{6, 2, 2, 1, 8, 2, 0, true, false, 0},
	{6, 2, 1, 2, 8, 1, 0, true, false, 0},
	{5, 1, 2, 1, 8, 2, 2, true, false, 0},
	{5, 1, 3, 1, 8, 1, 0, true, false, 0},
	{6, 1, 2, 1, 8, 1, 0, true, false, 0},
	{8, 2, 2, 1, 8, 1, 0, true, false, 0},
	{9, 3, 1, 2, 8, 1, 0, true, false, 0},
	{7, 1, 1, 1, 8, 1, 2, true, false, 0},
	{5, 1, 2, 1, 8, 2, 2, true, true, 0},
	{5, 1, 3, 1, 8, 1, 0, true, true, 0},
	{6, 1, 2, 1, 8, 1, 0, true, true, 0},
	{24, 6, 1, 3, 8, 1, 0, false, false, 12},
	{24, 8, 1, 3, 8, 1, 0, false, false, 12},
	{32, 8, 1, 3, 8, 1, 0, false, false, 12},
}

// Genetic: v = configuration.
func Genetic(v int) {
	c := genCfgs[v%100]
	c.fifo(0)
	w := newWorld(c.np, c.levels)
	w.mode = v / 100
	w.all = c.all
	w.rare = c.rare
	w.table(c.size)
	w.order(c)
	a := algorithm.NewModifiedGenetic(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	w.nextID = c.size - 1
	b := w.checkBest(a, 0, 0)
	for g := 1; g <= c.steps; g++ {
		c.fifo(g)
		prev := w.evaluated()
		w.generation()
		a.Step()
		b = w.checkBest(a, g, b)
		w.checkBases(prev, c.cutoff, c.size-2*c.cutoff)
		w.checkCombined(c.cutoff)
	}
}

// checkCombined: for every surviving group, a group is evaluated that carries, for every point
// that a better child moved, the move of the best such child.
func (w *world) checkCombined(cutoff int) {
	if w.mode != combining {
		return
	}
	ev := w.evaluated()
	nb := cutoff
	if len(w.muts) < nb {
		nb = len(w.muts)
	}
	extra := len(ev) - len(w.muts) - cutoff
	// what is left after every child and every survivor has been evaluated once
	rest := append([]key{}, ev...)
	take := func(k key) {
		for i := range rest {
			if rest[i] == k {
				rest = append(rest[:i], rest[i+1:]...)
				return
			}
		}
	}
	for _, c := range w.muts {
		take(c.child)
	}
	for j := 0; j < nb; j++ {
		take(w.muts[j].base)
	}
	want := 0
	for j := 0; j < nb; j++ {
		base := w.muts[j].base
		fb := w.val(base)
		// which children are better
		var good []int
		for i := j; i < len(w.muts); i += cutoff {
			better := w.val(w.muts[i].child) > fb
			if better && len(w.muts[i].muts) > 0 {
				good = append(good, i)
			}
		}
		if len(good) == 0 {
			continue
		}
		want++
		// candidates: per point, the move of any best child among those that moved it
		var found []bool
		for _, k := range rest {
			var ok []bool
			for p := 0; p < w.np; p++ {
				var opts []bool
				moved := false
				for _, i := range good {
					to := -1
					for _, m := range w.muts[i].muts {
						if m.Index == p {
							to = int(m.New.X)
						}
					}
					if to < 0 {
						continue
					}
					moved = true
					if k[p] != to {
						continue
					}
					var best []bool
					for _, o := range good {
						for _, m := range w.muts[o].muts {
							if m.Index == p {
								best = append(best, w.val(w.muts[i].child) >= w.val(w.muts[o].child))
							}
						}
					}
					opts = append(opts, sym.And(best...))
				}
				if moved {
					ok = append(ok, sym.Or(opts...))
				} else {
					ok = append(ok, k[p] == base[p])
				}
			}
			found = append(found, sym.And(ok...))
		}
		sym.Assert(sym.Or(found...), "the beneficial mutations of a group are not combined")
		sym.Reach("combined")
	}
	sym.Assert(extra == want, "the number of combined groups evaluated is not the number of groups with better children")
}

// result is what a user sees of a generation.
type result struct {
	best key
	fit  float64
	gen  int
}

// run makes the same run again: the same groups, the same mutations, the same fitnesses. The
// workers finish in the order they were started in, or in any order.
func (w *world) run(c cfg, genetic, free bool) []result {
	w.nextID, w.call = 0, 0
	w.evals, w.muts = nil, nil
	fifo := func(gen int) { sym.Fifo(!free || c.free&(1<<uint(gen)) == 0) }
	fifo(0)
	var a algorithm.Algorithm
	if genetic {
		a = algorithm.NewModifiedGenetic(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	} else {
		a = algorithm.NewSimple(w.group, c.size, c.cutoff, w.evaluators(c.pow), w)
	}
	out := []result{{keyOf(a.Best()), a.Stats().BestFitness, a.Stats().Generation}}
	for g := 1; g <= c.steps; g++ {
		fifo(g)
		a.Step()
		out = append(out, result{keyOf(a.Best()), a.Stats().BestFitness, a.Stats().Generation})
	}
	sym.Fifo(true)
	return out
}

var repeatCfgs = []cfg{
	{4, 1, 1, 0, 16, 1, 1, false, false, 0},
	{3, 1, 1, 1, 16, 1, 2, false, false, 0},
	{3, 1, 1, 2, 16, 1, 4, true, false, 0},
	{4, 1, 1, 1, 16, 1, 2, true, false, 0},
	{3, 1, 1, 2, 16, 1, 6, true, false, 0},
	{4, 2, 2, 1, 16, 1, 2, true, false, 0},
	{5, 2, 1, 1, 16, 1, 2, true, false, 0},
}

var repeatGenCfgs = []cfg{
	{5, 1, 1, 0, 16, 1, 1, false, false, 0},
	{4, 1, 1, 1, 16, 1, 2, true, false, 0},
	{4, 1, 1, 2, 16, 1, 4, true, false, 0},
	{4, 1, 2, 1, 16, 1, 2, true, false, 0},
	{5, 1, 2, 1, 16, 1, 2, true, true, 0},
	{5, 1, 1, 1, 16, 1, 2, true, false, 0},
	{6, 2, 1, 1, 16, 1, 2, true, false, 0},
	{4, 1, 2, 2, 16, 1, 4, true, true, 0},
	{4, 1, 1, 2, 16, 1, 6, true, false, 0},
	{5, 1, 2, 1, 16, 1, 2, true, false, 0},
	{6, 2, 2, 1, 16, 1, 2, true, true, 0},
	{6, 1, 2, 1, 16, 1, 2, true, true, 0},
}

// Repeat: a run gives the same result whatever the order the workers finish in. v =
// configuration + 100 for the modified genetic algorithm, whose groups have different
// fitnesses (which of two equally good mutations is used is left open).
func Repeat(v int) {
	genetic := v >= 100
	c := repeatCfgs[v%100%len(repeatCfgs)]
	if genetic {
		c = repeatGenCfgs[v%100]
	}
	w := newWorld(c.np, c.levels)
	w.mode = -1
	w.all = c.all
	w.apart = genetic
	w.table(c.size)
	w.order(c)
	one := w.run(c, genetic, false)
	two := w.run(c, genetic, true)
	for g := range one {
		sym.ObserveF("best", two[g].fit)
		sym.Assert(one[g].fit == two[g].fit, "the best fitness depends on the order the workers finish in")
		sym.Assert(one[g].best == two[g].best, "the best group depends on the order the workers finish in")
		sym.Assert(one[g].gen == two[g].gen, "the number of generations depends on the order the workers finish in")
	}
}
