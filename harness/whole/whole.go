// Package whole: the real algorithms with the real fitness functions, evaluators and caches.
// The order of the workers, the mutations and some of the points are chosen by the solver.
package whole

import (
	"image"
	stdcolor "image/color"
	"math"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	imagedata "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	d "github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/utils"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type P = d.Point
type N = normgeom.NormPoint
type G = normgeom.NormPointGroup

type img struct {
	w, h int
	px   [][]color.RGB
}

func (m *img) Size() (int, int)         { return m.w, m.h }
func (m *img) RGBAt(x, y int) color.RGB { return m.px[y][x] }

func newImg(w, h int) *img {
	m := &img{w: w, h: h}
	s := uint32(88172645)
	next := func() float64 {
		s ^= s << 13
		s ^= s >> 17
		s ^= s << 5
		return float64(int(s>>9)&255) / 255
	}
	for y := 0; y < h; y++ {
		var row []color.RGB
		for x := 0; x < w; x++ {
			row = append(row, color.RGB{R: next(), G: next(), B: next()})
		}
		m.px = append(m.px, row)
	}
	return m
}

func incircle(a, b, c, q P) int {
	ax, ay := int(a.X)-int(q.X), int(a.Y)-int(q.Y)
	bx, by := int(b.X)-int(q.X), int(b.Y)-int(q.Y)
	cx, cy := int(c.X)-int(q.X), int(c.Y)-int(q.Y)
	return (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}
func eq(a, b P) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// generic: the Delaunay triangles between the points are unique.
func generic(g G, w, h int) bool {
	sup := d.NewSuperTriangle(w, h)
	a := []P{sup.A, sup.B, sup.C}
	for _, p := range g {
		a = append(a, P{X: int16(math.Floor(p.X*float64(w) + 0.5)), Y: int16(math.Floor(p.Y*float64(h) + 0.5))})
	}
	var ok []bool
	for i := range a {
		for j := 0; j < i; j++ {
			for k := 3; k < j; k++ {
				for l := 0; l < k; l++ {
					ok = append(ok, sym.Or(incircle(a[i], a[j], a[k], a[l]) != 0,
						eq(a[i], a[j]), eq(a[i], a[k]), eq(a[i], a[l]), eq(a[j], a[k]), eq(a[j], a[l]), eq(a[k], a[l])))
				}
			}
		}
	}
	return sym.And(ok...)
}

type cfg struct {
	w, h, bs, pow        int
	size, cutoff, steps  int
	poly, genetic, plain bool // plain: one function per member, without caches
	moves                int  // places a mutation may move a point to
	free                 int  // generations whose workers finish in any order
	both                 bool // two points move at once
}

var cfgs = []cfg{
	{w: 9, h: 7, bs: 2, pow: 3, size: 3, cutoff: 1, steps: 1, moves: 4, free: 3},
	{w: 9, h: 7, bs: 2, pow: 3, size: 3, cutoff: 1, steps: 2, moves: 2, free: 0},
	{w: 9, h: 7, bs: 2, pow: 3, size: 4, cutoff: 1, steps: 1, moves: 4, free: 0, genetic: true},
	{w: 9, h: 7, bs: 2, pow: 1, size: 4, cutoff: 1, steps: 2, moves: 2, free: 4, genetic: true},
	{w: 9, h: 7, bs: 2, pow: 3, size: 3, cutoff: 1, steps: 1, moves: 4, free: 3, poly: true},
	{w: 9, h: 7, bs: 2, pow: 0, size: 3, cutoff: 1, steps: 2, moves: 2, free: 0, poly: true},
	{w: 9, h: 7, bs: 2, pow: 3, size: 4, cutoff: 1, steps: 1, moves: 4, free: 0, poly: true, genetic: true},
	{w: 9, h: 7, bs: 2, pow: 1, size: 4, cutoff: 1, steps: 2, moves: 2, free: 4, poly: true, genetic: true},
	{w: 13, h: 8, bs: 3, pow: 5, size: 6, cutoff: 2, steps: 1, moves: 3, free: 0, genetic: true},
	{w: 13, h: 8, bs: 3, pow: 5, size: 4, cutoff: 2, steps: 2, moves: 2, free: 0},
	{w: 9, h: 7, bs: 2, pow: 2, size: 4, cutoff: 1, steps: 1, moves: 2, free: 2, genetic: true, both: true},
	{w: 9, h: 7, bs: 2, pow: 2, size: 4, cutoff: 1, steps: 1, moves: 2, free: 2, genetic: true, both: true, poly: true},
}

var groups = []G{
	{{0, 0}, {1, 0.0625}, {0.0625, 1}, {0.9375, 0.875}, {0.3125, 0.4375}},
	{{0.0625, 0.125}, {0.875, 0}, {0.1875, 0.875}, {1, 1}, {0.625, 0.3125}},
	{{0.25, 0.125}, {0.875, 0.3125}, {0.1875, 0.8125}, {0.75, 0.75}, {0.75, 0.75}},
	{{0, 0.5}, {0.5, 0}, {1, 0.5625}, {0.5625, 1}, {0.4375, 0.5}},
	{{0.125, 0.875}, {0.5, 0.25}, {0.9375, 0.0625}, {0.25, 0}, {0.0625, 0.0625}},
	{{0.0625, 0.9375}, {0.6875, 0.125}, {0.5, 0.9375}, {1, 0.5}, {0, 0.0625}},
}

var places = []N{{0.5, 0.5625}, {0.125, 0.375}, {0.75, 0.1875}, {0.375, 1}}

type mutator struct{ c cfg }

func (m mutator) Mutate(g G, mutated func(mutation.Mutation)) {
	k := sym.Pick("to", m.c.moves)
	i := len(g) - 1 - sym.Pick("pt", 2)
	is := []int{i}
	if m.c.both {
		is = []int{i, 0}
	}
	for j, i := range is {
		old := g[i]
		g[i] = places[(k+j)%len(places)]
		mutated(mutation.Mutation{Old: old, New: g[i], Index: i})
	}
}

func (c cfg) functions(m *img, n int) []fitness.CacheFunction {
	if c.poly {
		return fitness.PolygonsImageFunctions(m, c.bs, n)
	}
	return fitness.TrianglesImageFunctions(m, c.bs, n)
}

func (c cfg) fifo(gen int) { sym.Fifo(c.free&(1<<uint(gen)) == 0) }

// Run: v = configuration.
func Run(v int) {
	c := cfgs[v]
	m := newImg(c.w, c.h)
	// which group is best depends on the picture
	k := float64(sym.Int("colour", 0, 15)) * 17 / 255
	for _, x := range []int{0, 1, c.w / 2, c.w/2 + 1} {
		m.px[c.h/2][x].G = k
		m.px[1][x].B = 1 - k
	}
	made := 0
	group := func() G {
		g := groups[made].Copy()
		made++
		return g
	}
	evs := func(n int) evaluator.Evaluator {
		return evaluator.NewParallel(c.functions(m, n), c.pow)
	}
	var a algorithm.Algorithm
	c.fifo(0)
	if c.genetic {
		a = algorithm.NewModifiedGenetic(group, c.size, c.cutoff, evs, mutator{c})
	} else {
		a = algorithm.NewSimple(group, c.size, c.cutoff, evs, mutator{c})
	}
	before := -1.0
	check := func(gen int) {
		b := a.Stats().BestFitness
		sym.Assert(b >= before-1e-12, "the best fitness decreased")
		before = b
		sym.Assert(a.Stats().Generation == gen, "the number of generations is wrong")
		g := a.Best()
		sym.Assert(len(g) == len(groups[0]), "the best group has another number of points")
		want := c.functions(m, 1)[0].Calculate(fitness.PointsData{Points: g})
		e := b - want
		sym.Assert(sym.Or(sym.And(e <= 1e-9, e >= -1e-9), sym.Not(generic(g, c.w, c.h))), "the fitness reported is not that of the best points")
		sym.ObserveF("best", b)
	}
	check(0)
	for s := 1; s <= c.steps; s++ {
		c.fifo(s)
		a.Step()
		check(s)
	}
}

// seeded mutates by a fixed sequence of numbers, except for one call whose target the solver
// chooses.
type seeded struct {
	next  func(int) int
	free  int // the call that is free
	calls int
}

func (m *seeded) Mutate(g G, mutated func(mutation.Mutation)) {
	m.calls++
	n := m.next(3)
	if m.calls == m.free {
		n = 1
	}
	for ; n > 0; n-- {
		i := m.next(len(g))
		if n == 2 {
			i = 0
		}
		old := g[i]
		p := N{X: float64(m.next(33)) / 32, Y: float64(m.next(33)) / 32}
		if m.calls == m.free {
			p = places[sym.Pick("to", len(places))]
		}
		g[i] = p
		mutated(mutation.Mutation{Old: old, New: p, Index: i})
		if n == 2 && m.next(2) == 0 { // the other point is not the first
			n--
			j := 1 + m.next(len(g)-1)
			old := g[j]
			g[j] = N{X: float64(m.next(33)) / 32, Y: float64(m.next(33)) / 32}
			mutated(mutation.Mutation{Old: old, New: g[j], Index: j})
			break
		}
		if n == 2 {
			break
		}
	}
}

// RunMix: longer runs of both algorithms on both kinds of shapes, with configurations derived
// from k.
func RunMix(k int) {
	s := uint32(k)*2654435761 + 12345
	next := func(n int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % n
	}
	np := 3 + next(6)
	size := 3 + next(5)
	cutoff := 1 + next(2)
	c := cfg{w: 5 + next(12), h: 4 + next(9), bs: 1 + next(4), pow: next(5), size: size, cutoff: cutoff, steps: 2 + next(2), poly: k%2 == 1, genetic: k%4 >= 2}
	if c.genetic && c.size < 2*c.cutoff+1 {
		c.size = 2*c.cutoff + 1
	}
	m := newImg(c.w, c.h)
	col := float64(sym.Int("colour", 0, 15)) * 17 / 255
	for i := 0; i < 3; i++ {
		m.px[next(c.h)][next(c.w)].G = col
	}
	group := func() G {
		var g G
		for i := 0; i < np; i++ {
			g = append(g, N{X: float64(next(33)) / 32, Y: float64(next(33)) / 32})
		}
		return g
	}
	evs := func(n int) evaluator.Evaluator {
		return evaluator.NewParallel(c.functions(m, n), c.pow)
	}
	sym.Fifo(true)
	mut := &seeded{next: next, free: 1 + next(3)}
	var a algorithm.Algorithm
	if c.genetic {
		a = algorithm.NewModifiedGenetic(group, c.size, c.cutoff, evs, mut)
	} else {
		a = algorithm.NewSimple(group, c.size, c.cutoff, evs, mut)
	}
	before := -1.0
	for gen := 0; gen <= c.steps; gen++ {
		if gen > 0 {
			a.Step()
		}
		b := a.Stats().BestFitness
		sym.Assert(b >= before-1e-12, "the best fitness decreased")
		before = b
		sym.Assert(a.Stats().Generation == gen, "the number of generations is wrong")
		g := a.Best()
		sym.Assert(len(g) == np, "the best group has another number of points")
		want := c.functions(m, 1)[0].Calculate(fitness.PointsData{Points: g})
		e := b - want
		gen := generic(g, c.w, c.h)
		if sym.Yes(gen) {
			sym.Reach("generic")
		} else {
			sym.Reach("ambiguous")
		}
		sym.Assert(sym.Or(sym.And(e <= 1e-9, e >= -1e-9), sym.Not(gen)), "the fitness reported is not that of the best points")
		sym.ObserveF("best", b)
	}
}

// Default: the algorithm the package offers for any picture. Most of the groups it starts from
// form no triangle; some, which the solver may change, do. v = configuration.
func Default(v int) {
	np := 3 + v%3
	s := uint32(v)*2654435761 + 12345
	next := func(n int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % n
	}
	w, h := 6+v, 5+2*v
	pic := image.NewRGBA(image.Rect(v, 1, v+w, 1+h))
	for y := 1; y < 1+h; y++ {
		for x := v; x < v+w; x++ {
			pic.SetRGBA(x, y, stdcolor.RGBA{uint8(next(256)), uint8(next(256)), uint8(next(256)), 255})
		}
	}
	// the draws for the points: groups are drawn one after the other
	n := 0
	var good []float64
	sym.OnFloat64(func() float64 {
		k := n / (2 * np)
		n++
		if k%7 != 3 {
			return 0
		}
		x := float64(next(33)) / 32
		if k == 3 && n%(2*np) == 4 {
			x = sym.Float("draw", 0, 7, 8)
		}
		good = append(good, x)
		return x
	})
	sym.OnUint32(func() uint32 {
		s = s*1664525 + 1013904223
		return s
	})
	sym.Fifo(true)
	a := utils.DefaultAlgorithm(np, pic)
	before := 0.0
	for gen := 0; gen <= 1; gen++ {
		if gen > 0 {
			a.Step()
		}
		b := a.Stats().BestFitness
		sym.Assert(sym.And(b > 0, b <= 1), "the best fitness is not that of a group that was drawn")
		sym.Assert(b >= before-1e-12, "the best fitness decreased")
		before = b
		sym.Assert(a.Stats().Generation == gen, "the number of generations is wrong")
		g := a.Best()
		sym.Assert(len(g) == np, "the best group has not the number of points asked for")
		for _, p := range g {
			sym.Assert(sym.And(p.X >= 0, p.X <= 1, p.Y >= 0, p.Y <= 1), "a point of the best group lies outside the picture")
		}
		want := fitness.NewTrianglesImageFunction(imagedata.ToData(pic), 5).Calculate(fitness.PointsData{Points: g})
		e := b - want
		sym.Assert(sym.Or(sym.And(e <= 1e-9, e >= -1e-9), sym.Not(generic(g, w, h))), "the fitness reported is not that of the best points")
		sym.ObserveF("best", b)
	}
}
