// Package fit: the fitness functions against the documented formula, and their incremental,
// cached and blockwise evaluation against a fresh one.
package fit

import (
	"math"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/rasterize"
	d "github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type P = d.Point
type N = normgeom.NormPoint
type G = normgeom.NormPointGroup

// img is a picture of 8-bit colours.
type img struct {
	w, h int
	px   [][][3]int
}

func (m *img) Size() (int, int) { return m.w, m.h }
func (m *img) RGBAt(x, y int) color.RGB {
	p := m.px[y][x]
	return color.RGB{R: float64(p[0]) / 255, G: float64(p[1]) / 255, B: float64(p[2]) / 255}
}

// newImg: kind 0 is noise, 1 is black and white noise, 2 is flat white, 3 a gradient.
func newImg(w, h, kind int) *img {
	m := &img{w: w, h: h}
	s := uint32(2463534242)
	for y := 0; y < h; y++ {
		var row [][3]int
		for x := 0; x < w; x++ {
			var c [3]int
			for k := range c {
				s ^= s << 13
				s ^= s >> 17
				s ^= s << 5
				switch kind {
				case 0:
					c[k] = int(s>>11) & 255
				case 1:
					c[k] = 255 * (int(s>>11) & 1)
				case 2:
					c[k] = 255
				case 3:
					c[k] = (x*255/w + k*y*100/h) % 256
				}
			}
			row = append(row, c)
		}
		m.px = append(m.px, row)
	}
	return m
}

func abs(x float64) float64 { return sym.IteF(x < 0, -x, x) }

func orient(a, b, c P) int {
	return (int(b.X)-int(a.X))*(int(c.Y)-int(a.Y)) - (int(c.X)-int(a.X))*(int(b.Y)-int(a.Y))
}
func incircle(a, b, c, q P) int {
	ax, ay := int(a.X)-int(q.X), int(a.Y)-int(q.Y)
	bx, by := int(b.X)-int(q.X), int(b.Y)-int(q.Y)
	cx, cy := int(c.X)-int(q.X), int(c.Y)-int(q.Y)
	return (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}
func eq(a, b P) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// toPixels rounds to the nearest pixel corner.
func toPixels(g G, w, h int) []P {
	var out []P
	for _, p := range g {
		out = append(out, P{X: int16(math.Floor(p.X*float64(w) + 0.5)), Y: int16(math.Floor(p.Y*float64(h) + 0.5))})
	}
	return out
}

// generic assumes that the Delaunay triangles between the points are unique: no four distinct
// points (one of them possibly a corner of the enclosing triangle) lie on a circle.
func generic(ps []P, w, h int) {
	sup := d.NewSuperTriangle(w, h)
	a := append([]P{sup.A, sup.B, sup.C}, ps...)
	var ok []bool
	for i := range a {
		for j := 0; j < i; j++ {
			for k := 3; k < j; k++ { // at most one corner
				for l := 0; l < k; l++ {
					ok = append(ok, sym.Or(incircle(a[i], a[j], a[k], a[l]) != 0,
						eq(a[i], a[j]), eq(a[i], a[k]), eq(a[i], a[l]), eq(a[j], a[k]), eq(a[j], a[l]), eq(a[k], a[l])))
				}
			}
		}
	}
	sym.Assume(sym.And(ok...))
}

// isGeneric is generic for known points.
func isGeneric(ps []P, w, h int) bool {
	sup := d.NewSuperTriangle(w, h)
	a := append([]P{sup.A, sup.B, sup.C}, ps...)
	for i := range a {
		for j := 0; j < i; j++ {
			for k := 3; k < j; k++ {
				for l := 0; l < k; l++ {
					if incircle(a[i], a[j], a[k], a[l]) == 0 && a[i] != a[j] && a[i] != a[k] && a[i] != a[l] && a[j] != a[k] && a[j] != a[l] && a[k] != a[l] {
						return false
					}
				}
			}
		}
	}
	return true
}

// variance of the pixels that visit reports.
func variance(m *img, visit func(func(x, y int))) float64 {
	n := 0
	var s, q [3]int
	visit(func(x, y int) {
		n++
		for k, v := range m.px[y][x] {
			s[k] += v
			q[k] += v * v
		}
	})
	if n == 0 {
		return 0
	}
	r := 0.0
	for k := range s {
		r += float64(q[k]) - float64(s[k]*s[k])/float64(n)
	}
	return r
}

const worst = 3 * 255 * 255

func refTri(m *img, g G) float64 {
	t := d.NewDelaunay(m.w, m.h)
	for _, p := range toPixels(g, m.w, m.h) {
		t.Insert(p)
	}
	diff := 0.0
	area2 := 0
	t.IterTriangles(func(x d.Triangle) {
		o := orient(x.A, x.B, x.C)
		area2 += sym.Ite(o < 0, -o, o)
		diff += variance(m, func(f func(x, y int)) {
			rasterize.DDATriangle(geom.NewTriangle(int(x.A.X), int(x.A.Y), int(x.B.X), int(x.B.Y), int(x.C.X), int(x.C.Y)), f)
		})
	})
	blank := float64(m.w*m.h) - float64(area2)/2
	return 1 - (diff+worst*blank)/float64(worst*m.w*m.h)
}

func refPoly(m *img, g G) float64 {
	t := d.NewDelaunay(m.w, m.h)
	for _, p := range toPixels(g, m.w, m.h) {
		t.Insert(p)
	}
	diff := 0.0
	d.Voronoi(t, func(ps []d.FloatPoint) {
		var g geom.Polygon
		for _, p := range ps {
			q := geom.Point{X: int(math.Floor(p.X + 0.5)), Y: int(math.Floor(p.Y + 0.5))}
			if len(g.Points) == 0 || g.Points[len(g.Points)-1] != q {
				g.Points = append(g.Points, q)
			}
		}
		diff += variance(m, func(f func(x, y int)) { rasterize.DDAPolygon(g, f) })
	}, m.w, m.h)
	return 1 - diff/float64(worst*m.w*m.h)
}

func funcs(poly bool, m *img, bs, n int) []fitness.CacheFunction {
	if poly {
		return fitness.PolygonsImageFunctions(m, bs, n)
	}
	return fitness.TrianglesImageFunctions(m, bs, n)
}
func one(poly bool, m *img, bs int) fitness.CacheFunction {
	if poly {
		return fitness.PolygonsImageFunctions(m, bs, 1)[0]
	}
	return fitness.NewTrianglesImageFunction(m, bs)
}

// a lattice of normalised coordinates
type lat struct{ x0, nx, y0, ny, den int }

func (l lat) point(s string) N {
	return N{X: sym.Float(s+"x", l.x0, l.x0+l.nx-1, l.den), Y: sym.Float(s+"y", l.y0, l.y0+l.ny-1, l.den)}
}

var sets = []G{
	{{0, 0}, {1, 0}, {0.0625, 1}, {1, 0.875}},
	{{0, 0}, {1, 0}, {0.0625, 1}, {1, 0.875}, {0.3125, 0.4375}, {0.6875, 0.25}},
	{{0.25, 0.125}, {0.875, 0.3125}, {0.1875, 0.8125}},
	{{0.5, 0.5}, {0.5, 0.5}, {0.25, 0.9375}},
	nil,
}

type fcfg struct {
	w, h, kind, bs, set int
	p                   lat
}

var fcfgs = []fcfg{
	{12, 9, 0, 2, 0, lat{0, 17, 0, 17, 16}},
	{16, 16, 1, 3, 1, lat{4, 9, 4, 9, 16}},
	{9, 14, 0, 1, 2, lat{0, 17, 0, 17, 16}},
	{20, 6, 3, 4, 1, lat{0, 16, 0, 16, 16}},
	{7, 5, 1, 9, 0, lat{0, 17, 0, 17, 16}},
	{11, 11, 0, 2, 3, lat{0, 9, 0, 9, 8}},
	{40, 30, 2, 17, 0, lat{26, 12, 40, 12, 64}},
	{13, 8, 0, 2, 4, lat{0, 17, 0, 17, 16}},
}

func fresh(poly bool, c fcfg) {
	m := newImg(c.w, c.h, c.kind)
	g := append(append(G{}, sets[c.set]...), c.p.point("p"))
	generic(toPixels(g, m.w, m.h), m.w, m.h)
	compare(poly, m, g, c.bs)
}

// Tri and Poly: the formula, for an arbitrary point.
func Tri(v int)  { fresh(false, fcfgs[v]) }
func Poly(v int) { fresh(true, fcfgs[v]) }

// Pixels: the formula, for arbitrary colours of some pixels. v = image + 10*polygons.
func Pixels(v int) {
	c := fcfgs[v%10]
	m := newImg(c.w, c.h, c.kind)
	m.px[c.h/2][c.w/2][0] = sym.Int("r", 0, 255)
	m.px[c.h-1][c.w-1][1] = 4 * sym.Int("g", 0, 15)
	m.px[1][2][2] = 255 * sym.Int("b", 0, 1)
	g := sets[c.set]
	poly := v >= 10
	got := one(poly, m, c.bs).Calculate(fitness.PointsData{Points: g})
	r := 0.0
	if poly {
		r = refPoly(m, g)
	} else {
		r = refTri(m, g)
	}
	sym.Assert(abs(got-r) <= 6e-6, "the fitness is not 1 - (variance inside the shapes + worst difference of the blank area) / worst difference")
	sym.ObserveF("fitness", got)
}

type icfg struct {
	w, h, kind, bs, set, pow int
	p, q                     lat
}

var icfgs = []icfg{
	{12, 10, 0, 2, 1, 3, lat{5, 6, 5, 6, 16}, lat{9, 2, 11, 2, 16}},
	{12, 10, 1, 3, 1, 0, lat{5, 6, 5, 6, 16}, lat{9, 2, 11, 2, 16}},
	{16, 9, 0, 1, 2, 6, lat{3, 7, 3, 7, 16}, lat{12, 2, 12, 2, 16}},
	{32, 24, 3, 4, 1, 4, lat{25, 8, 33, 8, 64}, lat{40, 2, 20, 2, 64}},
	{12, 10, 0, 2, 2, 1, lat{0, 17, 0, 17, 16}, lat{8, 1, 8, 1, 16}},
	{256, 8, 3, 2, 1, 10, lat{300, 10, 600, 10, 1024}, lat{500, 2, 500, 2, 1024}},
}

func mutate(g G, i int, n N) (G, mutation.Mutation) {
	h := g.Copy()
	m := mutation.Mutation{Old: h[i], New: n, Index: i}
	h[i] = n
	return h, m
}

func incr(poly bool, v int) {
	c := icfgs[v/10]
	m := newImg(c.w, c.h, c.kind)
	bs2 := c.bs + 1
	a := sets[c.set].Copy()
	p := c.p.point("p")
	q := c.q.point("q")
	fs := funcs(poly, m, c.bs, 3)
	pool := funcs(poly, m, bs2, 8) // never used before, and with another block size
	check := func(got float64, g G) {
		f := pool[0]
		pool = pool[1:]
		want := f.Calculate(fitness.PointsData{Points: g})
		sym.Assert(abs(got-want) <= 1e-9, "an incremental or cached evaluation differs from a fresh one")
		sym.ObserveF("fitness", got)
	}
	gen := func(g ...G) {
		for _, x := range g {
			generic(toPixels(x, m.w, m.h), m.w, m.h)
		}
	}
	switch v % 10 {
	case 0: // one mutation on top of a base, over a function that held something else
		i := sym.Pick("i", len(a))
		b, mu := mutate(a, i, p)
		gen(b)
		check(fs[0].Calculate(fitness.PointsData{Points: a}), a)
		fs[1].Calculate(fitness.PointsData{Points: sets[(c.set+1)%3]})
		fs[1].SetBase(fs[0])
		check(fs[1].Calculate(fitness.PointsData{Points: b, Mutations: []mutation.Mutation{mu}}), b)
		// the base is untouched
		check(fs[0].Calculate(fitness.PointsData{Points: a}), a)
	case 1: // two generations through the parallel evaluator and its caches
		i := sym.Pick("i", len(a))
		ev := evaluator.NewParallel(fs, c.pow)
		x0 := ev.Get(0).Calculate(fitness.PointsData{Points: a})
		ev.Get(1).Calculate(fitness.PointsData{Points: sets[2]})
		ev.Prepare()
		ev.Update(0)
		ev.Update(1)
		check(x0, a)
		b, mu := mutate(a, i, p)
		e, mv := mutate(b, 0, q)
		gen(b, e)
		ev.SetBase(1, 0)
		x1 := ev.Get(1).Calculate(fitness.PointsData{Points: b, Mutations: []mutation.Mutation{mu}})
		x0 = ev.Get(0).Calculate(fitness.PointsData{Points: a})
		ev.Prepare()
		ev.Update(1)
		ev.Update(0)
		check(x1, b)
		check(x0, a)
		ev.Swap(0, 1)
		ev.SetBase(2, 0)
		ev.SetBase(1, 0)
		x2 := ev.Get(2).Calculate(fitness.PointsData{Points: e, Mutations: []mutation.Mutation{mv}})
		x0 = ev.Get(0).Calculate(fitness.PointsData{Points: b})
		x1 = ev.Get(1).Calculate(fitness.PointsData{Points: b})
		ev.Prepare()
		ev.Update(2)
		ev.Update(0)
		ev.Update(1)
		check(x2, e)
		check(x0, b)
		check(x1, b)
	case 2: // two points move at once, one possibly onto the other's old or new place
		i := sym.Pick("i", len(a)-1)
		k := sym.Pick("k", 3)
		t := q
		if k == 1 {
			t = a[i]
		} else if k == 2 {
			t = p
		}
		b, mu := mutate(a, i, p)
		e, mv := mutate(b, len(a)-1, t)
		gen(a, e)
		fs[0].Calculate(fitness.PointsData{Points: a})
		fs[1].Calculate(fitness.PointsData{Points: a})
		fs[1].SetBase(fs[0])
		check(fs[1].Calculate(fitness.PointsData{Points: e, Mutations: []mutation.Mutation{mu, mv}}), e)
		// and back again
		mu.Old, mu.New = mu.New, mu.Old
		mv.Old, mv.New = mv.New, mv.Old
		fs[2].SetBase(fs[1])
		check(fs[2].Calculate(fitness.PointsData{Points: a, Mutations: []mutation.Mutation{mu, mv}}), a)
		fs[0].SetBase(fs[1])
		check(fs[0].Calculate(fitness.PointsData{Points: a, Mutations: []mutation.Mutation{mu, mv}}), a)
	case 3: // points without any shape in between: the cache stays usable
		g := G{p, p, q}
		far := G{{0, 0}, {0, 0}, {0, 0}}
		gen(g)
		ev := evaluator.NewParallel(fs, c.pow)
		x0 := ev.Get(0).Calculate(fitness.PointsData{Points: far})
		x1 := ev.Get(1).Calculate(fitness.PointsData{Points: g})
		ev.Prepare()
		ev.Update(0)
		ev.Update(1)
		check(x0, far)
		check(x1, g)
		ev.SetBase(2, 1)
		ev.SetBase(0, 1)
		h, mu := mutate(g, 1, N{X: 0.125, Y: 0.0625})
		gen(h)
		x0 = ev.Get(0).Calculate(fitness.PointsData{Points: h, Mutations: []mutation.Mutation{mu}})
		x2 := ev.Get(2).Calculate(fitness.PointsData{Points: h, Mutations: []mutation.Mutation{mu}})
		check(x0, h)
		check(x2, h)
	}
}

// IncTri and IncPoly: v = script + 10*configuration.
func IncTri(v int)  { incr(false, v) }
func IncPoly(v int) { incr(true, v) }

// ---- mixed runs ----

var mixSizes = [][2]int{{14, 11}, {30, 20}, {9, 24}, {25, 25}, {40, 7}, {17, 13}, {60, 4}, {22, 31}}

type lcg uint32

func (s *lcg) next(m int) int {
	*s = *s*1664525 + 1013904223
	return int(*s>>8) % m
}

// mixRun: three generations of two survivors and three children, whose bases, numbers of
// mutations, swaps and caches vary with v; where one mutated point goes is arbitrary.
func mixRun(poly bool, v int) {
	s := lcg(uint32(v)*2654435761 + 4242)
	z := mixSizes[v%len(mixSizes)]
	m := newImg(z[0], z[1], s.next(4))
	m.px[s.next(z[1])][s.next(z[0])][v%3] = 17 * sym.Int("r", 0, 15)
	bs := 1 + s.next(6)
	pow := []int{0, 1, 2, 3, 4, 6, 10}[s.next(7)]
	n := 4 + s.next(5)
	place := func() N { return N{X: float64(s.next(65)) / 64, Y: float64(s.next(65)) / 64} }
	// fits says whether the known points of a group are in general position
	fits := func(g G, except int) bool {
		var ps []P
		for i, p := range toPixels(g, m.w, m.h) {
			if i != except {
				ps = append(ps, p)
			}
		}
		return isGeneric(ps, m.w, m.h)
	}
	group := func() G {
		var g G
		for len(g) < n {
			if h := append(g.Copy(), place()); fits(h, -1) {
				g = h
			}
		}
		return g
	}
	const surv, all = 2, 5
	fs := funcs(poly, m, bs, all)
	freshFs := funcs(poly, m, 1+s.next(4), 20)
	ev := evaluator.NewParallel(fs, pow)
	var groups [all]G
	hole := [all]int{-1, -1, -1, -1, -1} // the index of the arbitrary point
	eval := func(i int, mu []mutation.Mutation) {
		g := groups[i]
		generic(toPixels(g, m.w, m.h), m.w, m.h)
		got := ev.Get(i).Calculate(fitness.PointsData{Points: g, Mutations: mu})
		f := freshFs[0]
		freshFs = freshFs[1:]
		want := f.Calculate(fitness.PointsData{Points: g})
		sym.Assert(abs(got-want) <= 1e-9, "an incremental or cached evaluation differs from a fresh one")
		sym.ObserveF("fitness", got)
	}
	upd := func() {
		ev.Prepare()
		for i := range groups {
			ev.Update(i)
		}
	}
	for i := range groups {
		if i%3 == 2 {
			groups[i] = groups[i-1].Copy()
		} else {
			groups[i] = group()
		}
		eval(i, nil)
	}
	upd()
	used := false
	for t := 0; t < 2; t++ {
		for i := surv; i < all; i++ {
			b := s.next(surv)
			g := groups[b].Copy()
			var mu []mutation.Mutation
			hole[i] = hole[b]
			want := s.next(4)
			if i == all-1 {
				want++
			}
			for k := 0; k < n && len(mu) < want; k++ {
				j := (k + i) % n
				var to N
				for ok := false; !ok; {
					to = place()
					switch s.next(9) {
					case 0:
						to = g[(j+1)%n] // onto another point
					case 1:
						to = groups[b][(j+n-1)%n] // onto the place of a point that may have moved
					case 2:
						to = N{X: g[j].X, Y: g[j].Y + 1./1024} // not even to another pixel
						if hole[i] < 0 && to.Y > 1 {
							to.Y = 1
						}
					}
					h := g.Copy()
					h[j] = to
					e := hole[i]
					if e == j {
						e = -1
					}
					if hole[i] >= 0 {
						to = place()
						h[j] = to
					}
					ok = fits(h, e)
				}
				if hole[i] == j {
					hole[i] = -1
				}
				if !used && t == v%2 && k == 0 {
					used = true
					hole[i] = j
					x0, y0 := s.next(53), s.next(53)
					to = N{X: sym.Float("px", x0, x0+12, 64), Y: sym.Float("py", y0, y0+12, 64)}
				}
				mu = append(mu, mutation.Mutation{Old: g[j], New: to, Index: j})
				g[j] = to
			}
			ev.SetBase(i, b)
			groups[i] = g
			eval(i, mu)
		}
		for i := 0; i < surv; i++ {
			eval(i, nil)
		}
		upd()
		for i := 0; i < surv; i++ {
			if j := surv + s.next(all-surv+1); j < all {
				ev.Swap(i, j)
				groups[i], groups[j] = groups[j], groups[i]
				hole[i], hole[j] = hole[j], hole[i]
			}
		}
	}
}

// MixTri and MixPoly: whole runs of the evaluator.
func MixTri(v int)  { mixRun(false, v) }
func MixPoly(v int) { mixRun(true, v) }

// mixFresh: the formula for scattered points, one of them arbitrary, and one arbitrary colour.
func mixFresh(poly bool, v int) {
	s := lcg(uint32(v)*2654435761 + 99)
	z := mixSizes[v%len(mixSizes)]
	m := newImg(z[0], z[1], s.next(4))
	m.px[s.next(z[1])][s.next(z[0])][v%3] = 17 * sym.Int("r", 0, 15)
	bs := 1 + s.next(7)
	n := 3 + s.next(6)
	var g G
	for len(g) < n {
		h := append(g.Copy(), N{X: float64(s.next(65)) / 64, Y: float64(s.next(65)) / 64})
		if isGeneric(toPixels(h, m.w, m.h), m.w, m.h) {
			g = h
		}
	}
	x0, y0 := s.next(53), s.next(53)
	g[s.next(n)] = N{X: sym.Float("px", x0, x0+12, 64), Y: sym.Float("py", y0, y0+12, 64)}
	generic(toPixels(g, m.w, m.h), m.w, m.h)
	compare(poly, m, g, bs)
}

func compare(poly bool, m *img, g G, bs int) {
	got := one(poly, m, bs).Calculate(fitness.PointsData{Points: g})
	want := refTri
	if poly {
		want = refPoly
	}
	r := want(m, g)
	sym.Assert(abs(got-r) <= 6e-6, "the fitness is not 1 - (variance inside the shapes + worst difference of the blank area) / worst difference")
	sym.Assert(sym.And(got <= 1+1e-9, got >= -1e-9), "the fitness is not between 0 and 1")
	sym.ObserveF("fitness", got)
}

func FreshTri(v int)  { mixFresh(false, v) }
func FreshPoly(v int) { mixFresh(true, v) }

// large: pictures so large and bright that sums outgrow small integer types.
func large(poly bool, v int) {
	z := [][2]int{{340, 200}, {7, 6000}, {600, 70}, {120, 90}, {150, 140}, {1500, 9}}[v]
	m := newImg(z[0], z[1], 2)
	m.px[z[1]/2][z[0]/2][1] = 51 * sym.Int("r", 0, 5)
	g := G{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {X: 1 - sym.Float("px", 0, 1, 256), Y: 0.96875}}
	compare(poly, m, g, []int{1, 4, 1, 20, 34, 9}[v])
}

func LargeTri(v int)  { large(false, v) }
func LargePoly(v int) { large(true, v) }

// ---- a single cached shape ----

func px(w, h int, ps ...[2]int) G {
	var g G
	for _, p := range ps {
		g = append(g, N{X: float64(p[0]) / float64(w), Y: float64(p[1]) / float64(h)})
	}
	return g
}

var slotGroups = []G{
	{{0.109375, 0.1875}, {0.890625, 0.328125}, {0.4375, 0.8125}},
	{{0, 0}, {1, 0}, {0.0625, 1}, {1, 0.875}, {0.4375, 0.5625}},
	{{0.9375, 0.8125}, {0.125, 0.9375}, {0.328125, 0.109375}, {0.703125, 0.4375}},
}

// pairs of groups some of whose Voronoi cells have different corners and the same polynomial
// in 97, the hash of a polygon, and shapes whose coordinates have the same sums
var twins = [][2]G{
	{px(60, 170, [2]int{25, 66}, [2]int{43, 66}, [2]int{6, 73}), px(60, 170, [2]int{10, 18}, [2]int{60, 16}, [2]int{12, 34})},
	{px(60, 170, [2]int{24, 81}, [2]int{45, 74}, [2]int{33, 170}), px(60, 170, [2]int{27, 39}, [2]int{54, 8}, [2]int{44, 46})},
	{px(60, 170, [2]int{18, 78}, [2]int{50, 76}, [2]int{2, 167}), px(60, 170, [2]int{18, 20}, [2]int{49, 11}, [2]int{59, 37})},
	{px(60, 170, [2]int{22, 58}, [2]int{56, 59}, [2]int{21, 167}), px(60, 170, [2]int{23, 18}, [2]int{52, 23}, [2]int{48, 28})},
}

// slot: a function that never evaluated anything is given a cache with one shape of another
// evaluation, which it must use for nothing but the same shape.
func slot(poly bool, v int) {
	var a, b G
	var w, h, bs int
	if v >= 300 {
		// the same shapes elsewhere in an image: coordinates agree in their lower bits
		w, h, bs = 1024, 16, 1+v%2
		at := [][2]int{{12, 3}, {29, 4}, {11, 13}, {27, 12}, {20, 8}}
		if v%2 == 1 {
			at = [][2]int{{30, 2}, {7, 5}, {25, 14}, {12, 11}, {17, 7}, {21, 6}}
		}
		only := -1
		switch v % 10 { // one corner of a single triangle: its last, second or first
		case 2:
			w, h, only = 330, 150, 2
			at = [][2]int{{20, 20}, {35, 120}, {55, 70}}
		case 3:
			w, h, only = 330, 150, 0
			at = [][2]int{{55, 70}, {20, 20}, {35, 120}}
		case 4:
			w, h, only = 330, 150, 0
			at = [][2]int{{50, 20}, {320, 110}, {307, 140}}
		}
		dx := 256 / float64(w)
		if only < 0 {
			dx = sym.Float("dx", 1, 3, 4)
		}
		for i, p := range at {
			x, y := float64(p[0])/float64(w), float64(p[1])/float64(h)
			if only == i {
				y += sym.Float("dy", 0, 1, 128)
			}
			a = append(a, N{X: x, Y: y})
			if only < 0 || only == i {
				x += dx
			}
			b = append(b, N{X: x, Y: y})
		}
		if v >= 310 { // upright
			w, h = h, w
			for i := range a {
				a[i].X, a[i].Y = a[i].Y, a[i].X
				b[i].X, b[i].Y = b[i].Y, b[i].X
			}
		}
	} else if v >= 200 {
		// the whole image and its halves along a diagonal: one list of corners may begin with
		// the other
		w, h, bs = 16, 16, 2
		a = G{{X: sym.Float("px", 3, 6, 16), Y: 0.25}}
		x, y := sym.Float("qx", 2, 4, 16), 0.75
		b = G{{x, y}, {y, x}}
		if v%2 == 1 {
			b = G{{x, 1 - y}, {y, 1 - x}}
		}
		if v%4 >= 2 {
			a, b = b, a
		}
	} else if v < 100 {
		w, h, bs = mixSizes[v%5][0], mixSizes[v%5][1], 1+v%4
		a = slotGroups[v/12%3].Copy()
		b = a.Copy()
		k := v % 12 % len(b)
		x0, y0 := int(b[k].X*64), int(b[k].Y*64)
		x0, y0 = x0-x0*6/64, y0-y0*6/64
		b[k] = N{X: sym.Float("px", x0, x0+6, 64), Y: sym.Float("py", y0, y0+6, 64)}
	} else {
		w, h, bs = 60, 170, 1
		t := twins[v-100]
		a, b = t[0].Copy(), t[1].Copy()
		k := v % len(b)
		b[k].X += sym.Float("dx", -1, 1, 64)
	}
	m := newImg(w, h, 0)
	fs := funcs(poly, m, bs, 2)
	generic(toPixels(a, w, h), w, h)
	generic(toPixels(b, w, h), w, h)
	fs[0].Calculate(fitness.PointsData{Points: a})
	var data fitness.CacheData
	// the cache of one slot keeps the last shape put into it
	all := fs[0].Cache()
	if len(all) > 0 {
		data = all[sym.Pick("kept", len(all))]
	}
	fs[1].SetCache([]fitness.CacheData{data})
	got := fs[1].Calculate(fitness.PointsData{Points: b})
	want := one(poly, m, bs+1).Calculate(fitness.PointsData{Points: b})
	sym.Assert(abs(got-want) <= 1e-9, "a shape is taken from the cache for another one")
	sym.ObserveF("fitness", got)
}

// SlotTri and SlotPoly: v = case; from 100 on, pairs of polygons with the same hash;
// from 200 on, prefixes; from 300 on, shifted shapes.
func SlotTri(v int)  { slot(false, v) }
func SlotPoly(v int) { slot(true, v) }

// ---- many points ----

// unique says whether the Delaunay triangles of known points are the only ones, and assumes
// that p, another point among them, is on none of their circles.
func unique(ps []P, w, h int, p *P) bool {
	t := d.NewDelaunay(w, h)
	for _, q := range ps {
		t.Insert(q)
	}
	opp := map[[2]P]P{}
	ok := true
	var off []bool
	t.IterTriangles(func(x d.Triangle) {
		a, b, c := x.A, x.B, x.C
		if orient(a, b, c) < 0 {
			b, c = c, b
		}
		if p != nil {
			off = append(off, incircle(a, b, c, *p) != 0)
		}
		v := [3]P{a, b, c}
		for i := range v {
			if q, has := opp[[2]P{v[(i+1)%3], v[i]}]; has && incircle(a, b, c, q) == 0 {
				ok = false
			}
			opp[[2]P{v[i], v[(i+1)%3]}] = v[(i+2)%3]
		}
	})
	if ok && p != nil {
		sym.Assume(sym.And(off...))
	}
	return ok
}

// many: generations of groups of a hundred points and more, one of which goes anywhere in a
// small place in the middle.
func many(poly bool, v int) {
	s := lcg(uint32(v)*2654435761 + 777)
	w, h := 150+s.next(60), 110+s.next(40)
	m := newImg(w, h, s.next(2))
	n := 90 + 20*(v%4)
	bs := 2 + v%4
	place := func() N { return N{X: float64(s.next(257)) / 256, Y: float64(s.next(257)) / 256} }
	px := func(g G, but int) []P {
		var o []P
		for i, p := range toPixels(g, w, h) {
			if i != but {
				o = append(o, p)
			}
		}
		return o
	}
	var g G
	for len(g) == 0 || !unique(px(g, -1), w, h, nil) {
		g = nil
		for i := 0; i < n; i++ {
			g = append(g, place())
		}
	}
	freshFs := funcs(poly, m, 1+v%3, 9)
	ev := evaluator.NewParallel(funcs(poly, m, bs, 3), []int{4, 9, 12}[v%3])
	calc := func(i int, g G, mu []mutation.Mutation) {
		got := ev.Get(i).Calculate(fitness.PointsData{Points: g, Mutations: mu})
		want := freshFs[0].Calculate(fitness.PointsData{Points: g})
		freshFs = freshFs[1:]
		sym.Assert(abs(got-want) <= 1e-9, "an incremental or cached evaluation differs from a fresh one")
		sym.ObserveF("fitness", got)
	}
	move := func(g G, k, but int) (G, []mutation.Mutation) {
		for {
			o, mu := g.Copy(), []mutation.Mutation(nil)
			for i := 0; i < k; i++ {
				j := s.next(n/k) + i*(n/k)
				if j == but {
					continue
				}
				to := place()
				mu = append(mu, mutation.Mutation{Old: o[j], New: to, Index: j})
				o[j] = to
			}
			if unique(px(o, but), w, h, nil) {
				return o, mu
			}
		}
	}
	hole := s.next(n)
	p := N{X: sym.Float("px", 127, 128, 256), Y: sym.Float("py", 126, 127, 256)}
	next := func() {
		ev.Prepare()
		for i := 0; i < 3; i++ {
			ev.Update(i)
		}
	}
	for i := 0; i < 3; i++ {
		ev.Get(i).Calculate(fitness.PointsData{Points: g})
	}
	next()
	// two children of the group, with one and with many points moved
	a := g.Copy()
	a[hole] = p
	pp := toPixels(G{p}, w, h)[0]
	sym.Assume(unique(px(a, hole), w, h, &pp))
	ev.SetBase(1, 0)
	calc(1, a, []mutation.Mutation{{Old: g[hole], New: p, Index: hole}})
	b, mu := move(g, 7, -1)
	ev.SetBase(2, 0)
	calc(2, b, mu)
	calc(0, g, nil)
	next()
	ev.Swap(0, 1)
	g, a = a, g
	calc(0, g, nil)
	// a child of the group with the arbitrary point, which stays
	c, mu := move(g, 4, hole)
	sym.Assume(unique(px(c, hole), w, h, &pp))
	ev.SetBase(2, 0)
	calc(2, c, mu)
	// and one in which it goes back
	ev.SetBase(1, 0)
	calc(1, a, []mutation.Mutation{{Old: p, New: a[hole], Index: hole}})
}

// ManyTri and ManyPoly: groups of many points.
func ManyTri(v int)  { many(false, v) }
func ManyPoly(v int) { many(true, v) }

// ---- many generations ----

// long: hundreds of generations of a few points; what is evaluated in the last ones is
// compared, one mutated point of them going anywhere in a small place.
func long(poly bool, v int) {
	s := lcg(uint32(v)*2654435761 + 31337)
	z := mixSizes[v%len(mixSizes)]
	m := newImg(z[0], z[1], v%3)
	gens := []int{300, 530}[v%2]
	n := 4 + v%3
	place := func() N { return N{X: float64(s.next(65)) / 64, Y: float64(s.next(65)) / 64} }
	fits := func(g G, except int) bool {
		var ps []P
		for i, p := range toPixels(g, m.w, m.h) {
			if i != except {
				ps = append(ps, p)
			}
		}
		return isGeneric(ps, m.w, m.h)
	}
	var g0 G
	for len(g0) < n {
		if h := append(g0.Copy(), place()); fits(h, -1) {
			g0 = h
		}
	}
	const all = 3
	ev := evaluator.NewParallel(funcs(poly, m, 1+s.next(4), all), []int{0, 3, 8}[v%3])
	freshFs := funcs(poly, m, 2, 60)
	groups := [all]G{g0, g0.Copy(), g0.Copy()}
	eval := func(i int, mu []mutation.Mutation, cmp bool) {
		got := ev.Get(i).Calculate(fitness.PointsData{Points: groups[i], Mutations: mu})
		if cmp {
			generic(toPixels(groups[i], m.w, m.h), m.w, m.h)
			want := freshFs[0].Calculate(fitness.PointsData{Points: groups[i]})
			freshFs = freshFs[1:]
			sym.Assert(abs(got-want) <= 1e-9, "an incremental or cached evaluation differs from a fresh one")
			sym.ObserveF("fitness", got)
		}
	}
	for t := 0; t < gens; t++ {
		last := t == gens-1
		cmp := t%40 == 39 || t > gens-3
		b := 0
		if t > 0 {
			for i := 1; i < all; i++ {
				g := groups[b].Copy()
				j := s.next(n)
				var to N
				for ok := false; !ok; {
					to = place()
					h := g.Copy()
					h[j] = to
					ok = fits(h, -1)
				}
				if last && i == all-1 {
					x0, y0 := s.next(53), s.next(53)
					to = N{X: sym.Float("px", x0, x0+12, 64), Y: sym.Float("py", y0, y0+12, 64)}
				}
				mu := []mutation.Mutation{{Old: g[j], New: to, Index: j}}
				g[j] = to
				ev.SetBase(i, b)
				groups[i] = g
				eval(i, mu, cmp)
			}
			eval(0, nil, cmp)
		} else {
			for i := range groups {
				eval(i, nil, false)
			}
		}
		ev.Prepare()
		for i := range groups {
			ev.Update(i)
		}
		if j := s.next(all + 1); j > 0 && j < all && !last {
			ev.Swap(0, j)
			groups[0], groups[j] = groups[j], groups[0]
		}
	}
}

// LongTri and LongPoly: runs of hundreds of generations.
func LongTri(v int)  { long(false, v) }
func LongPoly(v int) { long(true, v) }

// around: an arbitrary point in the middle of a ring of very many, on its own and as the
// mutation of a point.
func around(poly bool, v int) {
	w, h := 150, 140
	m := newImg(w, h, v%2)
	n := []int{18, 36, 70}[v%3]
	s := lcg(uint32(v)*2654435761 + 5)
	var g G
	for len(g) == 0 || !unique(toPixels(g, w, h), w, h, nil) {
		g = nil
		for i := 0; i < n; i++ {
			a, r := 2*math.Pi*float64(i)/float64(n), 116+float64(s.next(10))/10
			g = append(g, N{X: (128 + math.Floor(r*math.Cos(a))) / 256, Y: (128 + math.Floor(r*math.Sin(a))) / 256})
		}
		g = append(g, N{X: 9. / 256, Y: 5. / 256}, N{X: 250. / 256, Y: 3. / 256})
	}
	p := N{X: sym.Float("px", 126, 128, 256), Y: sym.Float("py", 126, 128, 256)}
	pp := toPixels(G{p}, w, h)[0]
	sym.Assume(unique(toPixels(g, w, h), w, h, &pp))
	full := append(g.Copy(), p)
	compare(poly, m, full, 1+v%4)
	from := append(g.Copy(), N{X: 60. / 256, Y: 247. / 256})
	ev := evaluator.NewParallel(funcs(poly, m, 2, 2), 6)
	ev.Get(0).Calculate(fitness.PointsData{Points: from})
	ev.Get(1).Calculate(fitness.PointsData{Points: from})
	ev.Prepare()
	ev.Update(0)
	ev.Update(1)
	ev.SetBase(1, 0)
	got := ev.Get(1).Calculate(fitness.PointsData{Points: full, Mutations: []mutation.Mutation{{Old: from[len(g)], New: p, Index: len(g)}}})
	want := one(poly, m, 3).Calculate(fitness.PointsData{Points: full})
	sym.Assert(abs(got-want) <= 1e-9, "an incremental or cached evaluation differs from a fresh one")
}

// RingTri and RingPoly: a point with very many neighbours.
func RingTri(v int)  { around(false, v) }
func RingPoly(v int) { around(true, v) }
