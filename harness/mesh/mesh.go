// Package mesh: the triangulation and the polygonation that are shown to the user, and the
// small types that carry points to them.
package mesh

import (
	"math"

	"github.com/RH12503/Triangula/algorithm/evaluator"
	"github.com/RH12503/Triangula/fitness"
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/polygonation"
	"github.com/RH12503/Triangula/triangulation"
	"github.com/RH12503/Triangula/zzverif/sym"
	"github.com/fogleman/delaunay"
)

type N = normgeom.NormPoint
type G = normgeom.NormPointGroup
type P = geom.Point

func eq(a, b P) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

func orient(a, b, c P) int { return (b.X-a.X)*(c.Y-a.Y) - (c.X-a.X)*(b.Y-a.Y) }

func incircle(a, b, c, q P) int {
	ax, ay := a.X-q.X, a.Y-q.Y
	bx, by := b.X-q.X, b.Y-q.Y
	cx, cy := c.X-q.X, c.Y-q.Y
	return (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}

// toPixels rounds to the nearest pixel corner.
func toPixels(g G, w, h int) []P {
	var out []P
	for _, p := range g {
		out = append(out, P{X: int(math.Floor(p.X*float64(w) + 0.5)), Y: int(math.Floor(p.Y*float64(h) + 0.5))})
	}
	return out
}

type cfg struct {
	w, h  int
	fixed G
	n     int    // symbolic points
	den   int    // resolution of their coordinates
	x, y  [2]int // range of their coordinates
}

var cfgs = []cfg{
	{10, 10, G{{0, 0}, {1, 0}, {0, 1}, {1, 1}}, 1, 16, [2]int{0, 16}, [2]int{0, 16}},
	{16, 8, G{{0.25, 0.25}, {0.75, 0.125}, {0.5, 0.875}, {0.0625, 0.75}, {0.9375, 0.625}}, 1, 16, [2]int{0, 16}, [2]int{0, 16}},
	{12, 12, G{{0, 0}, {0.25, 0.25}, {0.5, 0.5}}, 1, 8, [2]int{0, 8}, [2]int{0, 8}},
	{8, 8, G{{0.5, 0.5}}, 2, 4, [2]int{0, 4}, [2]int{0, 4}},
	{1000, 600, G{{0.125, 0.5}, {0.25, 0.5}, {0.375, 0.5}, {0.5, 0.5}, {0.625, 0.5}}, 1, 8, [2]int{0, 8}, [2]int{0, 8}},
	{100, 90, G{{0.25, 0.25}, {0.75, 0.25}, {0.25, 0.75}, {0.75, 0.75}, {0.5, 0}, {0.5, 1}, {0, 0.5}, {1, 0.5}}, 1, 64, [2]int{28, 36}, [2]int{28, 36}},
	{3, 3, nil, 3, 2, [2]int{0, 2}, [2]int{0, 2}},
	{1, 1, G{{1, 1}}, 2, 2, [2]int{0, 2}, [2]int{0, 2}},
	{2000, 1999, G{{0.5, 0.5}, {0.5, 0.515625}, {0.515625, 0.5}, {0.25, 0.125}}, 1, 1024, [2]int{512, 523}, [2]int{512, 523}},
	{250, 99, G{{0.1, 0.9}, {0.2, 0.3}, {0.35, 0.7}, {0.4, 0.15}, {0.55, 0.5}, {0.6, 0.95}, {0.7, 0.25}, {0.8, 0.65}, {0.9, 0.05}, {0.95, 0.85}, {0.55, 0.5}}, 1, 16, [2]int{0, 16}, [2]int{0, 16}},
}

func (c cfg) group(first bool) G {
	var s G
	for i := 0; i < c.n; i++ {
		s = append(s, N{X: sym.Float("x", c.x[0], c.x[1], c.den), Y: sym.Float("y", c.y[0], c.y[1], c.den)})
	}
	if first {
		return append(s, c.fixed...)
	}
	return append(append(G{}, c.fixed...), s...)
}

// config: v = configuration + 10*order, or 100 and more for a mixed one.
func config(v int) (cfg, bool) {
	if v < 100 {
		return cfgs[v%10], v/10 == 1
	}
	s := uint32(v)*2654435761 + 4711
	next := func(n int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % n
	}
	z := [][2]int{{37, 23}, {200, 150}, {640, 480}, {17, 90}, {1000, 31}, {64, 64}, {333, 2000}}[v%7]
	c := cfg{w: z[0], h: z[1], n: 1, den: 64}
	more := 0
	if v >= 300 {
		more = 36
	}
	for n := 4 + next(8) + more; n > 0; n-- {
		p := N{X: float64(next(65)) / 64, Y: float64(next(65)) / 64}
		if v%5 == 0 && n%3 == 0 { // on the border
			p.X = float64(n / 3 % 2)
		}
		c.fixed = append(c.fixed, p)
	}
	if v%6 == 1 {
		c.fixed = append(c.fixed, c.fixed[0])
	}
	x, y := next(56), next(56)
	c.x, c.y = [2]int{x, x + 8}, [2]int{y, y + 8}
	if v >= 300 {
		c.x[1], c.y[1] = x+1, y+1
	}
	return c, v%2 == 1
}

// Triangles: what is triangulated for display is the Delaunay triangulation of the points.
func Triangles(v int) {
	c, first := config(v)
	g := c.group(first)
	keep := append(G{}, g...)
	ps := toPixels(g, c.w, c.h)
	ts := triangulation.Triangulate(g, c.w, c.h)
	sym.Observe("n", len(ts))
	for i := range g {
		sym.Assert(sym.And(g[i].X == keep[i].X, g[i].Y == keep[i].Y), "triangulating changes the points")
	}
	type edge struct{ a, b P }
	var es []edge
	for _, t := range ts {
		a, b, q := t.Points[0], t.Points[1], t.Points[2]
		for _, p := range t.Points {
			var is []bool
			for _, s := range ps {
				is = append(is, eq(s, p))
			}
			sym.Assert(sym.Or(is...), "a vertex is not the nearest pixel corner of a point")
		}
		o := orient(a, b, q)
		sym.Assert(o != 0, "a triangle is flat")
		if o < 0 {
			b, q = q, b
		}
		es = append(es, edge{a, b}, edge{b, q}, edge{q, a})
		for _, s := range ps {
			sym.Assert(incircle(a, b, q, s) <= 0, "a point lies inside the circumcircle of a triangle")
		}
	}
	for i, e := range es {
		var back []bool
		for j, f := range es {
			if i != j {
				sym.Assert(sym.Not(sym.And(eq(e.a, f.a), eq(e.b, f.b))), "two triangles overlap")
			}
			back = append(back, sym.And(eq(e.a, f.b), eq(e.b, f.a)))
		}
		var hull []bool
		for _, s := range ps {
			hull = append(hull, orient(e.a, e.b, s) >= 0)
		}
		sym.Assert(sym.Or(sym.Or(back...), sym.And(hull...)), "an edge inside the hull belongs to one triangle only")
	}
	if len(ts) == 0 {
		var flat []bool
		for i := range ps {
			for j := 0; j < i; j++ {
				for k := 0; k < j; k++ {
					flat = append(flat, orient(ps[i], ps[j], ps[k]) == 0)
				}
			}
		}
		sym.Assert(sym.And(flat...), "points that are not on a line have no triangle")
		sym.Reach("no triangle")
	}
}

func d2(v, s P) int { return (v.X-s.X)*(v.X-s.X) + (v.Y-s.Y)*(v.Y-s.Y) }

func abs(x float64) float64 { return sym.IteF(x < 0, -x, x) }

func iabs(x int) int { return sym.Ite(x < 0, -x, x) }

// Polygons: what is shown for polygons are the Voronoi cells with their corners rounded.
func Polygons(v int) {
	c, first := config(v)
	g := c.group(first)
	ps := toPixels(g, c.w, c.h)
	polys := polygonation.Polygonate(g, c.w, c.h)
	var uniq []P
	for i, p := range ps {
		var dup []bool
		for j := 0; j < i; j++ {
			dup = append(dup, eq(ps[j], p))
		}
		d := sym.Or(dup...)
		if !d {
			uniq = append(uniq, p)
		}
	}
	sym.Assert(len(polys) == len(uniq), "there is not exactly one polygon per distinct point")
	tot := 0
	near := make([][]bool, len(polys))
	corners := 0
	for i, g := range polys {
		a := 0
		q := g.Points
		sym.Assert(len(q) > 0, "a polygon has no corners")
		corners += len(q)
		for j, p := range q {
			n := q[(j+1)%len(q)]
			a += p.X*n.Y - p.Y*n.X
			sym.Assert(sym.And(p.X >= 0, p.Y >= 0, p.X <= c.w, p.Y <= c.h), "a polygon leaves the image")
			if j > 0 {
				sym.Assert(sym.Not(eq(p, q[j-1])), "a corner is repeated")
			}
		}
		tot += iabs(a)
		for _, s := range uniq {
			var ok []bool
			for _, p := range q {
				for _, t := range uniq {
					// a corner moves by at most half a pixel in both directions
					ok = append(ok, 20*d2(p, s) <= 20*d2(p, t)+20*iabs(t.X-s.X)+20*iabs(t.Y-s.Y)+c.w+c.h)
				}
			}
			near[i] = append(near[i], sym.And(ok...))
		}
	}
	for i := range polys {
		sym.Assert(sym.Or(near[i]...), "a polygon reaches beyond the pixels nearest to its point")
	}
	for k := range uniq {
		var ok []bool
		for i := range near {
			ok = append(ok, near[i][k])
		}
		sym.Assert(sym.Or(ok...), "a point has no polygon")
	}
	if len(uniq) > 0 {
		// an edge rounded in two ways may lose a strip of half a pixel
		e := iabs(tot - 2*c.w*c.h)
		m := c.w
		if c.h > m {
			m = c.h
		}
		sym.Assert(e <= m, "the polygons do not cover the image exactly once")
	}
	sym.Observe("area", tot)
}

// --- small types

func f(name string) float64 { return sym.Float(name, -8, 16, 8) }

// Groups: copies are independent, assignment is complete, constraining is clamping.
func Groups(v int) {
	n := v
	if v > 3 {
		n = []int{9, 33, 70, 130}[v-4]
	}
	f := func(name string, i int) float64 {
		if v > 3 && i != 0 && i != n/2 && i != n-1 {
			return float64((i*7+len(name)*3)%25-8) / 8
		}
		return f(name)
	}
	var g G
	for i := 0; i < n; i++ {
		g = append(g, N{X: f("x", i), Y: f("y", i)})
	}
	keep := append(G{}, g...)
	same := func(a, b G, msg string) {
		sym.Assert(len(a) == len(b), msg)
		for i := range a {
			if i < len(b) {
				sym.Assert(sym.And(a[i].X == b[i].X, a[i].Y == b[i].Y), msg)
			}
		}
	}
	c := g.Copy()
	same(c, keep, "a copy differs from the original")
	var o G
	for i := 0; i < n; i++ {
		o = append(o, N{X: f("ox", i), Y: f("oy", i)})
	}
	okeep := append(G{}, o...)
	g.Set(o)
	same(g, okeep, "a group differs from what it was set to")
	same(c, keep, "a copy changes with the original")
	for i := range g {
		k := g[i]
		g[i].Constrain()
		cl := func(x float64) float64 { return sym.IteF(x < 0, 0, sym.IteF(x > 1, 1, x)) }
		sym.Assert(sym.And(g[i].X == cl(k.X), g[i].Y == cl(k.Y)), "constraining is not clamping to the unit square")
		sym.ObserveF("x", g[i].X)
	}
	same(o, okeep, "a group changes with one that was set to it")
	for _, m := range []int{0, 1, n - 1, n + 1} {
		if m == n || m < 0 {
			continue
		}
		refused := func() (r bool) {
			defer func() { r = recover() != nil }()
			g.Set(make(G, m))
			return
		}()
		sym.Assert(refused, "a group can be set to one of another length")
	}
}

// Scale: distances, and pixels as fractions of the image.
func Scale(v int) {
	a := N{X: sym.Float("ax", -4, 8, 4), Y: 0.5}
	b := N{X: 0.75, Y: sym.Float("by", 0, 8, 8)}
	d := normgeom.Dist(a, b)
	dx, dy := a.X-b.X, a.Y-b.Y
	e := d*d - dx*dx - dy*dy
	sym.Assert(sym.And(d >= 0, e <= 1e-9, e >= -1e-9), "a distance is not euclidean")
	w, h := []int{1, 3, 64, 1000}[v], []int{1, 7, 48, 999}[v]
	sx, sy := w/8+1, h/8+1
	var ps []P
	for i := 0; i < 4; i++ {
		ps = append(ps, P{X: sx * sym.Int("px", 0, w/sx), Y: sy * sym.Int("py", 0, h/sy)})
	}
	at := func(n N, p P) bool {
		ex, ey := n.X*float64(w)-float64(p.X), n.Y*float64(h)-float64(p.Y)
		return sym.And(ex <= 1e-6, ex >= -1e-6, ey <= 1e-6, ey >= -1e-6)
	}
	t := geom.Triangle{Points: [3]P{ps[0], ps[1], ps[2]}}
	for i, n := range t.ToNorm(w, h).Points {
		sym.Assert(at(n, ps[i]), "a normalised corner of a triangle is not the corner over the size of the image")
	}
	m := normgeom.NewNormTriangle(a.X, a.Y, b.X, b.Y, 0.25, 2)
	for i, n := range []N{a, b, {X: 0.25, Y: 2}} {
		sym.Assert(sym.And(m.Points[i].X == n.X, m.Points[i].Y == n.Y), "a triangle is not made of the corners given")
	}
	q := geom.Polygon{Points: ps}.ToNorm(w, h).Points
	sym.Assert(len(q) == 4, "a normalised polygon has another number of corners")
	for i, n := range q {
		sym.Assert(at(n, ps[i]), "a normalised corner of a polygon is not the corner over the size of the image")
	}
	sym.Assert(at(ps[3].ToNorm(w, h), ps[3]), "a normalised point is not the point over the size of the image")
	sym.Assert(ps[0].DistSq(ps[1]) == (ps[0].X-ps[1].X)*(ps[0].X-ps[1].X)+(ps[0].Y-ps[1].Y)*(ps[0].Y-ps[1].Y), "a squared distance is not euclidean")
	sym.Assert(eq(ps[0].Sub(ps[1]), P{X: ps[0].X - ps[1].X, Y: ps[0].Y - ps[1].Y}), "a difference is not by coordinate")
}

// Fan: a polygon is cut into triangles between its corners that together have its area.
func Fan(v int) {
	ps := []P{{X: 0, Y: 0}, {X: 9, Y: 1}, {X: 12, Y: 7}, {X: 5, Y: 11}, {X: 1, Y: 8}}[:3+v%3]
	if v >= 6 { // more corners
		ps = []P{{X: 10, Y: 0}, {X: 20, Y: 1}, {X: 28, Y: 5}, {X: 31, Y: 12}, {X: 30, Y: 20}, {X: 25, Y: 27}, {X: 17, Y: 30}, {X: 9, Y: 29}, {X: 3, Y: 24}, {X: 0, Y: 15}, {X: 2, Y: 6}, {X: 6, Y: 2}}
		for i := len(ps); i < v; i++ { // very many
			a := 2 * math.Pi * float64(i) / float64(v)
			ps = append(ps, P{X: 100 + int(90*math.Cos(a)), Y: 100 + int(80*math.Sin(a))})
		}
		ps = ps[:v]
		keep := append([]P{}, ps...)
		q := geom.Polygon{Points: ps}.ToNorm(40, 50).Points
		sym.Assert(len(q) == v, "a normalised polygon has another number of corners")
		for i, n := range q {
			ex, ey := n.X*40-float64(keep[i].X), n.Y*50-float64(keep[i].Y)
			sym.Assert(sym.And(abs(ex) <= 1e-9, abs(ey) <= 1e-9), "a normalised corner of a polygon is not the corner over the size of the image")
		}
	}
	i := sym.Pick("i", len(ps))
	ps[i] = P{X: sym.Int("x", -3, 12), Y: sym.Int("y", 0, 12)}
	if v >= 3 && v < 6 {
		ps[(i+2)%len(ps)] = P{X: sym.Int("u", 0, 4), Y: sym.Pick("w", 5)}
	}
	has := func(p P) bool {
		var is []bool
		for _, q := range ps {
			is = append(is, eq(p, q))
		}
		return sym.Or(is...)
	}
	// the triangles of a polygon have its area and its corners
	area := 0
	for i := range ps {
		n := ps[(i+1)%len(ps)]
		area += ps[i].X*n.Y - ps[i].Y*n.X
	}
	tot, k := 0, 0
	geom.Polygon{Points: ps}.Triangulate(func(t geom.Triangle) {
		k++
		o := orient(t.Points[0], t.Points[1], t.Points[2])
		tot += o
		for _, p := range t.Points {
			sym.Assert(has(p), "a triangle of a polygon has a corner of its own")
		}
	})
	var fl []delaunay.Point
	for _, p := range ps {
		fl = append(fl, delaunay.Point{X: float64(p.X), Y: float64(p.Y)})
	}
	e := 2*triangulation.Area(fl) - area
	f := 2*triangulation.Area(fl) + area
	sym.Assert(sym.Or(sym.And(e <= 1, e >= -1), sym.And(f <= 1, f >= -1)), "the area of a polygon is not the area its corners enclose, rounded")
	sym.Assert(triangulation.Area(fl) >= 0, "an area is negative")
	sym.Assert(k == len(ps)-2, "a polygon of n corners is not cut into n-2 triangles")
	sym.Assert(sym.Or(tot == area, tot == -area), "the triangles of a polygon do not have its area")
	sym.Observe("area", area)
}

// Funcs is a stand-in for a fitness function with a name.
type named struct{ id int }

func (n *named) Calculate(fitness.PointsData) float64 { return float64(n.id) }

// Evaluators: what they hand out for each member.
func Evaluators(v int) {
	n := v + 1
	made := 0
	m := evaluator.NewMany(func() fitness.Function {
		made++
		return &named{made}
	}, n)
	sym.Assert(made == n, "there is not one function per member")
	one := &named{99}
	o := evaluator.NewOne(one)
	i, j := sym.Pick("i", n), sym.Pick("j", n)
	for k := 0; k < 3; k++ {
		// nothing that an algorithm reports may change which member uses which function
		switch sym.Pick("op", 5) {
		case 0:
			m.Prepare()
			o.Prepare()
		case 1:
			m.Update(i)
			o.Update(i)
		case 2:
			m.SetBase(i, j)
			o.SetBase(i, j)
		case 3:
			m.Swap(i, j)
			o.Swap(i, j)
		}
		a, b := m.Get(i), m.Get(j)
		sym.Assert((a == b) == (i == j), "two members share a function, or one has two")
		sym.Assert(o.Get(i) == fitness.Function(one), "the one function is not handed out")
	}
	sym.Assert(made == n, "there is not one function per member")
}
