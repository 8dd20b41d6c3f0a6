// Package voronoi: the Voronoi diagrams (batch and incremental) seen through their polygons.
package voronoi

import (
	"math"

	d "github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type P = d.Point
type F = d.FloatPoint

func pt(x, y int) P { return P{X: int16(x), Y: int16(y)} }

func eq(a, b P) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

func abs(x float64) float64 { return sym.IteF(x < 0, -x, x) }

func area2(p []F) float64 {
	s := 0.0
	for i := range p {
		q := p[(i+1)%len(p)]
		s += p[i].X*q.Y - p[i].Y*q.X
	}
	return abs(s)
}

func d2(v F, s P) float64 {
	dx, dy := v.X-float64(s.X), v.Y-float64(s.Y)
	return dx*dx + dy*dy
}

// cellsOf checks that the polygons are the Voronoi cells of the points, clipped to the image.
func cellsOf(w, h int, pts []P, polys [][]F) {
	var uniq []P
	for i, p := range pts {
		var dup []bool
		for j := 0; j < i; j++ {
			dup = append(dup, eq(pts[j], p))
		}
		dupl := sym.Or(dup...)
		if dupl {
			continue
		}
		uniq = append(uniq, p)
	}
	sym.Assert(len(polys) == len(uniq), "there is not exactly one cell per distinct point")
	tot := 0.0
	tol := 0.05 * float64(w+h)
	near := make([][]bool, len(polys))
	for i, p := range polys {
		a := area2(p)
		tot += a
		for _, v := range p {
			sym.Assert(sym.And(v.X >= -0.01, v.Y >= -0.01, v.X <= float64(w)+0.01, v.Y <= float64(h)+0.01), "a cell leaves the image")
		}
		for _, s := range uniq {
			var ok []bool
			for _, v := range p {
				for _, t := range uniq {
					ok = append(ok, d2(v, s) <= d2(v, t)+tol)
				}
			}
			near[i] = append(near[i], sym.And(ok...))
		}
	}
	for i := range polys {
		sym.Assert(sym.Or(near[i]...), "a cell reaches beyond the points nearest to its site")
	}
	if len(polys) > 0 {
		for k := range uniq {
			var ok []bool
			for i := range polys {
				ok = append(ok, near[i][k])
			}
			sym.Assert(sym.Or(ok...), "a point has no cell")
		}
		e := tot/2 - float64(w*h)
		sym.Assert(abs(e) <= 0.01*float64(w+h), "the cells do not cover the image exactly once")
	}
	sym.Observe("cells", len(polys))
	sym.ObserveF("area", tot)
}

type lat struct{ x0, dx, nx, y0, dy, ny int }

func (l lat) point(name string) P {
	return pt(l.x0+l.dx*sym.Int(name+"x", 0, l.nx-1), l.y0+l.dy*sym.Int(name+"y", 0, l.ny-1))
}

type hist struct {
	w, h int
	pre  []P
	p, q lat
}

var hists = []hist{
	{1000, 1000, []P{{400, 410}, {480, 420}, {420, 490}, {499, 500}}, lat{440, 2, 8, 440, 2, 8}, lat{430, 3, 8, 450, 3, 8}},
	{1000, 1000, []P{{0, 0}, {1000, 0}, {0, 1000}, {1000, 1000}, {500, 470}}, lat{993, 1, 8, 993, 1, 8}, lat{496, 1, 8, 466, 1, 8}},
	{1000, 700, []P{{100, 100}, {200, 200}, {300, 300}, {400, 400}}, lat{248, 1, 5, 247, 1, 6}, lat{300, 1, 3, 99, 1, 3}},
	{10, 10, []P{{0, 0}, {5, 0}, {10, 0}, {0, 5}, {5, 5}, {10, 5}, {0, 10}, {5, 10}, {10, 10}}, lat{0, 1, 11, 0, 1, 11}, lat{0, 5, 3, 0, 5, 3}},
	{10, 10, []P{{1, 2}, {9, 1}, {4, 7}, {8, 9}, {2, 10}}, lat{0, 2, 6, 0, 2, 6}, lat{1, 4, 3, 1, 4, 3}},
	{10, 8, nil, lat{0, 2, 6, 0, 2, 5}, lat{0, 5, 3, 0, 4, 3}},
	{300, 200, []P{{150, 100}}, lat{0, 7, 8, 0, 5, 8}, lat{290, 5, 3, 190, 5, 3}},
	{300, 200, mixed(21, 9, 300, 200), lat{240, 2, 7, 186, 2, 7}, lat{10, 1, 2, 190, 3, 2}},     // 7: wide
	{200, 300, mixed(22, 9, 200, 300), lat{186, 2, 7, 240, 2, 7}, lat{100, 1, 2, 290, 3, 2}},    // 8: tall
	{1000, 900, bucket, lat{200, 100, 3, 300, 100, 3}, lat{201, 99, 2, 247, 153, 1}},            // 9: one bucket of the map
	{60, 40, mixed(23, 14, 60, 40), lat{26, 1, 6, 16, 1, 6}, lat{58, 1, 2, 38, 1, 2}},           // 10: crowded
	{3000, 400, mixed(24, 10, 3000, 400), lat{1497, 3, 5, 197, 3, 5}, lat{2990, 5, 2, 2, 1, 2}}, // 11: a strip
}

// Points that the map of points keeps in one bucket.
var bucket = []P{{200, 300}, {300, 300}, {201, 247}, {400, 500}, {700, 800}, {900, 200}}

// mixed: n scattered points, the same in every run.
func mixed(seed, n, w, h int) []P {
	var o []P
	s := uint32(seed)*2654435761 + 12345
	next := func(m int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % m
	}
	for i := 0; i < n; i++ {
		o = append(o, pt(next(w+1), next(h+1)))
	}
	return o
}

func batch(t *d.Delaunay, w, h int) [][]F {
	var out [][]F
	d.Voronoi(t, func(p []F) { out = append(out, append([]F{}, p...)) }, w, h)
	return out
}

func cells(v *d.IVoronoi) [][]F {
	var out [][]F
	v.IterPolygons(func(p []F) { out = append(out, append([]F{}, p...)) })
	return out
}

var sizes = [][2]int{{300, 200}, {200, 300}, {60, 40}, {900, 120}, {120, 900}, {1500, 1100}, {33, 77}, {640, 480}, {257, 256}, {2500, 1800}}

// mix is a configuration made from a number: image size, points and places all vary.
func mix(k int) hist {
	z := sizes[k%len(sizes)]
	w, h := z[0], z[1]
	pre := mixed(1000+k, 5+k*7%9, w, h)
	at := mixed(2000+k, 2, w-6, h-6)
	return hist{w, h, pre, lat{int(at[0].X), 1, 5, int(at[0].Y), 1, 5}, lat{int(at[1].X), 3, 2, int(at[1].Y), 3, 2}}
}

// BatchMix and IncrMix: script + 10*number of a configuration.
func BatchMix(v int) { batchScript(mix(v/10), v%10) }
func IncrMix(v int)  { incrScript(mix(v/10), v%10) }

func Batch(v int) { batchScript(hists[v/10], v%10) }
func Incr(v int)  { incrScript(hists[v/10], v%10) }

// batchScript: the cells of a triangulation that has seen some history.
func batchScript(c hist, script int) {
	t := d.NewDelaunay(c.w, c.h)
	pts := append([]P{}, c.pre...)
	for _, p := range pts {
		t.Insert(p)
	}
	p := c.p.point("p")
	switch script {
	case 0:
		t.Insert(p)
		pts = append(pts, p)
	case 1:
		q := c.q.point("q")
		t.Insert(p)
		t.Insert(q)
		t.Insert(q)
		pts = append(pts, p, q)
	case 2:
		t.Insert(p)
		pts = append(pts, p)
		k := sym.Pick("r", len(pts))
		t.Remove(pts[k])
		pts = append(append([]P{}, pts[:k]...), pts[k+1:]...)
	}
	cellsOf(c.w, c.h, pts, batch(t, c.w, c.h))
}

// incrScript: the incremental diagram after insertions, removals and copies.
func incrScript(c hist, script int) {
	t := d.NewVoronoi(c.w, c.h)
	pts := append([]P{}, c.pre...)
	for _, p := range pts {
		t.Insert(p)
	}
	p := c.p.point("p")
	n := len(pts)
	drop := func(s []P, k int) []P { return append(append([]P{}, s[:k]...), s[k+1:]...) }
	switch script {
	case 0:
		t.Insert(p)
		pts = append(pts, p)
	case 1:
		q := c.q.point("q")
		t.Insert(p)
		t.Insert(q)
		t.Insert(q)
		t.Remove(q)
		pts = append(pts, p, q)
	case 2:
		t.Insert(p)
		pts = append(pts, p)
		k := sym.Pick("r", n+1)
		t.Remove(pts[k])
		pts = drop(pts, k)
	case 3:
		t.Insert(p)
		pts = append(pts, p)
		k := sym.Pick("r", n+1)
		t.Remove(pts[k])
		pts = drop(pts, k)
		q := c.q.point("q")
		t.Insert(q)
		pts = append(pts, q)
	case 4: // a copy is equal and independent
		o := d.NewVoronoi(c.w, c.h)
		q := c.q.point("q")
		o.Insert(q)
		o.Insert(pt(1, 1))
		t.Insert(p)
		pts = append(pts, p)
		o.Set(t)
		op := append([]P{}, pts...)
		k := sym.Pick("r", n+1)
		o.Remove(op[k])
		op = drop(op, k)
		cellsOf(c.w, c.h, op, cells(o))
	case 5: // changing the original leaves the copy alone
		o := d.NewVoronoi(c.w, c.h)
		o.Insert(p)
		o.Set(t)
		t.Insert(p)
		op := append([]P{}, pts...)
		pts = append(pts, p)
		cellsOf(c.w, c.h, op, cells(o))
		o.Insert(p)
		o.Insert(p)
		op = append(op, p)
		cellsOf(c.w, c.h, op, cells(o))
	}
	cellsOf(c.w, c.h, pts, cells(t))
}

// ---- many points ----

// manyCells is cellsOf for many distinct points.
func manyCells(w, h int, pts []P, polys [][]F) {
	sym.Assert(len(polys) == len(pts), "there is not exactly one cell per distinct point")
	tot := 0.0
	tol := 0.05 * float64(w+h)
	owned := make([][]bool, len(pts))
	for _, p := range polys {
		tot += area2(p)
		site := make([]bool, len(pts))
		for k := range site {
			site[k] = true
		}
		for _, v := range p {
			sym.Assert(sym.And(v.X >= -0.01, v.Y >= -0.01, v.X <= float64(w)+0.01, v.Y <= float64(h)+0.01), "a cell leaves the image")
			ds := make([]float64, len(pts))
			m := 0.0
			for k, s := range pts {
				ds[k] = d2(v, s)
				if k == 0 {
					m = ds[k]
				} else {
					m = sym.IteF(ds[k] < m, ds[k], m)
				}
			}
			for k := range pts {
				site[k] = sym.And(site[k], ds[k] <= m+tol)
			}
		}
		sym.Assert(sym.Or(site...), "a cell reaches beyond the points nearest to its site")
		for k := range pts {
			if !sym.No(site[k]) {
				owned[k] = append(owned[k], site[k])
			}
		}
	}
	for k := range pts {
		sym.Assert(sym.Or(owned[k]...), "a point has no cell")
	}
	e := tot/2 - float64(w*h)
	sym.Assert(abs(e) <= 0.01*float64(w+h), "the cells do not cover the image exactly once")
	sym.ObserveF("area", tot)
}

func distinct(ps []P) []P {
	var o []P
	seen := map[P]bool{}
	for _, p := range ps {
		if !seen[p] {
			seen[p] = true
			o = append(o, p)
		}
	}
	return o
}

// Many: a hundred points and more, one of them anywhere in a small place between others.
// v = script + 10*configuration
func Many(v int) {
	z := [][2]int{{640, 480}, {150, 130}, {90, 1100}, {1700, 1300}}[v/10]
	w, h := z[0], z[1]
	pts := distinct(mixed(900+v/10, 140, w, h))
	p := lat{w / 2, 1, 2, h / 2, 1, 2}.point("p")
	for _, q := range pts {
		sym.Assume(sym.Not(eq(p, q)))
	}
	n := len(pts)
	if v%10 == 0 {
		t := d.NewDelaunay(w, h)
		for _, q := range pts {
			t.Insert(q)
		}
		t.Insert(p)
		manyCells(w, h, append(pts, p), batch(t, w, h))
		return
	}
	t := d.NewVoronoi(w, h)
	for _, q := range pts {
		t.Insert(q)
	}
	switch v % 10 {
	case 1: // the point comes, others go, and then the point
		t.Insert(p)
		for i := 0; i < n/2; i++ {
			t.Remove(pts[i])
		}
		pts = pts[n/2:]
		manyCells(w, h, append(append([]P{}, pts...), p), cells(t))
		t.Remove(p)
		manyCells(w, h, pts, cells(t))
	case 2: // copies over a larger and a smaller diagram
		o := d.NewVoronoi(w, h)
		few := append([]P{}, pts[n/3:n/2]...)
		for _, q := range few {
			o.Insert(q)
		}
		c := d.NewVoronoi(w, h)
		c.Set(t)
		t.Set(o)
		o.Set(c)
		o.Insert(p)
		manyCells(w, h, append(append([]P{}, pts...), p), cells(o))
		t.Insert(p)
		manyCells(w, h, append(few, p), cells(t))
		manyCells(w, h, pts, cells(c))
	}
}

// Churn: hundreds of insertions, removals and copies among a dozen points, and then an
// arbitrary point. v = script + 10*configuration
func Churn(v int) {
	z := [][2]int{{60, 50}, {700, 500}, {20, 13}, {1500, 90}}[v/10]
	w, h := z[0], z[1]
	r := uint32(v)*2654435761 + 99
	next := func(m int) int {
		r = r*1664525 + 1013904223
		return int(r>>8) % m
	}
	var ts [3]*d.IVoronoi
	var ps [3][]P
	for i := range ts {
		ts[i] = d.NewVoronoi(w, h)
	}
	step := func(k int) {
		n := len(ps[k])
		switch {
		case n > 0 && (n > 11 || next(2) == 0):
			i := next(n)
			ts[k].Remove(ps[k][i])
			ps[k] = append(append([]P{}, ps[k][:i]...), ps[k][i+1:]...)
		default:
			p := pt(next(w+1), next(h+1))
			if n > 0 && next(5) == 0 {
				p = ps[k][next(n)]
			}
			ts[k].Insert(p)
			ps[k] = append(ps[k], p)
		}
	}
	n := []int{400, 100}[v%10]
	for i := 0; i < n; i++ {
		if v%10 == 0 { // one diagram
			step(0)
			continue
		}
		b := next(3)
		for k := range ts { // members of a population that are copied over each other
			if k != b {
				ts[k].Set(ts[b])
				ps[k] = append([]P{}, ps[b]...)
			}
			step(k)
			step(k)
		}
	}
	for k := range ts {
		if v%10 == 0 && k > 0 {
			break
		}
		for len(ps[k]) == 0 {
			step(k)
		}
		cellsOf(w, h, ps[k], cells(ts[k]))
	}
	p := lat{w / 2, 1, 3, h / 2, 1, 3}.point("p")
	ts[0].Insert(p)
	cellsOf(w, h, append(ps[0], p), cells(ts[0]))
	ts[0].Remove(p)
	if len(ps[0]) > 0 {
		cellsOf(w, h, ps[0], cells(ts[0]))
	}
}

// ring: n points on a circle, as round as pixels allow
func ring(n, cx, cy, r int, turn float64) []P {
	var o []P
	for i := 0; i < n; i++ {
		a := 2*math.Pi*float64(i)/float64(n) + turn
		o = append(o, pt(cx+int(math.Floor(float64(r)*math.Cos(a)+0.5)), cy+int(math.Floor(float64(r)*math.Sin(a)+0.5))))
	}
	return distinct(o)
}

// Ring: the cell of an arbitrary point in the middle of a ring has very many corners.
// v = script + 10*configuration
func Ring(v int) {
	c := []struct{ w, h, n, r int }{{200, 180, 20, 80}, {900, 700, 41, 300}, {1300, 1400, 75, 600}, {2600, 2500, 140, 1200}}[v/10]
	cx, cy := c.w/2, c.h/2
	pre := append(ring(c.n, cx, cy, c.r, 0.01+0.3*float64(v%10)), pt(3, 1), pt(c.w-1, 2))
	p := lat{cx, 1, 2, cy, 1, 2}.point("p")
	if v%10 == 0 {
		t := d.NewDelaunay(c.w, c.h)
		for _, q := range pre {
			t.Insert(q)
		}
		t.Insert(p)
		manyCells(c.w, c.h, append(pre, p), batch(t, c.w, c.h))
		return
	}
	t := d.NewVoronoi(c.w, c.h)
	for _, q := range pre {
		t.Insert(q)
	}
	t.Insert(p)
	manyCells(c.w, c.h, append(append([]P{}, pre...), p), cells(t))
	o := d.NewVoronoi(c.w, c.h)
	o.Insert(p)
	o.Set(t)
	t.Remove(p)
	manyCells(c.w, c.h, pre, cells(t))
	if v%10 == 2 {
		manyCells(c.w, c.h, append(append([]P{}, pre...), p), cells(o))
	}
}
