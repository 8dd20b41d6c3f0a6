// Package delaunay: histories of the incremental Delaunay triangulation seen through its
// public interface, against exact integer geometry.
package delaunay

import (
	"math"

	d "github.com/RH12503/Triangula/triangulation/incrdelaunay"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type P = d.Point

func pt(x, y int) P { return P{X: int16(x), Y: int16(y)} }

func orient(a, b, c P) int {
	return (int(b.X)-int(a.X))*(int(c.Y)-int(a.Y)) - (int(c.X)-int(a.X))*(int(b.Y)-int(a.Y))
}

// incircle > 0 iff q is strictly inside the circle through a, b, c (c left of ab).
func incircleCCW(a, b, c, q P) int {
	ax, ay := int(a.X)-int(q.X), int(a.Y)-int(q.Y)
	bx, by := int(b.X)-int(q.X), int(b.Y)-int(q.Y)
	cx, cy := int(c.X)-int(q.X), int(c.Y)-int(q.Y)
	return (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}

func sgn(x int) int { return sym.Ite(x > 0, 1, sym.Ite(x < 0, -1, 0)) }

// inc: sign > 0 strictly inside, 0 on the circle, < 0 outside; meaningless for collinear a, b, c.
func inc(a, b, c, q P) int { return incircleCCW(a, b, c, q) * sgn(orient(a, b, c)) }

func eq(a, b P) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// world is the multiset of points a history has produced.
type world struct {
	w, h int
	pts  []P
}

func (s *world) remove(i int) {
	s.pts = append(append([]P{}, s.pts[:i]...), s.pts[i+1:]...)
}

func tris(t *d.Delaunay) []d.Triangle {
	var out []d.Triangle
	t.IterTriangles(func(t d.Triangle) { out = append(out, t) })
	return out
}

// check: the triangles of t are a Delaunay triangulation of the distinct points of the
// world together with the super triangle, without the triangles touching it.
func check(t *d.Delaunay, s *world) {
	ts := tris(t)
	sup := d.NewSuperTriangle(s.w, s.h)
	sv := []P{sup.A, sup.B, sup.C}
	sym.Assert(t.NumPoints() == len(s.pts), "NumPoints is not the number of points inserted and not removed")
	for _, x := range ts {
		for _, v := range [3]P{x.A, x.B, x.C} {
			var is []bool
			for _, p := range s.pts {
				is = append(is, eq(p, v))
			}
			sym.Assert(sym.Or(is...), "a triangle has a vertex that is not in the triangulation")
		}
		sym.Assert(orient(x.A, x.B, x.C) != 0, "a triangle is degenerate")
		for _, p := range s.pts {
			sym.Assert(inc(x.A, x.B, x.C, p) <= 0, "a point lies inside the circumcircle of a triangle")
		}
	}
	// no directed edge twice (triangles oriented counterclockwise)
	for i, x := range ts {
		xv := [3]P{x.A, x.B, x.C}
		xs := orient(x.A, x.B, x.C) > 0
		for j := 0; j < i; j++ {
			y := ts[j]
			yv := [3]P{y.A, y.B, y.C}
			same := xs == (orient(y.A, y.B, y.C) > 0)
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					x0, x1, y0, y1 := xv[a], xv[(a+1)%3], yv[b], yv[(b+1)%3]
					sym.Assert(sym.Not(sym.Or(
						sym.And(same, eq(x0, y0), eq(x1, y1)),
						sym.And(sym.Not(same), eq(x0, y1), eq(x1, y0)))), "two triangles lie on the same side of an edge")
				}
			}
		}
	}
	// every empty circle through three points is covered by triangles on that circle
	n := len(s.pts)
	// empty: no point inside the circle, no corner of the enclosing triangle in or on it
	empty := func(first bool, a, b, c P) (bool, bool) {
		cond := []bool{first}
		if sym.No(first) {
			return false, false
		}
		for _, p := range s.pts {
			in := inc(a, b, c, p) <= 0
			if sym.No(in) {
				return false, false
			}
			cond = append(cond, in)
		}
		for _, p := range sv {
			in := inc(a, b, c, p) < 0
			if sym.No(in) {
				return false, false
			}
			cond = append(cond, in)
		}
		return sym.And(cond...), true
	}
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			for k := 0; k < j; k++ {
				a, b, c := s.pts[i], s.pts[j], s.pts[k]
				e, may := empty(orient(a, b, c) != 0, a, b, c)
				if !may {
					continue
				}
				var onc []bool
				for _, x := range ts {
					on := sym.And(inc(a, b, c, x.A) == 0, inc(a, b, c, x.B) == 0, inc(a, b, c, x.C) == 0)
					onc = append(onc, on)
					if sym.Yes(on) {
						break
					}
				}
				sym.Assert(sym.Implies(e, sym.Or(onc...)), "an empty circle through three points has no triangle")
			}
		}
	}
	// no hole: across every edge whose far side has such a circle there is another triangle
	for i, x := range ts {
		xv := [3]P{x.A, x.B, x.C}
		for a := 0; a < 3; a++ {
			u, v, o := xv[a], xv[(a+1)%3], xv[(a+2)%3]
			var nb []bool
			for j, y := range ts {
				if j == i {
					continue
				}
				var hu, hv []bool
				for _, q := range [3]P{y.A, y.B, y.C} {
					hu = append(hu, eq(q, u))
					hv = append(hv, eq(q, v))
				}
				nb = append(nb, sym.And(sym.Or(hu...), sym.Or(hv...)))
			}
			has := sym.Or(nb...)
			if sym.Yes(has) {
				continue
			}
			for _, c := range s.pts {
				if e, may := empty(sgn(orient(u, v, c))*sgn(orient(u, v, o)) < 0, u, v, c); may {
					sym.Assert(sym.Implies(e, has), "the triangulation has a hole")
				}
			}
		}
	}
	sym.Observe("triangles", len(ts))
	for _, x := range ts {
		sym.Observe("ax", int(x.A.X))
		sym.Observe("by", int(x.B.Y))
	}
}

// lattice of the symbolic points
type lat struct{ x0, dx, nx, y0, dy, ny int }

func (l lat) point(name string) P {
	return pt(l.x0+l.dx*sym.Int(name+"x", 0, l.nx-1), l.y0+l.dy*sym.Int(name+"y", 0, l.ny-1))
}

type scen struct {
	w, h int
	pre  []P
	l    lat
}

var (
	grid9  = []P{{0, 0}, {5, 0}, {10, 0}, {0, 5}, {5, 5}, {10, 5}, {0, 10}, {5, 10}, {10, 10}}
	gen5   = []P{{1, 2}, {9, 1}, {4, 7}, {8, 9}, {2, 10}}
	col4   = []P{{0, 5}, {3, 5}, {6, 5}, {10, 5}}
	corner = []P{{0, 0}, {10, 0}, {0, 10}, {10, 10}}
	big6   = []P{{0, 0}, {640, 0}, {0, 480}, {640, 480}, {317, 202}, {100, 431}}
)

var insertScens = []scen{
	{10, 10, nil, lat{0, 1, 11, 0, 1, 11}},
	{10, 10, gen5, lat{0, 1, 11, 0, 1, 11}},
	{10, 10, grid9, lat{0, 1, 11, 0, 1, 11}},
	{10, 10, col4, lat{0, 1, 11, 0, 1, 11}},
	{10, 10, corner, lat{0, 1, 11, 0, 1, 11}},
	{640, 480, big6, lat{0, 64, 11, 0, 48, 11}},
	{7, 3, []P{{0, 0}, {7, 3}, {3, 1}}, lat{0, 1, 8, 0, 1, 4}},
	{1, 1, nil, lat{0, 1, 2, 0, 1, 2}},
	{1000, 1000, []P{{400, 410}, {480, 420}, {420, 490}, {499, 500}}, lat{430, 1, 30, 430, 1, 30}},
	{1000, 1000, []P{{400, 410}, {480, 420}, {420, 490}, {499, 500}}, lat{0, 1, 30, 0, 1, 30}},
	{1000, 1000, []P{{400, 410}, {480, 420}, {420, 490}, {499, 500}}, lat{970, 1, 31, 970, 1, 31}},
	{3000, 2000, nil, lat{970, 1, 31, 970, 1, 31}},
	{300, 1000, mixed(1, 6, 300, 1000), lat{290, 1, 11, 985, 1, 11}},    // 12: tall
	{1500, 300, mixed(5, 6, 1500, 300), lat{745, 1, 11, 145, 1, 11}},    // 13: wide
	{800, 800, mixed(6, 10, 800, 800), lat{390, 1, 11, 390, 1, 11}},     // 14
	{2000, 1500, mixed(7, 12, 2000, 1500), lat{0, 1, 11, 1490, 1, 11}},  // 15
	{5000, 4000, mixed(8, 12, 5000, 4000), lat{2500, 1, 9, 2000, 1, 9}}, // 16
	{8000, 60, mixed(9, 8, 8000, 60), lat{4000, 1, 9, 30, 1, 9}},        // 17: a strip
	{60, 60, mixed(10, 14, 60, 60), lat{20, 1, 11, 20, 1, 11}},          // 18: crowded
}

// Insert1: one arbitrary point is inserted after a fixed prefix.
func Insert1(v int) {
	c := insertScens[v]
	s := &world{w: c.w, h: c.h}
	t := d.NewDelaunay(c.w, c.h)
	for _, p := range c.pre {
		t.Insert(p)
		s.pts = append(s.pts, p)
	}
	p := c.l.point("p")
	t.Insert(p)
	s.pts = append(s.pts, p)
	check(t, s)
}

// InsertMore: an arbitrary point is inserted among scattered ones, which reveals what its
// insertion did to triangles not reported.
func InsertMore(v int) {
	c := insertScens[v]
	t, s := start(c.w, c.h, c.pre)
	p := c.l.point("p")
	ins(t, s, p)
	for _, x := range mixed(100+v, 4, c.w, c.h) {
		ins(t, s, x)
	}
	ins(t, s, p)
	probe(t, s)
	check(t, s)
}

// ---- histories ----

var near4 = []P{{400, 410}, {480, 420}, {420, 490}, {499, 500}}
var wide5 = []P{{0, 0}, {1000, 0}, {0, 1000}, {1000, 1000}, {500, 470}}
var line5 = []P{{100, 100}, {200, 200}, {300, 300}, {400, 400}, {300, 100}}

type hist struct {
	w, h int
	pre  []P
	p, q lat
}

var hists = []hist{
	{1000, 1000, near4, lat{440, 2, 8, 440, 2, 8}, lat{430, 3, 8, 450, 3, 8}},
	{1000, 1000, wide5, lat{993, 1, 8, 993, 1, 8}, lat{496, 1, 8, 466, 1, 8}},
	{1000, 700, line5[:4], lat{248, 1, 5, 247, 1, 6}, lat{300, 1, 3, 99, 1, 3}},
	{10, 10, grid9, lat{0, 1, 11, 0, 1, 11}, lat{0, 5, 3, 0, 5, 3}},
	{10, 10, gen5, lat{0, 2, 6, 0, 2, 6}, lat{1, 4, 3, 1, 4, 3}},
	{10, 10, nil, lat{0, 2, 6, 0, 2, 6}, lat{0, 5, 3, 0, 5, 3}},
	{1000, 1000, []P{{500, 500}, {600, 500}, {400, 500}, {500, 600}, {500, 400}}, lat{498, 1, 5, 498, 1, 5}, lat{560, 10, 3, 560, 10, 3}},
	{1000, 700, ring9, lat{470, 3, 8, 340, 3, 8}, lat{490, 1, 4, 350, 1, 4}},                  // 7: a hub with many neighbours
	{300, 1000, mixed(1, 7, 300, 1000), lat{293, 1, 8, 990, 1, 8}, lat{150, 1, 4, 500, 1, 4}}, // 8: a tall image
	{1000, 900, bucket, lat{200, 100, 3, 300, 100, 3}, lat{201, 99, 2, 247, 153, 1}},          // 9: all points share a bucket
	{2000, 1500, mixed(2, 12, 2000, 1500), lat{1000, 2, 8, 750, 2, 8}, lat{1040, 1, 3, 780, 1, 3}},
	{900, 300, mixed(3, 9, 900, 300), lat{0, 1, 8, 0, 1, 8}, lat{331, 1, 4, 99, 1, 4}},
	{5000, 4000, mixed(4, 10, 5000, 4000), lat{2500, 5, 8, 2000, 5, 8}, lat{4990, 3, 4, 3991, 3, 4}},
	{700, 700, ring14, lat{345, 2, 8, 355, 2, 8}, lat{390, 1, 3, 380, 1, 3}},                                  // 13: a larger hub
	{1000, 700, append([]P{{480, 340}}, ring9[1:6]...), lat{520, 2, 3, 352, 2, 3}, lat{500, 7, 2, 330, 3, 2}}, // 14: a small hub
}

// Irregular rings of points around the middle.
var ring9 = []P{{322, 201}, {489, 133}, {640, 170}, {742, 300}, {700, 455}, {560, 561}, {433, 548}, {290, 421}, {255, 333}}
var ring14 = []P{{120, 340}, {139, 210}, {220, 121}, {333, 90}, {420, 102}, {530, 160}, {601, 266}, {612, 371}, {590, 480}, {511, 570}, {402, 622}, {290, 611}, {190, 540}, {131, 450}}

// Points that the map of points keeps in one bucket.
var bucket = []P{{200, 300}, {300, 300}, {201, 247}, {400, 500}, {700, 800}, {900, 200}}

// mixed: n scattered points, the same in every run.
func mixed(seed, n, w, h int) []P {
	var o []P
	s := uint32(seed)*2654435761 + 12345
	next := func(m int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % m
	}
	for i := 0; i < n; i++ {
		o = append(o, pt(next(w+1), next(h+1)))
	}
	return o
}

var sizes = [][2]int{{300, 200}, {200, 300}, {60, 40}, {900, 120}, {120, 900}, {1500, 1100}, {33, 77}, {640, 480}, {257, 256}, {2500, 1800}, {5000, 3000}, {18, 23}}

// mix is a configuration made from a number: image size, points and places all vary.
func mix(k int) hist {
	z := sizes[k%len(sizes)]
	w, h := z[0], z[1]
	pre := mixed(1000+k, 5+k*7%6, w, h)
	at := mixed(2000+k, 2, w-6, h-6)
	return hist{w, h, pre, lat{int(at[0].X), 1, 5, int(at[0].Y), 1, 5}, lat{int(at[1].X), 3, 2, int(at[1].Y), 3, 1}}
}

// v = script + 10*configuration
func Hist(v int)    { histScript(hists[v/10], v%10) }
func Copy(v int)    { copyScript(hists[v/10], v%10) }
func Query(v int)   { queryScript(hists[v/10], v%10) }
func HistMix(v int) { histScript(mix(v/10), v%10) }
func CopyMix(v int) {
	c := mix(v / 10)
	c.p.nx, c.p.ny = 2, 2
	if len(c.pre) > 7 {
		c.pre = c.pre[:7]
	}
	copyScript(c, v%10)
}
func QueryMix(v int) { queryScript(mix(v/10), v%10) }

// InsertMix: an arbitrary point of a place inserted among scattered ones.
func InsertMix(v int) {
	c := mix(v)
	t, s := start(c.w, c.h, c.pre)
	ins(t, s, c.p.point("p"))
	check(t, s)
	for _, x := range mixed(3000+v, 3, c.w, c.h) {
		ins(t, s, x)
	}
	check(t, s)
}

func start(w, h int, pre []P) (*d.Delaunay, *world) {
	s := &world{w: w, h: h}
	t := d.NewDelaunay(w, h)
	for _, p := range pre {
		t.Insert(p)
		s.pts = append(s.pts, p)
	}
	return t, s
}

func ins(t *d.Delaunay, s *world, p P) {
	t.Insert(p)
	s.pts = append(s.pts, p)
}

func rem(t *d.Delaunay, s *world, i int) {
	t.Remove(s.pts[i])
	s.remove(i)
}

// histScript runs a history on a configuration.
func histScript(c hist, script int) {
	t, s := start(c.w, c.h, c.pre)
	n := len(s.pts)
	p := c.p.point("p")
	switch script {
	case 0: // insert and remove again
		ins(t, s, p)
		rem(t, s, n)
		check(t, s)
	case 1: // remove any of the points after an insertion
		ins(t, s, p)
		rem(t, s, sym.Pick("r", n+1))
		check(t, s)
	case 2: // two insertions, any removal
		ins(t, s, p)
		ins(t, s, c.q.point("q"))
		rem(t, s, sym.Pick("r", n+2))
		check(t, s)
	case 3: // duplicates
		ins(t, s, p)
		ins(t, s, p)
		ins(t, s, p)
		rem(t, s, n)
		rem(t, s, n)
		check(t, s)
		rem(t, s, n)
		check(t, s)
	case 4: // remove, insert, remove
		ins(t, s, p)
		rem(t, s, sym.Pick("r", n+1))
		ins(t, s, c.q.point("q"))
		check(t, s)
		rem(t, s, sym.Pick("r", n+1))
		check(t, s)
	case 5: // remove everything, in any order, and start again
		ins(t, s, p)
		for len(s.pts) > 0 {
			k := len(s.pts)
			if k > 3 {
				k = 3
			}
			rem(t, s, sym.Pick("r", k))
		}
		check(t, s)
		ins(t, s, p)
		for _, x := range c.pre {
			ins(t, s, x)
		}
		check(t, s)
	}
}

// probe inserts points all over the image, so that damage to triangles that are not
// reported (those of the enclosing triangle) comes to light.
func probe(t *d.Delaunay, s *world) {
	w, h := s.w, s.h
	for _, p := range []P{{0, 0}, pt(w, h/7), pt(w/6, h), pt(w-w/5, h-h/8)} {
		ins(t, s, p)
	}
}

// ---- copies ----

func sameTris(a, b []d.Triangle, msg string) {
	sym.Assert(len(a) == len(b), msg)
	if len(a) != len(b) {
		return
	}
	for i := range a {
		var is []bool
		for j := range b {
			is = append(is, sym.And(eq(a[i].A, b[j].A), eq(a[i].B, b[j].B), eq(a[i].C, b[j].C)))
		}
		sym.Assert(sym.Or(is...), msg)
	}
}

// copyScript: Set gives an equal, independent triangulation, whatever the target held before.
func copyScript(c hist, script int) {
	t, s := start(c.w, c.h, c.pre)
	n := len(s.pts)
	p := c.p.point("p")
	var o *d.Delaunay
	so := &world{w: c.w, h: c.h}
	if script >= 3 && script < 7 || script == 8 { // the target has a longer history with removals
		o, so = start(c.w, c.h, c.pre)
		ins(o, so, c.p.point("o"))
		ins(o, so, pt(c.w/3, c.h/4))
		ins(o, so, pt(c.w/7, c.h/2))
		ins(o, so, pt(c.w/7, c.h/2))
		rem(o, so, 0)
	} else {
		o = d.NewDelaunay(c.w, c.h)
	}
	switch script {
	case 0, 3: // copy, then change the copy
		ins(t, s, p)
		before := tris(t)
		o.Set(t)
		cp := &world{w: c.w, h: c.h, pts: append([]P{}, s.pts...)}
		sameTris(before, tris(o), "a copy has different triangles")
		rem(o, cp, sym.Pick("r", n+1))
		check(o, cp)
		sameTris(before, tris(t), "changing a copy changes the original")
		sym.Assert(t.NumPoints() == len(s.pts), "changing a copy changes the number of points of the original")
		rem(t, s, n)
		check(t, s)
	case 1, 4: // copy, then change the original, then the copy
		o.Set(t)
		cp := &world{w: c.w, h: c.h, pts: append([]P{}, s.pts...)}
		before := tris(o)
		ins(t, s, p)
		if n > 0 {
			rem(t, s, sym.Pick("r", n))
		}
		sameTris(before, tris(o), "changing the original changes a copy")
		sym.Assert(o.NumPoints() == len(cp.pts), "changing the original changes the number of points of a copy")
		ins(o, cp, p)
		check(o, cp)
		check(t, s)
	case 2, 5: // copy back and forth: capacities of both sides are reused
		o.Set(t)
		cp := &world{w: c.w, h: c.h, pts: append([]P{}, s.pts...)}
		ins(o, cp, p)
		ins(o, cp, p)
		t.Set(o)
		s.pts = append([]P{}, cp.pts...)
		rem(o, cp, n)
		rem(o, cp, n)
		check(o, cp)
		o.Set(t)
		rem(t, s, n)
		if n > 0 {
			rem(t, s, sym.Pick("r", n))
		}
		check(t, s)
		cp.pts = append(append([]P{}, cp.pts...), p, p)
		rem(o, cp, n)
		check(o, cp)
	case 7, 8: // copy after a removal, over a fresh or a used target, then insert on both sides
		ins(t, s, p)
		rem(t, s, sym.Pick("r", n+1))
		if script == 8 {
			ins(o, so, p)
			rem(o, so, len(so.pts)-1)
		}
		before := tris(t)
		o.Set(t)
		cp := &world{w: c.w, h: c.h, pts: append([]P{}, s.pts...)}
		sameTris(before, tris(o), "a copy has different triangles")
		ins(o, cp, c.q.point("q"))
		check(o, cp)
		sameTris(before, tris(t), "changing a copy changes the original")
		ins(t, s, p)
		probe(t, s)
		check(t, s)
	case 9: // the same, probed over the whole image and copied back
		ins(t, s, p)
		rem(t, s, sym.Pick("r", n+1))
		o.Set(t)
		cp := &world{w: c.w, h: c.h, pts: append([]P{}, s.pts...)}
		probe(o, cp)
		check(o, cp)
		t.Set(o)
		s.pts = append([]P{}, cp.pts...)
		rem(t, s, len(s.pts)-1)
		ins(t, s, p)
		check(t, s)
	case 6: // an empty triangulation over a full one
		o.Set(t)
		e := d.NewDelaunay(c.w, c.h)
		o.Set(e)
		sym.Assert(o.NumPoints() == 0, "a copy of an empty triangulation has points")
		es := &world{w: c.w, h: c.h}
		ins(o, es, p)
		for _, x := range c.pre {
			ins(o, es, x)
		}
		check(o, es)
		check(t, s)
	}
}

// ---- queries ----

// queryScript: HasPoint, GetClosestTo and NumPoints after a history.
func queryScript(c hist, script int) {
	t, s := start(c.w, c.h, c.pre)
	n := len(s.pts)
	q := c.p.point("q")
	p := c.q.point("p")
	switch script {
	case 0:
		ins(t, s, p)
	case 1:
		ins(t, s, p)
		ins(t, s, p)
		rem(t, s, n)
	case 2:
		ins(t, s, p)
		rem(t, s, sym.Pick("r", n+1))
	case 3:
		ins(t, s, p)
		ins(t, s, p)
		o := d.NewDelaunay(c.w, c.h)
		o.Set(t)
		t = o
		rem(t, s, n)
		rem(t, s, sym.Pick("r", n+1))
	}
	sym.Assert(t.NumPoints() == len(s.pts), "NumPoints is not the number of points inserted and not removed")
	if len(s.pts) == 0 {
		return
	}
	for _, x := range s.pts {
		sym.Assert(t.HasPoint(x), "HasPoint denies a point of the triangulation")
	}
	var is []bool
	for _, x := range s.pts {
		is = append(is, eq(x, q))
	}
	sym.Assert(t.HasPoint(q) == sym.Or(is...), "HasPoint is wrong about a point")
	closest(t, s, q)
}

func closest(t *d.Delaunay, s *world, q P) {
	best := t.GetClosestTo(q)
	dx, dy := int(best.X)-int(q.X), int(best.Y)-int(q.Y)
	var mem []bool
	for _, x := range s.pts {
		ex, ey := int(x.X)-int(q.X), int(x.Y)-int(q.Y)
		sym.Assert(dx*dx+dy*dy <= ex*ex+ey*ey, "GetClosestTo returns a point that is not the closest")
		mem = append(mem, eq(x, best))
	}
	sym.Assert(sym.Or(mem...), "GetClosestTo returns a point that is not in the triangulation")
	sym.Observe("bx", int(best.X))
	sym.Observe("by", int(best.Y))
}

// ---- hubs ----

// sines of multiples of 1/64 turn, by a thousand
var sine = [17]int{0, 98, 195, 290, 383, 471, 556, 634, 707, 773, 831, 882, 924, 957, 981, 995, 1000}

func sin64(k int) int {
	k = k & 63
	switch {
	case k <= 16:
		return sine[k]
	case k <= 32:
		return sine[32-k]
	case k <= 48:
		return -sine[k-32]
	}
	return -sine[64-k]
}

// Hub: a point in the middle of an irregular ring, turned by an arbitrary angle, is removed;
// v = number of points in the ring + 100 * which ring.
func Hub(v int) {
	n := v % 100
	w, h := 1000, 700
	s := uint32(v)*2654435761 + 99991
	next := func(m int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % m
	}
	turn := sym.Conc(sym.Pick("turn", 16))
	t, wl := start(w, h, nil)
	for i := 0; i < n; i++ {
		k := (64*i/n + next(64/n+1)) + 4*turn
		r := 150 + next(150)
		ins(t, wl, pt(500+r*sin64(k+16)/1000, 350+r*sin64(k)/1000))
	}
	p := lat{497, 3, 3, 347, 3, 3}.point("p")
	ins(t, wl, p)
	rem(t, wl, n)
	check(t, wl)
}

// ---- many points ----

type tri3 = [3]P

// norm turns a triangle so that equal triangles compare equal (concrete vertices).
func norm(t d.Triangle) tri3 {
	a, b, c := t.A, t.B, t.C
	if orient(a, b, c) < 0 {
		b, c = c, b
	}
	less := func(p, q P) bool { return p.X < q.X || p.X == q.X && p.Y < q.Y }
	if less(b, a) && less(b, c) {
		a, b, c = b, c, a
	} else if less(c, a) && less(c, b) {
		a, b, c = c, a, b
	}
	return tri3{a, b, c}
}

// whole checks a triangulation of concrete points, many of them: edges are shared by two
// triangles that are Delaunay to each other, or have nothing to connect to beyond them.
func whole(t *d.Delaunay, s *world) map[tri3]bool {
	ts := map[tri3]bool{}
	opp := map[[2]P]P{}
	known := map[P]bool{}
	for _, p := range s.pts {
		known[p] = true
	}
	sym.Assert(t.NumPoints() == len(s.pts), "NumPoints is not the number of points inserted and not removed")
	for _, x := range tris(t) {
		sym.Assert(orient(x.A, x.B, x.C) != 0, "a triangle is degenerate")
		v := norm(x)
		ts[v] = true
		for i := 0; i < 3; i++ {
			sym.Assert(known[v[i]], "a triangle has a vertex that is not in the triangulation")
			e := [2]P{v[i], v[(i+1)%3]}
			_, dup := opp[e]
			sym.Assert(!dup, "two triangles lie on the same side of an edge")
			opp[e] = v[(i+2)%3]
		}
	}
	sup := d.NewSuperTriangle(s.w, s.h)
	for e, o := range opp {
		u, v := e[0], e[1]
		if q, ok := opp[[2]P{v, u}]; ok {
			sym.Assert(incircleCCW(u, v, o, q) <= 0, "a point lies inside the circumcircle of a triangle")
			continue
		}
		var best P
		any := false
		for _, c := range s.pts {
			if orient(v, u, c) > 0 && (!any || incircleCCW(v, u, best, c) > 0) {
				best, any = c, true
			}
		}
		if any {
			open := false
			for _, p := range []P{sup.A, sup.B, sup.C, o} {
				in := incircleCCW(v, u, best, p)
				open = open || in > 0 || in == 0 && p != o
			}
			sym.Assert(open, "the triangulation has a hole")
		}
	}
	return ts
}

// against compares a triangulation with p, in the middle of it, with the one (ts) of the
// other points.
func against(t *d.Delaunay, base []P, ts map[tri3]bool, p P) {
	left := map[tri3]bool{}
	n := 0
	var fan []d.Triangle
	for _, x := range tris(t) {
		n++
		at := sym.Or(eq(x.A, p), eq(x.B, p), eq(x.C, p))
		if sym.Conc(sym.B2I(at)) == 1 {
			fan = append(fan, x)
			continue
		}
		v := norm(x)
		sym.Assert(ts[v], "a triangle away from the inserted point is new")
		left[v] = true
	}
	var dup []bool
	for _, q := range base {
		dup = append(dup, eq(q, p))
	}
	isDup := sym.Or(dup...)
	for v := range ts {
		in := incircleCCW(v[0], v[1], v[2], p)
		sym.Assert(sym.Implies(left[v], in <= 0), "a point lies inside the circumcircle of a triangle")
		sym.Assert(sym.Implies(sym.And(in < 0, !left[v]), sym.Or(eq(v[0], p), eq(v[1], p), eq(v[2], p))), "the triangulation has a hole")
	}
	for _, x := range fan {
		sym.Assert(orient(x.A, x.B, x.C) != 0, "a triangle is degenerate")
		for _, q := range base {
			sym.Assert(inc(x.A, x.B, x.C, q) <= 0, "a point lies inside the circumcircle of a triangle")
		}
	}
	sym.Assert(n == sym.Ite(isDup, len(ts), len(ts)+2), "the number of triangles around a point is wrong")
}

func equal(t *d.Delaunay, ts map[tri3]bool, msg string) {
	n := 0
	for _, x := range tris(t) {
		n++
		sym.Assert(ts[norm(x)], msg)
	}
	sym.Assert(n == len(ts), msg)
}

type big struct {
	w, h, n int
	l       lat
}

var bigs = []big{
	{640, 480, 300, lat{318, 1, 3, 238, 1, 3}},
	{1200, 900, 200, lat{600, 2, 3, 450, 2, 3}},
	{300, 2000, 150, lat{150, 1, 3, 1000, 1, 3}},
	{100, 80, 400, lat{50, 1, 3, 40, 1, 3}},
}

// Big: an arbitrary point among hundreds of others. v = script + 10*configuration
func Big(v int) {
	c := bigs[v/10]
	pre := distinct(mixed(400+v/10, c.n, c.w, c.h))
	t, s := start(c.w, c.h, pre)
	n := len(s.pts)
	ts := whole(t, s)
	sym.Observe("triangles", len(ts))
	switch v % 10 {
	case 0: // insert and remove
		p := c.l.point("p")
		ins(t, s, p)
		against(t, s.pts[:n], ts, p)
		rem(t, s, n)
		equal(t, ts, "inserting and removing a point changes the triangulation")
	case 1: // after removals
		for i := 0; i < n/3; i++ {
			rem(t, s, i)
		}
		ts = whole(t, s)
		p := c.l.point("p")
		n = len(s.pts)
		ins(t, s, p)
		against(t, s.pts[:n], ts, p)
		rem(t, s, n)
		equal(t, ts, "inserting and removing a point changes the triangulation")
	case 2: // copies
		o, so := start(c.w, c.h, pre[:n/2])
		for i := 0; i < n/8; i++ {
			rem(o, so, i)
		}
		os := whole(o, so)
		cp := d.NewDelaunay(c.w, c.h)
		cp.Set(o)
		o.Set(t)
		equal(o, ts, "a copy has different triangles")
		equal(cp, os, "changing the original changes a copy")
		p := c.l.point("p")
		ins(o, &world{}, p)
		against(o, s.pts, ts, p)
		equal(t, ts, "changing a copy changes the original")
		sym.Assert(o.NumPoints() == n+1, "NumPoints of a copy is wrong")
		o.Remove(p)
		equal(o, ts, "inserting and removing a point changes the triangulation")
		t.Set(cp)
		equal(t, os, "a copy has different triangles")
	case 3: // many duplicates
		p := c.l.point("p")
		for i := 0; i < 300; i++ {
			ins(t, s, p)
		}
		sym.Assert(t.NumPoints() == n+300, "NumPoints is not the number of points inserted and not removed")
		for i := 0; i < 299; i++ {
			t.Remove(p)
			if i == 0 || i > 295 || i%44 == 0 {
				sym.Assert(t.HasPoint(p), "HasPoint denies a point of the triangulation")
			}
		}
		s.pts = s.pts[:n+1]
		sym.Assert(t.NumPoints() == n+1, "NumPoints is not the number of points inserted and not removed")
		against(t, s.pts[:n], ts, p)
		rem(t, s, n)
		equal(t, ts, "inserting and removing a point changes the triangulation")
	case 4: // queries
		q := c.l.point("q")
		for i := 0; i < 5; i++ {
			sym.Assert(t.HasPoint(pre[i*(n-1)/4]), "HasPoint denies a point of the triangulation")
		}
		var is []bool
		for _, x := range s.pts {
			is = append(is, eq(x, q))
		}
		sym.Assert(t.HasPoint(q) == sym.Or(is...), "HasPoint is wrong about a point")
		closest(t, s, q)
	}
}

func distinct(ps []P) []P {
	var o []P
	seen := map[P]bool{}
	for _, p := range ps {
		if !seen[p] {
			seen[p] = true
			o = append(o, p)
		}
	}
	return o
}

// Churn: hundreds of insertions, removals and copies among a dozen points, and then an
// arbitrary point. v = script + 10*configuration
func Churn(v int) {
	z := [][2]int{{60, 50}, {700, 500}, {12, 9}, {1500, 40}}[v/10]
	w, h := z[0], z[1]
	r := uint32(v)*2654435761 + 99
	next := func(m int) int {
		r = r*1664525 + 1013904223
		return int(r>>8) % m
	}
	place := func() P { return pt(next(w+1), next(h+1)) }
	t, s := start(w, h, nil)
	step := func(t *d.Delaunay, s *world) {
		n := len(s.pts)
		switch {
		case n > 0 && (n > 11 || next(2) == 0):
			rem(t, s, next(n))
		case n > 0 && next(5) == 0:
			ins(t, s, s.pts[next(n)])
		default:
			ins(t, s, place())
		}
	}
	switch v % 10 {
	case 0, 3: // one triangulation
		for i := 0; i < 700; i++ {
			step(t, s)
		}
	case 1, 4: // members of a population that are copied over each other
		ts, ss := []*d.Delaunay{t, d.NewDelaunay(w, h), d.NewDelaunay(w, h)}, []*world{s, {w: w, h: h}, {w: w, h: h}}
		for i := 0; i < 300; i++ {
			b := next(3)
			for k := range ts {
				if k != b {
					ts[k].Set(ts[b])
					ss[k].pts = append(ss[k].pts[:0:0], ss[b].pts...)
				}
				step(ts[k], ss[k])
				step(ts[k], ss[k])
			}
		}
		check(ts[1], ss[1])
		t, s = ts[0], ss[0]
	case 2, 5: // emptied again and again
		for i := 0; i < 60; i++ {
			for k := 0; k < 8; k++ {
				step(t, s)
			}
			for len(s.pts) > i%3 {
				rem(t, s, next(len(s.pts)))
			}
		}
	}
	if v%10 > 2 {
		q := lat{w / 2, 1, 7, h / 2, 1, 7}.point("q")
		var is []bool
		for _, x := range s.pts {
			is = append(is, eq(x, q))
		}
		sym.Assert(t.HasPoint(q) == sym.Or(is...), "HasPoint is wrong about a point")
		sym.Assert(t.NumPoints() == len(s.pts), "NumPoints is not the number of points inserted and not removed")
		closest(t, s, q)
		for _, x := range s.pts {
			sym.Assert(t.HasPoint(x), "HasPoint denies a point of the triangulation")
		}
		return
	}
	check(t, s)
	for len(s.pts) > 8 {
		rem(t, s, 0)
	}
	for len(s.pts) < 4 {
		ins(t, s, place())
	}
	p := lat{w / 2, 1, 4, h / 2, 1, 4}.point("p")
	ins(t, s, p)
	check(t, s)
	rem(t, s, next(len(s.pts)-1))
	check(t, s)
}

// ring: n points on a circle, as round as pixels allow
func ring(n, cx, cy, r int, turn float64) []P {
	var o []P
	for i := 0; i < n; i++ {
		a := 2*math.Pi*float64(i)/float64(n) + turn
		o = append(o, pt(cx+int(math.Floor(float64(r)*math.Cos(a)+0.5)), cy+int(math.Floor(float64(r)*math.Sin(a)+0.5))))
	}
	return distinct(o)
}

// Ring: an arbitrary point in the middle of a ring of very many comes, goes, and comes again.
// v = script + 10*configuration
func Ring(v int) {
	c := []struct{ w, h, n, r int }{{200, 180, 20, 80}, {900, 700, 41, 300}, {1300, 1400, 75, 600}, {2600, 2500, 140, 1200}, {8000, 8000, 270, 3900}}[v/10]
	cx, cy := c.w/2, c.h/2
	pre := ring(c.n, cx, cy, c.r, 0.01+0.3*float64(v%10))
	n := len(pre)
	l := lat{cx - 1, 1, 3, cy - 1, 1, 3}
	if n > 100 {
		l = lat{cx, 1, 2, cy, 1, 2}
	}
	if v%10 == 1 { // another point on every side of the ring
		pre = append(pre, pt(0, 0), pt(c.w, 1), pt(1, c.h), pt(c.w, c.h))
	}
	t, s := start(c.w, c.h, pre)
	ts := whole(t, s)
	p := l.point("p")
	ins(t, s, p)
	against(t, pre, ts, p)
	switch v % 10 {
	case 0, 1:
		rem(t, s, len(pre))
		whole(t, s)
	case 2: // a copy forgets it
		o, _ := start(c.w, c.h, pre[:n/2])
		o.Set(t)
		against(o, pre, ts, p)
		o.Remove(p)
		so := &world{w: c.w, h: c.h, pts: pre}
		whole(o, so)
		against(t, pre, ts, p)
	}
}
