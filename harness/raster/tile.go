package raster

import (
	"math"

	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type pt struct{ x, y int }

func tri(a, b, c pt) geom.Triangle { return geom.NewTriangle(a.x, a.y, b.x, b.y, c.x, c.y) }

func orient(a, b, c pt) int { return (b.x-a.x)*(c.y-a.y) - (c.x-a.x)*(b.y-a.y) }

// rows collects the spans of one shape, by row.
type rows struct {
	by    [][]span
	merge bool // join adjacent spans
}

func (r *rows) add(x0, x1, y int) {
	if y < 0 || y >= len(r.by) {
		sym.Assert(false, "a line lies outside the image")
		return
	}
	if row := r.by[y]; r.merge && len(row) > 0 {
		if l := &row[len(row)-1]; sym.Yes(sym.And(l.x1 == x0, l.x0 <= x0, x0 <= x1)) {
			l.x1 = x1
			return
		}
	}
	r.by[y] = append(r.by[y], span{x0, x1, y})
}

// lines of a triangle through one of the three scan converters.
func scan(r *rows, t geom.Triangle, n int) {
	if n == 0 {
		rasterize.DDATriangleLines(t, r.add)
		return
	}
	rasterize.DDATriangleBlocks(t, n, r.add, func(x, y int) {
		for i := 0; i < n; i++ {
			r.add(x, x+n, y+i)
		}
	})
}

// tiled: every row of the image is covered exactly once.
func tiled(r *rows, w int) {
	for _, row := range r.by {
		sum := 0
		var ok []bool
		for i, a := range row {
			ok = append(ok, a.x0 >= 0, a.x1 <= w, a.x0 <= a.x1)
			sum += a.x1 - a.x0
			for _, b := range row[:i] {
				ok = append(ok, sym.Or(a.x0 == a.x1, b.x0 == b.x1, a.x1 <= b.x0, b.x1 <= a.x0))
			}
		}
		sym.Assert(sym.And(ok...), "two shapes that share an edge both cover a pixel, or a shape leaves the image")
		sym.Assert(sum == w, "pixels between shapes that share edges are not covered exactly once")
		sym.Observe("sum", sum)
	}
}

type tcfg struct {
	w, h, n int
	x, y    [2]int // range of the hub
}

var tcfgs = []tcfg{
	{12, 7, 0, [2]int{0, 12}, [2]int{0, 7}},
	{3001, 7, 0, [2]int{0, 3001}, [2]int{0, 7}},
	{9, 40, 0, [2]int{0, 9}, [2]int{0, 40}},
	{13, 9, 2, [2]int{0, 13}, [2]int{0, 9}},
	{200, 40, 8, [2]int{60, 140}, [2]int{13, 17}},
	{200, 90, 0, [2]int{97, 104}, [2]int{41, 49}},
	{24, 16, 3, [2]int{0, 24}, [2]int{0, 16}},
	{8000, 3, 0, [2]int{4000, 8000}, [2]int{0, 3}},
}

// Tile: an image cut into triangles around an arbitrary point is covered exactly once.
func Tile(v int) {
	c := tcfgs[v]
	w, h := c.w, c.h
	p := pt{sym.Int("x", c.x[0], c.x[1]), c.y[0] + sym.Pick("y", c.y[1]-c.y[0]+1)}
	rim := []pt{{0, 0}, {w / 3, 0}, {w, 0}, {w, h - 1}, {w, h}, {w - w/5, h}, {0, h}, {0, 2}}
	r := &rows{by: make([][]span, h)}
	for i := range rim {
		a, b := rim[i], rim[(i+1)%len(rim)]
		flat := orient(a, b, p) == 0
		if flat {
			continue
		}
		switch sym.Pick("rot", 1) { // the order of the vertices must not matter
		default:
			if i%3 == 0 {
				scan(r, tri(a, b, p), c.n)
			} else if i%3 == 1 {
				scan(r, tri(p, a, b), c.n)
			} else {
				scan(r, tri(p, b, a), c.n)
			}
		}
	}
	tiled(r, w)
}

// Cells: an image cut into three convex polygons around an arbitrary point is covered exactly
// once, by pixels as well as by blocks.
func Cells(v int) {
	c := tcfgs[v]
	w, h := c.w, c.h
	p := pt{sym.Int("x", c.x[0], c.x[1]), c.y[0] + sym.Pick("y", c.y[1]-c.y[0]+1)}
	t := pt{w / 2, 0}
	sym.Assume(sym.And(orient(pt{0, h}, p, t) < 0, orient(t, p, pt{w, h}) < 0, p.y < h))
	k := sym.Pick("start", 3) // any vertex may come first
	rot := func(q []pt) geom.Polygon {
		var g geom.Polygon
		for i := range q {
			x := q[(i+k)%len(q)]
			g.Points = append(g.Points, geom.Point{X: x.x, Y: x.y})
		}
		return g
	}
	r := &rows{by: make([][]span, h), merge: true}
	for _, g := range []geom.Polygon{
		rot([]pt{p, {0, h}, {w, h}}),
		rot([]pt{p, {0, h}, {0, 0}, t}),
		rot([]pt{t, {w, 0}, {w, h}, p}),
	} {
		if c.n == 0 {
			rasterize.DDAPolygon(g, func(x, y int) { r.add(x, x+1, y) })
			continue
		}
		rasterize.DDAPolygonBlocks(g, c.n, r.add, func(x, y int) {
			for i := 0; i < c.n; i++ {
				r.add(x, x+c.n, y+i)
			}
		})
	}
	tiled(r, w)
}

type ccfg struct{ w, h, n int }

var ccfgs = []ccfg{{8, 5, 0}, {6, 4, 1}, {11, 4, 0}, {9, 6, 2}, {20, 4, 0}, {20, 5, 3}, {20, 9, 0}}

// Cover: the pixels of a triangle are those of the mathematical triangle, except that pixels
// cut by an edge may go either way.
func Cover(v int) {
	c := ccfgs[v]
	var p [3]pt
	for i, s := range []string{"0", "1", "2"} {
		p[i] = pt{sym.Int("x"+s, 0, c.w), sym.Pick("y"+s, c.h+1)}
	}
	sym.Assume(orient(p[0], p[1], p[2]) != 0)
	r := &rows{by: make([][]span, c.h)}
	scan(r, tri(p[0], p[1], p[2]), c.n)
	lo, hi := p[0].y, p[0].y
	for _, q := range p {
		if q.y < lo {
			lo = q.y
		}
		if q.y > hi {
			hi = q.y
		}
	}
	for y, row := range r.by {
		if y < lo || y >= hi {
			sym.Assert(len(row) == 0, "a row above or below the triangle is covered")
			continue
		}
		if c.n == 0 {
			sym.Assert(len(row) == 1, "a row of the triangle is not reported exactly once")
		}
		var s0, s1 int
		if len(row) > 0 {
			s0, s1 = row[0].x0, row[len(row)-1].x1
			for i := 1; i < len(row); i++ {
				sym.Assert(row[i].x0 == row[i-1].x1, "the spans and blocks of a row are not contiguous")
			}
		}
		// where the row meets the edges
		var l1, l2, r1, r2 []bool
		var nums, dens []int
		for i := range p {
			a, b := p[i], p[(i+1)%3]
			if a.y > b.y {
				a, b = b, a
			}
			if y < a.y || y >= b.y {
				continue
			}
			den := b.y - a.y
			num := a.x*den + (b.x-a.x)*(y-a.y)
			nums, dens = append(nums, num), append(dens, den)
			l1 = append(l1, s0*den >= num-den)
			l2 = append(l2, s0*den < num+den)
			r1 = append(r1, s1*den >= num-den)
			r2 = append(r2, s1*den < num+den)
		}
		// the two crossings: s0 is within a pixel of the left one and s1 of the right one
		sym.Assert(len(l1) == 2, "harness: two crossings")
		if len(row) == 0 {
			d, m := nums[0]*dens[1]-nums[1]*dens[0], dens[0]*dens[1]
			sym.Assert(sym.And(d <= m, d >= -m), "a row of the triangle is missing")
			continue
		}
		sym.Assert(sym.Or(sym.And(l1[0], l2[0], r1[1], r2[1]), sym.And(l1[1], l2[1], r1[0], r2[0])),
			"a triangle covers a pixel outside it, or misses one inside it")
		sym.Assert(s0 <= s1, "a row of the triangle has a negative length")
		sym.Observe("s0", s0)
		sym.Observe("s1", s1)
	}
}

// TileMix: an image cut into triangles by several fixed points and one that lies anywhere
// inside one of the triangles they make. Size, points, blocks and orders of vertices vary.
func TileMix(k int) {
	w, h, few := size(k)
	s := uint32(k)*2246822519 + 31
	next := func(m int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % m
	}
	n := (k * 3) % (8 + 32*few)
	type tr [3]pt
	ts := []tr{{{0, 0}, {w, 0}, {0, h}}, {{w, 0}, {w, h}, {0, h}}}
	split := func(i int, p pt) {
		a, b, c := ts[i][0], ts[i][1], ts[i][2]
		ts[i] = tr{a, b, p}
		ts = append(ts, tr{b, c, p}, tr{c, a, p})
	}
	inside := func(t tr, p pt) bool {
		return sym.And(orient(t[0], t[1], p) > 0, orient(t[1], t[2], p) > 0, orient(t[2], t[0], p) > 0)
	}
	for m := 2 + k%4 + 12*few; m > 0; m-- {
		p := pt{next(w + 1), next(h + 1)}
		for i := range ts {
			if inside(ts[i], p) {
				split(i, p)
				break
			}
		}
	}
	// the largest triangle takes the arbitrary point
	big, area := 0, 0
	for i, t := range ts {
		if a := orient(t[0], t[1], t[2]); a > area {
			big, area = i, a
		}
	}
	t := ts[big]
	gx, gy := (t[0].x+t[1].x+t[2].x)/3, (t[0].y+t[1].y+t[2].y)/3
	p := pt{gx - 6 + sym.Int("x", 0, 12-6*few), gy - 3 + sym.Pick("y", 7-5*few)}
	sym.Assume(sym.And(p.x >= 0, p.x <= w, inside(t, p)))
	split(big, p)
	r := &rows{by: make([][]span, h), merge: true}
	for i, t := range ts {
		q := [3]pt{t[i%3], t[(i+1)%3], t[(i+2)%3]}
		if i%2 == 1 {
			q[0], q[1] = q[1], q[0]
		}
		scan(r, tri(q[0], q[1], q[2]), n)
	}
	tiled(r, w)
}

// CellMix: a convex polygon of many corners cut into polygons around an arbitrary point inside
// covers what the whole polygon covers, each pixel once.
func CellMix(k int) {
	w, h, few := size(k)
	n := (k * 3) % (8 + 32*few)
	m := 4 + k%7
	// corners on a rounded square, from the top left, clockwise
	var hull []pt
	for i := 0; i < m; i++ {
		d := []pt{{0, 30}, {10, 10}, {30, 2}, {50, 0}, {75, 5}, {95, 25}, {100, 60}, {85, 90}, {55, 100}, {12, 88}}[i*10/m]
		hull = append(hull, pt{d.x * w / 100, d.y * h / 100})
	}
	if k >= 400 { // very many corners
		m, hull = 36, nil
		for i := 0; i < m; i++ {
			a := 2*math.Pi*float64(i)/float64(m) + 0.03
			hull = append(hull, pt{int(math.Floor(float64(w)*(0.5+0.5*math.Cos(a)) + 0.5)), int(math.Floor(float64(h)*(0.5+0.5*math.Sin(a)) + 0.5))})
		}
	}
	c := pt{}
	for _, q := range hull {
		c.x += q.x
		c.y += q.y
	}
	p := pt{c.x/m - 4 + sym.Int("x", 0, 8-4*few), c.y/m - 2 + sym.Pick("y", 5-3*few)}
	poly := func(q []pt, rot int) geom.Polygon {
		var g geom.Polygon
		for i := range q {
			x := q[(i+rot)%len(q)]
			g.Points = append(g.Points, geom.Point{X: x.x, Y: x.y})
		}
		return g
	}
	cover := func(g geom.Polygon) *rows {
		r := &rows{by: make([][]span, h), merge: true}
		if n == 0 {
			rasterize.DDAPolygon(g, func(x, y int) { r.add(x, x+1, y) })
		} else {
			rasterize.DDAPolygonBlocks(g, n, r.add, func(x, y int) {
				for i := 0; i < n; i++ {
					r.add(x, x+n, y+i)
				}
			})
		}
		return r
	}
	whole := cover(poly(hull, 0))
	other := cover(poly(hull, 1+k%(m-1)))
	parts := &rows{by: make([][]span, h), merge: true}
	step := 1 + k%2
	for i := 0; i < m; i += step {
		q := []pt{p}
		for j := i; j <= i+step && j <= m; j++ {
			q = append(q, hull[j%m])
		}
		g := cover(poly(q, i%len(q)))
		for y := range g.by {
			parts.by[y] = append(parts.by[y], g.by[y]...)
		}
	}
	agree(whole, other, "a polygon covers other pixels when it starts at another corner")
	agree(whole, parts, "the parts of a polygon cover other pixels than the polygon")
}

// agree: the same pixels, each once.
func agree(a, b *rows, msg string) {
	for y := range a.by {
		lo, hi, sa, sb := 1<<30, -1, 0, 0
		for _, s := range a.by[y] {
			e := s.x0 == s.x1
			lo = sym.Ite(sym.Or(e, lo < s.x0), lo, s.x0)
			hi = sym.Ite(sym.Or(e, hi > s.x1), hi, s.x1)
			sa += s.x1 - s.x0
		}
		var ok []bool
		for i, s := range b.by[y] {
			e := s.x0 == s.x1
			ok = append(ok, sym.Or(e, sym.And(s.x0 >= lo, s.x1 <= hi, s.x0 < s.x1)))
			for _, o := range b.by[y][:i] {
				ok = append(ok, sym.Or(e, o.x0 == o.x1, s.x1 <= o.x0, o.x1 <= s.x0))
			}
			sb += s.x1 - s.x0
		}
		sym.Assert(sym.Or(sa == 0, sa == hi-lo), "a row of a convex polygon is not contiguous")
		sym.Assert(sym.And(ok...), msg)
		sym.Assert(sa == sb, msg)
		sym.Observe("sum", sa)
	}
}
