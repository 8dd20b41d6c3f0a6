// Package raster: the scan converters seen through their callbacks.
package raster

import (
	"github.com/RH12503/Triangula/geom"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type span struct{ x0, x1, y int }
type blk struct{ x, y int }

type cfg struct{ w, h, n int }

var cfgs = []cfg{
	{8, 6, 2}, {9, 5, 3}, {6, 6, 1}, {12, 7, 2}, {13, 9, 3}, {16, 9, 4}, {20, 12, 5}, {24, 12, 2}, {4, 3, 0}, {2, 5, 0}, {5, 2, 0},
}

func in(q, a, b int) bool { return sym.And(a <= q, q < b) }

// Blocks: the block rasterizer covers exactly the pixels of the line rasterizer, each once.
func Blocks(v int) {
	c := cfgs[v]
	t := geom.NewTriangle(
		sym.Int("x0", 0, c.w), sym.Pick("y0", c.h+1),
		sym.Int("x1", 0, c.w), sym.Pick("y1", c.h+1),
		sym.Int("x2", 0, c.w), sym.Pick("y2", c.h+1))
	same(t, c, sym.Int("q", -2, c.w+2))
}

var sizes = [][2]int{{60, 40}, {33, 77}, {120, 30}, {25, 120}, {200, 60}, {64, 64}, {41, 37}}

// larger images from case 300 on, in which fewer places are arbitrary
var bigSizes = [][2]int{{700, 400}, {1300, 60}, {60, 1300}, {300, 300}, {2100, 21}, {257, 513}}

func size(k int) (w, h, few int) {
	z := sizes[k%len(sizes)]
	if k >= 300 {
		z = bigSizes[k%len(bigSizes)]
		few = 1
	}
	return z[0], z[1], few
}

// BlocksMix: two vertices in fixed places, the third anywhere in a region, larger images and
// blocks; the order of the vertices varies.
func BlocksMix(k int) {
	w, h, few := size(k)
	s := uint32(k)*2654435761 + 777
	next := func(m int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % m
	}
	n := 1 + k*5%(8+32*few)
	x0, y0, x1, y1 := next(w+1), next(h+1), next(w+1), next(h+1)
	if k%4 == 1 {
		y1 = y0
	}
	x2 := next(w-11) + sym.Int("x2", 0, 11)
	y2 := next(h-7) + sym.Pick("y2", 8-6*few)
	if k%4 == 2 { // level with another vertex
		y2 = y1
	}
	var t geom.Triangle
	switch k % 6 {
	case 0:
		t = geom.NewTriangle(x0, y0, x1, y1, x2, y2)
	case 1:
		t = geom.NewTriangle(x0, y0, x2, y2, x1, y1)
	case 2:
		t = geom.NewTriangle(x2, y2, x1, y1, x0, y0)
	case 3:
		t = geom.NewTriangle(x1, y1, x0, y0, x2, y2)
	case 4:
		t = geom.NewTriangle(x1, y1, x2, y2, x0, y0)
	case 5:
		t = geom.NewTriangle(x2, y2, x0, y0, x1, y1)
	}
	same(t, cfg{w, h, n}, sym.Int("q", -1, w+1))
}

// Pixels: the pixel rasterizer covers exactly the pixels of the line rasterizer.
func Pixels(v int) {
	c := cfgs[v]
	t := geom.NewTriangle(
		sym.Int("x0", 0, c.w), sym.Pick("y0", c.h+1),
		sym.Int("x1", 0, c.w), sym.Pick("y1", c.h+1),
		sym.Int("x2", 0, c.w), sym.Pick("y2", c.h+1))
	var ls []span
	rasterize.DDATriangleLines(t, func(x0, x1, y int) { ls = append(ls, span{x0, x1, y}) })
	var px []blk
	rasterize.DDATriangle(t, func(x, y int) { px = append(px, blk{x, y}) })
	sum := 0
	for _, s := range ls {
		sum += sym.Ite(s.x1 > s.x0, s.x1-s.x0, 0)
	}
	sym.Assert(len(px) == sum, "pixel rasterizer covers more or fewer pixels than the line rasterizer")
	for i, p := range px {
		var is []bool
		for _, s := range ls {
			is = append(is, sym.And(p.y == s.y, in(p.x, s.x0, s.x1)))
		}
		sym.Assert(sym.Or(is...), "pixel rasterizer covers other pixels than the line rasterizer")
		for _, r := range px[:i] {
			sym.Assert(sym.Not(sym.And(r.x == p.x, r.y == p.y)), "pixel rasterizer covers a pixel twice")
		}
	}
}

// same compares what the rasterizers cover.
func same(t geom.Triangle, c cfg, q int) {
	var ls, bs []span
	var bl []blk
	rasterize.DDATriangleLines(t, func(x0, x1, y int) { ls = append(ls, span{x0, x1, y}) })
	rasterize.DDATriangleBlocks(t, c.n, func(x0, x1, y int) { bs = append(bs, span{x0, x1, y}) },
		func(x, y int) { bl = append(bl, blk{x, y}) })
	for y := -3; y <= c.h+3; y++ {
		a, b := 0, 0
		for _, s := range ls {
			if s.y == y {
				a += sym.B2I(in(q, s.x0, s.x1))
			}
		}
		for _, s := range bs {
			if s.y == y {
				b += sym.B2I(in(q, s.x0, s.x1))
			}
		}
		for _, k := range bl {
			if y >= k.y && y < k.y+c.n {
				b += sym.B2I(in(q, k.x, k.x+c.n))
			}
		}
		sym.Assert(a == b, "block rasterizer covers a pixel a different number of times than the line rasterizer")
		sym.Assert(a <= 1, "line rasterizer covers a pixel twice")
		sym.Observe("a", a)
		sym.Observe("b", b)
	}
	if len(bl) > 0 {
		sym.Reach("block emitted")
	}
}
