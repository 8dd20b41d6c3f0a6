// Package pics: images on their way in, and coloured shapes on their way out.
package pics

import (
	"image"
	stdcolor "image/color"
	"math"

	"github.com/RH12503/Triangula/color"
	"github.com/RH12503/Triangula/geom"
	img "github.com/RH12503/Triangula/image"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/rasterize"
	"github.com/RH12503/Triangula/render"
	"github.com/RH12503/Triangula/zzverif/sym"
)

func abs(x float64) float64 { return sym.IteF(x < 0, -x, x) }

// rgba is a colour of four 16-bit channels.
type rgba [4]int

func (c rgba) RGBA() (r, g, b, a uint32) {
	return uint32(c[0]), uint32(c[1]), uint32(c[2]), uint32(c[3])
}

// picture is an image of arbitrary colours anywhere in the plane.
type picture struct {
	r  image.Rectangle
	px [][]rgba
}

func (p *picture) ColorModel() stdcolor.Model { return stdcolor.RGBA64Model }
func (p *picture) Bounds() image.Rectangle    { return p.r }
func (p *picture) At(x, y int) stdcolor.Color {
	in := sym.And(x >= p.r.Min.X, x < p.r.Max.X, y >= p.r.Min.Y, y < p.r.Max.Y)
	sym.Assert(in, "a pixel outside the bounds of the image is read")
	if !in {
		return rgba{}
	}
	return p.px[sym.Conc(y-p.r.Min.Y)][sym.Conc(x-p.r.Min.X)]
}

// checkData compares what was converted with the original.
func checkData(d img.RGBData, w, h int, want func(x, y int) (r, g, b uint32)) {
	gw, gh := d.Size()
	sym.Assert(sym.And(gw == w, gh == h), "the converted image has another size")
	if gw != w || gh != h {
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := d.RGBAt(x, y)
			r, g, b := want(x, y)
			for k, v := range []uint32{r, g, b} {
				got := []float64{c.R, c.G, c.B}[k]
				e := float64(v>>8) - 255*got
				sym.Assert(sym.And(e <= 1e-9, e >= -1e-9), "a pixel does not keep its 8-bit colour")
				sym.ObserveF("c", got)
			}
		}
	}
}

type pcfg struct{ w, h, kind int }

var pcfgs = []pcfg{
	{1, 1, 0}, {2, 1, 0}, {1, 2, 0}, {3, 2, 0}, {0, 0, 0}, // anywhere
	{2, 2, 1}, {2, 2, 2}, {2, 2, 3}, {3, 2, 4}, {2, 2, 5}, {2, 1, 6}, // of the standard library
	{3, 2, 7}, {2, 2, 8}, {2, 3, 9}, {3, 3, 10}, {4, 3, 11}, {4, 4, 12}, {2, 2, 13},
	{19, 11, 20}, {7, 30, 21}, {40, 9, 22}, {1, 300, 20}, {300, 1, 21}, {16, 16, 23}, {9, 21, 24}, // larger
	{2300, 1, 20}, {1, 2300, 21}, {1100, 3, 22}, {3, 1300, 24}, {3000, 2, 24}, {600, 300, 20},
}

// ToData: pixels keep their place and their colour.
func ToData(v int) {
	c := pcfgs[v]
	r := image.Rect(0, 0, c.w, c.h)
	if c.kind < 20 {
		r = r.Add(image.Pt(sym.Pick("minx", 4)-2, sym.Pick("miny", 4)-2))
	}
	if c.kind >= 20 && v < 25 {
		big := []int{0, 300, -1000, 70000}
		r = image.Rect(0, 0, c.w, c.h).Add(image.Pt(big[sym.Pick("minx", 4)], big[sym.Pick("miny", 4)]))
	}
	if v >= 25 {
		r = image.Rect(0, 0, c.w, c.h).Add(image.Pt(300*(v%3), -1000*(v%2)))
	}
	b8 := func() uint8 { return uint8(sym.Int("b", 0, 255)) }
	var in image.Image
	big := r
	big.Max.X += 2
	big.Min.Y--
	sub := r
	pix := func(n int) []uint8 {
		var o []uint8
		for i := 0; i < n; i++ {
			o = append(o, uint8((i*40503+i/1021)>>3&255))
		}
		return o
	}
	switch c.kind {
	case 0:
		p := &picture{r: r}
		for y := 0; y < c.h; y++ {
			var row []rgba
			for x := 0; x < c.w; x++ {
				row = append(row, rgba{sym.Int("r", 0, 65535), sym.Int("g", 0, 65535), sym.Int("b", 0, 65535), 65535})
			}
			p.px = append(p.px, row)
		}
		in = p
	case 1:
		m := image.NewRGBA(big)
		copy(m.Pix, pix(len(m.Pix)))
		for y := sub.Min.Y; y < sub.Max.Y; y++ {
			for x := sub.Min.X; x < sub.Max.X; x++ {
				m.SetRGBA(x, y, stdcolor.RGBA{b8(), b8(), b8(), 255})
			}
		}
		in = m.SubImage(sub)
	case 2:
		m := image.NewNRGBA(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetNRGBA(sub.Min.X, sub.Min.Y, stdcolor.NRGBA{b8(), b8(), b8(), 255})
		m.SetNRGBA(sub.Min.X+1, sub.Min.Y, stdcolor.NRGBA{200, b8(), 3, 128})
		in = m.SubImage(sub)
	case 3:
		m := image.NewGray(big)
		copy(m.Pix, pix(len(m.Pix)))
		for y := sub.Min.Y; y < sub.Max.Y; y++ {
			for x := sub.Min.X; x < sub.Max.X; x++ {
				m.SetGray(x, y, stdcolor.Gray{b8()})
			}
		}
		in = m.SubImage(sub)
	case 4:
		m := image.NewPaletted(big, stdcolor.Palette{stdcolor.RGBA{b8(), 1, 2, 255}, stdcolor.Gray{b8()}, stdcolor.RGBA{9, 8, 7, 255}})
		for i := range m.Pix {
			m.Pix[i] = uint8(i % 3)
		}
		in = m.SubImage(sub)
	case 5:
		m := image.NewRGBA64(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetRGBA64(sub.Min.X, sub.Min.Y, stdcolor.RGBA64{uint16(sym.Int("s", 0, 65535)), uint16(sym.Int("s", 0, 65535)), uint16(sym.Int("s", 0, 65535)), 65535})
		in = m.SubImage(sub)
	case 6:
		in = image.NewUniform(stdcolor.RGBA{b8(), b8(), b8(), 255})
		in.(*image.Uniform).C.RGBA()
		in = &window{in, r}
	case 7:
		m := image.NewGray16(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetGray16(sub.Min.X+1, sub.Min.Y, stdcolor.Gray16{uint16(sym.Int("s", 0, 65535))})
		in = m.SubImage(sub)
	case 8:
		m := image.NewNRGBA64(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetNRGBA64(sub.Min.X, sub.Min.Y+1, stdcolor.NRGBA64{uint16(sym.Int("s", 0, 65535)), 700, 65535, 65535})
		m.SetNRGBA64(sub.Min.X, sub.Min.Y, stdcolor.NRGBA64{1 << 14, uint16(sym.Int("s", 0, 65535)), 65535, 1 << 15})
		in = m.SubImage(sub)
	case 9:
		m := image.NewCMYK(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetCMYK(sub.Min.X, sub.Min.Y+2, stdcolor.CMYK{b8(), 10, b8(), 40})
		in = m.SubImage(sub)
	case 10:
		m := image.NewAlpha(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetAlpha(sub.Min.X+2, sub.Min.Y, stdcolor.Alpha{b8()})
		in = m.SubImage(sub)
	case 11, 12:
		ratio := image.YCbCrSubsampleRatio420
		if c.kind == 12 {
			ratio = image.YCbCrSubsampleRatio444
		}
		m := image.NewYCbCr(big, ratio)
		copy(m.Y, pix(len(m.Y)))
		copy(m.Cb, pix(len(m.Cb)))
		copy(m.Cr, pix(len(m.Cr)))
		m.Y[m.YOffset(sub.Min.X+1, sub.Min.Y+1)] = b8()
		m.Cb[m.COffset(sub.Min.X, sub.Min.Y)] = 128
		m.Cr[m.COffset(sub.Min.X, sub.Min.Y)] = uint8(128 + sym.Pick("cr", 3))
		in = m.SubImage(sub)
	case 13:
		m := image.NewAlpha16(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetAlpha16(sub.Min.X, sub.Min.Y, stdcolor.Alpha16{uint16(sym.Int("s", 0, 65535))})
		in = m.SubImage(sub)
	case 20:
		m := image.NewRGBA(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetRGBA(sub.Max.X-1, sub.Max.Y-1, stdcolor.RGBA{b8(), b8(), b8(), 255})
		in = m.SubImage(sub)
	case 21:
		m := image.NewNRGBA(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetNRGBA(sub.Max.X-1, sub.Min.Y, stdcolor.NRGBA{b8(), b8(), b8(), 255})
		in = m.SubImage(sub)
	case 22:
		m := image.NewGray(big)
		copy(m.Pix, pix(len(m.Pix)))
		m.SetGray(sub.Min.X, sub.Max.Y-1, stdcolor.Gray{b8()})
		in = m.SubImage(sub)
	case 23:
		m := image.NewYCbCr(big, image.YCbCrSubsampleRatio422)
		copy(m.Y, pix(len(m.Y)))
		copy(m.Cb, pix(len(m.Cb)))
		copy(m.Cr, pix(len(m.Cr)))
		m.Y[m.YOffset(sub.Max.X-1, sub.Min.Y+1)] = b8()
		in = m.SubImage(sub)
	case 24:
		p := &picture{r: r}
		for y := 0; y < c.h; y++ {
			var row []rgba
			for x := 0; x < c.w; x++ {
				row = append(row, rgba{(x*7919 + y*104729) % 65536, (x*31337 + y*271) % 65536, (x*257 + y*65521) % 65536, 65535})
			}
			p.px = append(p.px, row)
		}
		p.px[c.h-1][0] = rgba{sym.Int("r", 0, 65535), sym.Int("g", 0, 65535), sym.Int("b", 0, 65535), 65535}
		in = p
	}
	d := img.ToData(in)
	checkData(d, c.w, c.h, func(x, y int) (uint32, uint32, uint32) {
		r, g, b, _ := in.At(in.Bounds().Min.X+x, in.Bounds().Min.Y+y).RGBA()
		return r, g, b
	})
	// reading does not disturb the data, and converting again gives the same
	e := img.ToData(in)
	if c.w > 0 {
		a, b := d.RGBAt(c.w-1, 0), e.RGBAt(c.w-1, 0)
		sym.Assert(sym.And(a.R == b.R, a.G == b.G, a.B == b.B), "converting twice gives two results")
	}
}

type window struct {
	image.Image
	r image.Rectangle
}

func (w *window) Bounds() image.Rectangle { return w.r }

// noise is a fixed image with no two pixels alike.
type noise struct {
	w, h int
	px   [][]color.RGB
}

func (m *noise) Size() (int, int) { return m.w, m.h }
func (m *noise) RGBAt(x, y int) color.RGB {
	in := sym.And(x >= 0, x < m.w, y >= 0, y < m.h)
	sym.Assert(in, "a pixel outside the image is read")
	if !in {
		return color.RGB{}
	}
	return m.px[y][x]
}

func newNoise(w, h int) *noise {
	m := &noise{w: w, h: h}
	s := uint32(2463534242)
	next := func() float64 {
		s ^= s << 13
		s ^= s >> 17
		s ^= s << 5
		return float64(int(s>>11)&255) / 255
	}
	for y := 0; y < h; y++ {
		var row []color.RGB
		for x := 0; x < w; x++ {
			row = append(row, color.RGB{R: next(), G: next(), B: next()})
		}
		m.px = append(m.px, row)
	}
	return m
}

func near(a, b float64) bool { return sym.And(a-b <= 1e-9, b-a <= 1e-9) }

// mean of the pixels of a fan of triangles, or of the pixels at its corners if it covers none.
func mean(m *noise, ps []geom.Point) color.RGB {
	n := 0
	var s color.RGB
	add := func(x, y int) {
		c := m.px[sym.Conc(y)][sym.Conc(x)]
		s.R += c.R
		s.G += c.G
		s.B += c.B
		n++
	}
	for i := 2; i < len(ps); i++ {
		rasterize.DDATriangleLines(geom.Triangle{Points: [3]geom.Point{ps[0], ps[i-1], ps[i]}}, func(x0, x1, y int) {
			for x := x0; x < x1; x++ {
				add(x, y)
			}
		})
	}
	if n == 0 {
		sym.Reach("nothing covered")
		for _, p := range ps {
			x, y := p.X, p.Y
			if x > m.w-1 {
				x = m.w - 1
			}
			if y > m.h-1 {
				y = m.h - 1
			}
			add(x, y)
		}
	}
	f := float64(n)
	return color.RGB{R: s.R / f, G: s.G / f, B: s.B / f}
}

func check(m *noise, got color.RGB, corners []normgeom.NormPoint, ps []geom.Point) {
	want := mean(m, ps)
	sym.Assert(sym.And(near(got.R, want.R), near(got.G, want.G), near(got.B, want.B)), "the colour of a shape is not the mean of its pixels")
	sym.Assert(len(corners) == len(ps), "a shape has another number of corners")
	if len(corners) != len(ps) {
		return
	}
	for i, p := range ps {
		sym.Assert(sym.And(near(corners[i].X*float64(m.w), float64(p.X)), near(corners[i].Y*float64(m.h), float64(p.Y))),
			"the normalised corner of a shape is not the corner over the size of the image")
		sym.ObserveF("nx", corners[i].X)
	}
	sym.ObserveF("R", got.R)
	sym.ObserveF("G", got.G)
}

type rcfg struct{ w, h int }

var rcfgs = []rcfg{{4, 3}, {1, 1}, {3, 5}, {7, 2}, {2, 2}, {5, 4}, {1, 6}, {9, 3}}

// Triangles: a shape with arbitrary corners between two fixed ones.
func Triangles(v int) {
	c := rcfgs[v]
	m := newNoise(c.w, c.h)
	var p [3]geom.Point
	for i := range p {
		p[i] = geom.Point{X: sym.Int("x", 0, c.w), Y: sym.Pick("y", c.h+1)}
	}
	fixed := [3]geom.Point{{X: 0, Y: 0}, {X: c.w, Y: 0}, {X: 0, Y: c.h}}
	in := []geom.Triangle{{Points: fixed}, {Points: p}, {Points: fixed}}
	out := render.TrianglesOnImage(in, m)
	sym.Assert(len(out) == len(in), "another number of triangles is rendered")
	if len(out) != len(in) {
		return
	}
	for i := range in {
		ps := p[:]
		if i != 1 {
			ps = fixed[:]
		}
		check(m, out[i].Color, out[i].Triangle.Points[:], ps)
	}
	sym.Assert(in[1].Points == p, "rendering changes the triangles")
}

// Polygons: a quadrilateral around two arbitrary corners, and a triangle.
func Polygons(v int) {
	c := rcfgs[v%10]
	m := newNoise(c.w, c.h)
	a := geom.Point{X: sym.Int("x", 0, c.w), Y: sym.Pick("y", c.h+1)}
	b := geom.Point{X: sym.Int("x", 0, c.w), Y: sym.Pick("y", c.h+1)}
	o := geom.Point{X: 0, Y: 0}
	e := geom.Point{X: c.w, Y: c.h}
	var q []geom.Point
	switch v / 10 {
	case 0: // convex as long as a and b are on either side of the diagonal
		da := a.X*c.h - a.Y*c.w
		db := b.X*c.h - b.Y*c.w
		sym.Assume(sym.And(da >= 0, db <= 0))
		q = []geom.Point{o, a, e, b}
	case 1: // no wider than a line
		q = []geom.Point{a, b, a}
	case 2: // five corners
		q = []geom.Point{o, {X: c.w, Y: 0}, e, b, {X: 0, Y: c.h}}
		sym.Assume(b.Y == c.h)
		sym.Assume(a.X == 0)
		sym.Assume(a.Y == 0)
	case 3: // a triangle
		q = []geom.Point{a, e, b}
	}
	keep := append([]geom.Point{}, q...)
	fixed := []geom.Point{{X: c.w, Y: c.h}, {X: c.w, Y: 0}, {X: 0, Y: 0}}
	out := render.PolygonsOnImage([]geom.Polygon{{Points: q}, {Points: fixed}}, m)
	sym.Assert(len(out) == 2, "another number of polygons is rendered")
	if len(out) != 2 {
		return
	}
	check(m, out[0].Color, out[0].Polygon.Points, keep)
	check(m, out[1].Color, out[1].Polygon.Points, fixed)
	for i := range q {
		sym.Assert(q[i] == keep[i], "rendering changes the polygons")
	}
}

// Average: the mean of any colours.
func Average(v int) {
	var a color.AverageRGB
	sum := [3]float64{}
	n := v + 1
	for i := 0; i < n; i++ {
		c := color.NewRGB(sym.Float("r", 0, 16, 16), sym.Float("g", 0, 16, 16), sym.Float("b", 0, 16, 16))
		a.Add(c)
		sum[0] += c.R
		sum[1] += c.G
		sum[2] += c.B
		sym.Assert(a.Count() == uint(i+1), "colours are miscounted")
	}
	r := a.Average()
	f := float64(n)
	sym.Assert(sym.And(near(r.R*f, sum[0]), near(r.G*f, sum[1]), near(r.B*f, sum[2])), "the average is not the mean")
	sym.ObserveF("r", r.R)
}

var mixSizes = [][2]int{{20, 12}, {33, 9}, {11, 26}, {40, 30}, {64, 5}, {17, 17}}

// mixCase: a larger image, one pixel of which has an arbitrary colour (but in the largest
// images), and a source of numbers.
func mixCase(k int) (*noise, func(int) int) {
	z := mixSizes[k%len(mixSizes)]
	if k >= 300 {
		z = [][2]int{{260, 90}, {1100, 20}, {20, 1100}}[k%3]
	}
	m := newNoise(z[0], z[1])
	s := uint32(k)*2654435761 + 99
	next := func(n int) int {
		s = s*1664525 + 1013904223
		return int(s>>8) % n
	}
	if k >= 300 {
		return m, next
	}
	m.px[m.h/2][m.w/2] = color.RGB{R: sym.Float("r", 0, 16, 16), G: sym.Float("g", 0, 16, 16), B: sym.Float("b", 0, 16, 16)}
	return m, next
}

// arb: in large images every place is a case of its own.
func arb(k, x int) int {
	if k >= 300 {
		return sym.Conc(x)
	}
	return x
}

// TriMix: many triangles at once, one of which has a corner anywhere in a region.
func TriMix(k int) {
	m, next := mixCase(k)
	var in []geom.Triangle
	pt := func() geom.Point { return geom.Point{X: next(m.w + 1), Y: next(m.h + 1)} }
	n := 3 + k%4
	if k >= 300 {
		n = 40
	}
	at := next(n)
	for i := 0; i < n; i++ {
		t := geom.Triangle{Points: [3]geom.Point{pt(), pt(), pt()}}
		if i == at {
			t.Points[k%3] = geom.Point{X: next(m.w-3) + arb(k, sym.Int("x", 0, 4)), Y: next(m.h-1) + sym.Pick("y", 3)}
		}
		if i == (at+1)%n {
			t.Points[1] = t.Points[0] // covers nothing
		}
		in = append(in, t)
	}
	keep := append([]geom.Triangle{}, in...)
	out := render.TrianglesOnImage(in, m)
	sym.Assert(len(out) == len(in), "another number of triangles is rendered")
	if len(out) != len(in) {
		return
	}
	for i := range keep {
		sym.Assert(in[i].Points == keep[i].Points, "rendering changes the triangles")
		check(m, out[i].Color, out[i].Triangle.Points[:], keep[i].Points[:])
	}
}

// PolyMix: polygons of three to nine corners, one of which lies anywhere in a region.
func PolyMix(k int) {
	m, next := mixCase(k)
	var in []geom.Polygon
	n := 2 + k%3
	if k >= 300 {
		n = 30
	}
	at := next(n)
	ring := [9][2]int{{0, 40}, {8, 12}, {30, 0}, {60, 3}, {88, 15}, {100, 45}, {92, 80}, {55, 100}, {15, 85}}
	for i := 0; i < n; i++ {
		c := 3 + (k+2*i)%7
		if k >= 400 {
			c = 30 + i
		}
		ox, oy, sw, sh := next(m.w/2), next(m.h/2), m.w/2, m.h/2
		var ps []geom.Point
		for j := 0; j < c; j++ {
			q := ring[(j*9/c+k)%9]
			if k >= 400 { // very many corners
				a := 2 * math.Pi * float64(j) / float64(c)
				q = [2]int{50 + int(50*math.Cos(a)), 50 + int(50*math.Sin(a))}
			}
			ps = append(ps, geom.Point{X: ox + q[0]*sw/100, Y: oy + q[1]*sh/100})
		}
		if i == at {
			p := &ps[next(c)]
			p.X += arb(k, sym.Int("x", -1, 1)) + 1
			p.Y += sym.Pick("y", 2)
		}
		if i == (at+1)%n && k%2 == 0 { // no wider than a line
			for j := range ps {
				ps[j].X = ps[0].X
			}
		}
		in = append(in, geom.Polygon{Points: ps})
	}
	var keep [][]geom.Point
	for _, p := range in {
		keep = append(keep, append([]geom.Point{}, p.Points...))
	}
	out := render.PolygonsOnImage(in, m)
	sym.Assert(len(out) == len(in), "another number of polygons is rendered")
	if len(out) != len(in) {
		return
	}
	for i, ps := range keep {
		for j := range ps {
			sym.Assert(in[i].Points[j] == ps[j], "rendering changes the polygons")
		}
		check(m, out[i].Color, out[i].Polygon.Points, ps)
	}
}
