// Package gens: mutation methods, point generators and the random numbers they use, with
// every random draw chosen by the solver.
package gens

import (
	"math"

	"github.com/RH12503/Triangula/generator"
	"github.com/RH12503/Triangula/mutation"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/random"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type N = normgeom.NormPoint
type G = normgeom.NormPointGroup

func abs(x float64) float64 { return sym.IteF(x < 0, -x, x) }

func inUnit(p N) bool { return sym.And(p.X >= 0, p.X <= 1, p.Y >= 0, p.Y <= 1) }

// contract: what every mutation method promises.
func contract(m mutation.Method, g G) []mutation.Mutation {
	old := append(G{}, g...)
	var ms []mutation.Mutation
	m.Mutate(g, func(x mutation.Mutation) { ms = append(ms, x) })
	sym.Assert(len(g) == len(old), "a mutation changes the number of points")
	seen := make([]int, len(old))
	for _, x := range ms {
		in := x.Index >= 0 && x.Index < len(old)
		sym.Assert(in, "a mutation has an index outside the group")
		if !in {
			continue
		}
		seen[x.Index]++
		sym.Assert(sym.And(x.Old.X == old[x.Index].X, x.Old.Y == old[x.Index].Y), "the old point reported is not the point before")
		sym.Assert(sym.And(x.New.X == g[x.Index].X, x.New.Y == g[x.Index].Y), "the new point reported is not the point after")
	}
	for i, p := range g {
		sym.Assert(inUnit(p), "a mutated point leaves the unit square")
		sym.Assert(seen[i] <= 1, "a point is reported twice")
		if seen[i] == 0 {
			sym.Assert(sym.And(p.X == old[i].X, p.Y == old[i].Y), "a point changed without being reported")
		}
		sym.ObserveF("x", p.X)
		sym.ObserveF("y", p.Y)
	}
	return ms
}

type mcfg struct {
	n            int
	rate, amount float64
	den          int // resolution of the draws
	pden         int // resolution of the point
}

var mcfgs = []mcfg{
	{1, 1, 1, 16, 4},
	{1, 0.5, 0.25, 16, 16},
	{2, 0.375, 3, 8, 0},
	{3, 0, 1, 4, 0},
	{3, 0.5, 0.125, 4, 0},
	{2, 1, 0, 8, 0},
	{1, 1, 0.015625, 64, 2},
}

var fixed = G{{X: 0.25, Y: 0.9375}, {X: 1, Y: 0}, {X: 0.5, Y: 0.03125}}

func (c mcfg) group() G {
	g := append(G{}, fixed[:c.n]...)
	if c.pden > 0 {
		g[0] = N{X: sym.Float("px", 0, c.pden, c.pden), Y: sym.Float("py", 0, c.pden, c.pden)}
	}
	return g
}

func (c mcfg) amountRate(ms []mutation.Mutation) {
	if c.rate == 0 {
		sym.Assert(len(ms) == 0, "a rate of zero mutates a point")
	}
	if c.rate == 1 {
		sym.Assert(len(ms) == c.n, "a rate of one leaves a point out")
	}
}

// byDraws: whichever draws decide, a point moves when they are below the rate and stays when
// they are not.
func (c mcfg) byDraws(ms []mutation.Mutation, low, high []bool) {
	sym.Assert(sym.Implies(sym.And(low...), len(ms) == c.n), "a point stays although the draw is below the rate")
	sym.Assert(sym.Implies(sym.And(high...), len(ms) == 0), "a point moves although the draw is not below the rate")
}

// Default: the default method moves two points on average.
func Default(v int) {
	n := v + 1
	k := 0
	var low, high []bool
	rate := 2 / float64(n)
	sym.OnUint32(func() uint32 {
		k++
		if k > 3*n {
			sym.Assume(false)
		}
		x := draw32("rndu", 4)()
		f := float64(x) / (1<<32 - 1)
		low, high = append(low, f < rate-1e-6), append(high, f > rate+1e-6)
		return x
	})
	g := append(G{}, fixed...)
	g = append(g, fixed...)[:n]
	ms := contract(mutation.DefaultGaussianMethod(n), g)
	c := mcfg{n: n}
	if n <= 2 {
		sym.Assert(len(ms) == n, "the default method leaves a point out of a small group")
		return
	}
	c.byDraws(ms, low, high)
}

func min(a, b float64) float64 { return math.Min(a, b) }

var corners = []string{"left and up", "right and up", "left and down", "right and down"}

// directions: every point (at a known place) can move to all sides, by a good part of amount
// and in each coordinate on its own. low and high are the shares of amount to be reached.
func directions(ms []mutation.Mutation, old G, amount, low, high float64) {
	for i, p := range old {
		for k, name := range corners {
			dx, dy := min(p.X, low*amount), min(p.Y, low*amount)
			if k%2 == 1 {
				dx = min(1-p.X, high*amount)
			}
			if k/2 == 1 {
				dy = min(1-p.Y, high*amount)
			}
			if dx == 0 || dy == 0 {
				continue
			}
			msg := "some point cannot move " + name
			sym.Cover(false, msg)
			for _, m := range ms {
				if m.Index != i {
					continue
				}
				x, y := m.Old.X-m.New.X, m.Old.Y-m.New.Y
				if k%2 == 1 {
					x = -x
				}
				if k/2 == 1 {
					y = -y
				}
				sym.Cover(sym.And(x >= dx, y >= dy), msg)
			}
		}
	}
}

// Steady: all draws are alike, so that every point moves in each coordinate by what one draw
// stands for. v = configuration.
func Steady(v int) {
	amount := []float64{0.25, 1, 0.03125}[v]
	d := sym.Float("rnd", 0, 63, 64)
	sym.OnFloat64(func() float64 { return d })
	g := append(G{}, fixed...)
	ms := contract(mutation.NewRandomMethod(1, amount), g)
	steady(ms, abs(d-0.5)*amount)
}

func steady(ms []mutation.Mutation, want float64) {
	sym.Assert(len(ms) == len(fixed), "a rate of one leaves a point out")
	for _, m := range ms {
		x, y := abs(m.New.X-m.Old.X), abs(m.New.Y-m.Old.Y)
		in := func(v float64) bool { return sym.And(v > 0, v < 1) }
		sym.Assert(sym.And(x <= want+1e-12, y <= want+1e-12), "a point moves farther than the draw says")
		sym.Assert(sym.And(sym.Implies(in(m.New.X), x >= want-1e-12), sym.Implies(in(m.New.Y), y >= want-1e-12)), "a point moves less far than the draw says")
	}
}

// SteadyNormal: the same for the gaussian method, whose moves are normal deviates with half
// the amount as their standard deviation.
func SteadyNormal(v int) {
	amount := []float64{0.25, 0.5, 0.015625, 1}[v%4]
	k := sym.Int("u", 0, 63)
	u := uint32(k*(1<<26) + (k*37+v*29)%128)
	n := 0
	sym.OnUint32(func() uint32 {
		n++
		if n > 12 {
			sym.Assume(false) // a draw that is rejected for ever
		}
		return u
	})
	z := random.NormFloat64()
	g := append(G{}, fixed...)
	ms := contract(mutation.NewGaussianMethod(1, amount), g)
	steady(ms, abs(z)*amount*0.5)
}

// Uniform: the random method.
func Uniform(v int) {
	c := mcfgs[v]
	var low, high []bool
	sym.OnFloat64(func() float64 {
		x := sym.Float("rnd", 0, c.den-1, c.den)
		low, high = append(low, x < c.rate), append(high, x >= c.rate)
		return x
	})
	ms := contract(mutation.NewRandomMethod(c.rate, c.amount), c.group())
	c.amountRate(ms)
	c.byDraws(ms, low, high)
	for _, m := range ms {
		sym.Assert(sym.And(abs(m.New.X-m.Old.X) <= c.amount/2+1e-12, abs(m.New.Y-m.Old.Y) <= c.amount/2+1e-12), "a point moves farther than half the amount")
	}
	if c.pden == 0 && c.rate > 0 {
		directions(ms, fixed[:c.n], c.amount, 0.2, 0.2)
	}
}

// draws of 32 bits: den of them, spread over the whole range and with all low bits.
func draw32(name string, den int) func() uint32 {
	return func() uint32 {
		k := sym.Int(name, 0, den-1)
		return uint32(k*(1<<32/den) + (k*37)%128)
	}
}

// Normal: the gaussian method.
func Normal(v int) {
	c := mcfgs[v%10]
	c.den = []int{8, 8, 4, 4, 4, 4, 16, 0, 0, 0}[v%10]
	n := 0
	var low, high []bool
	next := draw32("rndu", c.den)
	sym.OnUint32(func() uint32 {
		n++
		if n > 3*c.n+1+v/10 {
			sym.Assume(false) // rejections are bounded
		}
		x := next()
		low, high = append(low, float64(x)/(1<<32-1) < c.rate), append(high, float64(x)/(1<<32-1) >= c.rate)
		return x
	})
	ms := contract(mutation.NewGaussianMethod(c.rate, c.amount), c.group())
	c.amountRate(ms)
	c.byDraws(ms, low, high)
	for _, m := range ms {
		sym.Assert(sym.And(abs(m.New.X-m.Old.X) <= c.amount*6, abs(m.New.Y-m.Old.Y) <= c.amount*6), "a point moves farther than twelve standard deviations")
		if c.amount == 0 {
			sym.Assert(sym.And(m.New.X == m.Old.X, m.New.Y == m.Old.Y), "an amount of zero moves a point")
		}
	}
	if c.pden == 0 && c.rate > 0 {
		directions(ms, fixed[:c.n], c.amount, 0.1, 0.1)
	}
}

// Uniform points: every coordinate is a draw of its own.
func Random(v int) {
	n := v
	var draws []float64
	sym.OnFloat64(func() float64 {
		x := sym.Float("rnd", 0, 15, 16)
		draws = append(draws, x)
		return x
	})
	g := generator.RandomGenerator{}.Generate(n)
	sym.Assert(len(g) == n, "the generator returns another number of points")
	var all []float64
	for _, p := range g {
		sym.Assert(inUnit(p), "a point lies outside the unit square")
		all = append(all, p.X, p.Y)
	}
	areDraws(all, draws)
	g[0].X = 0.5
	g = g[:n]
	sym.Observe("n", len(g))
}

func d2(a, b N) float64 { return (a.X-b.X)*(a.X-b.X) + (a.Y-b.Y)*(a.Y-b.Y) }

func same(a, b N) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// nearest is the squared distance from the i-th point to the nearest other one.
func nearest(g G, i int) float64 {
	m := 9.0
	for j := range g {
		if j != i {
			d := d2(g[i], g[j])
			m = sym.IteF(d < m, d, m)
		}
	}
	return m
}

type scfg struct{ n, iter, den int }

var scfgs = []scfg{{2, 1, 4}, {3, 1, 2}, {1, 2, 4}, {2, 2, 2}, {1, 1, 8}, {3, 2, 2}, {2, 3, 2}, {2, 2, 4}}

// initial is the group that the spaced generator starts from: what it returns for the same
// draws without any iteration.
func initial(n int, draw func() float64) G {
	var draws []float64
	k := 0
	sym.OnFloat64(func() float64 {
		if k == len(draws) {
			draws = append(draws, draw())
		}
		k++
		return draws[k-1]
	})
	g := generator.NewSpacedGenerator(0).Generate(n)
	sym.Assert(len(g) == n, "the generator returns another number of points")
	var all []float64
	for _, p := range g {
		all = append(all, p.X, p.Y)
	}
	areDraws(all, draws)
	k = 0
	return g
}

// areDraws: as many coordinates as draws have any given value.
func areDraws(all, draws []float64) {
	sym.Assert(len(draws) == len(all), "the coordinates are not one draw each")
	for _, x := range draws {
		a, b := 0, 0
		for i := range all {
			a += sym.B2I(all[i] == x)
			b += sym.B2I(draws[i] == x)
		}
		sym.Assert(a == b, "the coordinates are not the draws")
	}
}

// Spaced: the points start uniform and only ever move apart.
func Spaced(v int) {
	c := scfgs[v]
	start := initial(c.n, func() float64 { return sym.Float("rnd", 0, c.den-1, c.den) })
	sym.OnIntn(func(n int) int {
		sym.Assert(n == c.n, "an index is drawn from another range than that of the points")
		return sym.Pick("rndn", n)
	})
	g := generator.NewSpacedGenerator(c.iter).Generate(c.n)
	sym.Assert(len(g) == c.n, "the generator returns another number of points")
	var eqs []bool
	moved := 0
	for i, p := range g {
		sym.Assert(inUnit(p), "a point lies outside the unit square")
		sym.ObserveF("x", p.X)
		sym.ObserveF("y", p.Y)
		if i < len(start) {
			moved += sym.B2I(sym.Not(same(p, start[i])))
		}
		for j := 0; j < i && j < len(start); j++ {
			eqs = append(eqs, same(start[i], start[j]), same(g[i], g[j]))
		}
	}
	sym.Assert(moved <= c.iter, "more points move than there are iterations")
	if len(g) != c.n {
		return
	}
	c.steps(start, g)
	distinct := sym.Not(sym.Or(eqs...))
	a, b := 9.0, 9.0
	for i := range g {
		x, y := nearest(start, i), nearest(g, i)
		a = sym.IteF(x < a, x, a)
		b = sym.IteF(y < b, y, b)
	}
	sym.Assert(sym.Implies(distinct, b >= a-1e-12), "two points come closer than any two were before")
}

const rn = 3.442619855899
const vn = 9.91256303526217e-3

// layers computes the ziggurat of the normal distribution with 128 layers: the widths of the
// layers and, in 31 bits, the share of each that needs no test.
func layers() (x [128]float64, kn [128]float64, f [128]float64) {
	q := vn / math.Exp(-.5*rn*rn)
	dn, tn := rn, rn
	x[0], x[127] = q, dn
	kn[0] = dn / q * (1 << 31)
	f[0], f[127] = 1, math.Exp(-.5*dn*dn)
	for i := 126; i >= 1; i-- {
		dn = math.Sqrt(-2 * math.Log(vn/dn+math.Exp(-.5*dn*dn)))
		kn[i+1] = dn / tn * (1 << 31)
		tn = dn
		f[i] = math.Exp(-.5 * dn * dn)
		x[i] = dn
	}
	return
}

// Ziggurat: normal deviates fall into equal layers under the bell curve. The layer and the
// sign are arbitrary, the position within the layer is one of several: v.
func Ziggurat(v int) {
	xs, kn, fs := layers()
	i := sym.Int("layer", 0, 127)
	neg := sym.Bool("neg")
	// the expected tables as functions of the symbolic layer
	X, K, F0, F1 := xs[0], kn[0], fs[0], 1.0
	for l := 1; l < 128; l++ {
		is := i == l
		X = sym.IteF(is, xs[l], X)
		K = sym.IteF(is, kn[l], K)
		F0 = sym.IteF(is, fs[l], F0)
		F1 = sym.IteF(is, fs[l-1], F1)
	}
	part := []float64{0, 0.25, 0.5, 0.9, 1, 1}[v]
	var m float64
	if v < 4 {
		m = K * part
	} else if v == 4 {
		m = K - 3000
	} else {
		m = K + 3000
	}
	j := int(m) / 128 * 128
	j = sym.Ite(j < 0, 0, j)
	j = sym.Ite(j > 1<<31-129, 1<<31-129, j)
	// the low seven bits choose the layer, in two's complement
	s := sym.Ite(neg, -j-128+i, j+i)
	n := 0
	accept := sym.Bool("accept")
	sym.OnUint32(func() uint32 {
		n++
		if n == 1 {
			return uint32(s)
		}
		if n > 3 {
			sym.Assume(false)
		}
		// a second draw that accepts or rejects for certain
		return uint32(sym.Ite(accept, 1<<20, 1<<32-1-1<<20))
	})
	x := random.NormFloat64()
	mag := sym.Ite(s < 0, -s, s)
	fast := float64(mag) < K-600
	slow := float64(mag) > K+600
	want := float64(s) * X / (1 << 31)
	if n == 1 {
		sym.Assert(sym.Not(slow), "a deviate outside the inner part of its layer is accepted without a test")
		sym.Assert(abs(x-want) <= 1e-6*abs(want)+1e-12, "a deviate is not at its place in its layer")
		sym.Reach("inner")
	} else {
		sym.Assert(sym.Not(fast), "a deviate in the inner part of its layer is tested")
		base := i == 0
		if base {
			sym.Assert(abs(x) >= rn-1e-6, "a deviate of the tail lies outside it")
			sym.Assert(sym.Implies(s < 0, x < 0), "a deviate of the tail has the wrong sign")
			sym.Reach("tail")
		} else if n == 2 {
			// the wedge: accepted only under the curve
			u := sym.IteF(accept, float64(1<<20)/(1<<32), 1-float64(1<<20)/(1<<32))
			y := F0 + u*(F1-F0)
			sym.Assert(y <= math.Exp(-.5*x*x)+1e-5, "a deviate above the bell curve is accepted")
			sym.Assert(abs(x-want) <= 1e-6*abs(want)+1e-12, "a deviate is not at its place in its layer")
			sym.Reach("wedge")
		}
	}
	sym.ObserveF("x", x)
}

// Wedge: v = position. A deviate outside the inner part of its layer is accepted exactly when
// the second draw falls under the bell curve, for every layer, both signs and draws over the
// whole range.
func Wedge(v int) {
	xs, kn, fs := layers()
	i := sym.Int("layer", 1, 127)
	neg := sym.Bool("neg")
	X, K, F0, F1 := xs[1], kn[1], fs[1], fs[0]
	for l := 2; l < 128; l++ {
		is := i == l
		X = sym.IteF(is, xs[l], X)
		K = sym.IteF(is, kn[l], K)
		F0 = sym.IteF(is, fs[l], F0)
		F1 = sym.IteF(is, fs[l-1], F1)
	}
	part := []float64{0.02, 0.3, 0.6, 0.97}[v]
	m := K + 1000 + (1<<31-2000-K)*part
	j := int(m) / 128 * 128
	s := sym.Ite(neg, -j-128+i, j+i)
	n := 0
	u := sym.Float("u", 1, 31, 32)
	sym.OnUint32(func() uint32 {
		n++
		switch n {
		case 1:
			return uint32(s)
		case 2:
			return uint32(u * (1<<32 - 1))
		}
		return 0
	})
	x := random.NormFloat64()
	y := F0 + u*(F1-F0)
	want := float64(s) * X / (1 << 31)
	e := math.Exp(-.5 * want * want)
	if n == 2 {
		sym.Assert(y <= e+1e-5, "a deviate above the bell curve is accepted")
		sym.Assert(abs(x-want) <= 1e-6*abs(want)+1e-12, "a deviate is not at its place in its layer")
		sym.Reach("accepted")
	} else {
		sym.Assert(y >= e-1e-5, "a deviate under the bell curve is rejected")
		sym.Reach("rejected")
	}
	sym.ObserveF("x", x)
}

// Tail: the strip at the end, by the method of Marsaglia: two exponential draws.
func Tail(v int) {
	neg := sym.Bool("neg")
	j := 1<<31 - 1024*(v+1)
	s := sym.Ite(neg, -j, j)
	n := 0
	u1, u2 := sym.Float("u1", 1, 63, 64), sym.Float("u2", 1, 63, 64)
	sym.OnUint32(func() uint32 {
		n++
		switch n {
		case 1:
			return uint32(s)
		case 2:
			return uint32(u1 * (1<<32 - 1))
		case 3:
			return uint32(u2 * (1<<32 - 1))
		}
		// these accept: the first is close to one, the second close to zero
		if n%2 == 0 {
			return 1<<32 - 1 - 1<<12
		}
		return 1 << 12
	})
	x := random.NormFloat64()
	a, b := -math.Log(u1)/rn, -math.Log(u2)
	if n == 3 {
		sym.Assert(2*b >= a*a-1e-5, "a deviate of the tail above the bell curve is accepted")
		want := sym.IteF(neg, -rn-a, rn+a)
		sym.Assert(abs(x-want) <= 1e-5, "a deviate of the tail is not where its draw puts it")
		sym.Reach("accepted")
	} else {
		sym.Assert(2*b <= a*a+1e-5, "a deviate of the tail under the bell curve is rejected")
		sym.Reach("rejected")
	}
	sym.ObserveF("x", x)
}

// stream is a fixed sequence of numbers.
type stream struct{ s uint32 }

func newStream(k int) *stream { return &stream{uint32(k)*2654435761 + 101} }

func (s *stream) next(n int) int {
	s.s = s.s*1664525 + 1013904223
	return int(s.s>>8) % n
}

func (s *stream) group(n int) G {
	var g G
	for i := 0; i < n; i++ {
		p := N{X: float64(s.next(257)) / 256, Y: float64(s.next(257)) / 256}
		if s.next(6) == 0 {
			p.X = float64(s.next(2))
		}
		g = append(g, p)
	}
	return g
}

// mixed draws: fixed ones below, above or around the rate, and two arbitrary ones.
type mixed struct {
	*stream
	kind, n int
	at      [2]int
	lo, hi  int // range in 1/den
	den     int
}

func (s *stream) mixed(kind int, rate float64, den, about int) *mixed {
	m := &mixed{stream: s, kind: kind, den: den, hi: den - 1, at: [2]int{1 + s.next(about), 1 + s.next(about)}}
	r := int(rate * float64(den))
	if kind == 0 {
		m.hi = r - 1
	}
	if kind == 1 {
		m.lo = r + 1
	}
	return m
}

func (m *mixed) draw() int {
	m.n++
	if m.n == m.at[0] || m.n == m.at[1] {
		return sym.Int("draw", m.lo, m.hi)
	}
	return m.lo + m.next(m.hi-m.lo+1)
}

// count: how many points move when all draws are on one side of the rate.
func (m *mixed) count(ms []mutation.Mutation, n int) {
	if m.kind == 0 {
		sym.Assert(len(ms) == n, "a point stays although the draw is below the rate")
	}
	if m.kind == 1 {
		sym.Assert(len(ms) == 0, "a point moves although the draw is not below the rate")
	}
}

// UniformMix: larger groups.
func UniformMix(k int) {
	s := newStream(k)
	n := 4 + k*5%37
	if k >= 200 {
		n = 500 + k
	}
	rate := []float64{0.25, 0.5, 0.75, 0.125}[k%4]
	amount := []float64{0.125, 1, 0.5, 2.5}[s.next(4)]
	g := s.group(n)
	m := s.mixed(k%3, rate, 64, 2*n)
	sym.OnFloat64(func() float64 { return float64(m.draw()) / 64 })
	ms := contract(mutation.NewRandomMethod(rate, amount), g)
	m.count(ms, n)
	for _, x := range ms {
		sym.Assert(sym.And(abs(x.New.X-x.Old.X) <= amount/2+1e-12, abs(x.New.Y-x.Old.Y) <= amount/2+1e-12), "a point moves farther than half the amount")
	}
	sym.Observe("moved", len(ms))
}

// NormalMix: larger groups, also by the default method.
func NormalMix(k int) {
	s := newStream(k)
	n := 4 + k*5%37
	if k >= 200 {
		n = 500 + k
	}
	rate := []float64{0.25, 0.5, 0.75, 0.125}[k%4]
	amount := []float64{0.125, 1, 0.5, 2.5}[s.next(4)]
	var method mutation.Method = mutation.NewGaussianMethod(rate, amount)
	if k%5 == 4 {
		rate = 2 / float64(n)
		method = mutation.DefaultGaussianMethod(n)
		amount = 1
	}
	g := s.group(n)
	m := s.mixed(k%3, rate, 1024, 2*n)
	if m.hi < m.lo {
		m.hi = m.lo
	}
	sym.OnUint32(func() uint32 {
		if m.n > 20*n {
			sym.Assume(false)
		}
		d := m.draw()
		return uint32(d<<22 + (d*37)&127)
	})
	ms := contract(method, g)
	m.count(ms, n)
	for _, x := range ms {
		sym.Assert(sym.And(abs(x.New.X-x.Old.X) <= amount*6, abs(x.New.Y-x.Old.Y) <= amount*6), "a point moves farther than twelve standard deviations")
	}
	sym.Observe("moved", len(ms))
}

// RandomMix: more points.
func RandomMix(k int) {
	s := newStream(k)
	n := 5 + k*13%60
	if k >= 200 {
		n = 700 + k
	}
	m := s.mixed(2, 1, 1024, 2*n)
	var draws []float64
	sym.OnFloat64(func() float64 {
		x := float64(m.draw()) / 1024
		draws = append(draws, x)
		return x
	})
	g := generator.RandomGenerator{}.Generate(n)
	sym.Assert(len(g) == n, "the generator returns another number of points")
	sym.Assert(len(draws) == 2*n, "the coordinates are not one draw each")
	if len(g) != n || len(draws) != 2*n {
		return
	}
	var all []float64
	for _, p := range g {
		all = append(all, p.X, p.Y)
	}
	if k >= 200 { // in one of the natural orders
		var some []bool
		for o := 0; o < 8; o++ {
			var is []bool
			for i := range g {
				x, y := 2*i, 2*i+1
				if o&1 == 1 {
					x, y = i, n+i
				}
				if o&2 == 2 {
					x, y = y, x
				}
				j := i
				if o&4 == 4 {
					j = n - 1 - i
				}
				is = append(is, sym.And(g[j].X == draws[x], g[j].Y == draws[y]))
			}
			some = append(some, sym.And(is...))
		}
		sym.Assert(sym.Or(some...), "the coordinates are not the draws")
		return
	}
	for _, x := range draws {
		a, b := 0, 0
		for i := range all {
			a += sym.B2I(all[i] == x)
			b += sym.B2I(draws[i] == x)
		}
		sym.Assert(a == b, "the coordinates are not the draws")
	}
	// a second group has draws of its own
	h := generator.RandomGenerator{}.Generate(n)
	sym.Assert(len(draws) == 4*n && len(h) == n, "the coordinates of a second group are not one draw each")
	for i := range g {
		sym.Assert(sym.And(g[i].X == all[2*i], g[i].Y == all[2*i+1]), "a second group changes the first")
	}
}

// steps: points move, in either coordinate, and the steps shrink from half a side of the
// image by the same factor each time, so that after all of them a fiftieth would be left.
func (c scfg) steps(start, g G) {
	t := func(k int) float64 { return 0.5 * math.Pow(0.02, float64(k)/float64(c.iter)) }
	first, rest := 0, 0.0
	for k := 1; k < c.iter; k++ {
		rest += t(k)
	}
	for i := range g {
		x, y := abs(g[i].X-start[i].X), abs(g[i].Y-start[i].Y)
		sym.Assert(sym.And(x <= 0.5+rest+1e-12, y <= 0.5+rest+1e-12), "a point moves farther than the steps allow")
		first += sym.B2I(sym.Or(x > rest+1e-12, y > rest+1e-12))
	}
	sym.Assert(first <= 1, "a later step is as large as the first")
	if c.n < 2 {
		return
	}
	sym.Cover(false, "the last point never moves")
	sym.Cover(sym.Not(same(start[c.n-1], g[c.n-1])), "the last point never moves")
	sym.Cover(false, "no point moves by much in both coordinates")
	for i := range g {
		sym.Cover(sym.And(abs(g[i].X-start[i].X) >= 0.2, abs(g[i].Y-start[i].Y) >= 0.2), "no point moves by much in both coordinates")
	}
}

// SpacedMix: more points and more iterations.
func SpacedMix(k int) {
	s := newStream(k)
	n := 3 + k*3%14
	iter := 1 + k*7%25
	m := s.mixed(2, 1, 64, 2*n+2*iter)
	start := initial(n, func() float64 { return float64(m.draw()) / 64 })
	sym.OnIntn(func(q int) int { return s.next(q) })
	g := generator.NewSpacedGenerator(iter).Generate(n)
	sym.Assert(len(g) == n, "the generator returns another number of points")
	if len(g) != n {
		return
	}
	var eqs []bool
	moved := 0
	a, b := 9.0, 9.0
	for i, p := range g {
		sym.Assert(inUnit(p), "a point lies outside the unit square")
		moved += sym.B2I(sym.Not(same(p, start[i])))
		for j := 0; j < i; j++ {
			eqs = append(eqs, same(start[i], start[j]), same(g[i], g[j]))
		}
		x, y := nearest(start, i), nearest(g, i)
		a = sym.IteF(x < a, x, a)
		b = sym.IteF(y < b, y, b)
		sym.ObserveF("x", p.X)
	}
	sym.Assert(moved <= iter, "more points move than there are iterations")
	sym.Assert(sym.Or(b >= a-1e-12, sym.Or(eqs...)), "the smallest distance between two points decreases")
	sym.Observe("moved", moved)
}

// Draws: bounded integers lie below their bound and can be any of them; fractions lie between
// zero and one.
func Draws(v int) {
	n := []int{1, 2, 3, 7, 10, 100, 1 << 16, 1<<31 - 1}[v]
	var last uint32
	k := 0
	sym.OnUint32(func() uint32 {
		k++
		if k > 3 {
			sym.Assume(false)
		}
		last = uint32(sym.Int("rndu", 0, math.MaxUint32))
		return last
	})
	x := random.Intn(n)
	sym.Assert(sym.And(x >= 0, x < n), "a bounded draw lies outside its bounds")
	if n <= 10 {
		for i := 0; i < n; i++ {
			msg := "a bounded draw cannot have some value: " + string(rune('0'+i))
			sym.Cover(false, msg)
			sym.Cover(x == i, msg)
		}
	}
	sym.Observe("x", x)
	k = 2
	u := random.Uint32()
	sym.Assert(u == last, "a draw of 32 bits is not what the generator gives")
	// from nothing to all bits, by steps of 32nds and single bits at either end
	sym.OnUint32(func() uint32 {
		last = uint32(sym.Pick("hi", 32))<<27 + []uint32{0, 1, 255, 1<<27 - 1}[sym.Pick("lo", 4)]
		return last
	})
	f := float64(random.Float32())
	sym.Assert(sym.And(f >= 0, f <= 1), "a fraction lies outside zero to one")
	e := f - float64(last)/math.MaxUint32
	sym.Assert(sym.And(e < 1e-6, e > -1e-6), "a fraction is not the share of the largest draw")
	sym.ObserveF("f", f)
}
