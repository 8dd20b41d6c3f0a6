package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// Kind of a term. Integers are mathematical integers with an exact interval; a Go
// operation whose exact result might leave its Go type gets an explicit wrap.
type Kind uint8

const (
	KInt Kind = iota
	KBool
	KF64
	KF32
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin  // sum coef[i]*args[i] + c
	OMul  // args[0]*args[1]
	ODiv  // truncated
	ORem  // truncated
	OAnd  // bitwise
	OOr   // bitwise
	OXor  // bitwise
	OShl  // exact
	OShr  // arithmetic
	OWrap // reduce to Go kind gk
	OWAdd // 64-bit wrapping, kind gk
	OWSub //
	OWMul //
	OWShl //
	OUDiv // unsigned 64
	OURem //
	OF2I  // float to int of Go kind gk
	OB2I  // bool to int
	OIte  // ite(args[0], args[1], args[2]) any kind
	OTab  // tab[args[0]-c]
	OLe0  // args[0] <= 0
	OEq0  // args[0] == 0
	OULt  // unsigned 64 compare
	OEqW  // raw 64-bit equality
	ONot
	OBAnd
	OBOr
	OFVar // arbitrary float64 variable
	OI2F  // args[0] * 2^-c, exact
	OI2FR // int to float with rounding
	OU2F  // uint64 to float
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFCvt // conversion between float widths
	OFUn  // unary math function number c
	OFBin // binary math function number c
	OFLt
	OFLe
	OFEq
)

// Go integer kinds
type GK uint8

const (
	GI8 GK = iota
	GI16
	GI32
	GI64
	GU8
	GU16
	GU32
	GU64
)

func (g GK) bits() int    { return []int{8, 16, 32, 64, 8, 16, 32, 64}[g] }
func (g GK) signed() bool { return g <= GI64 }
func (g GK) rng() (int64, int64) {
	switch g {
	case GI8:
		return math.MinInt8, math.MaxInt8
	case GI16:
		return math.MinInt16, math.MaxInt16
	case GI32:
		return math.MinInt32, math.MaxInt32
	case GU8:
		return 0, math.MaxUint8
	case GU16:
		return 0, math.MaxUint16
	case GU32:
		return 0, math.MaxUint32
	}
	return math.MinInt64, math.MaxInt64
}

// canon reduces raw 64 bits to the canonical representation of kind g.
func (g GK) canon(n uint64) uint64 {
	switch g {
	case GI8:
		return uint64(int64(int8(n)))
	case GI16:
		return uint64(int64(int16(n)))
	case GI32:
		return uint64(int64(int32(n)))
	case GU8:
		return uint64(uint8(n))
	case GU16:
		return uint64(uint16(n))
	case GU32:
		return uint64(uint32(n))
	}
	return n
}

type Term struct {
	id     int32
	op     Op
	k      Kind
	gk     GK
	big    bool // raw uint64 that may exceed int63
	float  bool // contains float operations
	args   []*Term
	coef   []int64
	c      int64
	lo, hi int64 // integers: exact interval (when !big)
	sup    []int32
	tab    []int64
	size   int
}

type Var struct {
	name     string
	lo, hi   int64
	isFloat  bool
	term     *Term
	declared int // solver generation in which it is declared
}

const inf = int64(1) << 62

type TermTab struct {
	m     map[string]*Term
	next  int32
	vars  []*Var
	vname map[string]int32
	T, F  *Term
	kb    []byte
}

func newTermTab() *TermTab {
	t := &TermTab{m: map[string]*Term{}, vname: map[string]int32{}}
	t.T = t.intern(&Term{op: OConst, k: KBool, c: 1})
	t.F = t.intern(&Term{op: OConst, k: KBool, c: 0})
	return t
}

func putInt(b []byte, v int64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func (tt *TermTab) intern(t *Term) *Term {
	b := tt.kb[:0]
	b = append(b, byte(t.op), byte(t.k), byte(t.gk))
	b = putInt(b, t.c)
	for _, a := range t.args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	for _, c := range t.coef {
		b = putInt(b, c)
	}
	for _, c := range t.tab {
		b = putInt(b, c)
	}
	if t.op == OF2I {
		b = putInt(b, t.lo)
		b = putInt(b, t.hi)
	}
	tt.kb = b
	if o, ok := tt.m[string(b)]; ok {
		return o
	}
	t.id = tt.next
	tt.next++
	t.size = 1
	switch len(t.args) {
	case 0:
	case 1:
		t.sup = t.args[0].sup
	default:
		t.sup = unionSup(t.args)
	}
	if t.op == OVar || t.op == OFVar {
		t.sup = []int32{int32(t.c)}
	}
	if t.k == KF64 || t.k == KF32 {
		if !(t.op == OI2F || t.op == OConst) {
			t.float = true
		}
	}
	if t.op == OF2I || t.op == OFLt || t.op == OFLe || t.op == OFEq {
		t.float = true
	}
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.float {
			t.float = true
		}
	}
	tt.m[string(b)] = t
	return t
}

func unionSup(args []*Term) []int32 {
	var out []int32
	first := true
	for _, a := range args {
		if len(a.sup) == 0 {
			continue
		}
		if first {
			out = a.sup
			first = false
			continue
		}
		out = merge32(out, a.sup)
	}
	return out
}

func merge32(a, b []int32) []int32 {
	// fast path: subset
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i >= len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i >= len(a):
			out = append(out, b[j])
			j++
		case j >= len(b):
			out = append(out, a[i])
			i++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (tt *TermTab) Int(v int64) *Term {
	return tt.intern(&Term{op: OConst, k: KInt, c: v, lo: v, hi: v})
}

// Raw64 makes a constant for a uint64 value.
func (tt *TermTab) IntG(v uint64, g GK) *Term {
	if g == GU64 && int64(v) < 0 {
		return tt.intern(&Term{op: OConst, k: KInt, gk: GU64, c: int64(v), big: true, lo: math.MinInt64, hi: math.MaxInt64})
	}
	return tt.Int(int64(v))
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTab) F64(f float64) *Term {
	return tt.intern(&Term{op: OConst, k: KF64, c: int64(math.Float64bits(f))})
}
func (tt *TermTab) FK(f float64, k Kind) *Term {
	return tt.intern(&Term{op: OConst, k: k, c: int64(math.Float64bits(f))})
}

func (tt *TermTab) Var(name string, lo, hi int64) *Term {
	key := fmt.Sprintf("%s|%d|%d", name, lo, hi)
	if id, ok := tt.vname[key]; ok {
		return tt.vars[id].term
	}
	id := int32(len(tt.vars))
	v := &Var{name: name, lo: lo, hi: hi, declared: -1}
	tt.vars = append(tt.vars, v)
	tt.vname[key] = id
	v.term = tt.intern(&Term{op: OVar, k: KInt, c: int64(id), lo: lo, hi: hi})
	return v.term
}
func (tt *TermTab) FVar(name string) *Term {
	key := name + "|float"
	if id, ok := tt.vname[key]; ok {
		return tt.vars[id].term
	}
	id := int32(len(tt.vars))
	v := &Var{name: name, isFloat: true, declared: -1}
	tt.vars = append(tt.vars, v)
	tt.vname[key] = id
	v.term = tt.intern(&Term{op: OFVar, k: KF64, c: int64(id)})
	return v.term
}

func (t *Term) isConst() bool { return t.op == OConst }

// ---------- saturating interval arithmetic ----------
func satAdd(a, b int64) int64 {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || s > inf {
		return math.MaxInt64
	}
	if (a < 0 && b < 0 && s >= 0) || s < -inf {
		return math.MinInt64
	}
	return s
}
func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	p := float64(a) * float64(b)
	if p > float64(inf) {
		return math.MaxInt64
	}
	if p < -float64(inf) {
		return math.MinInt64
	}
	return a * b
}
func isSat(a int64) bool { return a > inf || a < -inf }
func mulRange(a, b, c, d int64) (int64, int64) {
	p := [4]int64{satMul(a, c), satMul(a, d), satMul(b, c), satMul(b, d)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return lo, hi
}

type linPart struct {
	t *Term
	c int64
}

// lin decomposes t into linear parts.
func lin(t *Term, k int64, parts []linPart, c int64) ([]linPart, int64, bool) {
	switch t.op {
	case OConst:
		m := satMul(t.c, k)
		s := satAdd(c, m)
		return parts, s, !isSat(m) && !isSat(s)
	case OLin:
		for i, a := range t.args {
			m := satMul(t.coef[i], k)
			if isSat(m) {
				return parts, c, false
			}
			parts = append(parts, linPart{a, m})
		}
		m := satMul(t.c, k)
		s := satAdd(c, m)
		return parts, s, !isSat(m) && !isSat(s)
	}
	return append(parts, linPart{t, k}), c, true
}

func (tt *TermTab) mkLin(parts []linPart, c int64) *Term {
	sort.Slice(parts, func(i, j int) bool { return parts[i].t.id < parts[j].t.id })
	out := parts[:0]
	for _, p := range parts {
		if len(out) > 0 && out[len(out)-1].t == p.t {
			out[len(out)-1].c += p.c
		} else {
			out = append(out, p)
		}
	}
	n := 0
	for _, p := range out {
		if p.c != 0 {
			out[n] = p
			n++
		}
	}
	out = out[:n]
	if n == 0 {
		return tt.Int(c)
	}
	if n == 1 && out[0].c == 1 && c == 0 {
		return out[0].t
	}
	lo, hi := c, c
	args := make([]*Term, n)
	coef := make([]int64, n)
	for i, p := range out {
		args[i] = p.t
		coef[i] = p.c
		a, b := mulRange(p.c, p.c, p.t.lo, p.t.hi)
		lo, hi = satAdd(lo, a), satAdd(hi, b)
	}
	if isSat(lo) || isSat(hi) {
		return nil
	}
	return tt.intern(&Term{op: OLin, k: KInt, args: args, coef: coef, c: c, lo: lo, hi: hi})
}

// AddExact builds ka*a + kb*b, or nil when the interval is out of range.
func (tt *TermTab) linComb(a *Term, ka int64, b *Term, kb int64) *Term {
	if a.big || b.big {
		return nil
	}
	var parts []linPart
	var c int64
	var ok bool
	parts, c, ok = lin(a, ka, parts, c)
	if !ok {
		return nil
	}
	parts, c, ok = lin(b, kb, parts, c)
	if !ok {
		return nil
	}
	return tt.mkLin(parts, c)
}

// wrap reduces t to Go kind g.
func (tt *TermTab) Wrap(t *Term, g GK) *Term {
	if t.isConst() {
		return tt.IntG(g.canon(uint64(t.c)), g)
	}
	if g == GU64 {
		if !t.big && t.lo >= 0 {
			return t
		}
		if t.big {
			return t
		}
		return tt.intern(&Term{op: OWrap, k: KInt, gk: g, args: []*Term{t}, big: true, lo: math.MinInt64, hi: math.MaxInt64})
	}
	lo, hi := g.rng()
	if !t.big && t.lo >= lo && t.hi <= hi {
		return t
	}
	if g == GI64 && !t.big {
		return t
	}
	return tt.intern(&Term{op: OWrap, k: KInt, gk: g, args: []*Term{t}, lo: lo, hi: hi})
}

func (tt *TermTab) wop(op Op, a, b *Term, g GK) *Term {
	if a.isConst() && b.isConst() {
		var r uint64
		switch op {
		case OWAdd:
			r = uint64(a.c) + uint64(b.c)
		case OWSub:
			r = uint64(a.c) - uint64(b.c)
		case OWMul:
			r = uint64(a.c) * uint64(b.c)
		}
		return tt.IntG(g.canon(r), g)
	}
	t := &Term{op: op, k: KInt, gk: g, args: []*Term{a, b}}
	t.lo, t.hi = g.rng()
	if g == GU64 {
		t.big = true
	}
	return tt.intern(t)
}

func (tt *TermTab) Add(a, b *Term, g GK) *Term {
	if r := tt.linComb(a, 1, b, 1); r != nil {
		return tt.Wrap(r, g)
	}
	return tt.wop(OWAdd, a, b, g)
}
func (tt *TermTab) Sub(a, b *Term, g GK) *Term {
	if r := tt.linComb(a, 1, b, -1); r != nil {
		return tt.Wrap(r, g)
	}
	return tt.wop(OWSub, a, b, g)
}
func (tt *TermTab) Mul(a, b *Term, g GK) *Term {
	if !a.big && !b.big {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if r := tt.linComb(a, b.c, tt.Int(0), 0); r != nil {
				return tt.Wrap(r, g)
			}
			return tt.wop(OWMul, a, b, g)
		}
		lo, hi := mulRange(a.lo, a.hi, b.lo, b.hi)
		if !isSat(lo) && !isSat(hi) {
			if a == b && lo < 0 {
				lo = 0
			}
			if a.id > b.id {
				a, b = b, a
			}
			return tt.Wrap(tt.intern(&Term{op: OMul, k: KInt, args: []*Term{a, b}, lo: lo, hi: hi}), g)
		}
	}
	return tt.wop(OWMul, a, b, g)
}

func absMax(lo, hi int64) int64 {
	if lo == math.MinInt64 {
		return math.MaxInt64
	}
	a, b := lo, hi
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	if a > b {
		return a
	}
	return b
}

// Div: the divisor is known non-zero on this path.
func (tt *TermTab) DivRem(a, b *Term, g GK, rem bool) *Term {
	if a.big || b.big {
		op := OUDiv
		if rem {
			op = OURem
		}
		if a.isConst() && b.isConst() {
			if rem {
				return tt.IntG(uint64(a.c)%uint64(b.c), g)
			}
			return tt.IntG(uint64(a.c)/uint64(b.c), g)
		}
		t := &Term{op: op, k: KInt, gk: g, args: []*Term{a, b}, big: true, lo: math.MinInt64, hi: math.MaxInt64}
		if b.isConst() && b.c > 0 && rem {
			t.big = false
			t.lo, t.hi = 0, b.c-1
		}
		return tt.intern(t)
	}
	if a.isConst() && b.isConst() {
		if rem {
			return tt.Int(a.c % b.c)
		}
		return tt.Wrap(tt.Int(a.c/b.c), g)
	}
	m := absMax(a.lo, a.hi)
	if rem {
		d := absMax(b.lo, b.hi) - 1
		if d > m {
			d = m
		}
		lo, hi := -d, d
		if a.lo >= 0 {
			lo = 0
		}
		if a.hi <= 0 {
			hi = 0
		}
		if a.lo >= 0 && b.lo > a.hi {
			return a
		}
		return tt.intern(&Term{op: ORem, k: KInt, args: []*Term{a, b}, lo: lo, hi: hi})
	}
	if b.isConst() && b.c == 1 {
		return a
	}
	lo, hi := -m, m
	if b.lo > 0 {
		lo, hi = a.lo/b.lo, a.hi/b.lo
		if a.lo >= 0 {
			lo = a.lo / b.hi
		}
		if a.hi <= 0 {
			hi = a.hi / b.hi
		}
	}
	return tt.Wrap(tt.intern(&Term{op: ODiv, k: KInt, args: []*Term{a, b}, lo: lo, hi: hi}), g)
}

func (tt *TermTab) Bit(op Op, a, b *Term, g GK) *Term {
	if a.isConst() && b.isConst() {
		var r int64
		switch op {
		case OAnd:
			r = a.c & b.c
		case OOr:
			r = a.c | b.c
		case OXor:
			r = a.c ^ b.c
		}
		return tt.IntG(g.canon(uint64(r)), g)
	}
	if a.isConst() {
		a, b = b, a
	}
	t := &Term{op: op, k: KInt, gk: g, args: []*Term{a, b}}
	if op == OAnd && b.isConst() && !b.big && b.c >= 0 {
		if b.c == 0 {
			return tt.Int(0)
		}
		if !a.big && a.lo >= 0 && b.c&(b.c+1) == 0 && a.hi <= b.c {
			return a
		}
		t.lo, t.hi = 0, b.c
		return tt.intern(t)
	}
	if a.big || b.big {
		t.big = true
		t.lo, t.hi = math.MinInt64, math.MaxInt64
		if op == OAnd && ((!a.big && a.lo >= 0) || (!b.big && b.lo >= 0)) {
			t.big = false
			t.lo = 0
			if !a.big && a.lo >= 0 {
				t.hi = a.hi
			} else {
				t.hi = b.hi
			}
		}
		return tt.intern(t)
	}
	if a.lo >= 0 && b.lo >= 0 {
		m := a.hi
		if b.hi > m {
			m = b.hi
		}
		t.lo = 0
		t.hi = 1
		for t.hi-1 < m && t.hi < inf {
			t.hi <<= 1
		}
		t.hi--
		if op == OAnd {
			if a.hi < b.hi {
				t.hi = a.hi
			} else {
				t.hi = b.hi
			}
		}
	} else {
		t.lo, t.hi = g.rng()
		if g == GU64 {
			t.big = true
		}
	}
	return tt.intern(t)
}

// Shl by a constant amount
func (tt *TermTab) ShlC(a *Term, s uint64, g GK) *Term {
	if s >= uint64(g.bits()) {
		return tt.Int(0)
	}
	if s < 62 {
		return tt.Mul(a, tt.Int(1<<s), g)
	}
	return tt.wop(OWMul, a, tt.IntG(1<<s, GU64), g)
}
func (tt *TermTab) ShrC(a *Term, s uint64, g GK) *Term {
	if a.big {
		if a.isConst() {
			if s >= 64 {
				return tt.Int(0)
			}
			return tt.IntG(uint64(a.c)>>s, g)
		}
		if s >= 64 {
			return tt.Int(0)
		}
		if s == 0 {
			return a
		}
		return tt.intern(&Term{op: OUDiv, k: KInt, gk: g, args: []*Term{a, tt.IntG(1<<s, GU64)}, lo: 0, hi: int64(uint64(math.MaxUint64) >> s)})
	}
	if s > 63 {
		s = 63
	}
	if a.isConst() {
		return tt.Int(a.c >> s)
	}
	return tt.intern(&Term{op: OShr, k: KInt, args: []*Term{a}, c: int64(s), lo: a.lo >> s, hi: a.hi >> s})
}

// ---------- comparisons ----------
func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// Le0: t <= 0
func (tt *TermTab) le0(t *Term) *Term {
	if t.hi <= 0 {
		return tt.T
	}
	if t.lo > 0 {
		return tt.F
	}
	if t.op == OLin {
		g := int64(0)
		for _, c := range t.coef {
			g = gcd(g, c)
		}
		if g > 1 {
			// sum <= -c  ->  sum/g <= floor(-c/g)
			var parts []linPart
			for i, a := range t.args {
				parts = append(parts, linPart{a, t.coef[i] / g})
			}
			if n := tt.mkLin(parts, -floorDiv(-t.c, g)); n != nil {
				return tt.le0(n)
			}
		}
		// canonical sign: keep first coef positive by negation: t<=0  <=> !( -t+1 <= 0 )
		if t.coef[0] < 0 {
			var parts []linPart
			for i, a := range t.args {
				parts = append(parts, linPart{a, -t.coef[i]})
			}
			if n := tt.mkLin(parts, -t.c+1); n != nil {
				return tt.Not(tt.le0(n))
			}
		}
	}
	return tt.intern(&Term{op: OLe0, k: KBool, args: []*Term{t}})
}
func (tt *TermTab) eq0(t *Term) *Term {
	if t.lo > 0 || t.hi < 0 {
		return tt.F
	}
	if t.isConst() {
		return tt.Bool(t.c == 0)
	}
	if t.op == OLin {
		g := int64(0)
		for _, c := range t.coef {
			g = gcd(g, c)
		}
		if t.c%g != 0 {
			return tt.F
		}
		if t.coef[0] < 0 {
			g = -g
		}
		if g != 1 {
			var parts []linPart
			for i, a := range t.args {
				parts = append(parts, linPart{a, t.coef[i] / g})
			}
			if n := tt.mkLin(parts, t.c/g); n != nil {
				t = n
			}
		}
	}
	return tt.intern(&Term{op: OEq0, k: KBool, args: []*Term{t}})
}
func (tt *TermTab) Lt(a, b *Term) *Term {
	if a.big || b.big {
		if a.isConst() && b.isConst() {
			return tt.Bool(uint64(a.c) < uint64(b.c))
		}
		if a == b {
			return tt.F
		}
		return tt.intern(&Term{op: OULt, k: KBool, args: []*Term{a, b}})
	}
	if a.hi < b.lo {
		return tt.T
	}
	if a.lo >= b.hi {
		return tt.F
	}
	d := tt.linComb(a, 1, b, -1)
	if d == nil {
		panic(unsupported("comparison of very large integers"))
	}
	one := tt.linComb(d, 1, tt.Int(1), 1)
	return tt.le0(one)
}
func (tt *TermTab) Le(a, b *Term) *Term { return tt.Not(tt.Lt(b, a)) }
func (tt *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return tt.T
	}
	if a.k == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b == tt.T {
			return a
		}
		if b == tt.F {
			return tt.Not(a)
		}
		return tt.Or(tt.And(a, b), tt.And(tt.Not(a), tt.Not(b)))
	}
	if a.big || b.big {
		if a.isConst() && b.isConst() {
			return tt.Bool(a.c == b.c)
		}
		return tt.intern(&Term{op: OEqW, k: KBool, args: []*Term{a, b}})
	}
	if a.hi < b.lo || a.lo > b.hi {
		return tt.F
	}
	d := tt.linComb(a, 1, b, -1)
	if d == nil {
		return tt.intern(&Term{op: OEqW, k: KBool, args: []*Term{a, b}})
	}
	return tt.eq0(d)
}

// ---------- booleans ----------
func (tt *TermTab) Not(a *Term) *Term {
	if a == tt.T {
		return tt.F
	}
	if a == tt.F {
		return tt.T
	}
	if a.op == ONot {
		return a.args[0]
	}
	return tt.intern(&Term{op: ONot, k: KBool, args: []*Term{a}})
}
func (tt *TermTab) nary(op Op, unit, zero *Term, in []*Term) *Term {
	var l []*Term
	for _, a := range in {
		if a == zero {
			return zero
		}
		if a == unit {
			continue
		}
		if a.op == op {
			l = append(l, a.args...)
		} else {
			l = append(l, a)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	n := 0
	for i, a := range l {
		if i > 0 && a == l[i-1] {
			continue
		}
		l[n] = a
		n++
	}
	l = l[:n]
	if n == 0 {
		return unit
	}
	if n == 1 {
		return l[0]
	}
	if n < 16 {
		for _, a := range l {
			if a.op == ONot {
				for _, b := range l {
					if a.args[0] == b {
						return zero
					}
				}
			}
		}
	}
	return tt.intern(&Term{op: op, k: KBool, args: l})
}
func (tt *TermTab) And(in ...*Term) *Term { return tt.nary(OBAnd, tt.T, tt.F, in) }
func (tt *TermTab) Or(in ...*Term) *Term  { return tt.nary(OBOr, tt.F, tt.T, in) }

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c == tt.T {
		return a
	}
	if c == tt.F {
		return b
	}
	if a == b {
		return a
	}
	if a.k == KBool {
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	if c.op == ONot {
		c = c.args[0]
		a, b = b, a
	}
	t := &Term{op: OIte, k: a.k, args: []*Term{c, a, b}}
	if a.k == KInt {
		if a.isConst() && b.isConst() && !a.big && !b.big && a.c == b.c+1 {
			return tt.linComb(tt.B2I(c), 1, b, 1)
		}
		t.lo, t.hi = a.lo, a.hi
		if b.lo < t.lo {
			t.lo = b.lo
		}
		if b.hi > t.hi {
			t.hi = b.hi
		}
		t.big = a.big || b.big
	}
	return tt.intern(t)
}
func (tt *TermTab) B2I(c *Term) *Term {
	if c.isConst() {
		return tt.Int(c.c)
	}
	if c.op == ONot {
		return tt.linComb(tt.B2I(c.args[0]), -1, tt.Int(1), 1)
	}
	return tt.intern(&Term{op: OB2I, k: KInt, args: []*Term{c}, lo: 0, hi: 1})
}

// Tab: vals[idx-base]
func (tt *TermTab) Tab(idx *Term, base int64, vals []int64) *Term {
	lo, hi := vals[0], vals[0]
	for _, v := range vals {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	return tt.intern(&Term{op: OTab, k: KInt, args: []*Term{idx}, c: base, tab: vals, lo: lo, hi: hi})
}

// ---------- floats ----------
func fval(t *Term) float64 { return math.Float64frombits(uint64(t.c)) }

const exactBound = int64(1) << 52

func (tt *TermTab) I2F(a *Term, k Kind, unsigned bool) *Term {
	if a.isConst() {
		if unsigned && a.big {
			if k == KF32 {
				return tt.FK(float64(float32(uint64(a.c))), k)
			}
			return tt.FK(float64(uint64(a.c)), k)
		}
		if k == KF32 {
			return tt.FK(float64(float32(a.c)), k)
		}
		return tt.FK(float64(a.c), k)
	}
	if a.big {
		return tt.intern(&Term{op: OU2F, k: k, args: []*Term{a}})
	}
	b := exactBound
	if k == KF32 {
		b = 1 << 24
	}
	if absMax(a.lo, a.hi) <= b {
		return tt.intern(&Term{op: OI2F, k: k, args: []*Term{a}})
	}
	return tt.intern(&Term{op: OI2FR, k: k, args: []*Term{a}})
}

// dyadic returns t as int * 2^-s when t is an exact (non-negative-zero) dyadic.
func (tt *TermTab) dyadic(t *Term) (*Term, int64, bool) {
	if t.op == OI2F {
		return t.args[0], t.c, true
	}
	if t.op == OConst {
		f := fval(t)
		if f == 0 && math.Signbit(f) {
			return nil, 0, false
		}
		s := int64(0)
		for s <= 20 {
			if f == math.Trunc(f) && math.Abs(f) < float64(exactBound) {
				return tt.Int(int64(f)), s, true
			}
			f *= 2
			s++
		}
	}
	return nil, 0, false
}
func (tt *TermTab) mkDyadic(i *Term, s int64, k Kind) *Term {
	if i == nil || i.big || absMax(i.lo, i.hi) > exactBound {
		return nil
	}
	if k == KF32 && absMax(i.lo, i.hi) > 1<<24 {
		return nil
	}
	if i.isConst() {
		return tt.FK(math.Ldexp(float64(i.c), -int(s)), k)
	}
	for s > 0 && i.op == OLin {
		even := i.c%2 == 0
		for _, c := range i.coef {
			even = even && c%2 == 0
		}
		if !even {
			break
		}
		var parts []linPart
		for j, a := range i.args {
			parts = append(parts, linPart{a, i.coef[j] / 2})
		}
		i = tt.mkLin(parts, i.c/2)
		s--
	}
	return tt.intern(&Term{op: OI2F, k: k, args: []*Term{i}, c: s})
}
func (tt *TermTab) scale2(a *Term, sa int64, b *Term, sb int64) (*Term, *Term, int64) {
	for sa < sb {
		a = tt.linComb(a, 2, tt.Int(0), 0)
		sa++
		if a == nil {
			return nil, nil, 0
		}
	}
	for sb < sa {
		b = tt.linComb(b, 2, tt.Int(0), 0)
		sb++
		if b == nil {
			return nil, nil, 0
		}
	}
	return a, b, sa
}

func foldF(op Op, k Kind, a, b float64) float64 {
	if k == KF32 {
		x, y := float32(a), float32(b)
		switch op {
		case OFAdd:
			return float64(x + y)
		case OFSub:
			return float64(x - y)
		case OFMul:
			return float64(x * y)
		case OFDiv:
			return float64(x / y)
		}
	}
	switch op {
	case OFAdd:
		return a + b
	case OFSub:
		return a - b
	case OFMul:
		return a * b
	}
	return a / b
}

func (tt *TermTab) FBin(op Op, a, b *Term) *Term {
	k := a.k
	if a.isConst() && b.isConst() {
		return tt.FK(foldF(op, k, fval(a), fval(b)), k)
	}
	if op == OFAdd || op == OFSub {
		if x, sx, ok := tt.dyadic(a); ok {
			if y, sy, ok := tt.dyadic(b); ok {
				if x, y, s := tt.scale2(x, sx, y, sy); x != nil {
					kb := int64(1)
					if op == OFSub {
						kb = -1
					}
					if r := tt.mkDyadic(tt.linComb(x, 1, y, kb), s, k); r != nil {
						return r
					}
				}
			}
		}
	}
	if op == OFMul {
		for q := 0; q < 2; q++ {
			if b.isConst() && fval(b) > 0 && a.op == OI2F {
				if y, sy, ok := tt.dyadic(b); ok {
					if m := tt.linComb(a.args[0], y.c, tt.Int(0), 0); m != nil && a.c+sy < 40 {
						if r := tt.mkDyadic(m, a.c+sy, k); r != nil {
							return r
						}
					}
				}
			}
			a, b = b, a
		}
	}
	if op == OFDiv && b.isConst() {
		// division by a power of two
		f := fval(b)
		if f >= 1 && f <= 1<<20 {
			fr, ex := math.Frexp(f)
			if fr == 0.5 && a.op == OI2F && a.c+int64(ex-1) < 40 {
				if r := tt.mkDyadic(a.args[0], a.c+int64(ex-1), k); r != nil {
					return r
				}
			}
		}
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a // commutative bitwise (NaN payloads are unobservable here)
	}
	return tt.intern(&Term{op: op, k: k, args: []*Term{a, b}})
}
func (tt *TermTab) FNeg(a *Term) *Term {
	if a.isConst() {
		return tt.FK(-fval(a), a.k)
	}
	return tt.intern(&Term{op: OFNeg, k: a.k, args: []*Term{a}})
}
func (tt *TermTab) FCvt(a *Term, k Kind) *Term {
	if a.k == k {
		return a
	}
	if a.isConst() {
		f := fval(a)
		if k == KF32 {
			f = float64(float32(f))
		}
		return tt.FK(f, k)
	}
	if a.op == OI2F {
		if k == KF64 || absMax(a.args[0].lo, a.args[0].hi) <= 1<<24 {
			return tt.intern(&Term{op: OI2F, k: k, args: a.args, c: a.c})
		}
	}
	return tt.intern(&Term{op: OFCvt, k: k, args: []*Term{a}})
}
func (tt *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return tt.Bool(x < y)
		case OFLe:
			return tt.Bool(x <= y)
		}
		return tt.Bool(x == y)
	}
	// exact dyadics compare as integers (±0 compare equal, so sign of zero is irrelevant)
	dy := func(t *Term) (*Term, int64, bool) {
		if t.isConst() && fval(t) == 0 {
			return tt.Int(0), 0, true
		}
		return tt.dyadic(t)
	}
	if x, sx, ok := dy(a); ok {
		if y, sy, ok := dy(b); ok {
			if x, y, _ := tt.scale2(x, sx, y, sy); x != nil {
				switch op {
				case OFLt:
					return tt.Lt(x, y)
				case OFLe:
					return tt.Le(x, y)
				}
				return tt.Eq(x, y)
			}
		}
		if b.isConst() && sx == 0 {
			f := fval(b)
			if f != f {
				return tt.F
			}
			if math.Abs(f) < float64(exactBound) {
				switch op {
				case OFLt: // x < f  <=> x < ceil(f)
					return tt.Lt(x, tt.Int(int64(math.Ceil(f))))
				case OFLe:
					return tt.Le(x, tt.Int(int64(math.Floor(f))))
				default:
					return tt.F // f not dyadic integer
				}
			}
		}
	}
	if y, sy, ok := dy(b); ok && a.isConst() && sy == 0 {
		f := fval(a)
		if f != f {
			return tt.F
		}
		if math.Abs(f) < float64(exactBound) {
			switch op {
			case OFLt: // f < y <=> floor(f) < y
				return tt.Lt(tt.Int(int64(math.Floor(f))), y)
			case OFLe:
				return tt.Le(tt.Int(int64(math.Ceil(f))), y)
			default:
				return tt.F
			}
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return tt.intern(&Term{op: op, k: KBool, args: []*Term{a, b}})
}

var funUn = []struct {
	name string
	f    func(float64) float64
}{
	{"Sqrt", math.Sqrt}, {"Floor", math.Floor}, {"Ceil", math.Ceil}, {"Trunc", math.Trunc},
	{"Round", math.Round}, {"Abs", math.Abs}, {"Log", math.Log}, {"Exp", math.Exp},
	{"Sin", math.Sin}, {"Cos", math.Cos}, {"Tan", math.Tan}, {"Atan", math.Atan}, {"Asin", math.Asin}, {"Acos", math.Acos},
	{"RoundToEven", math.RoundToEven}, {"Cbrt", math.Cbrt}, {"Log2", math.Log2}, {"Log10", math.Log10}, {"Exp2", math.Exp2},
}
var funBin = []struct {
	name string
	f    func(a, b float64) float64
}{
	{"Max", math.Max}, {"Min", math.Min}, {"Pow", math.Pow}, {"Atan2", math.Atan2}, {"Hypot", math.Hypot}, {"Mod", math.Mod}, {"Copysign", math.Copysign}, {"Dim", math.Dim}, {"Remainder", math.Remainder},
}

func (tt *TermTab) FUn(n int, a *Term) *Term {
	if a.isConst() {
		f := funUn[n].f(fval(a))
		if a.k == KF32 {
			f = float64(float32(f))
		}
		return tt.FK(f, a.k)
	}
	name := funUn[n].name
	if a.op == OI2F && a.c == 0 && (name == "Floor" || name == "Ceil" || name == "Trunc" || name == "Round" || name == "RoundToEven") {
		return a
	}
	return tt.intern(&Term{op: OFUn, k: a.k, args: []*Term{a}, c: int64(n)})
}
func (tt *TermTab) FBinF(n int, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return tt.FK(funBin[n].f(fval(a), fval(b)), a.k)
	}
	return tt.intern(&Term{op: OFBin, k: a.k, args: []*Term{a, b}, c: int64(n)})
}

func f2i(f float64, g GK) uint64 {
	switch g {
	case GI8:
		return uint64(int64(int8(f)))
	case GI16:
		return uint64(int64(int16(f)))
	case GI32:
		return uint64(int64(int32(f)))
	case GI64:
		return uint64(int64(f))
	case GU8:
		return uint64(uint8(f))
	case GU16:
		return uint64(uint16(f))
	case GU32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

// F2I: lo/hi is the range the caller knows the result to be in (path context).
func (tt *TermTab) F2I(a *Term, g GK, lo, hi int64) *Term {
	if a.isConst() {
		return tt.IntG(f2i(fval(a), g), g)
	}
	if a.op == OI2F && a.c == 0 {
		x := a.args[0]
		l, h := g.rng()
		if x.lo >= l && x.hi <= h && (g != GU64 || x.lo >= 0) {
			return x
		}
	}
	if lo == hi {
		return tt.Int(lo)
	}
	return tt.intern(&Term{op: OF2I, k: KInt, gk: g, args: []*Term{a}, lo: lo, hi: hi})
}

// ---------- evaluation ----------
// apply computes the value of t given its argument values. Values: ints as int64 bits,
// bools 0/1, floats as float64 bits (float32 held as float64 bits).
func apply(t *Term, a []uint64) uint64 {
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	fb := math.Float64frombits
	bf := math.Float64bits
	switch t.op {
	case OConst:
		return uint64(t.c)
	case OLin:
		s := t.c
		for i, c := range t.coef {
			s += c * int64(a[i])
		}
		return uint64(s)
	case OMul:
		return a[0] * a[1]
	case ODiv:
		if a[1] == 0 {
			return 0
		}
		return uint64(int64(a[0]) / int64(a[1]))
	case ORem:
		if a[1] == 0 {
			return 0
		}
		return uint64(int64(a[0]) % int64(a[1]))
	case OUDiv:
		if a[1] == 0 {
			return 0
		}
		return a[0] / a[1]
	case OURem:
		if a[1] == 0 {
			return 0
		}
		return a[0] % a[1]
	case OAnd:
		return t.gk.canon(a[0] & a[1])
	case OOr:
		return t.gk.canon(a[0] | a[1])
	case OXor:
		return t.gk.canon(a[0] ^ a[1])
	case OShr:
		return uint64(int64(a[0]) >> uint(t.c))
	case OWrap:
		return t.gk.canon(a[0])
	case OWAdd:
		return t.gk.canon(a[0] + a[1])
	case OWSub:
		return t.gk.canon(a[0] - a[1])
	case OWMul:
		return t.gk.canon(a[0] * a[1])
	case OF2I:
		return f2i(fb(a[0]), t.gk)
	case OB2I:
		return a[0]
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OTab:
		i := int64(a[0]) - t.c
		if i < 0 || i >= int64(len(t.tab)) {
			return 0
		}
		return uint64(t.tab[i])
	case OLe0:
		return b2u(int64(a[0]) <= 0)
	case OEq0:
		return b2u(a[0] == 0)
	case OULt:
		return b2u(a[0] < a[1])
	case OEqW:
		return b2u(a[0] == a[1])
	case ONot:
		return 1 - a[0]
	case OBAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, x := range a {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OI2F:
		return bf(math.Ldexp(float64(int64(a[0])), -int(t.c)))
	case OI2FR:
		if t.k == KF32 {
			return bf(float64(float32(int64(a[0]))))
		}
		return bf(float64(int64(a[0])))
	case OU2F:
		if t.k == KF32 {
			return bf(float64(float32(a[0])))
		}
		return bf(float64(a[0]))
	case OFAdd, OFSub, OFMul, OFDiv:
		return bf(foldF(t.op, t.k, fb(a[0]), fb(a[1])))
	case OFNeg:
		return bf(-fb(a[0]))
	case OFCvt:
		if t.k == KF32 {
			return bf(float64(float32(fb(a[0]))))
		}
		return a[0]
	case OFUn:
		f := funUn[t.c].f(fb(a[0]))
		if t.k == KF32 {
			f = float64(float32(f))
		}
		return bf(f)
	case OFBin:
		return bf(funBin[t.c].f(fb(a[0]), fb(a[1])))
	case OFLt:
		return b2u(fb(a[0]) < fb(a[1]))
	case OFLe:
		return b2u(fb(a[0]) <= fb(a[1]))
	case OFEq:
		return b2u(fb(a[0]) == fb(a[1]))
	}
	panic(fmt.Sprintf("apply: op %d", t.op))
}

// evalTerm evaluates t under an assignment of variables.
func evalTerm(t *Term, val func(int32) uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return uint64(t.c)
	case OVar, OFVar:
		return val(int32(t.c))
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var buf [4]uint64
	var a []uint64
	if len(t.args) <= 4 {
		a = buf[:len(t.args)]
	} else {
		a = make([]uint64, len(t.args))
	}
	for i, x := range t.args {
		a[i] = evalTerm(x, val, memo)
	}
	v := apply(t, a)
	memo[t] = v
	return v
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}

var opNames = map[Op]string{OLin: "lin", OMul: "*", ODiv: "/", ORem: "%", OAnd: "&", OOr: "|", OXor: "^", OShr: ">>", OWrap: "wrap", OWAdd: "w+", OWSub: "w-", OWMul: "w*", OF2I: "f2i", OB2I: "b2i", OIte: "ite", OTab: "tab", OLe0: "<=0", OEq0: "==0", OULt: "u<", OEqW: "==", ONot: "not", OBAnd: "and", OBOr: "or", OI2F: "i2f", OFAdd: "f+", OFSub: "f-", OFMul: "f*", OFDiv: "f/", OFNeg: "fneg", OFCvt: "fcvt", OFUn: "fun", OFBin: "fbin", OFLt: "f<", OFLe: "f<=", OFEq: "f=="}

func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.k == KF64 || t.k == KF32 {
			fmt.Fprintf(sb, "%g", fval(t))
		} else {
			fmt.Fprintf(sb, "%d", t.c)
		}
		return
	case OVar, OFVar:
		fmt.Fprintf(sb, "v%d", t.c)
		return
	}
	if d == 0 {
		sb.WriteString("...")
		return
	}
	fmt.Fprintf(sb, "(%s", opNames[t.op])
	for i, a := range t.args {
		sb.WriteByte(' ')
		if t.coef != nil {
			fmt.Fprintf(sb, "%d*", t.coef[i])
		}
		a.str(sb, d-1)
	}
	if t.op == OLin || t.op == OShr || t.op == OI2F || t.op == OFUn {
		fmt.Fprintf(sb, " #%d", t.c)
	}
	sb.WriteByte(')')
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }
