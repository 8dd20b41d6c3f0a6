// Package sym is the harness interface. Under the symbolic engine every function here is
// intercepted; this file is the native meaning, used to replay solver assignments against
// the real compiled code.
package sym

import (
	"fmt"
	"math"
	"sync"
)

type Obs struct {
	Name string `json:"n"`
	V    uint64 `json:"v"`
}

// State of one native replay.
var (
	Vals    map[string]uint64
	Order   []int
	Seen    []Obs
	Failed  []string
	Used    map[string]int
	Missing []string
	Covered []string
	Seed    uint64 // when not zero, values not given are pseudo-random
	mu      sync.Mutex
	of64    func() float64
	ointn   func(int) int
	ou32    func() uint32
)

type Stop struct{ Why string }

func Reset(vals map[string]uint64, order []int) {
	Vals, Order = vals, order
	Seen, Failed, Missing, Covered, Seed = nil, nil, nil, nil, 0
	Used = map[string]int{}
	of64, ointn, ou32 = nil, nil, nil
}

func get(name string, def uint64) uint64 {
	mu.Lock()
	defer mu.Unlock()
	n := Used[name]
	Used[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	if v, ok := Vals[name]; ok {
		return v
	}
	Missing = append(Missing, name)
	return def
}

func Int(name string, lo, hi int) int {
	if Seed != 0 {
		if _, ok := Vals[name]; !ok {
			Seed ^= Seed << 13
			Seed ^= Seed >> 7
			Seed ^= Seed << 17
			return lo + int(Seed%uint64(hi-lo+1))
		}
	}
	return int(int64(get(name, uint64(int64(lo)))))
}
func Pick(name string, n int) int { return Int(name, 0, n-1) }
func Conc(x int) int              { return x }
func Bool(name string) bool       { return Int(name, 0, 1) == 1 }

// Float is k/den for an arbitrary k in [lo,hi]; den must be a power of two.
func Float(name string, lo, hi, den int) float64 {
	return float64(Int(name, lo, hi)) / float64(den)
}

// Float64 is an arbitrary float64 (NaN and infinities included).
func Float64(name string) float64 { return math.Float64frombits(get(name, math.Float64bits(0.5))) }

func Assume(c bool) {
	if !c {
		panic(Stop{"assume"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		mu.Lock()
		Failed = append(Failed, msg)
		mu.Unlock()
	}
}

// Cover: some assignment has to satisfy the condition. A harness first declares what it
// expects with Cover(false, msg).
func Cover(c bool, msg string) {
	if c {
		mu.Lock()
		Covered = append(Covered, msg)
		mu.Unlock()
	}
}
func Reach(label string)              {}
func Observe(name string, v int)      { Seen = append(Seen, Obs{name, uint64(int64(v))}) }
func ObserveF(name string, v float64) { Seen = append(Seen, Obs{name, math.Float64bits(v)}) }
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Yes and No say whether the condition is certainly true or certainly false on this path;
// harnesses use them to leave out work that cannot change a verdict.
func Yes(c bool) bool        { return c }
func No(c bool) bool         { return !c }
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func B2I(c bool) int {
	if c {
		return 1
	}
	return 0
}
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func Fifo(b bool)                {}
func Symbolic() bool             { return false }
func OnFloat64(f func() float64) { of64 = f }
func OnIntn(f func(n int) int)   { ointn = f }
func OnUint32(f func() uint32)   { ou32 = f }

// Sources of randomness of the code under test, as values chosen by the solver.
func RandFloat64() float64 {
	if of64 != nil {
		return of64()
	}
	return Float("rnd", 0, 255, 256)
}
func RandIntn(n int) int {
	if ointn != nil {
		return ointn(n)
	}
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return Int("rndn", 0, n-1)
}
func RandUint32() uint32 {
	if ou32 != nil {
		return ou32()
	}
	return uint32(Int("rndu", 0, math.MaxUint32))
}
