package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions that are not executed from their SSA: the sym harness API, the floating-point
// library functions (uninterpreted operators evaluated natively), synchronisation and
// scheduling primitives, sources of nondeterminism and formatting/logging.

type intrinsic func(it *Interp, g *G, fn *ssa.Function, args []V) V

const symPath = "github.com/RH12503/Triangula/zzverif/sym"

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	if i, ok := intrinsics[n]; ok {
		return i, true
	}
	if to, ok := redirects[n]; ok && fn.Prog.ImportedPackage(zz+"/saved") != nil {
		return func(it *Interp, g *G, fn *ssa.Function, args []V) V {
			return it.call(g, fn.Prog.ImportedPackage(zz+"/saved").Func(to), args, nil, nil)
		}, true
	}
	if fn.Pkg != nil {
		pp := fn.Pkg.Pkg.Path()
		switch pp {
		case "fmt", "log":
			return stubCall, true
		}
	}
	return nil, false
}

// Functions that write files are replaced by stand-ins of the harness that uses them.
var redirects = map[string]string{
	"encoding/json.Marshal": "ioMarshal", "encoding/json.MarshalIndent": "ioMarshalIndent",
	"encoding/json.NewEncoder": "ioNewEncoder", "(*encoding/json.Encoder).Encode": "ioEncode",
	"io/ioutil.WriteFile": "ioWriteFile", "os.WriteFile": "ioWriteFile",
	"os.Create": "ioCreate", "os.OpenFile": "ioOpenFile", "os.Rename": "ioRename",
	"(*os.File).Write": "ioWrite", "(*os.File).WriteString": "ioWriteString", "(*os.File).Close": "ioClose", "(*os.File).Sync": "ioClose",
	"os.CreateTemp": "ioCreateTemp", "io/ioutil.TempFile": "ioCreateTemp", "(*os.File).Name": "ioName", "(*os.File).WriteAt": "ioWriteAt",
	"(*os.File).Seek": "ioSeek", "(*os.File).Truncate": "ioTruncate", "os.Chmod": "ioChmod", "os.Remove": "ioRemove", "os.ReadFile": "ioReadFile", "io/ioutil.ReadFile": "ioReadFile",
	"fmt.Printf": "ioPrintf", "fmt.Print": "ioPrint", "fmt.Println": "ioPrintln",
	"fmt.Fprintf": "ioFprintf", "fmt.Fprint": "ioFprint", "fmt.Fprintln": "ioFprintln",
}

// goValue is a concrete value of a basic type.
func goValue(v V) (any, bool) {
	i, ok := v.P.(Iface)
	if !ok {
		return nil, false
	}
	b, ok := i.t.(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Kind() == types.String {
		s, ok := i.v.P.(string)
		return s, ok
	}
	if i.v.P != nil {
		return nil, false
	}
	n := i.v.N
	switch b.Kind() {
	case types.Bool:
		return n != 0, true
	case types.Float64:
		return math.Float64frombits(n), true
	case types.Float32:
		return float32(math.Float64frombits(n)), true
	case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
		return int64(n), true
	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
		return n, true
	}
	return nil, false
}

// format formats concrete values of basic types; anything else gives an empty string.
func format(f func(a ...any) string) intrinsic {
	return func(it *Interp, g *G, fn *ssa.Function, args []V) V {
		var out []any
		if _, ok := args[0].P.(string); ok {
			out = append(out, args[0].P)
		} else if len(args) > 1 {
			return V{P: ""}
		}
		l, _ := args[len(args)-1].P.([]V)
		for _, v := range l {
			x, ok := goValue(v)
			if !ok {
				return V{P: ""}
			}
			out = append(out, x)
		}
		return V{P: f(out...)}
	}
}

var tiInt = tinfo{c: cInt, gk: GI64}
var tiU32 = tinfo{c: cInt, gk: GU32}
var tiF64 = tinfo{c: cFloat, fk: KF64}
var tiF32 = tinfo{c: cFloat, fk: KF32}
var tiBool = tinfo{c: cBool}

func str(v V) string {
	s, _ := v.P.(string)
	return s
}
func f64(v V) float64 { return math.Float64frombits(v.N) }
func fV(f float64) V  { return V{N: math.Float64bits(f)} }

func (it *Interp) concF(v V, what string) float64 {
	if t, ok := v.P.(*Term); ok {
		return math.Float64frombits(it.p.concretize(t))
	}
	_ = what
	return f64(v)
}

func stubCall(it *Interp, g *G, fn *ssa.Function, args []V) V {
	n := fn.String()
	switch {
	case strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"):
		panic(targetPanic{msg: n + " called", v: V{P: Iface{t: types.Typ[types.String], v: V{P: n}}}})
	case n == "fmt.Errorf":
		en := it.pr.pkgs["errors"].Func("New")
		return it.call(g, en, []V{{P: "error"}}, nil, nil)
	}
	return zeroResult(fn)
}

func (it *Interp) gridFloat(name string, lo, hi int64, den int64) V {
	t := it.p.newVar(name, lo, hi)
	sh := int64(0)
	for d := den; d > 1; d >>= 1 {
		if d&1 != 0 {
			panic(unsupported("grid denominator must be a power of two"))
		}
		sh++
	}
	return it.val(it.tt.mkDyadic(t, sh, KF64))
}

func (it *Interp) freshInt(name string, lo, hi int64) V {
	return it.val(it.p.newVar(name, lo, hi))
}

func (it *Interp) lockOf(v V) *lockState {
	p := it.deref(v)
	l := it.locks[p]
	if l == nil {
		l = &lockState{}
		it.locks[p] = l
	}
	return l
}

func (it *Interp) acquire(g *G, l *lockState) { g.vc = vcJoin(g.vc, l.vc) }
func (it *Interp) release(g *G, l *lockState) {
	l.vc = vcJoin(l.vc, g.vc)
	g.tick()
}

func init() {
	intrinsics = map[string]intrinsic{}
	R := func(n string, f intrinsic) { intrinsics[n] = f }
	S := func(n string, f intrinsic) { intrinsics[symPath+"."+n] = f }

	// ----- harness API -----
	S("Int", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.freshInt(str(a[0]), it.concInt(a[1]), it.concInt(a[2]))
	})
	S("Pick", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		v := it.freshInt(str(a[0]), 0, it.concInt(a[1])-1)
		return V{N: uint64(it.concInt(v))}
	})
	S("Conc", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: uint64(it.concInt(a[0]))} })
	S("Bool", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		v := it.freshInt(str(a[0]), 0, 1)
		return it.val(it.tt.Eq(it.term(v, tiInt), it.tt.Int(1)))
	})
	S("Float", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.gridFloat(str(a[0]), it.concInt(a[1]), it.concInt(a[2]), it.concInt(a[3]))
	})
	S("Float64", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return V{P: it.p.newFVar(str(a[0]))}
	})
	S("Assume", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		if len(it.p.asserts) > 0 {
			it.p.flushAsserts()
		}
		it.p.assume(it.term(a[0], tiBool))
		return V{}
	})
	S("Assert", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		it.p.assert(it.term(a[0], tiBool), str(a[1]))
		return V{}
	})
	S("Cover", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		it.p.covers = append(it.p.covers, coverRec{it.term(a[0], tiBool), str(a[1])})
		return V{}
	})
	S("Reach", func(it *Interp, g *G, fn *ssa.Function, a []V) V { it.p.reached[str(a[0])] = true; return V{} })
	S("Observe", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		it.p.observed = append(it.p.observed, obsRec{name: str(a[0]), v: a[1]})
		return V{}
	})
	S("ObserveF", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		it.p.observed = append(it.p.observed, obsRec{name: str(a[0]), v: a[1], isF: true})
		return V{}
	})
	S("And", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		var ts []*Term
		for _, x := range a[0].P.([]V) {
			ts = append(ts, it.term(x, tiBool))
		}
		return it.val(it.tt.And(ts...))
	})
	S("Or", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		var ts []*Term
		for _, x := range a[0].P.([]V) {
			ts = append(ts, it.term(x, tiBool))
		}
		return it.val(it.tt.Or(ts...))
	})
	// whether the path decides the condition: harnesses skip what is settled
	S("Yes", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		t := it.p.fold(it.term(a[0], tiBool))
		return V{N: b2u(t.op == OConst && t.c != 0)}
	})
	S("No", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		t := it.p.fold(it.term(a[0], tiBool))
		return V{N: b2u(t.op == OConst && t.c == 0)}
	})
	S("Not", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.val(it.tt.Not(it.term(a[0], tiBool))) })
	S("Implies", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.val(it.tt.Or(it.tt.Not(it.term(a[0], tiBool)), it.term(a[1], tiBool)))
	})
	S("B2I", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.val(it.tt.B2I(it.term(a[0], tiBool))) })
	S("Ite", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.val(it.tt.Ite(it.p.fold(it.term(a[0], tiBool)), it.term(a[1], tiInt), it.term(a[2], tiInt)))
	})
	S("IteF", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.val(it.tt.Ite(it.p.fold(it.term(a[0], tiBool)), it.term(a[1], tiF64), it.term(a[2], tiF64)))
	})
	S("Fifo", func(it *Interp, g *G, fn *ssa.Function, a []V) V { it.fifo = a[0].N != 0; return V{} })
	S("OnFloat64", func(it *Interp, g *G, fn *ssa.Function, a []V) V { it.onF64 = a[0]; return V{} })
	S("OnIntn", func(it *Interp, g *G, fn *ssa.Function, a []V) V { it.onIntn = a[0]; return V{} })
	S("OnUint32", func(it *Interp, g *G, fn *ssa.Function, a []V) V { it.onU32 = a[0]; return V{} })
	S("Symbolic", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: 1} })

	// ----- math -----
	for i := range funUn {
		i := i
		h := func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.val(it.tt.FUn(i, it.term(a[0], tiF64))) }
		R("math."+funUn[i].name, h)
		n := funUn[i].name
		R("math."+strings.ToLower(n[:1])+n[1:], h)
	}
	for i := range funBin {
		i := i
		R("math."+funBin[i].name, func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			return it.val(it.tt.FBinF(i, it.term(a[0], tiF64), it.term(a[1], tiF64)))
		})
	}
	R("math.IsNaN", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		t := it.term(a[0], tiF64)
		return it.val(it.tt.Not(it.tt.FCmp(OFEq, t, t)))
	})
	R("math.IsInf", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		t := it.term(a[0], tiF64)
		s := it.concInt(a[1])
		var cs []*Term
		if s >= 0 {
			cs = append(cs, it.tt.FCmp(OFLt, it.tt.F64(math.MaxFloat64), t))
		}
		if s <= 0 {
			cs = append(cs, it.tt.FCmp(OFLt, t, it.tt.F64(-math.MaxFloat64)))
		}
		return it.val(it.tt.Or(cs...))
	})
	R("math.Inf", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return fV(math.Inf(int(it.concInt(a[0])))) })
	R("math.NaN", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return fV(math.NaN()) })
	R("math.FMA", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return fV(math.FMA(it.concF(a[0], "FMA"), it.concF(a[1], "FMA"), it.concF(a[2], "FMA")))
	})
	R("math.Signbit", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return bv(math.Signbit(it.concF(a[0], "Signbit")))
	})
	R("math.Float64bits", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return V{N: math.Float64bits(it.concF(a[0], "Float64bits"))}
	})
	R("math.Float64frombits", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: uint64(it.concInt(a[0]))} })
	R("math.Float32bits", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return V{N: uint64(math.Float32bits(float32(it.concF(a[0], "Float32bits"))))}
	})
	R("math.Float32frombits", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return fV(float64(math.Float32frombits(uint32(it.concInt(a[0])))))
	})
	R("math.Modf", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		t := it.term(a[0], tiF64)
		ip := it.tt.FUn(funIdx("Trunc"), t)
		return V{P: Tup{it.val(ip), it.val(it.tt.FBin(OFSub, t, ip))}}
	})

	// ----- sorting over slices through reflection -----
	sl := func(target string) intrinsic {
		return func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			s, ok := a[0].P.(Iface).v.P.([]V)
			if !ok {
				panic(unsupported("sort of non-slice"))
			}
			it.flush(s)
			swap := &Closure{name: "swap", native: func(it *Interp, g *G, x []V) V {
				i, j := it.concInt(x[0]), it.concInt(x[1])
				if i < 0 || j < 0 || i >= int64(len(s)) || j >= int64(len(s)) {
					it.goPanic("reflect: slice index out of range")
				}
				if it.raceOn {
					it.access(g, &s[i], true)
					it.access(g, &s[j], true)
				}
				u, v := copyV(s[i]), copyV(s[j])
				assign(&s[i], v)
				assign(&s[j], u)
				return V{}
			}}
			ls := V{P: &Agg{e: []V{a[1], {P: swap}}}}
			n := len(s)
			f := it.pr.pkgs["sort"].Func(target)
			if f == nil {
				panic(unsupported("sort.%s not found", target))
			}
			if target == "stable_func" {
				return it.call(g, f, []V{ls, {N: uint64(n)}}, nil, nil)
			}
			lim := 0
			for m := n; m > 0; m >>= 1 {
				lim++
			}
			return it.call(g, f, []V{ls, {}, {N: uint64(n)}, {N: uint64(lim)}}, nil, nil)
		}
	}
	R("sort.Slice", sl("pdqsort_func"))
	R("sort.SliceStable", sl("stable_func"))

	// ----- randomness -----
	rf := func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		if c, ok := it.onF64.P.(*Closure); ok && c != nil {
			return it.callV(g, it.onF64, nil, nil)
		}
		return it.gridFloat("rnd", 0, 255, 256)
	}
	R("math/rand.Float64", rf)
	R("math/rand/v2.Float64", rf)
	rf32 := func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		return it.val(it.tt.FCvt(it.term(rf(it, g, fn, a), tiF64), KF32))
	}
	R("math/rand.Float32", rf32)
	R("math/rand/v2.Float32", rf32)
	ri := func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		if c, ok := it.onIntn.P.(*Closure); ok && c != nil {
			return it.callV(g, it.onIntn, a, nil)
		}
		n := it.concInt(a[0])
		if n <= 0 {
			it.goPanic("invalid argument to Intn")
		}
		return it.freshInt("rndn", 0, n-1)
	}
	for _, n := range []string{"math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "math/rand/v2.N"} {
		R(n, ri)
	}
	R("math/rand.Seed", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	u32 := func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		if c, ok := it.onU32.P.(*Closure); ok && c != nil {
			return it.callV(g, it.onU32, nil, nil)
		}
		return it.freshInt("rndu", 0, math.MaxUint32)
	}
	R("math/rand.Uint32", u32)
	R("(*github.com/dgryski/go-pcgr.Rand).Next", u32)
	R("math/rand.Perm", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		n := int(it.concInt(a[0]))
		out := make([]V, n)
		for i := 0; i < n; i++ {
			j := it.concInt(ri(it, g, fn, []V{{N: uint64(i + 1)}}))
			out[i] = out[j]
			out[j] = V{N: uint64(i)}
		}
		return V{P: out}
	})

	R("math/rand.Shuffle", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		for i := int(it.concInt(a[0])) - 1; i > 0; i-- {
			j := it.concInt(ri(it, g, fn, []V{{N: uint64(i + 1)}}))
			it.callV(g, a[1], []V{{N: uint64(i)}, {N: uint64(j)}}, nil)
		}
		return V{}
	})
	R("math/rand.NormFloat64", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.gridFloat("rnd", -1024, 1024, 256) })
	R("math/rand.ExpFloat64", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.gridFloat("rnd", 0, 1024, 256) })
	for n, hi := range map[string]int64{"Int63": math.MaxInt64, "Int": math.MaxInt64, "Int31": math.MaxInt32} {
		R("math/rand."+n, func(it *Interp, g *G, fn *ssa.Function, a []V) V { return it.freshInt("rndu", 0, hi) })
	}
	R("math/rand.New", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return zeroResult(fn) })
	R("math/rand.NewSource", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return zeroResult(fn) })
	// generators of one's own draw like the common one
	for _, n := range []string{"Float64", "Float32", "Intn", "Int63n", "Int31n", "Seed", "Uint32", "Perm", "Shuffle", "NormFloat64", "ExpFloat64", "Int63", "Int", "Int31"} {
		in := intrinsics["math/rand."+n]
		R("(*math/rand.Rand)."+n, func(it *Interp, g *G, fn *ssa.Function, a []V) V { return in(it, g, fn, a[1:]) })
	}

	// ----- time, runtime -----
	R("time.Now", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return zeroResult(fn) })
	R("time.Since", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: 1000} })
	R("(time.Time).Sub", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: 1000} })
	R("time.Sleep", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("runtime.NumCPU", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: 2} })
	R("runtime.GOMAXPROCS", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{N: 2} })
	R("runtime.KeepAlive", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("runtime.GC", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("runtime.SetFinalizer", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("runtime.Gosched", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("os.Exit", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		panic(targetPanic{msg: "os.Exit called"})
	})

	R("runtime.ReadMemStats", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })
	R("fmt.Sprintf", format(func(a ...any) string { return fmt.Sprintf(a[0].(string), a[1:]...) }))
	R("fmt.Sprint", format(fmt.Sprint))
	R("fmt.Sprintln", format(fmt.Sprintln))

	// ----- worker pool -----
	nilErr := func() V { return V{P: Iface{}} }
	R("github.com/panjf2000/ants/v2.Submit", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		task := a[0]
		it.nTasks++
		n := it.nTasks
		it.spawn(g, func(ng *G) {
			it.order = append(it.order, n)
			it.callV(ng, task, nil, nil)
		})
		return nilErr()
	})
	R("github.com/panjf2000/ants/v2.Release", func(it *Interp, g *G, fn *ssa.Function, a []V) V { return V{} })

	// ----- sync -----
	R("(*sync.Mutex).Lock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.block(g, func() bool { return !l.held })
		l.held = true
		it.acquire(g, l)
		return V{}
	})
	R("(*sync.Mutex).TryLock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		if l.held {
			return V{}
		}
		l.held = true
		it.acquire(g, l)
		return V{N: 1}
	})
	R("(*sync.Mutex).Unlock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		if !l.held {
			it.goPanic("sync: unlock of unlocked mutex")
		}
		it.release(g, l)
		l.held = false
		return V{}
	})
	R("(*sync.RWMutex).Lock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.block(g, func() bool { return !l.held && l.readers == 0 })
		l.held = true
		it.acquire(g, l)
		return V{}
	})
	R("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	R("(*sync.RWMutex).RLock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.block(g, func() bool { return !l.held })
		l.readers++
		it.acquire(g, l)
		return V{}
	})
	R("(*sync.RWMutex).RUnlock", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		l.readers--
		it.release(g, l)
		return V{}
	})
	R("(*sync.WaitGroup).Add", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		l.n += it.concInt(a[1])
		if l.n < 0 {
			it.goPanic("sync: negative WaitGroup counter")
		}
		it.release(g, l)
		return V{}
	})
	R("(*sync.WaitGroup).Done", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.release(g, l)
		l.n--
		if l.n < 0 {
			it.goPanic("sync: negative WaitGroup counter")
		}
		return V{}
	})
	R("(*sync.WaitGroup).Wait", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.block(g, func() bool { return l.n == 0 })
		it.acquire(g, l)
		return V{}
	})
	R("(*sync.WaitGroup).Go", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		l.n++
		it.release(g, l)
		f := a[1]
		it.spawn(g, func(ng *G) {
			it.callV(ng, f, nil, nil)
			it.release(ng, l)
			l.n--
		})
		return V{}
	})
	R("(*sync.Once).Do", func(it *Interp, g *G, fn *ssa.Function, a []V) V {
		l := it.lockOf(a[0])
		it.block(g, func() bool { return !l.held })
		if l.n == 0 {
			l.n = 1
			l.held = true
			it.callV(g, a[1], nil, nil)
			l.held = false
			it.release(g, l)
		}
		it.acquire(g, l)
		return V{}
	})
	for _, k := range []struct {
		n string
		g GK
	}{{"Int32", GI32}, {"Int64", GI64}, {"Uint32", GU32}, {"Uint64", GU64}} {
		k := k
		ti := tinfo{c: cInt, gk: k.g}
		sync := func(it *Interp, g *G, p V) *V {
			l := it.lockOf(p)
			it.acquire(g, l)
			it.release(g, l)
			return it.deref(p)
		}
		R("sync/atomic.Add"+k.n, func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			p := sync(it, g, a[0])
			*p = it.val(it.tt.Add(it.term(*p, ti), it.term(a[1], ti), k.g))
			return *p
		})
		R("sync/atomic.Load"+k.n, func(it *Interp, g *G, fn *ssa.Function, a []V) V { return *sync(it, g, a[0]) })
		R("sync/atomic.Store"+k.n, func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			*sync(it, g, a[0]) = a[1]
			return V{}
		})
		R("sync/atomic.Swap"+k.n, func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			p := sync(it, g, a[0])
			o := *p
			*p = a[1]
			return o
		})
		R("sync/atomic.CompareAndSwap"+k.n, func(it *Interp, g *G, fn *ssa.Function, a []V) V {
			p := sync(it, g, a[0])
			if it.cond(it.val(it.tt.Eq(it.term(*p, ti), it.term(a[1], ti)))) {
				*p = a[2]
				return V{N: 1}
			}
			return V{}
		})
	}
}

func funIdx(n string) int {
	for i := range funUn {
		if funUn[i].name == n {
			return i
		}
	}
	panic(fmt.Sprint("no ", n))
}

func sortedKeys[T any](m map[string]T) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
