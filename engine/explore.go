package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options of one harness.
type Opts struct {
	Poly     bool  // send integer assertions to the solver even where domain propagation decides them
	Join     int   // largest tabulated joint domain
	Race     bool  // happens-before race detection between interpreted goroutines
	MaxSteps int64 // instruction bound per path (the unwinding bound)
	MaxPaths int   // cut-off of one job; reaching it makes the job incomplete
	TValid   int   // paths per job replayed natively for translation validation
}

type Harness struct {
	Pkg  string
	Fn   string
	Opts Opts
}

type Job struct {
	h       *Harness
	variant int
	fn      *ssa.Function
	stack   []workItem
	active  int

	paths, assumed, infeasible, aborted       int
	forks                                     int
	steps                                     int64
	asserts, assertConst, assertProp, decided int
	spurious                                  int
	reached                                   map[string]int
	covered                                   map[string]bool
	incon                                     map[string]int
	cands                                     []*Candidate
	samples                                   []*Sample
	seen                                      int
	cut                                       bool
	first                                     time.Time
	last                                      time.Time
}

func (j *Job) name() string { return fmt.Sprintf("%s.%s/%d", j.h.Pkg, j.h.Fn, j.variant) }

type workItem struct {
	prefix []int64
	model  map[string]uint64
}

// Candidate is a counterexample the solver produced; it becomes a violation only after
// the native replay reproduces it.
type Candidate struct {
	Job   string            `json:"job"`
	Pkg   string            `json:"pkg"`
	Fn    string            `json:"fn"`
	Var   int               `json:"variant"`
	Kind  string            `json:"kind"` // assert, panic, race, hang
	Msg   string            `json:"msg"`
	Vals  map[string]uint64 `json:"vals"`
	Order []int             `json:"order,omitempty"`
	// for what never happens: one assignment for some of the paths
	Models []map[string]uint64 `json:"models,omitempty"`
}

type Obs struct {
	Name string `json:"n"`
	V    uint64 `json:"v"`
}
type Sample struct {
	Vals   map[string]uint64
	Order  []int
	Obs    []Obs
	End    string // "ok", "panic", "assume"
	Msg    string
	Paths  int
	PCSize int
}

type Explorer struct {
	pr                           *Program
	mu                           sync.Mutex
	cond                         *sync.Cond
	jobs                         []*Job
	active                       int
	stopping                     atomic.Bool
	deadline                     atomic.Int64
	workers                      int
	bin                          string
	smtMs                        int
	rng                          *rand.Rand
	fns                          map[string]int
	queries, sat, unsat, unknown int
	solverTime                   time.Duration
	solverErrs                   []string
	verbose                      bool
	isKnown                      func(*Candidate) *known
}

type Worker struct {
	ex                                            *Explorer
	tt                                            *TermTab
	solver                                        *Solver
	joinLimit                                     int
	job                                           *Job
	cfg                                           Opts
	fns                                           map[*fnInfo]int
	spurious                                      int
	nAsserts, nAssertConst, nAssertProp, nDecided int
	curIt                                         *Interp
	pend                                          []workItem
	cands                                         []*Candidate
	incons                                        []string
	tick                                          int
}

func (w *Worker) note(p *Path, name string, v uint64) {}
func (w *Worker) push(i workItem)                     { w.pend = append(w.pend, i) }
func (w *Worker) inconclusive(p *Path, msg string)    { w.incons = append(w.incons, msg) }
func (w *Worker) cand(kind, msg string, m map[string]uint64) {
	j := w.job
	c := &Candidate{Job: j.name(), Pkg: j.h.Pkg, Fn: j.h.Fn, Var: j.variant, Kind: kind, Msg: msg, Vals: m}
	if w.curIt != nil {
		c.Order = append([]int(nil), w.curIt.order...)
	}
	w.cands = append(w.cands, c)
}
func (w *Worker) violation(p *Path, msg string, m map[string]uint64) { w.cand("assert", msg, m) }
func (w *Worker) race(p *Path, msg string)                           { w.cand("race", msg, p.modelMap()) }
func (w *Worker) stepLimit(p *Path)                                  { w.cand("hang", "execution exceeds the step bound", p.modelMap()) }
func (w *Worker) noteFn(fi *fnInfo)                                  { w.fns[fi]++ }
func (w *Worker) stop() bool {
	w.tick++
	if w.tick&0x3ff != 0 {
		return false
	}
	if w.ex.stopping.Load() {
		return true
	}
	if time.Now().UnixNano() > w.ex.deadline.Load() {
		w.ex.stopping.Store(true)
		return true
	}
	return false
}

// grace is how long the exploration goes on after a first counterexample.
var grace = 15 * time.Second

func newExplorer(pr *Program, jobs []*Job, workers int, budget time.Duration, bin string, smtMs int, seed int64) *Explorer {
	ex := &Explorer{pr: pr, jobs: jobs, workers: workers, bin: bin, smtMs: smtMs, rng: rand.New(rand.NewSource(seed)), fns: map[string]int{}}
	ex.deadline.Store(time.Now().Add(budget).UnixNano())
	ex.cond = sync.NewCond(&ex.mu)
	for _, j := range jobs {
		j.stack = []workItem{{}}
		j.reached = map[string]int{}
		j.covered = map[string]bool{}
		j.incon = map[string]int{}
	}
	return ex
}

func (ex *Explorer) run() {
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker()
		}()
	}
	stopLog := make(chan struct{})
	if ex.verbose {
		go func() {
			for {
				select {
				case <-stopLog:
					return
				case <-time.After(10 * time.Second):
				}
				ex.mu.Lock()
				var sb strings.Builder
				n := 0
				for _, j := range ex.jobs {
					if len(j.stack) > 0 || j.active > 0 {
						n++
						if n <= 6 {
							fmt.Fprintf(&sb, "  %s: paths=%d open=%d", j.name(), j.paths, len(j.stack))
						}
					}
				}
				fmt.Printf("# open jobs %d:%s\n", n, sb.String())
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	close(stopLog)
}

// pickJob: a random job among those with open work (so that no job starves).
func (ex *Explorer) pickJob(last *Job) *Job {
	if last != nil && len(last.stack) > 0 && ex.rng.Intn(200) != 0 {
		return last
	}
	var open []*Job
	for _, j := range ex.jobs {
		if len(j.stack) > 0 {
			open = append(open, j)
		}
	}
	if len(open) == 0 {
		return nil
	}
	return open[ex.rng.Intn(len(open))]
}

func (ex *Explorer) worker() {
	w := &Worker{ex: ex, fns: map[*fnInfo]int{}}
	w.reset()
	defer func() {
		w.solver.close()
		ex.mu.Lock()
		w.harvest()
		for f, n := range w.fns {
			ex.fns[f.name] += n
		}
		ex.mu.Unlock()
	}()
	var last *Job
	ex.mu.Lock()
	for {
		if ex.stopping.Load() {
			break
		}
		if time.Now().UnixNano() > ex.deadline.Load() {
			ex.stopping.Store(true)
			break
		}
		j := ex.pickJob(last)
		if j == nil {
			if ex.active == 0 {
				break
			}
			ex.cond.Wait()
			continue
		}
		last = j
		it := j.stack[len(j.stack)-1]
		j.stack = j.stack[:len(j.stack)-1]
		if j.first.IsZero() {
			j.first = time.Now()
		}
		ex.active++
		j.active++
		ex.mu.Unlock()
		if w.tt.next > 1500000 || w.job != nil && w.job != j {
			ex.mu.Lock()
			w.harvest()
			ex.mu.Unlock()
			w.solver.close()
			w.reset()
		}
		res := w.runPath(j, it)
		ex.mu.Lock()
		ex.active--
		j.active--
		j.merge(ex, w, res)
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func (w *Worker) reset() {
	w.tt = newTermTab()
	w.solver = newSolver(w.tt, w.ex.bin, w.ex.smtMs)
	if d := os.Getenv("SYMGO_SMTLOG"); d != "" {
		f, err := os.CreateTemp(d, "q*.smt2")
		if err == nil {
			w.solver.logf = f
		}
	}
}

func (w *Worker) harvest() {
	s := w.solver
	ex := w.ex
	ex.queries += s.queries
	ex.sat += s.sat
	ex.unsat += s.unsat
	ex.unknown += s.unknown
	ex.solverTime += s.time
	if len(ex.solverErrs) < 10 {
		ex.solverErrs = append(ex.solverErrs, s.errs...)
	}
	s.queries, s.sat, s.unsat, s.unknown, s.time, s.errs = 0, 0, 0, 0, 0, nil
}

type pathResult struct {
	end    string
	path   *Path
	sample *Sample
	cover  map[string]bool
}

const maxCands = 6

func (j *Job) merge(ex *Explorer, w *Worker, r pathResult) {
	j.last = time.Now()
	switch r.end {
	case "ok", "panic":
		j.paths++
	case "assume":
		j.assumed++
	case "infeasible":
		j.infeasible++
	default:
		j.aborted++
	}
	if r.end == "stopped" {
		j.cut = true
	}
	p := r.path
	j.forks += p.forks
	j.steps += p.steps
	j.asserts += w.nAsserts
	j.assertConst += w.nAssertConst
	j.assertProp += w.nAssertProp
	j.decided += w.nDecided
	j.spurious += w.spurious
	w.nAsserts, w.nAssertConst, w.nAssertProp, w.nDecided, w.spurious = 0, 0, 0, 0, 0
	for k := range p.reached {
		j.reached[k]++
	}
	for k, ok := range r.cover {
		j.covered[k] = j.covered[k] || ok
	}
	for _, m := range w.incons {
		j.incon[m]++
	}
	w.incons = nil
	for _, c := range w.cands {
		same := 0
		for _, o := range j.cands {
			if o.Msg == c.Msg && o.Kind == c.Kind {
				same++
			}
		}
		if same < 2 {
			j.cands = append(j.cands, c)
			if ex.isKnown != nil && ex.isKnown(c) == nil {
				if d := time.Now().Add(grace).UnixNano(); d < ex.deadline.Load() {
					ex.deadline.Store(d)
				}
			}
		}
	}
	w.cands = nil
	if r.sample != nil && (r.end == "ok" || r.end == "panic") {
		j.seen++
		n := j.h.Opts.TValid
		if n == 0 {
			n = 8
		}
		if len(j.samples) < n {
			j.samples = append(j.samples, r.sample)
		} else if k := ex.rng.Intn(j.seen); k < n {
			j.samples[k] = r.sample
		}
	}
	stopJob := false
	kinds := map[string]bool{}
	unknown := 0
	for _, c := range j.cands {
		if ex.isKnown != nil && ex.isKnown(c) != nil {
			continue
		}
		unknown++
		kinds[c.Kind+c.Msg] = true
	}
	if len(kinds) >= maxCands {
		stopJob = true
	}
	if j.h.Opts.MaxPaths > 0 && j.paths+j.assumed >= j.h.Opts.MaxPaths {
		stopJob = true
	}
	hang := 0
	for _, c := range j.cands {
		if c.Kind == "hang" {
			hang++
		}
	}
	if hang >= 2 || (unknown > 0 && time.Since(j.first) > 60*time.Second) {
		stopJob = true
	}
	if stopJob {
		if len(w.pend) > 0 || len(j.stack) > 0 {
			j.cut = true
		}
		w.pend = nil
		j.stack = nil
		return
	}
	j.stack = append(j.stack, w.pend...)
	w.pend = nil
}

func (w *Worker) runPath(j *Job, item workItem) (res pathResult) {
	w.job = j
	w.cfg = j.h.Opts
	w.joinLimit = j.h.Opts.Join
	if w.joinLimit == 0 {
		w.joinLimit = 8192
	}
	p := &Path{w: w, tt: w.tt, prefix: item.prefix, inModel: item.model, known: map[*Term]uint64{}, foldMemo: map[*Term]uint64{}, nameCnt: map[string]int{}, reached: map[string]bool{}}
	it := &Interp{pr: w.ex.pr, p: p, tt: w.tt, w: w, globals: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{}, shadow: map[*V]*shadowCell{}, locks: map[*V]*lockState{}, maxSteps: j.h.Opts.MaxSteps}
	if it.maxSteps == 0 {
		it.maxSteps = 20_000_000
	}
	w.curIt = it
	g := &G{id: 0, ch: make(chan struct{})}
	g.tick()
	it.gs = []*G{g}
	it.cur = g
	res.path = p
	res.end = "ok"
	msg := ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			res.end, msg = w.classifyEnd(r)
		}()
		it.call(g, j.fn, []V{{N: uint64(j.variant)}}, nil, nil)
	}()
	it.killAll()
	nc := len(w.cands)
	switch res.end {
	case "ok", "panic", "assume", "race":
		func() {
			defer func() {
				if r := recover(); r != nil {
					e, m := w.classifyEnd(r)
					w.incons = append(w.incons, "final query: "+e+" "+m)
				}
			}()
			p.flushAsserts()
		}()
	}
	if res.end == "panic" {
		if len(w.cands) == nc {
			w.cand("panic", "uncaught panic: "+msg, p.modelMap())
		}
	}
	if res.end == "ok" && len(p.covers) > 0 {
		func() {
			defer func() {
				if r := recover(); r != nil {
					e, m := w.classifyEnd(r)
					w.incons = append(w.incons, "cover query: "+e+" "+m)
				}
			}()
			res.cover = p.flushCovers(func(m string) bool {
				w.ex.mu.Lock()
				defer w.ex.mu.Unlock()
				return j.covered[m]
			})
		}()
	}
	if res.end == "ok" || res.end == "panic" {
		s := &Sample{Vals: p.modelMap(), Order: it.order, End: res.end, Msg: msg, PCSize: len(p.pc)}
		if len(w.cands) > nc {
			// asserts fail for some values of this path; the model may or may not be one
			s = nil
		} else {
			memo := map[*Term]uint64{}
			for _, o := range p.observed {
				ob := Obs{Name: o.name, V: o.v.N}
				if t, ok := o.v.P.(*Term); ok {
					ob.V = evalTerm(t, func(id int32) uint64 { return p.model[id] }, memo)
				}
				s.Obs = append(s.Obs, ob)
			}
		}
		res.sample = s
	}
	w.curIt = nil
	return
}

func (w *Worker) classifyEnd(r any) (string, string) {
	switch x := r.(type) {
	case pathEnd:
		return x.why, ""
	case targetPanic:
		return "panic", x.msg
	case unsupportedErr:
		w.incons = append(w.incons, "unsupported: "+x.Error())
		return "unsupported", x.Error()
	}
	st := string(debug.Stack())
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	if len(st) > 1800 {
		st = st[:1800]
	}
	w.incons = append(w.incons, fmt.Sprintf("engine error: %v\n%s", r, st))
	return "error", fmt.Sprint(r)
}

func (j *Job) complete() bool {
	return !j.cut && len(j.stack) == 0 && j.active == 0 && len(j.incon) == 0 && j.aborted == 0
}

func topKeys(m map[string]int, n int) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(a, b int) bool { return m[o[a]] > m[o[b]] || m[o[a]] == m[o[b]] && o[a] < o[b] })
	if len(o) > n {
		o = o[:n]
	}
	return o
}

func obsString(o Obs, isF bool) string {
	if isF {
		return fmt.Sprint(math.Float64frombits(o.V))
	}
	return fmt.Sprint(int64(o.V))
}
