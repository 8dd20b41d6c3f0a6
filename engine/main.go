package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/RH12503/Triangula"

func loadProgram(repo, verif string, pkgs []string) (*Program, map[string]*ssa.Package, error) {
	ovf, err := harnessOverlay(repo, verif, append([]string{"sym"}, pkgs...))
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for v, f := range ovf {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv()}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zz+"/"+p)
	}
	pats = append(pats, "errors", "sort")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoModule) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("the code under test or its harness does not compile:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, infos: map[*ssa.Function]*fnInfo{}, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64"), repoMod: repoModule}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	hp := map[string]*ssa.Package{}
	for _, p := range pkgs {
		hp[p] = pr.pkgs[zz+"/"+p]
	}
	return pr, hp, nil
}

type known struct{ prop, job, msg, text string }

func readKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		k := known{text: text}
		for _, f := range strings.Split(l, " | ") {
			n, v, _ := strings.Cut(strings.TrimSpace(f), "=")
			switch n {
			case "property":
				k.prop = v
			case "job":
				k.job = v
			case "msg":
				k.msg = v
			}
		}
		out = append(out, k)
	}
	return out
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "manifest":
		os.Exit(cmdManifest(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "only this harness function")
	variant := fs.String("variant", "", "only these variants (comma separated)")
	budget := fs.Int("budget", 0, "seconds")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	poly := fs.Bool("poly", false, "force polynomial assertion queries")
	verbose := fs.Bool("v", false, "")
	solver := fs.String("solver", "z3-new", "")
	noev := fs.Bool("noev", false, "do not write the evidence file")
	fs.DurationVar(&grace, "grace", grace, "how long to go on after a first counterexample")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ck := findCheck(*prop)
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		return 2
	}
	bin, err := exec.LookPath(*solver)
	if err != nil {
		bin, err = exec.LookPath("z3")
		if err != nil {
			fmt.Fprintln(os.Stderr, "no solver")
			return 2
		}
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	pkgSet := map[string]bool{}
	for _, s := range ck.Sets {
		pkgSet[s.Pkg] = true
	}
	pkgs := sortedKeys(pkgSet)
	pr, hp, err := loadProgram(*repo, *verif, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	natives := map[string]*Native{}
	type bres struct{ err error }
	built := map[string]chan bres{}
	for _, p := range pkgs {
		n := newNative(*repo, *verif, p, filepath.Join(tmp, p))
		natives[p] = n
		c := make(chan bres, 1)
		built[p] = c
		go func() {
			_, err := n.build(false)
			c <- bres{err}
		}()
	}
	want := map[int]bool{}
	if *variant != "" {
		for _, x := range strings.Split(*variant, ",") {
			v, _ := strconv.Atoi(x)
			want[v] = true
		}
	}
	var jobs []*Job
	for i := range ck.Sets {
		s := &ck.Sets[i]
		if *only != "" && s.Fn != *only {
			continue
		}
		fn := hp[s.Pkg].Func(s.Fn)
		if fn == nil {
			fmt.Fprintf(os.Stderr, "harness %s.%s not found\n", s.Pkg, s.Fn)
			return 2
		}
		vs := s.Quick
		if *tier == "thorough" {
			vs = append(append([]int(nil), s.Quick...), s.Thorough...)
		}
		h := &Harness{Pkg: s.Pkg, Fn: s.Fn, Opts: s.Opts}
		if *poly {
			h.Opts.Poly = true
		}
		for _, v := range vs {
			if len(want) > 0 && !want[v] {
				continue
			}
			jobs = append(jobs, &Job{h: h, variant: v, fn: fn})
		}
	}
	b := ck.Budget
	if b == 0 {
		b = 240
	}
	if *tier == "thorough" {
		b = 3000
	}
	if *budget > 0 {
		b = *budget
	}
	kn := readKnown(*verif)
	ex := newExplorer(pr, jobs, *workers, time.Duration(b)*time.Second, bin, 20000, seed)
	ex.verbose = *verbose
	ex.isKnown = func(c *Candidate) *known {
		for i := range kn {
			k := &kn[i]
			if k.prop == *prop && (k.job == "" || k.job == c.Job) && strings.Contains(c.Msg, k.msg) {
				return k
			}
		}
		return nil
	}
	ex.run()
	for _, j := range jobs {
		// what no path can satisfy, when all paths are known
		if j.complete() {
			for _, m := range sortedKeys(j.covered) {
				if !j.covered[m] {
					c := &Candidate{Job: j.name(), Pkg: j.h.Pkg, Fn: j.h.Fn, Var: j.variant, Kind: "never", Msg: m}
					for _, s := range j.samples {
						c.Models = append(c.Models, s.Vals)
					}
					j.cands = append(j.cands, c)
				}
			}
		}
	}

	// ----- native replays -----
	for _, p := range pkgs {
		if r := <-built[p]; r.err != nil {
			fmt.Fprintln(os.Stderr, r.err)
			return 2
		}
	}
	validated, mismatches := 0, []string{}
	var samples []any
	for _, p := range pkgs {
		var cs []nCase
		var src []*Sample
		var js []*Job
		for _, j := range jobs {
			if j.h.Pkg != p {
				continue
			}
			for _, s := range j.samples {
				cs = append(cs, nCase{Fn: j.h.Fn, Var: j.variant, Vals: s.Vals, Order: s.Order})
				src = append(src, s)
				js = append(js, j)
			}
		}
		off := 0
		for off < len(cs) {
			rs, crash, err := natives[p].batch(cs[off:], false, 300*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			for i, r := range rs {
				s := src[off+i]
				if d := diff(s, &r); d != "" {
					mismatches = append(mismatches, js[off+i].name()+": "+d)
					if *verbose {
						fmt.Printf("# mismatch %s: %s vals=%v order=%v\n", js[off+i].name(), d, fmtVals(s.Vals), s.Order)
					}
				} else {
					validated++
					if len(samples) < 12 && (off+i)%(len(cs)/6+1) == 0 {
						o := []string{}
						for _, x := range s.Obs {
							if len(o) < 8 {
								o = append(o, fmt.Sprintf("%s=%d", x.Name, int64(x.V)))
							}
						}
						samples = append(samples, map[string]any{"harness": js[off+i].name(), "assignment": fmtVals(s.Vals), "path_condition_size": s.PCSize, "observed": o, "end": s.End})
					}
				}
			}
			off += len(rs)
			if crash != "" && off < len(cs) {
				mismatches = append(mismatches, js[off].name()+": native crash: "+firstLines(crash, 3))
				off++
			} else if crash == "" {
				break
			}
		}
	}
	// ----- verdicts -----
	rc := 0
	nviol := 0
	knownHit := map[string]bool{}
	var incon []string
	outDir := filepath.Join(*verif, "evidence", "replay")
	perMsg := map[string]bool{}
	for _, j := range jobs {
		for _, c := range j.cands {
			if k := ex.isKnown(c); k != nil {
				ok, how := natives[c.Pkg].reproduce(c)
				if ok {
					if !knownHit[k.text] {
						knownHit[k.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
					}
				} else {
					incon = append(incon, c.Job+": known finding not reproduced: "+how)
				}
				continue
			}
			if nviol > 0 && perMsg[c.Msg] {
				continue
			}
			if nviol >= 8 {
				continue
			}
			ok, how := natives[c.Pkg].reproduce(c)
			if !ok {
				incon = append(incon, fmt.Sprintf("%s: counterexample for %q not reproduced natively: %s", c.Job, c.Msg, how))
				if *verbose {
					fmt.Printf("# not reproduced %s %q %v: %s\n", c.Job, c.Msg, fmtVals(c.Vals), how)
				}
				continue
			}
			perMsg[c.Msg] = true
			nviol++
			os.MkdirAll(outDir, 0o755)
			f := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", *prop, nviol))
			js, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(f, js, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f)
			fmt.Printf("  %s: %s\n  assignment: %v\n  %s\n", c.Job, c.Msg, fmtVals(c.Vals), how)
			rc = 1
		}
	}
	// ----- summary -----
	complete := 0
	var paths, assumed int
	var forks int
	var steps int64
	var asserts, aconst, aprop, decided int
	reached := map[string]int{}
	type jobSum struct {
		Job      string   `json:"job"`
		Paths    int      `json:"paths"`
		Pruned   int      `json:"paths_outside_assumptions"`
		Complete bool     `json:"explored_completely"`
		Seconds  float64  `json:"wall_s"`
		Notes    []string `json:"notes,omitempty"`
	}
	var sums []jobSum
	for _, j := range jobs {
		paths += j.paths
		assumed += j.assumed
		forks += j.forks
		steps += j.steps
		asserts += j.asserts
		aconst += j.assertConst
		aprop += j.assertProp
		decided += j.decided
		for k, n := range j.reached {
			reached[k] += n
		}
		js := jobSum{Job: j.name(), Paths: j.paths, Pruned: j.assumed, Complete: j.complete(), Seconds: round3(j.last.Sub(j.first).Seconds())}
		if j.complete() {
			complete++
		} else {
			js.Notes = topKeys(j.incon, 4)
		}
		if j.paths == 0 && j.complete() {
			js.Notes = append(js.Notes, "VACUOUS: no path satisfies the assumptions")
			incon = append(incon, j.name()+": vacuous")
		}
		sums = append(sums, js)
		for _, m := range topKeys(j.incon, 3) {
			incon = append(incon, fmt.Sprintf("%s: %s (%d)", j.name(), m, j.incon[m]))
		}
	}
	var fnl []string
	for f := range ex.fns {
		if !strings.Contains(f, "/zzverif/") {
			fnl = append(fnl, f)
		}
	}
	sort.Strings(fnl)
	wall := time.Since(t0).Seconds()
	for _, x := range incon {
		fmt.Printf("# inconclusive: %s\n", firstLines(x, 12))
	}
	for i, x := range mismatches {
		if i < 6 {
			fmt.Printf("# translation mismatch: %s\n", x)
		}
	}
	if *verbose {
		for _, s := range sums {
			fmt.Printf("# %-40s paths=%d pruned=%d complete=%v %.2fs %v\n", s.Job, s.Paths, s.Pruned, s.Complete, s.Seconds, s.Notes)
		}
		fmt.Printf("# reached %v\n", reached)
		fmt.Printf("# solver errs %v\n", ex.solverErrs)
	}
	fmt.Printf("property %s (%s): %d/%d harness variants explored completely, %d paths (+%d outside assumptions), %d decisions, %d assertions (%d constant, %d by propagation, %d by the solver in %d path queries), %d solver queries in %.1fs, %d replayed natively (%d mismatches), violations=%d, %.1fs\n",
		*prop, *tier, complete, len(jobs), paths, assumed, forks, asserts, aconst, aprop, asserts-aconst-aprop, decided, ex.queries, ex.solverTime.Seconds(), validated, len(mismatches), nviol, wall)
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no path sampled"})
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": ck.level(), "wall_s": round3(wall), "violations": nviol,
		"assumptions": ck.assumptions(),
		"coverage": map[string]any{
			"states": paths, "transitions": forks, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":                               complete == len(jobs),
			"meaning":                                  "states = complete symbolic paths of the real code (each stands for every input satisfying its path condition); transitions = symbolic decisions (branches, value splits, scheduling choices); traces_validated_against_impl = paths whose model was run through the compiled code with identical observations",
			"bounds":                                   ck.Bounds,
			"functions_encoded":                        fnl,
			"functions_encoded_count":                  len(fnl),
			"harness_variants":                         len(jobs),
			"harness_variants_complete":                complete,
			"paths_outside_assumptions":                assumed,
			"ssa_instructions_executed":                steps,
			"assertions":                               asserts,
			"assertions_constant_on_their_path":        aconst,
			"assertions_decided_by_domain_propagation": aprop,
			"assertions_decided_by_solver":             asserts - aconst - aprop,
			"path_verdict_queries":                     decided,
			"solver_queries":                           ex.queries, "solver_sat": ex.sat, "solver_unsat": ex.unsat, "solver_unknown": ex.unknown,
			"solver_time_s":          round3(ex.solverTime.Seconds()),
			"solver":                 filepath.Base(bin),
			"reached":                reached,
			"inconclusive":           incon,
			"translation_mismatches": mismatches,
			"jobs":                   sums,
		},
	}
	if !*noev {
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		js, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), js, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	return rc
}

func round3(f float64) float64 { return math.Round(f*1000) / 1000 }

func fmtVals(m map[string]uint64) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		v := int64(m[k])
		if v > 1<<52 || v < -(1<<52) {
			fmt.Fprintf(&sb, "%s=%v ", k, math.Float64frombits(m[k]))
		} else {
			fmt.Fprintf(&sb, "%s=%d ", k, v)
		}
	}
	return strings.TrimSpace(sb.String())
}

func diff(s *Sample, r *nResult) string {
	if r.End != s.End {
		return fmt.Sprintf("end %q natively, %q symbolically (%s / %s)", r.End, s.End, r.Msg, s.Msg)
	}
	if len(r.Failed) > 0 {
		return "assertion fails natively only: " + r.Failed[0]
	}
	if len(r.Missing) > 0 {
		return fmt.Sprintf("inputs not chosen symbolically: %v", r.Missing)
	}
	if s.End == "panic" {
		return ""
	}
	if len(r.Obs) != len(s.Obs) {
		return fmt.Sprintf("%d observations natively, %d symbolically", len(r.Obs), len(s.Obs))
	}
	for i := range r.Obs {
		if r.Obs[i] != s.Obs[i] {
			a, b := math.Float64frombits(r.Obs[i].V), math.Float64frombits(s.Obs[i].V)
			if a != a && b != b {
				continue
			}
			return fmt.Sprintf("observation %d %s: %d (%g) natively, %s=%d (%g) symbolically", i, r.Obs[i].Name, int64(r.Obs[i].V), a, s.Obs[i].Name, int64(s.Obs[i].V), b)
		}
	}
	return ""
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var c Candidate
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	n := newNative(*repo, *verif, c.Pkg, tmp)
	ok, how := n.reproduce(&c)
	fmt.Println(ok, how)
	if ok {
		return 1
	}
	return 0
}
