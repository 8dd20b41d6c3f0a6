package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Native replay: the harness is compiled together with the code under test and run with
// the solver's values.

const zz = "github.com/RH12503/Triangula/zzverif"

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOSUMDB=off", "GOWORK=off")
}

type Native struct {
	repo, verif, dir string
	bin, raceBin     string
	pkg              string
	fns              []string
}

// harnessOverlay maps the virtual package directories under /repo to files of /verif.
func harnessOverlay(repo, verif string, pkgs []string) (map[string]string, error) {
	out := map[string]string{}
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", p, "*.go"))
		if len(fs) == 0 {
			return nil, fmt.Errorf("no harness package %s", p)
		}
		for _, f := range fs {
			out[filepath.Join(repo, "zzverif", p, filepath.Base(f))] = f
		}
	}
	return out, nil
}

var fakes = map[string]string{
	"math/rand":                    "fakerand",
	"github.com/dgryski/go-pcgr":   "fakepcgr",
	"github.com/panjf2000/ants/v2": "fakeants",
}

// rewriteImports makes copies of the repository's files that import a replaced package.
func (n *Native) rewriteImports(dir string, which map[string]string, ov map[string]string) error {
	return filepath.Walk(n.repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != n.repo && (strings.HasPrefix(b, ".") || b == "testdata" || b == "zzverif") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		type ed struct {
			pos, end int
			s        string
		}
		var eds []ed
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			to, ok := which[path]
			if !ok {
				continue
			}
			name := ""
			if im.Name == nil {
				switch path {
				case "math/rand":
					name = "rand "
				case "github.com/dgryski/go-pcgr":
					name = "pcgr "
				default:
					name = "ants "
				}
			}
			eds = append(eds, ed{fs.Position(im.Path.Pos()).Offset, fs.Position(im.Path.End()).Offset, name + strconv.Quote(zz+"/"+to)})
		}
		if len(eds) == 0 {
			return nil
		}
		sort.Slice(eds, func(i, j int) bool { return eds[i].pos > eds[j].pos })
		for _, e := range eds {
			src = append(src[:e.pos:e.pos], append([]byte(e.s), src[e.end:]...)...)
		}
		rel, _ := filepath.Rel(n.repo, p)
		q := filepath.Join(dir, "rw_"+strings.ReplaceAll(rel, "/", "__"))
		if err := os.WriteFile(q, src, 0o644); err != nil {
			return err
		}
		ov[p] = q
		return nil
	})
}

func harnessFuncs(verif, pkg string) ([]string, error) {
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	var out []string
	for _, f := range fs {
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !fd.Name.IsExported() || fd.Type.Params.NumFields() != 1 || fd.Type.Results != nil {
				continue
			}
			if id, ok := fd.Type.Params.List[0].Type.(*ast.Ident); ok && id.Name == "int" {
				out = append(out, fd.Name.Name)
			}
		}
	}
	return out, nil
}

const runnerSrc = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	h "%s"
	"%s/sym"
	ants "%s/fakeants"
)

type Case struct {
	Fn    string
	Var   int
	Vals  map[string]uint64
	Order []int
	Seed  uint64
}
type Result struct {
	End     string
	Msg     string
	Failed  []string
	Obs     []sym.Obs
	Missing []string
	Covered []string
}

var fns = map[string]func(int){
%s}

func run(c Case) (r Result) {
	sym.Reset(c.Vals, c.Order)
	sym.Seed = c.Seed
	ants.Reset()
	r.End = "ok"
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(sym.Stop); ok {
				r.End = s.Why
			} else {
				r.End, r.Msg = "panic", fmt.Sprint(e)
			}
		}
		r.Failed, r.Obs, r.Missing, r.Covered = sym.Failed, sym.Seen, sym.Missing, sym.Covered
	}()
	fns[c.Fn](c.Var)
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if len(l) > 1 {
			var c Case
			if e := json.Unmarshal(l, &c); e != nil {
				fmt.Fprintln(os.Stderr, e)
				os.Exit(3)
			}
			out.Encode(run(c))
		}
		if err != nil {
			return
		}
	}
}
`

func newNative(repo, verif, pkg, dir string) *Native {
	return &Native{repo: repo, verif: verif, pkg: pkg, dir: dir}
}

func (n *Native) build(race bool) (string, error) {
	if race && n.raceBin != "" {
		return n.raceBin, nil
	}
	if !race && n.bin != "" {
		return n.bin, nil
	}
	sub := filepath.Join(n.dir, "n")
	if race {
		sub = filepath.Join(n.dir, "r")
	}
	if err := os.MkdirAll(sub, 0o755); err != nil {
		return "", err
	}
	ov, err := harnessOverlay(n.repo, n.verif, []string{n.pkg, "sym", "fakeants", "fakerand", "fakepcgr"})
	if err != nil {
		return "", err
	}
	which := map[string]string{}
	for k, v := range fakes {
		if race && v == "fakeants" {
			continue // race replays use the real worker pool
		}
		which[k] = v
	}
	if err := n.rewriteImports(sub, which, ov); err != nil {
		return "", err
	}
	fns, err := harnessFuncs(n.verif, n.pkg)
	if err != nil {
		return "", err
	}
	var sb strings.Builder
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", f, f)
	}
	main := filepath.Join(sub, "main.go")
	if err := os.WriteFile(main, []byte(fmt.Sprintf(runnerSrc, zz+"/"+n.pkg, zz, zz, sb.String())), 0o644); err != nil {
		return "", err
	}
	ov[filepath.Join(n.repo, "zzverif", "run", "main.go")] = main
	js, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(sub, "overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(sub, "run")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zzverif/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	if race {
		n.raceBin = bin
	} else {
		n.bin = bin
	}
	return bin, nil
}

type nCase struct {
	Fn    string
	Var   int
	Vals  map[string]uint64
	Order []int
	Seed  uint64
}
type nResult struct {
	End     string
	Msg     string
	Failed  []string
	Obs     []Obs
	Missing []string
	Covered []string
	crash   string
}

// batch runs the cases in one process; a crash ends it early.
func (n *Native) batch(cases []nCase, race bool, timeout time.Duration) ([]nResult, string, error) {
	bin, err := n.build(race)
	if err != nil {
		return nil, "", err
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range cases {
		if err := enc.Encode(c); err != nil {
			return nil, "", err
		}
	}
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	timedOut := false
	t := time.AfterFunc(timeout, func() { timedOut = true; cmd.Process.Kill() })
	var rs []nResult
	rd := bufio.NewReaderSize(out, 1<<20)
	for {
		l, err := rd.ReadBytes('\n')
		if len(l) > 1 {
			var r nResult
			if e := json.Unmarshal(l, &r); e == nil {
				rs = append(rs, r)
			}
		}
		if err != nil {
			break
		}
	}
	io.Copy(io.Discard, rd)
	werr := cmd.Wait()
	t.Stop()
	crash := ""
	if timedOut {
		crash = "timeout"
	} else if werr != nil {
		s := errb.String()
		if len(s) > 4000 {
			s = s[:4000]
		}
		crash = werr.Error() + ": " + s
	}
	return rs, crash, nil
}

// reproduce runs one counterexample natively and says whether the real code shows it.
func (n *Native) reproduce(c *Candidate) (bool, string) {
	nc := nCase{Fn: c.Fn, Var: c.Var, Vals: c.Vals, Order: c.Order}
	switch c.Kind {
	case "race":
		cs := make([]nCase, 20)
		for i := range cs {
			cs[i] = nc
			cs[i].Order = nil
		}
		_, crash, err := n.batch(cs, true, 120*time.Second)
		if err != nil {
			return false, err.Error()
		}
		if strings.Contains(crash, "DATA RACE") {
			return true, "race detector: " + firstLines(crash, 12)
		}
		return false, "race detector silent: " + crash
	}
	if c.Kind == "never" {
		// the models of the paths and arbitrary values: none may show it
		var cs []nCase
		for _, m := range c.Models {
			cs = append(cs, nCase{Fn: c.Fn, Var: c.Var, Vals: m})
		}
		for i := 0; i < 2000; i++ {
			cs = append(cs, nCase{Fn: c.Fn, Var: c.Var, Seed: uint64(i)*0x9E3779B97F4A7C15 + 1})
		}
		rs, crash, err := n.batch(cs, false, 100*time.Second)
		if err != nil {
			return false, err.Error()
		}
		runs := 0
		for _, r := range rs {
			if r.End == "ok" {
				runs++
				for _, m := range r.Covered {
					if m == c.Msg {
						return false, "a native run shows it"
					}
				}
			}
		}
		if runs == 0 {
			return false, "no native run: " + crash
		}
		return true, fmt.Sprintf("the solver excludes it on every path, and %d native runs do not show it", runs)
	}
	rs, crash, err := n.batch([]nCase{nc}, false, 25*time.Second)
	if err != nil {
		return false, err.Error()
	}
	if crash != "" && len(rs) == 0 {
		if crash == "timeout" {
			return true, "native run does not terminate within 25 s"
		}
		return true, "native run crashed: " + firstLines(crash, 6)
	}
	if len(rs) == 0 {
		return false, "no native result"
	}
	r := rs[0]
	if r.End == "assume" {
		return false, "native run leaves the assumptions"
	}
	if len(r.Failed) > 0 {
		for _, f := range r.Failed {
			if f == c.Msg {
				return true, "native run fails: " + f
			}
		}
		return true, "native run fails: " + r.Failed[0]
	}
	if r.End == "panic" {
		return true, "native run panics: " + r.Msg
	}
	return false, fmt.Sprintf("native run passes (end=%s missing=%v)", r.End, r.Missing)
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}
