// Package saved: the output written while an algorithm runs. In symbolic runs the functions
// of the standard library that write files and JSON are replaced by the stand-ins below, which
// keep what they are given; native replays write to a scratch directory.
package saved

import (
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/RH12503/Triangula/algorithm"
	"github.com/RH12503/Triangula/normgeom"
	"github.com/RH12503/Triangula/utils"
	"github.com/RH12503/Triangula/zzverif/sym"
)

type N = normgeom.NormPoint
type G = normgeom.NormPointGroup

var (
	kept  []G // what was turned into JSON; nil: something that is not a group of points
	files = map[string][]byte{}
	names = map[*os.File]*open{}

	printing bool
	printed  []byte

	encoders = map[*json.Encoder]io.Writer{}
)

// open is a file that is open.
type open struct {
	name   string
	at     int
	append bool
}

func ioMarshal(v interface{}) ([]byte, error) {
	var g G
	switch x := v.(type) {
	case G:
		g = append(G{}, x...)
	case *G:
		g = append(G{}, *x...)
	case []N:
		g = append(G{}, x...)
	}
	kept = append(kept, g)
	return []byte{'[', byte(len(kept)), ']'}, nil
}
func ioMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) { return ioMarshal(v) }
func ioNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = w
	return e
}
func ioEncode(e *json.Encoder, v interface{}) error {
	b, _ := ioMarshal(v)
	_, err := encoders[e].Write(append(b, '\n'))
	return err
}
func ioWriteFile(name string, data []byte, perm os.FileMode) error {
	files[name] = append([]byte{}, data...)
	return nil
}
func ioOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&os.O_CREATE == 0 && files[name] == nil {
		return nil, os.ErrNotExist
	}
	if flag&os.O_TRUNC != 0 || files[name] == nil {
		files[name] = []byte{}
	}
	f := new(os.File)
	names[f] = &open{name: name, append: flag&os.O_APPEND != 0}
	return f, nil
}
func ioCreate(name string) (*os.File, error) { return ioOpenFile(name, os.O_TRUNC|os.O_CREATE, 0) }
func ioCreateTemp(dir, pattern string) (*os.File, error) {
	return ioCreate(dir + "/" + pattern + string([]byte{'a' + byte(len(names))}))
}
func ioName(f *os.File) string { return names[f].name }
func ioWrite(f *os.File, b []byte) (int, error) {
	o := names[f]
	if o == nil { // standard output
		return ioPrinted(b)
	}
	if o.append {
		o.at = len(files[o.name])
	}
	ioWriteAt(f, b, int64(o.at))
	o.at += len(b)
	return len(b), nil
}
func ioWriteAt(f *os.File, b []byte, off int64) (int, error) {
	o := names[f]
	old := files[o.name]
	data := append([]byte{}, old...)
	for len(data) < int(off)+len(b) {
		data = append(data, 0)
	}
	copy(data[off:], b)
	files[o.name] = data
	return len(b), nil
}
func ioSeek(f *os.File, off int64, whence int) (int64, error) {
	o := names[f]
	switch whence {
	case 0:
		o.at = 0
	case 2:
		o.at = len(files[o.name])
	}
	o.at += int(off)
	return int64(o.at), nil
}
func ioTruncate(f *os.File, n int64) error {
	o := names[f]
	data := append([]byte{}, files[o.name]...)
	for len(data) < int(n) {
		data = append(data, 0)
	}
	files[o.name] = data[:n]
	return nil
}
func ioWriteString(f *os.File, s string) (int, error) { return ioWrite(f, []byte(s)) }
func ioClose(f *os.File) error                        { return nil }
func ioChmod(name string, m os.FileMode) error        { return nil }
func ioRename(from, to string) error {
	files[to] = files[from]
	delete(files, from)
	for _, o := range names {
		if o.name == from {
			o.name = to
		}
	}
	return nil
}
func ioRemove(name string) error {
	if files[name] == nil {
		return os.ErrNotExist
	}
	delete(files, name)
	return nil
}
func ioReadFile(name string) ([]byte, error) {
	if files[name] == nil {
		return nil, os.ErrNotExist
	}
	return append([]byte{}, files[name]...), nil
}
func ioPrinted(b []byte) (int, error) {
	if printing {
		printed = append(printed, b...)
	}
	return len(b), nil
}
func ioPrintf(format string, a ...interface{}) (int, error) {
	if !printing {
		return 0, nil
	}
	return ioPrinted([]byte(fmt.Sprintf(format, a...)))
}
func ioPrint(a ...interface{}) (int, error) {
	if !printing {
		return 0, nil
	}
	return ioPrinted([]byte(fmt.Sprint(a...)))
}
func ioPrintln(a ...interface{}) (int, error) {
	if !printing {
		return 0, nil
	}
	return ioPrinted([]byte(fmt.Sprintln(a...)))
}
func ioFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintf(format, a...)))
}
func ioFprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(fmt.Sprint(a...))) }
func ioFprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmt.Sprintln(a...)))
}

// points reads the group of points in a file.
func points(name string) (G, bool) {
	if !sym.Symbolic() {
		b, err := os.ReadFile(name)
		var g G
		return g, err == nil && json.Unmarshal(b, &g) == nil
	}
	b := files[name]
	for len(b) > 0 && b[len(b)-1] == '\n' {
		b = b[:len(b)-1]
	}
	if len(b) != 3 || b[0] != '[' || b[2] != ']' || kept[b[1]-1] == nil {
		return nil, false
	}
	return kept[b[1]-1], true
}

func text(name string) string {
	if !sym.Symbolic() {
		b, _ := os.ReadFile(name)
		return string(b)
	}
	return string(files[name])
}

func fill(name, s string) {
	if !sym.Symbolic() {
		os.WriteFile(name, []byte(s), 0o600)
		return
	}
	files[name] = []byte(s)
}

// run is an algorithm whose best points the solver chooses.
type run struct {
	name  string
	reps  int
	limit int
	best  G
	past  []G
	fits  []float64
	lines []string
}

type enough struct{}

func (r *run) Best() G { return r.best }
func (r *run) Stats() algorithm.Stats {
	return algorithm.Stats{Generation: len(r.past) - 1, BestFitness: r.fits[len(r.past)-1]}
}

func (r *run) point(i int) N {
	p := N{X: float64(i%5) / 4, Y: float64(i%9) / 8}
	if i%3 == 0 {
		p = N{X: sym.Float("x", 0, 64, 64), Y: sym.Float("y", 0, 1024, 1024)}
	}
	return p
}

// another is the state after one more generation.
func (r *run) another() {
	g := len(r.past)
	for i := range r.best {
		r.best[i] = r.point(g + i)
	}
	r.past = append(r.past, append(G{}, r.best...))
	r.fits = append(r.fits, 0.5+float64(g)/1024)
}

func (r *run) Step() {
	r.check()
	if len(r.past) > r.limit {
		panic(enough{})
	}
	r.another()
}

// check looks at the files as anyone could between two generations.
func (r *run) check() {
	gen := len(r.past) - 1
	reports := gen / r.reps
	if reports == 0 {
		return
	}
	last := reports * r.reps
	stats := ""
	for k := r.reps; k <= last; k += r.reps {
		stats += fmt.Sprintf("%v, %v\n", k, r.fits[k])
	}
	if printing {
		out := string(printed)
		if !sym.Symbolic() {
			out = text(r.name)
		}
		sym.Assert(out == stats, "the generation and the best fitness are not printed for every report")
		sym.Reach("printed")
		return
	}
	g, ok := points(r.name)
	sym.Assert(ok, "the points cannot be read from the file")
	if !ok {
		return
	}
	want := r.past[last]
	sym.Assert(len(g) == len(want), "the file holds another number of points")
	if len(g) != len(want) {
		return
	}
	var same []bool
	for i := range g {
		same = append(same, g[i].X == want[i].X, g[i].Y == want[i].Y)
	}
	sym.Assert(sym.And(same...), "the file does not hold the best points of the last report")
	sym.Assert(text(r.name+"-stats") == stats, "the statistics do not list the generation and the best fitness of every report")
	sym.Reach("report")
}

// Output: v = number of points + 10 * whether the files were there before.
func Output(v int) {
	r := &run{limit: 7, reps: 1 + sym.Pick("reps", 4), best: make(G, v%10)}
	dir := "/scratch"
	if !sym.Symbolic() {
		dir, _ = os.MkdirTemp("", "saved")
		defer os.RemoveAll(dir)
		out := os.Stdout
		os.Stdout, _ = os.Open(os.DevNull)
		defer func() { os.Stdout = out }()
	}
	r.name = dir + "/points"
	if v >= 10 {
		old := "[[0.125,0.25],"
		for len(old) < 4000 {
			old += old
		}
		fill(r.name, old)
		fill(r.name+"-stats", old)
	}
	r.another()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(enough); !ok {
				panic(e)
			}
		}
	}()
	utils.GenerateAlgorithmOutput(r.name, r, r.reps)
}

// Printed: a run that prints its progress. v = number of points.
func Printed(v int) {
	r := &run{limit: 13, reps: 1 + sym.Pick("reps", 6), best: make(G, v)}
	printing, printed = true, nil
	if !sym.Symbolic() {
		dir, _ := os.MkdirTemp("", "saved")
		defer os.RemoveAll(dir)
		r.name = dir + "/printed"
		out := os.Stdout
		os.Stdout, _ = os.Create(r.name)
		defer func() { os.Stdout, printing = out, false }()
	}
	r.another()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(enough); !ok {
				panic(e)
			}
		}
	}()
	utils.RunAlgorithm(r, r.reps)
}
