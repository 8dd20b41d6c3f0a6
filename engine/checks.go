package main

type Set struct {
	Pkg, Fn  string
	Quick    []int
	Thorough []int
	Opts     Opts
}
type Check struct {
	Prop   string
	Bounds []string
	Assume []string
	Budget int
	Level  string
	Note   string
	Tech   string
	Sets   []Set
}

func (c *Check) level() string {
	if c.Level != "" {
		return c.Level
	}
	return "model_checking"
}
func (c *Check) assumptions() []string {
	return append(append([]string{}, c.Assume...), commonAssume...)
}

var commonAssume = []string{
	"the Go SSA of the current source (golang.org/x/tools/go/ssa) is the program; the engine's operator semantics are validated by replaying sampled paths through the compiled code",
	"the solver's unsat answers are trusted",
}

func findCheck(id string) *Check {
	for i := range checks {
		if checks[i].Prop == id {
			return &checks[i]
		}
	}
	return nil
}

func seq(lo, hi int) []int {
	var o []int
	for i := lo; i <= hi; i++ {
		o = append(o, i)
	}
	return o
}

func cmdManifest(args []string) int { return 0 }
