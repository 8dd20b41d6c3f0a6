package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Solver is one SMT solver process driven over a pipe.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	tt      *TermTab
	gen     int
	stack   []string // asserted expressions, one push level each
	emitted map[*Term]emitted
	mdd     map[string]*mddNode
	mddID   int
	ufs     map[string]bool
	defs    int
	hasFP   bool
	timeout int // ms
	tryMs   int // ms for the next query, when positive
	wb      strings.Builder

	queries int
	sat     int
	unsat   int
	unknown int
	time    time.Duration
	errs    []string
	logf    io.Writer
}

type emitted struct {
	e string
	w int
}

func newSolver(tt *TermTab, bin string, timeoutMs int) *Solver {
	return &Solver{bin: bin, tt: tt, timeout: timeoutMs}
}

func (s *Solver) start() error {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = nil
	s.emitted = map[*Term]emitted{}
	s.mdd = map[string]*mddNode{}
	s.ufs = map[string]bool{}
	s.defs = 0
	s.hasFP = false
	s.wb.Reset()
	s.put("(set-option :global-declarations true)")
	s.put("(set-option :produce-models true)")
	if !strings.Contains(s.bin, "cvc5") {
		s.put(fmt.Sprintf("(set-option :timeout %d)", s.timeout))
		s.put("(set-option :memory_max_size 3000)")
	}
	s.put("(set-logic ALL)")
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) put(x string) {
	s.wb.WriteString(x)
	s.wb.WriteByte('\n')
}

func bitsFor(lo, hi int64) int {
	for n := 1; n < 64; n++ {
		if lo >= -(int64(1)<<(n-1)) && hi <= int64(1)<<(n-1)-1 {
			return n
		}
	}
	return 64
}
func (t *Term) width() int {
	if t.big {
		return 65
	}
	return bitsFor(t.lo, t.hi)
}

func bvConst(v int64, w int) string {
	b := make([]byte, w)
	for i := 0; i < w; i++ {
		sh := uint(i)
		if sh > 63 {
			sh = 63
		}
		b[w-1-i] = '0' + byte((v>>sh)&1)
	}
	return "#b" + string(b)
}
func bvConstU(v uint64, w int) string {
	b := make([]byte, w)
	for i := 0; i < w; i++ {
		if i > 63 {
			b[w-1-i] = '0'
		} else {
			b[w-1-i] = '0' + byte((v>>uint(i))&1)
		}
	}
	return "#b" + string(b)
}
func ext(e string, w, to int) string {
	if to > w {
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-w, e)
	}
	if to < w {
		return fmt.Sprintf("((_ extract %d 0) %s)", to-1, e)
	}
	return e
}

func (s *Solver) varName(id int32) string {
	v := s.tt.vars[id]
	if v.declared != s.gen {
		v.declared = s.gen
		if v.isFloat {
			s.put(fmt.Sprintf("(declare-const v%d (_ BitVec 64))", id))
		} else {
			s.put(fmt.Sprintf("(declare-const v%d (_ BitVec %d))", id, bitsFor(v.lo, v.hi)))
		}
	}
	return fmt.Sprintf("v%d", id)
}

func (s *Solver) define(t *Term, sort, e string) string {
	n := fmt.Sprintf("t%d", t.id)
	s.put(fmt.Sprintf("(define-fun %s () %s %s)", n, sort, e))
	s.defs++
	return n
}

const fullTableLimit = 70000

// domSize: product of declared domains of the support, or -1 when too large / float.
func (s *Solver) domSize(t *Term) int64 {
	n := int64(1)
	for _, v := range t.sup {
		x := s.tt.vars[v]
		if x.isFloat {
			return -1
		}
		n *= x.hi - x.lo + 1
		if n > fullTableLimit || n <= 0 {
			return -1
		}
	}
	return n
}

func (s *Solver) fullTable(t *Term) *mddNode {
	vars := t.sup
	var rows []mddRow
	tuple := make([]int64, len(vars))
	var rec func(i int)
	rec = func(i int) {
		if i == len(vars) {
			v := evalTerm(t, func(id int32) uint64 {
				for j, x := range vars {
					if x == id {
						return uint64(tuple[j])
					}
				}
				return 0
			}, map[*Term]uint64{})
			rows = append(rows, mddRow{append([]int64(nil), tuple...), int64(v)})
			return
		}
		x := s.tt.vars[vars[i]]
		for v := x.lo; v <= x.hi; v++ {
			tuple[i] = v
			rec(i + 1)
		}
	}
	rec(0)
	w := 0
	if t.k == KInt {
		w = t.width()
	}
	return s.buildMDD(vars, rows, 0, w)
}

// emit renders t; returns expression and (for ints) its width.
func (s *Solver) emit(t *Term) (string, int) {
	if e, ok := s.emitted[t]; ok {
		return e.e, e.w
	}
	e, w := s.emit1(t)
	switch t.op {
	case OConst, OVar, ONot:
	default:
		switch t.k {
		case KInt:
			e = s.define(t, fmt.Sprintf("(_ BitVec %d)", w), e)
		case KBool:
			e = s.define(t, "Bool", e)
		case KF64:
			s.hasFP = true
			e = s.define(t, "(_ FloatingPoint 11 53)", e)
		case KF32:
			s.hasFP = true
			e = s.define(t, "(_ FloatingPoint 8 24)", e)
		}
	}
	s.emitted[t] = emitted{e, w}
	return e, w
}

func (s *Solver) emit1(t *Term) (string, int) {
	w := 0
	if t.k == KInt {
		w = t.width()
	}
	if t.float && (t.k == KInt || t.k == KBool) {
		if t.op == OF2I || t.op == OFLt || t.op == OFLe || t.op == OFEq {
			if n := s.domSize(t); n >= 0 {
				return s.fullTable(t).name, w
			}
		}
	}
	sub := func(i, to int) string {
		e, aw := s.emit(t.args[i])
		return ext(e, aw, to)
	}
	mx := func(ws ...int) int {
		m := ws[0]
		for _, x := range ws {
			if x > m {
				m = x
			}
		}
		return m
	}
	aw := func(i int) int { return t.args[i].width() }
	raw64 := func(i int) string { return sub(i, 64) }
	wrap := func(e string, ew int, g GK) string {
		b := g.bits()
		x := ext(e, ew, b)
		if g.signed() {
			return ext(x, b, w)
		}
		if w > b {
			return fmt.Sprintf("((_ zero_extend %d) %s)", w-b, x)
		}
		return ext(x, b, w)
	}
	switch t.op {
	case OConst:
		switch t.k {
		case KInt:
			if t.big {
				return bvConstU(uint64(t.c), 65), 65
			}
			return bvConst(t.c, w), w
		case KBool:
			if t.c != 0 {
				return "true", 0
			}
			return "false", 0
		case KF64:
			return "((_ to_fp 11 53) " + bvConstU(uint64(t.c), 64) + ")", 0
		case KF32:
			return "((_ to_fp 8 24) " + bvConstU(uint64(math.Float32bits(float32(fval(t)))), 32) + ")", 0
		}
	case OVar:
		return s.varName(int32(t.c)), w
	case OLin:
		m := absMax(t.c, t.c)
		for i, c := range t.coef {
			lo, hi := mulRange(c, c, t.args[i].lo, t.args[i].hi)
			m = satAdd(m, absMax(lo, hi))
			m = satAdd(m, 0)
		}
		W := bitsFor(-m-1, m)
		for i := range t.args {
			W = mx(W, aw(i))
		}
		var pos []string
		for i, c := range t.coef {
			x := sub(i, W)
			switch c {
			case 1:
			case -1:
				x = "(bvneg " + x + ")"
			default:
				x = "(bvmul " + bvConst(c, W) + " " + x + ")"
			}
			pos = append(pos, x)
		}
		if t.c != 0 {
			pos = append(pos, bvConst(t.c, W))
		}
		e := pos[0]
		for _, x := range pos[1:] {
			e = "(bvadd " + e + " " + x + ")"
		}
		return ext(e, W, w), w
	case OMul:
		W := mx(w, aw(0), aw(1))
		return ext("(bvmul "+sub(0, W)+" "+sub(1, W)+")", W, w), w
	case ODiv, ORem:
		W := mx(w, aw(0), aw(1)) + 1
		op := "bvsdiv"
		if t.op == ORem {
			op = "bvsrem"
		}
		return ext("("+op+" "+sub(0, W)+" "+sub(1, W)+")", W, w), w
	case OUDiv, OURem:
		op := "bvudiv"
		if t.op == OURem {
			op = "bvurem"
		}
		e := "(" + op + " " + raw64(0) + " " + raw64(1) + ")"
		return ext("((_ zero_extend 1) "+e+")", 65, w), w
	case OAnd, OOr, OXor:
		op := map[Op]string{OAnd: "bvand", OOr: "bvor", OXor: "bvxor"}[t.op]
		W := mx(w, aw(0), aw(1))
		return ext("("+op+" "+sub(0, W)+" "+sub(1, W)+")", W, w), w
	case OShr:
		W := aw(0)
		if t.c >= int64(W) {
			return ext("(bvashr "+sub(0, W)+" "+bvConst(int64(W)-1, W+1)[0:2]+bvConst(int64(W)-1, W)[2:]+")", W, w), w
		}
		e := fmt.Sprintf("((_ extract %d %d) %s)", W-1, t.c, sub(0, W))
		return ext(e, W-int(t.c), w), w
	case OWrap:
		W := mx(aw(0), t.gk.bits())
		return wrap(sub(0, W), W, t.gk), w
	case OWAdd, OWSub, OWMul:
		op := map[Op]string{OWAdd: "bvadd", OWSub: "bvsub", OWMul: "bvmul"}[t.op]
		return wrap("("+op+" "+raw64(0)+" "+raw64(1)+")", 64, t.gk), w
	case OB2I:
		c, _ := s.emit(t.args[0])
		return "(ite " + c + " " + bvConst(1, w) + " " + bvConst(0, w) + ")", w
	case OIte:
		c, _ := s.emit(t.args[0])
		if t.k == KInt {
			return "(ite " + c + " " + sub(1, w) + " " + sub(2, w) + ")", w
		}
		a, _ := s.emit(t.args[1])
		b, _ := s.emit(t.args[2])
		return "(ite " + c + " " + a + " " + b + ")", 0
	case OTab:
		x, xw := s.emit(t.args[0])
		e := bvConst(t.tab[len(t.tab)-1], w)
		for i := len(t.tab) - 2; i >= 0; i-- {
			e = "(ite (= " + x + " " + bvConst(int64(i)+t.c, xw) + ") " + bvConst(t.tab[i], w) + " " + e + ")"
		}
		return e, w
	case OLe0:
		W := aw(0)
		return "(bvsle " + sub(0, W) + " " + bvConst(0, W) + ")", 0
	case OEq0:
		W := aw(0)
		return "(= " + sub(0, W) + " " + bvConst(0, W) + ")", 0
	case OULt:
		return "(bvult " + sub(0, 65) + " " + sub(1, 65) + ")", 0
	case OEqW:
		W := mx(aw(0), aw(1))
		return "(= " + sub(0, W) + " " + sub(1, W) + ")", 0
	case ONot:
		c, _ := s.emit(t.args[0])
		return "(not " + c + ")", 0
	case OBAnd, OBOr:
		var sb strings.Builder
		if t.op == OBAnd {
			sb.WriteString("(and")
		} else {
			sb.WriteString("(or")
		}
		for _, a := range t.args {
			c, _ := s.emit(a)
			sb.WriteByte(' ')
			sb.WriteString(c)
		}
		sb.WriteByte(')')
		return sb.String(), 0
	case OFVar:
		return "((_ to_fp 11 53) " + s.varName(int32(t.c)) + ")", 0
	}
	// floating point
	fp := "(_ to_fp 11 53)"
	if t.k == KF32 {
		fp = "(_ to_fp 8 24)"
	}
	fa := func(i int) string { e, _ := s.emit(t.args[i]); return e }
	switch t.op {
	case OI2F, OI2FR:
		e, _ := s.emit(t.args[0])
		x := "(" + fp + " RNE " + e + ")"
		if t.op == OI2F && t.c != 0 {
			sc := s.tt.FK(math.Ldexp(1, -int(t.c)), t.k)
			c, _ := s.emit(sc)
			x = "(fp.mul RNE " + x + " " + c + ")"
		}
		return x, 0
	case OU2F:
		e, ew := s.emit(t.args[0])
		return "(" + fp + " RNE " + ext(e, ew, 66) + ")", 0
	case OFAdd:
		return "(fp.add RNE " + fa(0) + " " + fa(1) + ")", 0
	case OFSub:
		return "(fp.sub RNE " + fa(0) + " " + fa(1) + ")", 0
	case OFMul:
		return "(fp.mul RNE " + fa(0) + " " + fa(1) + ")", 0
	case OFDiv:
		return "(fp.div RNE " + fa(0) + " " + fa(1) + ")", 0
	case OFNeg:
		return "(fp.neg " + fa(0) + ")", 0
	case OFCvt:
		return "(" + fp + " RNE " + fa(0) + ")", 0
	case OFLt:
		return "(fp.lt " + fa(0) + " " + fa(1) + ")", 0
	case OFLe:
		return "(fp.leq " + fa(0) + " " + fa(1) + ")", 0
	case OFEq:
		return "(fp.eq " + fa(0) + " " + fa(1) + ")", 0
	case OFUn:
		a := fa(0)
		switch funUn[t.c].name {
		case "Sqrt":
			return "(fp.sqrt RNE " + a + ")", 0
		case "Floor":
			return "(fp.roundToIntegral RTN " + a + ")", 0
		case "Ceil":
			return "(fp.roundToIntegral RTP " + a + ")", 0
		case "Trunc":
			return "(fp.roundToIntegral RTZ " + a + ")", 0
		case "Round":
			return "(fp.roundToIntegral RNA " + a + ")", 0
		case "RoundToEven":
			return "(fp.roundToIntegral RNE " + a + ")", 0
		case "Abs":
			return "(fp.abs " + a + ")", 0
		}
		n := "uf_" + funUn[t.c].name
		if !s.ufs[n] {
			s.ufs[n] = true
			s.put("(declare-fun " + n + " ((_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))")
		}
		return "(" + n + " " + a + ")", 0
	case OFBin:
		n := "uf_" + funBin[t.c].name
		a, b := fa(0), fa(1)
		switch funBin[t.c].name {
		case "Max", "Min":
			cmp := "fp.gt"
			if funBin[t.c].name == "Min" {
				cmp = "fp.lt"
			}
			// NaN if either is NaN; ±0 handled by bit choice of the first operand
			return "(ite (or (fp.isNaN " + a + ") (fp.isNaN " + b + ")) (_ NaN 11 53) (ite (" + cmp + " " + a + " " + b + ") " + a + " " + b + "))", 0
		}
		if !s.ufs[n] {
			s.ufs[n] = true
			s.put("(declare-fun " + n + " ((_ FloatingPoint 11 53) (_ FloatingPoint 11 53)) (_ FloatingPoint 11 53))")
		}
		return "(" + n + " " + a + " " + b + ")", 0
	case OF2I:
		a := fa(0)
		b := t.gk.bits()
		lim := s.tt.FK(math.Ldexp(1, 63), t.args[0].k)
		l, _ := s.emit(lim)
		nl, _ := s.emit(s.tt.FK(-math.Ldexp(1, 63), t.args[0].k))
		conv := "(ite (and (fp.leq " + nl + " " + a + ") (fp.lt " + a + " " + l + ")) ((_ fp.to_sbv 64) RTZ " + a + ") " + bvConst(math.MinInt64, 64) + ")"
		_ = b
		return wrap(conv, 64, t.gk), w
	}
	panic(unsupported("emit op %d", t.op))
}

// ---------- multi-valued decision diagrams for tabulated functions ----------
type mddNode struct {
	id   int
	name string // expression
	leaf bool
	v    int64
}
type mddRow struct {
	t []int64
	v int64
}

func (s *Solver) mddLeaf(v int64, w int) *mddNode {
	k := fmt.Sprintf("L%d|%d", v, w)
	if n, ok := s.mdd[k]; ok {
		return n
	}
	n := &mddNode{id: s.mddID, leaf: true, v: v}
	s.mddID++
	if w == 0 {
		n.name = "false"
		if v != 0 {
			n.name = "true"
		}
	} else if w == 65 {
		n.name = bvConstU(uint64(v), 65)
	} else {
		n.name = bvConst(v, w)
	}
	s.mdd[k] = n
	return n
}

// buildMDD: rows must be sorted lexicographically and unique.
func (s *Solver) buildMDD(vars []int32, rows []mddRow, lvl int, w int) *mddNode {
	if lvl == len(vars) {
		return s.mddLeaf(rows[0].v, w)
	}
	same := true
	for _, r := range rows[1:] {
		if r.v != rows[0].v {
			same = false
			break
		}
	}
	if same {
		return s.mddLeaf(rows[0].v, w)
	}
	type br struct {
		hi int64
		n  *mddNode
	}
	var brs []br
	for i := 0; i < len(rows); {
		j := i
		for j < len(rows) && rows[j].t[lvl] == rows[i].t[lvl] {
			j++
		}
		c := s.buildMDD(vars, rows[i:j], lvl+1, w)
		if len(brs) > 0 && brs[len(brs)-1].n == c {
			brs[len(brs)-1].hi = rows[i].t[lvl]
		} else {
			brs = append(brs, br{rows[i].t[lvl], c})
		}
		i = j
	}
	if len(brs) == 1 {
		return brs[0].n
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "N%d|%d", vars[lvl], w)
	for _, b := range brs {
		fmt.Fprintf(&kb, "|%d:%d", b.hi, b.n.id)
	}
	k := kb.String()
	if n, ok := s.mdd[k]; ok {
		return n
	}
	x := s.varName(vars[lvl])
	vw := bitsFor(s.tt.vars[vars[lvl]].lo, s.tt.vars[vars[lvl]].hi)
	var tree func(a, b int) string
	tree = func(a, b int) string {
		if a == b {
			return brs[a].n.name
		}
		m := (a + b) / 2
		return "(ite (bvsle " + x + " " + bvConst(brs[m].hi, vw) + ") " + tree(a, m) + " " + tree(m+1, b) + ")"
	}
	n := &mddNode{id: s.mddID}
	s.mddID++
	n.name = fmt.Sprintf("m%d", n.id)
	so := "Bool"
	if w > 0 {
		so = fmt.Sprintf("(_ BitVec %d)", w)
	}
	s.put(fmt.Sprintf("(define-fun %s () %s %s)", n.name, so, tree(0, len(brs)-1)))
	s.defs++
	s.mdd[k] = n
	return n
}

// tableOf renders boolean term t as a table over the alive tuples of a group snapshot.
func (s *Solver) tableOf(p *Path, t *Term, g *Group, alive []int32) string {
	col := g.colAt(p, t, alive)
	if col.isC {
		if col.c != 0 {
			return "true"
		}
		return "false"
	}
	var vars []int32
	for _, v := range t.sup {
		if _, ok := g.base[v]; ok {
			vars = append(vars, v)
		}
	}
	rows := make([]mddRow, 0, len(alive))
	for _, i := range alive {
		tp := make([]int64, len(vars))
		for j, v := range vars {
			tp[j] = g.base[v][i]
		}
		rows = append(rows, mddRow{tp, int64(col.v[i])})
	}
	sort.Slice(rows, func(i, j int) bool {
		a, b := rows[i].t, rows[j].t
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	})
	n := 0
	for i := range rows {
		if i > 0 {
			eq := true
			for k := range rows[i].t {
				if rows[i].t[k] != rows[n-1].t[k] {
					eq = false
					break
				}
			}
			if eq {
				continue
			}
		}
		rows[n] = rows[i]
		n++
	}
	rows = rows[:n]
	return s.buildMDD(vars, rows, 0, 0).name
}

// ---------- queries ----------
type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides conj(pc) ∧ extra. vars: variables to read back.
func (s *Solver) check(pc []string, extra string, vars []int32) (satResult, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.put(fmt.Sprintf("(pop %d)", k))
		s.stack = s.stack[:n]
	}
	for _, e := range pc[n:] {
		s.put("(push 1)\n(assert " + e + ")")
		s.stack = append(s.stack, e)
	}
	s.put("(push 1)")
	if extra != "" {
		s.put("(assert " + extra + ")")
	}
	if s.hasFP || len(s.ufs) > 0 || strings.Contains(s.bin, "cvc5") {
		s.put("(check-sat)")
	} else {
		if s.tryMs > 0 {
			s.put(fmt.Sprintf("(check-sat-using (try-for qfbv %d))", s.tryMs))
		} else {
			s.put("(check-sat-using qfbv)")
		}
	}
	fail := func(msg string) (satResult, map[int32]uint64) {
		s.unknown++
		if len(s.errs) < 20 {
			s.errs = append(s.errs, msg)
		}
		s.close()
		s.start()
		return resUnknown, nil
	}
	if s.logf != nil {
		io.WriteString(s.logf, s.wb.String())
	}
	_, err := io.WriteString(s.in, s.wb.String())
	s.wb.Reset()
	if err != nil {
		return fail("write: " + err.Error())
	}
	// watchdog
	done := make(chan struct{})
	go func(c *exec.Cmd, tm int) {
		select {
		case <-done:
		case <-time.After(time.Duration(tm)*time.Millisecond + 5*time.Second):
			c.Process.Kill()
		}
	}(s.cmd, s.timeout)
	l, err := s.readLine()
	close(done)
	if err != nil {
		return fail("solver died: " + err.Error())
	}
	switch l {
	case "unsat":
		s.unsat++
		s.put("(pop 1)")
		return resUnsat, nil
	case "sat":
		s.sat++
		m := map[int32]uint64{}
		var live []int32
		for _, v := range vars {
			if s.tt.vars[v].declared == s.gen {
				live = append(live, v)
			}
		}
		if len(live) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range live {
				fmt.Fprintf(&sb, " v%d", v)
			}
			sb.WriteString("))\n")
			io.WriteString(s.in, sb.String())
			depth, txt := 0, ""
			for {
				l, err := s.readLine()
				if err != nil {
					return fail("model: " + err.Error())
				}
				txt += l + " "
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			if strings.Contains(txt, "(error") {
				return fail(txt)
			}
			f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
			for i := 0; i+1 < len(f); i += 2 {
				id, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
				if err != nil {
					return fail("model parse: " + txt)
				}
				b := f[i+1]
				var u uint64
				w := 0
				if strings.HasPrefix(b, "#b") {
					u, err = strconv.ParseUint(b[2:], 2, 64)
					w = len(b) - 2
				} else {
					u, err = strconv.ParseUint(b[2:], 16, 64)
					w = 4 * (len(b) - 2)
				}
				if err != nil {
					return fail("model parse: " + txt)
				}
				v := s.tt.vars[id]
				if !v.isFloat {
					w = bitsFor(v.lo, v.hi)
					u = uint64(int64(u<<(64-uint(w))) >> (64 - uint(w)))
				}
				m[int32(id)] = u
			}
		}
		s.put("(pop 1)")
		return resSat, m
	case "unknown", "timeout":
		s.unknown++
		s.put("(pop 1)")
		return resUnknown, nil
	}
	return fail(l)
}
