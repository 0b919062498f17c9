package main

// Solver processes: one incremental process per worker plus a one-shot portfolio for hard queries.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rUnknown satRes = iota
	rSat
	rUnsat
)

func (r satRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type solverStats struct {
	queries, sat, unsat, unknown, portfolio int64
	nanos                                   int64
}

var stats solverStats

type Solver struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Reader
	inC  io.WriteCloser
	gen  int
	defs int
	tt   *TT
	// assertion stack: each level holds terms
	levels [][]*Term
	approxM map[string]mval // decimal approximation of the last model, when that has irrational values
	incMS  int // incremental timeout
	oneMS  int // portfolio timeout
	hardFirst bool
	log    io.Writer
	nhard  int
	declared map[string]bool
}

func NewSolver(tt *TT, incMS, oneMS int) *Solver {
	return &Solver{tt: tt, incMS: incMS, oneMS: oneMS}
}

func (s *Solver) start() {
	s.stop()
	s.gen++
	s.defs = 0
	s.levels = nil
	s.declared = map[string]bool{}
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fatalErr{"cannot start z3-new: " + err.Error()})
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", s.incMS)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || t.def == s.gen {
		return
	}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || x.def == s.gen {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.args {
			if a.op != OConst && a.def != s.gen {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		x.def = s.gen
		s.defs++
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-fun |%s| () %s)\n", x.name, x.sort)
			s.declared[x.name] = true
		} else if x.op == OISqrt {
			fmt.Fprintf(s.in, "(declare-fun %s () Real)\n", x.ref())
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", x.id, x.sort, x.body())
		}
	}
}

// sync brings the solver's assertion stack in line with pc.
func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.defs > 300000 {
		s.start()
	}
	i, lv := 0, 0
	for lv < len(s.levels) {
		l := s.levels[lv]
		if i+len(l) > len(pc) {
			break
		}
		same := true
		for j, t := range l {
			if pc[i+j] != t {
				same = false
				break
			}
		}
		if !same {
			break
		}
		i += len(l)
		lv++
	}
	if n := len(s.levels) - lv; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.levels = s.levels[:lv]
	}
	if i < len(pc) {
		for _, t := range pc[i:] {
			s.define(t)
		}
		fmt.Fprintf(s.in, "(push 1)\n")
		for _, t := range pc[i:] {
			fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
		}
		s.levels = append(s.levels, append([]*Term(nil), pc[i:]...))
	}
}

// check decides pc ∧ extra. vars lists the variables to read from the model.
func (s *Solver) check(pc []*Term, extra *Term, vars []*Term) (satRes, map[string]mval) {
	t0 := time.Now()
	atomic.AddInt64(&stats.queries, 1)
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	var r satRes
	var m map[string]mval
	s.approxM = nil
	if extra != nil && len(extra.sq) > 0 || hasSqrt(pc) {
		n := 0
		pc, n = s.tt.withRoots(pc, extra)
		if n > 0 {
			for _, d := range pc[len(pc)-n:] {
				extra = s.tt.And(d, extra)
			}
			pc = pc[:len(pc)-n]
		}
	}
	if !s.hardFirst {
		r, m = s.checkInc(pc, extra, vars)
	}
	if r == rUnknown {
		s.nhard++
		if s.nhard > 20 && s.oneMS > 0 {
			s.hardFirst = true
		}
		atomic.AddInt64(&stats.portfolio, 1)
		r, m = s.oneShot(pc, extra, vars)
		if r == rUnknown && s.hardFirst {
			r, m = s.checkInc(pc, extra, vars)
		}
	}
	switch r {
	case rSat:
		atomic.AddInt64(&stats.sat, 1)
	case rUnsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
	}
	return r, m
}

func (s *Solver) checkInc(pc []*Term, extra *Term, vars []*Term) (satRes, map[string]mval) {
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", extra.ref())
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	var timer *time.Timer
	proc := s.cmd.Process
	timer = time.AfterFunc(time.Duration(s.incMS+3000)*time.Millisecond, func() { proc.Kill() })
	line, err := s.readSexp()
	timer.Stop()
	if err != nil {
		s.stop()
		return rUnknown, nil
	}
	r := rUnknown
	switch line {
	case "sat":
		r = rSat
	case "unsat":
		r = rUnsat
	case "unknown":
	default:
		fmt.Fprintf(os.Stderr, "solver said: %s\n", line)
		s.stop()
		return rUnknown, nil
	}
	var m map[string]mval
	if r == rSat {
		var ns []*Term
		for _, v := range vars {
			if v.def == s.gen {
				ns = append(ns, v)
			}
		}
		m = map[string]mval{}
		if len(ns) > 0 {
			s.in.WriteString("(get-value (")
			for _, v := range ns {
				s.in.WriteString(v.ref())
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			sx, err := s.readSexp()
			if err != nil {
				s.stop()
				return r, nil
			}
			m = parseModel(sx, ns)
			if m == nil {
				s.in.WriteString("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(get-value (")
				for _, v := range ns {
					s.in.WriteString(v.ref())
					s.in.WriteByte(' ')
				}
				s.in.WriteString("))\n(set-option :pp.decimal false)\n")
				s.in.Flush()
				sx, err := s.readSexp()
				if err != nil {
					s.stop()
					return r, nil
				}
				s.approxM = parseModel(sx, ns)
			}
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return r, m
}

func (s *Solver) readSexp() (string, error) { return readSexp(s.out) }

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inBar := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if inBar {
			sb.WriteByte(c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
			sb.WriteByte(c)
		case '(':
			depth++
			sb.WriteByte(c)
		case ')':
			depth--
			sb.WriteByte(c)
			if depth == 0 {
				return sb.String(), nil
			}
		case '\n', '\r', ' ', '\t':
			if depth == 0 {
				if sb.Len() > 0 {
					return sb.String(), nil
				}
				continue
			}
			sb.WriteByte(' ')
		default:
			sb.WriteByte(c)
		}
	}
}

type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var p func() *sexp
	p = func() *sexp {
		for pos < len(s) && s[pos] == ' ' {
			pos++
		}
		if pos >= len(s) {
			return &sexp{}
		}
		if s[pos] == '(' {
			pos++
			x := &sexp{list: []*sexp{}}
			for {
				for pos < len(s) && s[pos] == ' ' {
					pos++
				}
				if pos >= len(s) {
					return x
				}
				if s[pos] == ')' {
					pos++
					return x
				}
				x.list = append(x.list, p())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sexp{atom: s[st:pos]}
		}
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return p()
}

func sexpRat(x *sexp) *big.Rat {
	if x.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(x.atom, "?"))
		if !ok {
			return nil
		}
		return r
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r := sexpRat(x.list[1])
		if r == nil {
			return nil
		}
		return new(big.Rat).Neg(r)
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, b := sexpRat(x.list[1]), sexpRat(x.list[2])
		if a == nil || b == nil || b.Sign() == 0 {
			return nil
		}
		return new(big.Rat).Quo(a, b)
	}
	return nil
}

// parseModel returns nil when some value cannot be represented (algebraic numbers).
func parseModel(sx string, vars []*Term) map[string]mval {
	x := parseSexp(sx)
	m := map[string]mval{}
	if len(x.list) != len(vars) {
		return nil
	}
	for i, v := range vars {
		if len(x.list[i].list) != 2 {
			return nil
		}
		val := x.list[i].list[1]
		switch {
		case v.sort == SBool:
			m[v.name] = mval{u: b2u(val.atom == "true")}
		case v.sort.isBV():
			u, ok := sexpBV(val)
			if !ok {
				return nil
			}
			m[v.name] = mval{u: u}
		case v.sort.isArith():
			r := sexpRat(val)
			if r == nil {
				return nil
			}
			m[v.name] = mval{r: r}
		default:
			return nil
		}
	}
	return m
}

func sexpBV(x *sexp) (uint64, bool) {
	a := x.atom
	if strings.HasPrefix(a, "#x") {
		u, err := strconv.ParseUint(a[2:], 16, 64)
		return u, err == nil
	}
	if strings.HasPrefix(a, "#b") {
		u, err := strconv.ParseUint(a[2:], 2, 64)
		return u, err == nil
	}
	if len(x.list) == 3 && strings.HasPrefix(x.list[1].atom, "bv") {
		u, err := strconv.ParseUint(x.list[1].atom[2:], 10, 64)
		return u, err == nil
	}
	return 0, false
}

// script renders pc ∧ extra as a standalone SMT-LIB2 script.
func (tt *TT) script(pc []*Term, extra *Term, vars []*Term, getModel, approx bool) (string, []*Term) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	tt.nmark++
	var decl []*Term
	var emit func(t *Term)
	emit = func(t *Term) {
		stack := []*Term{t}
		for len(stack) > 0 {
			x := stack[len(stack)-1]
			if x.op == OConst || x.mark == tt.nmark {
				stack = stack[:len(stack)-1]
				continue
			}
			ready := true
			for _, a := range x.args {
				if a.op != OConst && a.mark != tt.nmark {
					stack = append(stack, a)
					ready = false
				}
			}
			if !ready {
				continue
			}
			stack = stack[:len(stack)-1]
			x.mark = tt.nmark
			if x.op == OVar {
				fmt.Fprintf(&sb, "(declare-fun |%s| () %s)\n", x.name, x.sort)
				decl = append(decl, x)
			} else if x.op == OISqrt {
				fmt.Fprintf(&sb, "(declare-fun %s () Real)\n", x.ref())
			} else {
				fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", x.id, x.sort, x.body())
			}
		}
	}
	all := pc
	if extra != nil {
		all = append(append([]*Term(nil), pc...), extra)
	}
	for _, t := range all {
		emit(t)
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	if getModel && len(decl) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range decl {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		if approx {
			sb.WriteString("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(get-value (")
			for _, v := range decl {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
		}
	}
	return sb.String(), decl
}

var portfolioSem = make(chan struct{}, 6)

func (s *Solver) oneShot(pc []*Term, extra *Term, vars []*Term) (satRes, map[string]mval) {
	if s.oneMS <= 0 {
		return rUnknown, nil
	}
	portfolioSem <- struct{}{}
	defer func() { <-portfolioSem }()
	script, decl := s.tt.script(pc, extra, vars, true, true)
	if d := os.Getenv("SYMGO_DUMPHARD"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/hard-%d.smt2", d, time.Now().UnixNano()), []byte(script), 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.oneMS)*time.Millisecond)
	defer cancel()
	type res struct {
		r satRes
		m map[string]mval
		a map[string]mval
	}
	cmds := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"cvc5", "--lang=smt2", "--fp-exp", "-"},
	}
	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			rd := bufio.NewReader(strings.NewReader(string(out) + "\n"))
			l, _ := readSexp(rd)
			switch l {
			case "unsat":
				ch <- res{r: rUnsat}
			case "sat":
				m := map[string]mval{}
				var a map[string]mval
				if len(decl) > 0 {
					sx, _ := readSexp(rd)
					m = parseModel(sx, decl)
					if m == nil {
						sx, _ := readSexp(rd)
						a = parseModel(sx, decl)
					}
				}
				ch <- res{rSat, m, a}
			default:
				ch <- res{r: rUnknown}
			}
		}()
	}
	for range cmds {
		r := <-ch
		if r.r != rUnknown {
			s.approxM = r.a
			return r.r, r.m
		}
	}
	return rUnknown, nil
}

func hasSqrt(pc []*Term) bool {
	for _, t := range pc {
		if len(t.sq) > 0 {
			return true
		}
	}
	return false
}

// withRoots inserts the definition of every square root before its first use. The definitions
// needed by extra only come last; their number is returned.
func (tt *TT) withRoots(pc []*Term, extra *Term) ([]*Term, int) {
	var r []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		for _, q := range t.sq {
			if !seen[q] {
				seen[q] = true
				r = append(r, tt.sqrtDef(q))
			}
		}
	}
	for _, t := range pc {
		add(t)
		r = append(r, t)
	}
	n := len(r)
	if extra != nil {
		add(extra)
	}
	return r, len(r) - n
}
