package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Model maps variable names to values.
type Model map[string]uint64

var slowDir = os.Getenv("SYMGO_SLOW")

type satRes int

const (
	rUnknown satRes = iota
	rSat
	rUnsat
)

// Solver drives one interactive SMT solver process.
type Solver struct {
	ctx     *Ctx
	argv    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	defs    int
	nvars   int
	declare []bool
	timeout int // ms

	Queries, Sat, Unsat, Unknown int
	Fallback                     int
	Time                         time.Duration
	Restarts                     int
	log                          io.Writer
	cross                        int // cross-check every n-th query with the second solver (0 = never)
	CrossChecked                 int
	defined                      []*Term
	alt                          bool
}

func newSolver(ctx *Ctx, timeoutMs int) *Solver {
	return &Solver{ctx: ctx, argv: []string{"z3-new", "-in"}, timeout: timeoutMs}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(engineError{err.Error()})
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(engineError{err.Error()})
	}
	if err := s.cmd.Start(); err != nil {
		panic(engineError{"cannot start solver: " + err.Error()})
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	s.defs = 0
	for _, t := range s.defined {
		t.def = false
	}
	s.defined = s.defined[:0]
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-option :produce-models true)\n")
	s.send("(set-logic QF_BV)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

// Close ends the solver process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t == nil || t.def || t.op == OConst {
		return
	}
	if t.op == OVar {
		s.send(fmt.Sprintf("(declare-const %s %s)\n", t.ref(), sortOf(t.w)))
	} else {
		s.define(t.a)
		s.define(t.b)
		s.define(t.c)
		s.send("(define-fun " + t.ref() + " () " + sortOf(t.w) + " " + t.body() + ")\n")
	}
	t.def = true
	s.defined = append(s.defined, t)
	s.defs++
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(engineError{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(line)
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil || s.defs > 400000 {
		if s.cmd != nil {
			s.Close()
			s.Restarts++
		}
		s.start()
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + t.ref() + ")\n")
		s.stack = append(s.stack, t)
	}
}

// Check decides pc ∧ extra. On sat it returns a model of all variables in
// vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (satRes, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowDir != "" && d > 300*time.Millisecond {
			os.WriteFile(fmt.Sprintf("%s/q%05d_%dms.smt2", slowDir, s.Queries, d.Milliseconds()), []byte(s.script(pc, extra, vars)), 0o644)
		}
	}()
	s.Queries++
	s.sync(pc)
	s.define(extra)
	for _, v := range vars {
		s.define(v)
	}
	s.send("(push 1)\n(assert " + extra.ref() + ")\n(check-sat)\n")
	s.in.Flush()
	res := s.readLine()
	var m Model
	r := rUnknown
	switch res {
	case "sat":
		r = rSat
		m = s.getModel(vars)
	case "unsat":
		r = rUnsat
	case "unknown", "timeout":
	default:
		panic(engineError{"solver said: " + res})
	}
	s.send("(pop 1)\n")
	if r == rUnknown {
		s.Fallback++
		r, m = s.oneShot(pc, extra, vars, "z3", 60)
		if r == rUnknown {
			r, m = s.oneShot(pc, extra, vars, "cvc5", 60)
		}
	}
	if s.cross > 0 && s.Queries%s.cross == 0 && r != rUnknown {
		r2, _ := s.oneShot(pc, extra, vars, "cvc5", 60)
		if r2 != rUnknown {
			s.CrossChecked++
			if r2 != r {
				panic(engineError{"solvers disagree"})
			}
		}
	}
	switch r {
	case rSat:
		s.Sat++
	case rUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return r, m
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	s.send("(get-value (")
	for _, v := range vars {
		s.send(v.ref() + " ")
	}
	s.send("))\n")
	s.in.Flush()
	// read a balanced s-expression
	var sb strings.Builder
	depth := 0
	for {
		line := s.readLine()
		sb.WriteString(line)
		sb.WriteByte(' ')
		depth += strings.Count(line, "(") - strings.Count(line, ")")
		if depth <= 0 {
			break
		}
	}
	parseModel(sb.String(), vars, m)
	return m
}

func parseModel(txt string, vars []*Term, m Model) {
	if strings.Contains(txt, "error") {
		panic(engineError{"solver: " + txt})
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	byRef := map[string]*Term{}
	for _, v := range vars {
		byRef[v.ref()] = v
	}
	for i := 0; i+1 < len(f); i += 2 {
		v := byRef[f[i]]
		if v == nil {
			panic(engineError{"unexpected model text: " + txt})
		}
		m[v.name] = parseLit(f[i+1])
	}
}

func parseLit(x string) uint64 {
	switch {
	case x == "true":
		return 1
	case x == "false":
		return 0
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		if err == nil {
			return v
		}
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		if err == nil {
			return v
		}
	}
	panic(engineError{"bad literal " + x})
}

// script renders a self-contained query.
func (s *Solver) script(pc []*Term, extra *Term, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n(set-option :produce-models true)\n")
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.ref(), sortOf(t.w))
			return
		}
		rec(t.a)
		rec(t.b)
		rec(t.c)
		sb.WriteString("(define-fun " + t.ref() + " () " + sortOf(t.w) + " " + t.body() + ")\n")
	}
	for _, v := range vars {
		rec(v)
	}
	for _, t := range append(append([]*Term{}, pc...), extra) {
		rec(t)
		sb.WriteString("(assert " + t.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (s *Solver) oneShot(pc []*Term, extra *Term, vars []*Term, which string, secs int) (satRes, Model) {
	txt := s.script(pc, extra, vars)
	var cmd *exec.Cmd
	switch which {
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", secs*1000), "-")
	default:
		cmd = exec.Command(which, "-in", fmt.Sprintf("-T:%d", secs))
	}
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.Output()
	res := string(out)
	line, rest, _ := strings.Cut(res, "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		return rUnsat, nil
	case "sat":
		m := Model{}
		if len(vars) > 0 {
			parseModel(strings.ReplaceAll(rest, "\n", " "), vars, m)
		}
		return rSat, m
	}
	return rUnknown, nil
}
