package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path: the branch direction, the value a
// term was split on, or the alternative of a nondeterministic choice.
type Dec struct {
	v      uint64
	forced bool // the only feasible alternative; adds nothing to the path condition
}

// Job is an unexplored path prefix together with a witness for it.
type Job struct {
	h     *Harness
	decs  []Dec
	model Model
	gen   int32
}

// Harness is one symbolic entry point with its statistics.
type Harness struct {
	Name  string
	Short string
	Doc   string
	fn    *ssa.Function
	gen   int32           // bumped when exploration restarts
	hot   map[string]bool // where context switches matter

	mu         sync.Mutex
	Paths      int
	Aborted    int // paths cut by an assumption
	Asserts    int // assertions evaluated (summed over paths)
	Discharged int // assertion obligations discharged by the solver
	Trivial    int // assertion instances that folded to true
	Decisions  int
	Labels     map[string]int
	Viol       []*Violation
	Errors     []string
	Undecided  int
	Unsup      map[string]int // code that is not encoded, by how many paths met it
	LemmaMiss  int
	Steps      int64
	PathSteps  int
	wit        []Witness
	wSeen      int
	shared     map[string]bool
	stop       atomic.Bool
	started    time.Time
	dur        time.Duration
	live       int
}

// Witness is the concrete input of one explored path and the trace the
// engine predicts for it.
type Witness struct {
	Harness string            `json:"h"`
	Vals    map[string]uint64 `json:"vals"`
	Trace   []string          `json:"-"`
}

// Violation is a failed assertion with its witness.
type Violation struct {
	Label string
	Msg   string
	Known string
	Wit   Witness
	Hang  bool
	Race  bool // to be confirmed by the race detector
}

type pathAbort struct{}
type pathLimit struct{ what string }
type mergeAbort struct{ why string }
type restart struct{}

// Run is the state of one path.
type Run struct {
	m     *Machine
	ex    *Explorer
	h     *Harness
	model Model
	decs  []Dec
	pos   int
	pc    []*Term
	pch   []uint64
	pcset map[uint64]bool
	lits  map[*Term]bool // conjuncts of the path condition
	vars  []*Term
	names map[string]int
	glob  map[*ssa.Global]*Value
	gInit map[*ssa.Package]bool
	top   *frame

	steps, stepLimit int
	mg               *merge
	deferFrame       *frame
	gen              int32
	conc             *concState

	obl     []oblig
	trace   []traceItem
	asserts int
	trivial int
	disch   int
	labels  map[string]int
	push    func(Job)
}

type oblig struct {
	cond  *Term
	label string
	known *Term
	kid   string
}

type traceItem struct {
	label string
	v     Value
}

type merge struct {
	parent *merge
	decs   []bool
	pos    int
	conds  []*Term
	fresh  int
}

func (r *Run) pushPC(t *Term) {
	if r.lits[t] {
		return
	}
	if t.op == OAnd {
		r.pushPC(t.a)
		r.pushPC(t.b)
		return
	}
	if t.op == ONot && t.a.op == OOr {
		r.pushPC(r.m.ctx.Not(t.a.a))
		r.pushPC(r.m.ctx.Not(t.a.b))
		return
	}
	r.lits[t] = true
	r.pc = append(r.pc, t)
	var h uint64 = 1469598103934665603
	if n := len(r.pch); n > 0 {
		h = r.pch[n-1]
	}
	h = (h ^ uint64(t.id)) * 1099511628211
	h ^= h >> 29
	r.pch = append(r.pch, h)
	r.pcset[h] = true
}

// infeasibleCached reports whether cond was already refuted under a prefix
// of the current path condition.
func (r *Run) infeasibleCached(cond *Term) bool {
	for h := range r.m.infeas[cond] {
		if r.pcset[h] {
			return true
		}
	}
	return false
}

func (r *Run) noteInfeasible(cond *Term) {
	s := r.m.infeas[cond]
	if s == nil {
		s = map[uint64]bool{}
		r.m.infeas[cond] = s
	}
	if n := len(r.pch); n > 0 {
		s[r.pch[n-1]] = true
	}
}

func (r *Run) evalT(t *Term) uint64 { return r.m.ctx.Eval(t, r.model) }

func (r *Run) newEpoch() { r.m.ctx.epoch++ }

// check decides pc ∧ cond, using the current witness and the cache first.
func (r *Run) check(cond *Term) (satRes, Model) {
	if cond.isFalse() {
		return rUnsat, nil
	}
	if r.infeasibleCached(cond) {
		return rUnsat, nil
	}
	res, m := r.m.sol.Check(r.pc, cond, r.vars)
	if res == rUnsat {
		r.noteInfeasible(cond)
	}
	if res == rSat {
		// keep choice values, which are not solver variables
		for k, v := range r.model {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
		r.selfCheck(m, cond)
	}
	return res, m
}

// selfCheck evaluates the path condition under a solver model with the
// engine's own evaluator; a mismatch means the encoding and the evaluator
// disagree.
func (r *Run) selfCheck(m Model, cond *Term) {
	c := r.m.ctx
	c.epoch++
	ok := c.Eval(cond, m) == 1
	for _, t := range r.pc {
		ok = ok && c.Eval(t, m) == 1
	}
	c.epoch++
	if !ok {
		panic(engineError{"solver model does not satisfy the query under the evaluator"})
	}
}

// branch decides a boolean, forking the path when both sides are feasible.
func (r *Run) branch(cond *Term) bool {
	c := r.m.ctx
	cond = c.r(cond)
	if isC(cond) {
		return cond.k == 1
	}
	if r.lits[cond] {
		return true
	}
	if r.lits[c.Not(cond)] {
		return false
	}
	if r.mg != nil {
		return r.mg.branch(r, cond)
	}
	if r.pos < len(r.decs) {
		d := r.decs[r.pos]
		r.pos++
		if !d.forced {
			if d.v == 1 {
				r.pushPC(cond)
			} else {
				r.pushPC(c.Not(cond))
			}
		}
		return d.v == 1
	}
	cur := r.evalT(cond)
	mine, other := cond, c.Not(cond)
	if cur == 0 {
		mine, other = other, mine
	}
	res, m := r.check(other)
	d := Dec{v: cur}
	switch res {
	case rSat:
		r.fork(Dec{v: 1 - cur}, m)
		r.pushPC(mine)
	case rUnsat:
		d.forced = true
	default:
		r.undecided("branch")
		r.pushPC(mine)
	}
	r.decs = append(r.decs, d)
	r.pos++
	return cur == 1
}

func (r *Run) undecided(what string) {
	r.h.mu.Lock()
	r.h.Undecided++
	r.h.mu.Unlock()
}

func (r *Run) fork(d Dec, m Model) {
	decs := make([]Dec, r.pos+1)
	copy(decs, r.decs[:r.pos])
	decs[r.pos] = d
	r.push(Job{r.h, decs, m, r.gen})
}

// concretize splits the path over every feasible value of t.
func (r *Run) concretize(t *Term) uint64 {
	c := r.m.ctx
	t = c.r(t)
	if isC(t) {
		return t.k
	}
	if r.mg != nil {
		panic(mergeAbort{"concretize"})
	}
	if r.pos < len(r.decs) {
		d := r.decs[r.pos]
		r.pos++
		if !d.forced {
			r.pushPC(c.Eq(t, c.BV(t.w, d.v)))
		}
		return d.v
	}
	cur := r.evalT(t)
	excl := c.Not(c.Eq(t, c.BV(t.w, cur)))
	n := 1
	for {
		res, m := r.check(excl)
		if res == rUnsat {
			break
		}
		if res == rUnknown {
			r.undecided("split")
			break
		}
		c.epoch++
		v := c.Eval(t, m)
		c.epoch++
		r.fork(Dec{v: v}, m)
		excl = c.And(excl, c.Not(c.Eq(t, c.BV(t.w, v))))
		n++
		if n > 300 {
			unsupported("value split over more than 300 values: %s in %s", t, r.where())
		}
	}
	d := Dec{v: cur}
	if n == 1 {
		d.forced = true
	} else {
		r.pushPC(c.Eq(t, c.BV(t.w, cur)))
	}
	r.decs = append(r.decs, d)
	r.pos++
	return cur
}

// split forks over mutually exclusive, jointly exhaustive guards and returns
// the index of the one taken.
func (r *Run) split(n int, guard func(i int) *Term) int {
	c := r.m.ctx
	if r.mg != nil {
		panic(mergeAbort{"split"})
	}
	if r.pos < len(r.decs) {
		d := r.decs[r.pos]
		r.pos++
		if !d.forced {
			r.pushPC(c.r(guard(int(d.v))))
		}
		return int(d.v)
	}
	cur := -1
	for i := 0; i < n; i++ {
		if r.evalT(c.r(guard(i))) == 1 {
			cur = i
			break
		}
	}
	if cur < 0 {
		panic(engineError{"split: no guard holds"})
	}
	excl := c.Not(c.r(guard(cur)))
	cnt := 1
	for {
		res, m := r.check(excl)
		if res == rUnsat {
			break
		}
		if res == rUnknown {
			r.undecided("split")
			break
		}
		c.epoch++
		v := -1
		for i := 0; i < n; i++ {
			if c.Eval(c.r(guard(i)), m) == 1 {
				v = i
				break
			}
		}
		c.epoch++
		if v < 0 {
			panic(engineError{"split: guards are not exhaustive"})
		}
		r.fork(Dec{v: uint64(v)}, m)
		excl = c.And(excl, c.Not(c.r(guard(v))))
		cnt++
	}
	d := Dec{v: uint64(cur)}
	if cnt == 1 {
		d.forced = true
	} else {
		r.pushPC(c.r(guard(cur)))
	}
	r.decs = append(r.decs, d)
	r.pos++
	return cur
}

// splitLZ forks over the number of leading zero bits of t.
func (r *Run) splitLZ(t *Term) *Term {
	c := r.m.ctx
	t = c.r(t)
	if isC(t) {
		return c.lz(t)
	}
	w := int(t.w)
	k := r.split(w+1, func(i int) *Term {
		if i == w {
			return c.Eq(t, c.BV(t.w, 0))
		}
		return c.Eq(c.Extract(t, uint8(w-1-i), uint8(i+1)), c.BV(uint8(i+1), 1))
	})
	return c.BV(64, uint64(k))
}

// choose is a pure nondeterministic choice among n alternatives.
func (r *Run) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if r.mg != nil {
		panic(mergeAbort{"choose"})
	}
	if r.pos < len(r.decs) {
		r.pos++
		return int(r.decs[r.pos-1].v)
	}
	for k := n - 1; k >= 1; k-- {
		r.fork(Dec{v: uint64(k)}, r.model.clone())
	}
	r.decs = append(r.decs, Dec{v: 0})
	r.pos++
	return 0
}

func (m Model) clone() Model {
	n := make(Model, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// mustNot panics in the target program when cond holds.
func (r *Run) mustNot(cond *Term, f string, a ...interface{}) {
	c := r.m.ctx
	cond = c.r(cond)
	if cond.isFalse() {
		return
	}
	if r.mg != nil {
		if cond.isTrue() {
			panic(mergeAbort{f})
		}
		g := cond
		for mg := r.mg; mg != nil; mg = mg.parent {
			for _, t := range mg.conds {
				g = c.And(g, t)
			}
		}
		if g.isFalse() {
			return
		}
		if res, _ := r.check(g); res != rUnsat {
			panic(mergeAbort{f})
		}
		return
	}
	if r.branch(cond) {
		r.rtPanic(f, a...)
	}
}

// ---- merging of pure functions

const mergePathLimit = 24

func (mg *merge) branch(r *Run, cond *Term) bool {
	c := r.m.ctx
	// conditions already decided on this local path
	for p := mg; p != nil; p = p.parent {
		for _, t := range p.conds {
			if t == cond {
				return true
			}
			if t.op == ONot && t.a == cond || cond.op == ONot && cond.a == t {
				return false
			}
		}
	}
	if mg.pos < len(mg.decs) {
		v := mg.decs[mg.pos]
		mg.pos++
		if v {
			mg.conds = append(mg.conds, cond)
		} else {
			mg.conds = append(mg.conds, c.Not(cond))
		}
		return v
	}
	mg.decs = append(mg.decs, true)
	mg.pos++
	mg.fresh++
	mg.conds = append(mg.conds, cond)
	return true
}

// callMerged executes a pure function on all its paths and merges the
// results into one guarded value.
func (r *Run) callMerged(fi *fnInfo, args []Value) (res Value, ok bool) {
	saved, top := r.mg, r.top
	var outs []Value
	var guards []*Term
	work := [][]bool{nil}
	c := r.m.ctx
	for len(work) > 0 {
		d := work[len(work)-1]
		work = work[:len(work)-1]
		mg := &merge{parent: saved, decs: append([]bool(nil), d...)}
		r.mg = mg
		v, good := r.tryExec(fi, args)
		r.mg, r.top = saved, top
		if !good || len(outs) >= mergePathLimit {
			if saved != nil {
				panic(mergeAbort{"nested"})
			}
			return nil, false
		}
		for k := 0; k < mg.fresh; k++ {
			i := len(mg.decs) - mg.fresh + k
			alt := append(append([]bool(nil), mg.decs[:i]...), false)
			work = append(work, alt)
		}
		g := c.tru
		for _, t := range mg.conds {
			g = c.And(g, t)
		}
		outs = append(outs, v)
		guards = append(guards, g)
	}
	acc := outs[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		var good bool
		acc, good = r.mergeVal(guards[i], outs[i], acc)
		if !good {
			if saved != nil {
				panic(mergeAbort{"nested"})
			}
			return nil, false
		}
	}
	return acc, true
}

func (r *Run) tryExec(fi *fnInfo, args []Value) (v Value, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(mergeAbort); is {
				v, ok = nil, false
				return
			}
			panic(x)
		}
	}()
	cp := make([]Value, len(args))
	for i := range args {
		cp[i] = copyVal(args[i])
	}
	return r.exec(fi, cp, nil), true
}

func (r *Run) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return r.m.ctx.Ite(g, x, y), true
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return nil, false
		}
		n := make(Struct, len(x))
		for i := range x {
			if n[i], ok = r.mergeVal(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			if n[i], ok = r.mergeVal(g, x[i], y[i]); !ok {
				return nil, false
			}
		}
		return n, true
	case nil:
		return nil, b == nil
	}
	return nil, false
}

// ---- variables, assumptions, assertions

func (r *Run) newVar(name string, w uint8, lo, hi uint64) *Term {
	n := r.names[name]
	r.names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	v := r.m.ctx.Var(name, w, lo, hi)
	r.vars = append(r.vars, v)
	if _, ok := r.model[name]; !ok {
		r.model[name] = lo
	}
	c := r.m.ctx
	if lo > 0 {
		r.pushPC(c.raw(ONot, 0, c.raw(OUlt, 0, v, c.BV(w, lo), nil, 0), nil, nil, 0))
	}
	if hi < maskW(w) {
		r.pushPC(c.raw(ONot, 0, c.raw(OUlt, 0, c.BV(w, hi), v, nil, 0), nil, nil, 0))
	}
	return v
}

func (r *Run) assume(cond *Term) {
	if r.mg != nil {
		panic(mergeAbort{"assume"})
	}
	cond = r.m.ctx.r(cond)
	if cond.isTrue() {
		return
	}
	r.flush()
	if cond.isFalse() {
		panic(pathAbort{})
	}
	if r.evalT(cond) == 0 {
		res, m := r.check(cond)
		if res == rUnknown {
			r.undecided("assume")
			panic(pathAbort{})
		}
		if res == rUnsat {
			panic(pathAbort{})
		}
		r.model = m
		r.newEpoch()
	}
	r.pushPC(cond)
}

func (r *Run) assert(cond *Term, label string, known *Term, kid string) {
	if r.mg != nil {
		panic(mergeAbort{"assert"})
	}
	cond = r.m.ctx.r(cond)
	r.asserts++
	r.labels[label]++
	r.trace = append(r.trace, traceItem{"assert " + label, cond})
	if cond.isTrue() {
		r.trivial++
		return
	}
	r.obl = append(r.obl, oblig{cond, label, known, kid})
}

// flush discharges the pending assertions under the current path condition.
func (r *Run) flush() {
	if len(r.obl) == 0 {
		return
	}
	c := r.m.ctx
	obl := r.obl
	r.obl = nil
	var excl *Term = c.tru // excludes the known findings
	for round := 0; round < 8; round++ {
		all := c.tru
		for _, o := range obl {
			all = c.And(all, o.cond)
		}
		neg := c.And(c.Not(all), excl)
		if neg.isFalse() {
			break
		}
		var m Model
		if excl.isTrue() && r.evalT(all) == 0 {
			m = r.model.clone()
		} else {
			res, mm := r.check(neg)
			if res == rUnsat {
				break
			}
			if res == rUnknown {
				r.undecided("assert")
				break
			}
			m = mm
		}
		c.epoch++
		more := false
		for _, o := range obl {
			if c.Eval(o.cond, m) == 0 {
				v := &Violation{Label: o.label, Wit: r.witness(m)}
				if o.known != nil && c.Eval(o.known, m) == 1 {
					v.Known = o.kid
					excl = c.And(excl, c.Or(o.cond, c.Not(o.known)))
					more = true
				}
				r.report(v)
				if v.Known == "" {
					c.epoch++
					r.disch += len(obl)
					return
				}
			}
		}
		c.epoch++
		if !more {
			break
		}
	}
	r.disch += len(obl)
}

func (r *Run) witness(m Model) Witness {
	w := Witness{Harness: r.h.Name, Vals: map[string]uint64{}}
	for k, v := range m {
		w.Vals[k] = v
	}
	return w
}

// newViol reports whether there is a violation that is not a known finding.
func (h *Harness) newViol() bool {
	for _, v := range h.Viol {
		if v.Known == "" {
			return true
		}
	}
	return false
}

func (r *Run) report(v *Violation) {
	h := r.h
	h.mu.Lock()
	defer h.mu.Unlock()
	n := 0
	for _, x := range h.Viol {
		if x.Label == v.Label && x.Known == v.Known {
			n++
		}
	}
	if n < 3 {
		h.Viol = append(h.Viol, v)
	}
	if v.Known == "" {
		h.stop.Store(true)
		if *fFailFast {
			failed.Store(true)
		}
	}
}

// failed is set by the first violation if that ends the run.
var failed atomic.Bool

// ---- exploration

// Explorer schedules the paths of a set of harnesses over workers.
type Explorer struct {
	prog     *Program
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Job
	idle     int
	workers  int
	done     bool
	hungry   atomic.Int32
	deadline time.Time
	timedOut atomic.Bool
	machines []*Machine
	witEvery int
	fatal    []string
}

func (ex *Explorer) put(j Job) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, j)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) take() (Job, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for len(ex.queue) == 0 {
		ex.idle++
		ex.hungry.Add(1)
		if ex.idle == ex.workers {
			ex.done = true
			ex.cond.Broadcast()
			return Job{}, false
		}
		ex.cond.Wait()
		ex.hungry.Add(-1)
		if ex.done {
			return Job{}, false
		}
		ex.idle--
	}
	j := ex.queue[len(ex.queue)-1]
	ex.queue = ex.queue[:len(ex.queue)-1]
	return j, true
}

func (ex *Explorer) worker(m *Machine, wg *sync.WaitGroup) {
	defer wg.Done()
	defer m.sol.Close()
	var local []Job
	for {
		var j Job
		if n := len(local); n > 0 {
			j = local[n-1]
			local = local[:n-1]
		} else {
			var ok bool
			if j, ok = ex.take(); !ok {
				return
			}
		}
		if time.Now().After(ex.deadline) {
			ex.timedOut.Store(true)
			j.h.mu.Lock()
			j.h.Undecided++
			j.h.mu.Unlock()
			continue
		}
		if failed.Load() || j.h.stop.Load() || j.gen != atomic.LoadInt32(&j.h.gen) {
			continue
		}
		ex.runPath(m, j, func(nj Job) {
			local = append(local, nj)
		})
		for ex.hungry.Load() > 0 && len(local) > 1 {
			ex.put(local[0])
			local = local[1:]
			if len(local) < 4 {
				break
			}
		}
		if m.ctx.next > 6000000 { // keep memory bounded
			m.reset()
		}
	}
}

func (m *Machine) reset() {
	old := m.sol
	old.Close()
	m.ctx = newCtx()
	s := newSolver(m.ctx, m.prog.queryTimeoutMs)
	s.Queries, s.Sat, s.Unsat, s.Unknown, s.Fallback = old.Queries, old.Sat, old.Unsat, old.Unknown, old.Fallback
	s.Time, s.Restarts, s.cross, s.CrossChecked = old.Time, old.Restarts+1, old.cross, old.CrossChecked
	m.sol = s
	m.fns = map[*ssa.Function]*fnInfo{}
	m.stdGlob = map[*ssa.Global]*Value{}
	m.stdInit = map[*ssa.Package]bool{}
	m.infeas = map[*Term]map[uint64]bool{}
	m.consts = map[*ssa.Const]Value{}
	m.uniq = map[string]Value{}
}

func (ex *Explorer) newRun(m *Machine, j Job) *Run {
	r := &Run{m: m, ex: ex, h: j.h, decs: append([]Dec(nil), j.decs...), pcset: map[uint64]bool{}, lits: map[*Term]bool{},
		names: map[string]int{}, glob: map[*ssa.Global]*Value{}, gInit: map[*ssa.Package]bool{},
		labels: map[string]int{}, stepLimit: ex.prog.stepLimit, gen: j.gen}
	r.model = j.model.clone()
	m.ctx.epoch++
	m.ctx.rwEpoch++
	return r
}

func (ex *Explorer) runPath(m *Machine, j Job, push func(Job)) {
	r := ex.newRun(m, j)
	r.push = push
	h := j.h
	outcome := "done"
	var errMsg string
	func() {
		defer func() {
			x := recover()
			switch x := x.(type) {
			case nil:
			case pathAbort:
				outcome = "abort"
			case restart:
				outcome = "restart"
			case pathLimit:
				outcome = "limit"
				r.obl = nil
				r.report(&Violation{Label: "termination", Msg: "path exceeded the bound on " + x.what, Wit: r.witness(r.model), Hang: true})
			case *targetPanic:
				outcome = "panic"
				r.safeFlush()
				r.report(&Violation{Label: "no-panic", Msg: "uncaught panic: " + x.msg + " at " + x.pos, Wit: r.witness(r.model)})
			case engineError:
				outcome = "error"
				errMsg = x.msg + " [at " + r.where() + "]"
			case notEncoded:
				outcome = "unsup"
				errMsg = x.msg + " [at " + r.where() + "]"
				r.safeFlush()
			default:
				outcome = "error"
				errMsg = fmt.Sprintf("engine fault: %v [at %s]\n%s", x, r.where(), debug.Stack())
			}
			r.endThreads()
		}()
		r.callFn(h.fn, nil, nil, nil)
		r.flush()
	}()
	h.mu.Lock()
	defer h.mu.Unlock()
	if j.gen != atomic.LoadInt32(&h.gen) {
		return
	}
	h.Steps += int64(r.steps)
	h.Decisions += len(r.decs) - len(j.decs)
	switch outcome {
	case "abort":
		h.Aborted++
	case "error":
		if len(h.Errors) < 5 {
			h.Errors = append(h.Errors, errMsg)
		}
		h.stop.Store(true)
	case "unsup":
		h.Undecided++
		if h.Unsup == nil {
			h.Unsup = map[string]int{}
		}
		if h.Unsup[errMsg]++; len(h.Unsup) > 200 {
			h.stop.Store(true)
		}
	case "restart":
	default:
		h.Paths++
		h.Asserts += r.asserts
		h.Discharged += r.disch
		h.Trivial += r.trivial
		for k, v := range r.labels {
			h.Labels[k] += v
		}
		if outcome == "done" && !h.newViol() {
			h.wSeen++
			if keep := ex.prog.witnessKeep; len(h.wit) < keep || h.wSeen%ex.prog.witnessStride == 0 && len(h.wit) < 4*keep {
				w := r.witness(r.model)
				m.ctx.epoch++
				for _, t := range r.trace {
					w.Trace = append(w.Trace, t.label+"="+m.show(t.v, r.model))
				}
				h.wit = append(h.wit, w)
			}
		}
	}
	h.dur = time.Since(h.started)
}

func (r *Run) safeFlush() {
	defer func() {
		if x := recover(); x != nil {
			switch x.(type) {
			case engineError, notEncoded:
			default:
				panic(x)
			}
		}
	}()
	r.flush()
}

// Explore runs every harness to exhaustion or the deadline.
func (ex *Explorer) Explore(hs []*Harness, workers int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.workers = workers
	for i := len(hs) - 1; i >= 0; i-- {
		hs[i].started = time.Now()
		ex.queue = append(ex.queue, Job{hs[i], nil, Model{}, 0})
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		m := newMachine(ex.prog)
		m.sol.cross = ex.prog.crossEvery
		if *fSmt != "" {
			m.sol.log, _ = os.Create(*fSmt)
		}
		ex.machines = append(ex.machines, m)
		wg.Add(1)
		go ex.worker(m, &wg)
	}
	wg.Wait()
}
