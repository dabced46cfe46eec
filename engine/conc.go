package main

import (
	"fmt"
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Concurrent harnesses: sym.Interleave runs its arguments as threads, of which
// exactly one runs at a time. Control can pass from one to another at a
// sym.Point, which the instrumentation puts before every statement of the
// repository (see instr.go), so that a schedule is a list of points that the
// compiled code can be made to follow. Switching is only considered at the
// first point after an access to a hot location: a field, array or global that
// some thread stores to in memory it has not made itself. All else commutes.
// Happens-before is tracked with vector clocks, so that two accesses that are
// not ordered by it, one of them a store and one of them not atomic, are
// reported as a data race on every schedule.

type cthread struct {
	id     int
	resume chan bool // false: end
	done   bool
	top    *frame
	defFr  *frame
	vc     []int
	locks  map[*Value]bool
	marked bool
}

type cell struct {
	w, r   []int // clocks of the last plain write and read of each thread
	aw, ar []int // the same for atomic ones
	rel    []int // clock released by the last atomic store or unlock
}

type concState struct {
	threads []*cthread
	cur     int
	main    chan interface{} // what ended the threads
	points  int
	maxPre  int
	pre     int
	events  int
	info    map[*Value]*cell
	class   map[*Value]string
	owner   map[*Value]int
	lockBy  map[*Value]int // -1: for reading
	readers map[*Value]int
	race    string
}

type threadKilled struct{}

const endMark = 1 << 40

func (cs *concState) alloc(p *Value) { cs.own(p, cs.cur) }

func (cs *concState) own(p *Value, t int) {
	cs.owner[p] = t
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			cs.own(&v[i], t)
		}
	case Array:
		for i := range v {
			cs.own(&v[i], t)
		}
	}
}

// publish ends the ownership of everything reachable from v.
func (cs *concState) publish(v Value) {
	switch v := v.(type) {
	case *Value:
		if v != nil {
			if _, ok := cs.owner[v]; ok {
				delete(cs.owner, v)
				cs.publish(*v)
			}
		}
	case Struct:
		for i := range v {
			delete(cs.owner, &v[i])
			cs.publish(v[i])
		}
	case Array:
		for i := range v {
			delete(cs.owner, &v[i])
			cs.publish(v[i])
		}
	case Slice:
		for i := range v.v {
			delete(cs.owner, &v.v[i])
			cs.publish(v.v[i])
		}
	case Tuple:
		for i := range v {
			cs.publish(v[i])
		}
	case Iface:
		cs.publish(v.v)
	case *Closure:
		if v != nil {
			for i := range v.env {
				cs.publish(v.env[i])
			}
		}
	}
}

// stored ends the ownership of what is stored in memory that is not owned.
func (cs *concState) stored(p *Value, v Value) {
	if _, ok := cs.owner[p]; !ok {
		cs.publish(v)
	}
}

func fieldClass(t types.Type, i int) string { return fmt.Sprintf("%s.%d", t, i) }

func (cs *concState) field(base, fp *Value, in *ssa.FieldAddr) {
	if _, ok := cs.class[fp]; !ok {
		t := in.X.Type().Underlying().(*types.Pointer).Elem()
		cs.class[fp] = fieldClass(t, in.Field)
	}
}

func (cs *concState) elem(base, p *Value) {
	if _, ok := cs.class[p]; !ok {
		if c, ok := cs.class[base]; ok {
			cs.class[p] = c + "[]"
		}
	}
}

func (cs *concState) access(r *Run, p *Value, write, atomic bool) {
	if r.mg != nil {
		return
	}
	cs.touch(r, p, write, atomic, "")
}

func (cs *concState) touch(r *Run, p *Value, write, atomic bool, class string) {
	if c, ok := cs.class[p]; ok {
		class = c
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			cs.touch(r, &v[i], write, atomic, class+".")
		}
		return
	case Array:
		for i := range v {
			cs.touch(r, &v[i], write, atomic, class+"[]")
		}
		return
	}
	if o, ok := cs.owner[p]; ok && o == cs.cur {
		return
	}
	t := cs.threads[cs.cur]
	cs.happens(r, t, p, write, atomic)
	if class == "" || class[0] == '.' || r.top != nil && r.top.fi.harness {
		return
	}
	if write && !r.h.isHot(class) {
		r.h.addHot(r, class)
		panic(restart{})
	}
	if r.h.isHot(class) {
		t.marked = true
	}
}

func (h *Harness) isHot(c string) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.hot[c]
}

// addHot restarts the exploration of the harness with one more hot class.
func (h *Harness) addHot(r *Run, c string) {
	h.mu.Lock()
	if h.hot[c] {
		h.mu.Unlock()
		return
	}
	if h.hot == nil {
		h.hot = map[string]bool{}
	}
	h.hot[c] = true
	g := atomic.AddInt32(&h.gen, 1)
	h.Paths, h.Aborted, h.Asserts, h.Discharged, h.Trivial, h.Decisions, h.Undecided = 0, 0, 0, 0, 0, 0, 0
	h.Labels, h.Viol, h.Errors, h.Unsup, h.wit, h.wSeen, h.Steps = map[string]int{}, nil, nil, nil, nil, 0, 0
	h.stop.Store(false)
	h.mu.Unlock()
	r.ex.put(Job{h, nil, Model{}, g})
}

func (cs *concState) cell(p *Value) *cell {
	c := cs.info[p]
	if c == nil {
		n := len(cs.threads)
		c = &cell{make([]int, n), make([]int, n), make([]int, n), make([]int, n), nil}
		cs.info[p] = c
	}
	return c
}

func join(a *[]int, b []int) {
	if b == nil {
		return
	}
	n := append([]int(nil), *a...)
	for i, x := range b {
		if i >= len(n) {
			n = append(n, x)
		} else if x > n[i] {
			n[i] = x
		}
	}
	*a = n
}

// happens updates the clocks for an access and detects races.
func (cs *concState) happens(r *Run, t *cthread, p *Value, write, atomic bool) {
	c := cs.cell(p)
	bad := func(seen []int) bool {
		for i, x := range seen {
			if i != t.id && x > t.vc[i] {
				return true
			}
		}
		return false
	}
	if atomic {
		if bad(c.w) || write && bad(c.r) {
			cs.foundRace(r, p)
		}
		join(&t.vc, c.rel)
		if write {
			c.aw[t.id] = t.vc[t.id]
			c.rel = append([]int(nil), t.vc...)
			t.vc[t.id]++
		} else {
			c.ar[t.id] = t.vc[t.id]
		}
		return
	}
	if bad(c.w) || bad(c.aw) || write && (bad(c.r) || bad(c.ar)) {
		cs.foundRace(r, p)
	}
	if write {
		c.w[t.id] = t.vc[t.id]
	} else {
		c.r[t.id] = t.vc[t.id]
	}
}

func (cs *concState) foundRace(r *Run, p *Value) {
	if cs.race == "" {
		cs.race = fmt.Sprintf("%s in %s", cs.class[p], r.where())
	}
}

// ---- scheduling

func (r *Run) interleave(fns []Value) {
	if r.conc != nil {
		unsupported("nested Interleave")
	}
	if r.mg != nil {
		panic(mergeAbort{"interleave"})
	}
	n := len(fns)
	cs := &concState{main: make(chan interface{}), maxPre: 4, info: map[*Value]*cell{}, class: map[*Value]string{},
		owner: map[*Value]int{}, lockBy: map[*Value]int{}, readers: map[*Value]int{}, events: int(r.model["sched.n"])}
	if r.names["sched"] > 0 {
		unsupported("more than one Interleave")
	}
	r.names["sched"]++
	cs.events = 0
	r.conc = cs
	top, df := r.top, r.deferFrame
	for i, f := range fns {
		t := &cthread{id: i, resume: make(chan bool), top: top, vc: make([]int, n), locks: map[*Value]bool{}}
		t.vc[i] = 1
		cs.threads = append(cs.threads, t)
		go func(f Value) {
			if !<-t.resume {
				cs.main <- threadKilled{}
				return
			}
			var x interface{}
			func() {
				defer func() { x = recover() }()
				r.top = top
				r.call(f, nil, nil)
			}()
			t.done = true
			if x != nil {
				cs.main <- x
				return
			}
			var next *cthread
			func() {
				defer func() { x = recover() }()
				next = r.nextThread(cs)
			}()
			if x != nil || next == nil {
				cs.main <- x
				return
			}
			cs.cur = next.id
			r.top, r.deferFrame = next.top, next.defFr
			next.resume <- true
		}(f)
	}
	k := r.choose(n)
	r.event(cs, 0, k)
	cs.cur = k
	cs.threads[k].resume <- true
	x := <-cs.main
	r.endThreads()
	r.conc = nil
	if x != nil {
		panic(x)
	}
	r.top, r.deferFrame = top, df
	if cs.race != "" {
		r.flush()
		r.report(&Violation{Label: "no data race", Msg: cs.race, Wit: r.witness(r.model), Race: true})
	}
}

// event records a scheduling decision for the replay.
func (r *Run) event(cs *concState, point, to int) {
	r.model[fmt.Sprintf("sched.%d", cs.events)] = uint64(point)<<8 | uint64(to)
	cs.events++
	r.model["sched.n"] = uint64(cs.events)
}

// nextThread chooses the thread to run after one has ended.
func (r *Run) nextThread(cs *concState) *cthread {
	var ts []*cthread
	for _, t := range cs.threads {
		if !t.done {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return nil
	}
	t := ts[r.choose(len(ts))]
	r.event(cs, endMark, t.id)
	return t
}

// point is a place where control can pass to another thread.
func (r *Run) point() {
	cs := r.conc
	if cs == nil || r.mg != nil {
		return
	}
	cs.points++
	t := cs.threads[cs.cur]
	if !t.marked {
		return
	}
	t.marked = false
	if cs.pre >= cs.maxPre {
		return
	}
	var ts []*cthread
	for _, o := range cs.threads {
		if !o.done && o != t {
			ts = append(ts, o)
		}
	}
	if len(ts) == 0 {
		return
	}
	k := r.choose(len(ts) + 1)
	if k == 0 {
		return
	}
	cs.pre++
	next := ts[k-1]
	r.event(cs, cs.points, next.id)
	t.top, t.defFr = r.top, r.deferFrame
	cs.cur = next.id
	r.top, r.deferFrame = next.top, next.defFr
	next.resume <- true
	if !<-t.resume {
		panic(threadKilled{})
	}
}

// endThreads ends the threads that are waiting.
func (r *Run) endThreads() {
	cs := r.conc
	if cs == nil {
		return
	}
	for _, t := range cs.threads {
		if t.done {
			continue
		}
		t.done = true
		t.resume <- false
		<-cs.main
	}
	r.conc = nil
}

func registerConc(s func(string, intrinsic)) {
	s("Point", func(r *Run, fn *ssa.Function, a []Value) Value { r.point(); return nil })
	s("Interleave", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.interleave(a[0].(Slice).v)
		return nil
	})
}

// Locks. A thread that would have to wait cannot be replayed at a point; the
// schedules in which it is interrupted before it tries have the same effect.

func (r *Run) lock(p *Value, write bool) {
	cs := r.conc
	if cs == nil {
		return
	}
	t := cs.threads[cs.cur]
	by, held := cs.lockBy[p]
	if held && by >= 0 || write && cs.readers[p] > 0 {
		r.flush()
		panic(pathAbort{})
	}
	if write {
		cs.lockBy[p] = t.id
	} else {
		cs.readers[p]++
	}
	join(&t.vc, cs.cell(p).rel)
	t.marked = true
}

func (r *Run) unlock(p *Value, write bool) {
	cs := r.conc
	if cs == nil {
		return
	}
	t := cs.threads[cs.cur]
	if write {
		if _, ok := cs.lockBy[p]; !ok {
			panic(&targetPanic{msg: "sync: unlock of unlocked mutex"})
		}
		delete(cs.lockBy, p)
	} else {
		cs.readers[p]--
	}
	c := cs.cell(p)
	rel := append([]int(nil), t.vc...)
	join(&rel, c.rel)
	c.rel = rel
	t.vc[t.id]++
	t.marked = true
}
