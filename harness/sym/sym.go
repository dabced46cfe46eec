// Package sym is the interface between the harnesses and the symbolic
// engine. The engine intercepts every function of this package; the bodies
// below are the native meaning, used when a solver model is replayed against
// the compiled code.
package sym

import (
	"fmt"
	"strconv"
	"sync"
)

// State of one native replay.
type State struct {
	Vals   map[string]uint64
	names  map[string]int
	Trace  []string
	Failed []string
	Conc   *Sched
}

// AssumeFailed is thrown when a replayed witness violates an assumption.
type AssumeFailed struct{}

var cur *State

// Begin starts a replay with the given variable values.
func Begin(vals map[string]uint64) *State {
	cur = &State{Vals: vals, names: map[string]int{}}
	return cur
}

func val(name string) uint64 {
	n := cur.names[name]
	cur.names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return cur.Vals[name]
}

// Uint8 is an arbitrary value.
func Uint8(name string) uint8 { return uint8(val(name)) }

// Uint16 is an arbitrary value.
func Uint16(name string) uint16 { return uint16(val(name)) }

// Uint32 is an arbitrary value.
func Uint32(name string) uint32 { return uint32(val(name)) }

// Uint64 is an arbitrary value.
func Uint64(name string) uint64 { return val(name) }

// Bool is an arbitrary value.
func Bool(name string) bool { return val(name) != 0 }

// Range is an arbitrary value in [lo,hi]; the bounds must be constants.
func Range(name string, lo, hi uint32) uint32 {
	if lo == hi {
		return lo
	}
	return uint32(val(name))
}

// Choose is an arbitrary value in [0,n), explored one path per value.
func Choose(name string, n int) int { return int(val(name)) }

// Bytes is an arbitrary string of n bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// Assume restricts the inputs under consideration.
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}

// Assert states a property.
func Assert(c bool, label string) {
	cur.Trace = append(cur.Trace, "assert "+label+"="+strconv.FormatBool(c))
	if !c {
		cur.Failed = append(cur.Failed, label)
	}
}

// KnownAssert states a property that is known not to hold when known is true.
func KnownAssert(c, known bool, label, id string) { Assert(c, label) }

// Split returns c, exploring both values on separate paths.
func Split(c bool) bool { return c }

// Concrete returns x, exploring each of its values on a separate path.
func Concrete(x uint32) uint32 { return x }

// Lemma is a hint: if the solver proves a == b it may use b for a.
func Lemma(a, b uint64) {}

// Observe records a value in the trace compared between engine and replay.
func Observe(label string, v uint64) {
	cur.Trace = append(cur.Trace, "obs "+label+"="+strconv.FormatUint(v, 10))
}

// Str records a string in the trace.
func Str(label string, v string) {
	cur.Trace = append(cur.Trace, "str "+label+"="+strconv.Quote(v))
}

// Reach marks a point some path has to reach.
func Reach(label string) {}

// Panics reports whether f panics.
func Panics(f func()) (res bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(AssumeFailed); ok {
				panic(x)
			}
			res = true
		}
	}()
	f()
	return false
}

// And does not fork.
func And(a, b bool) bool { return a && b }

// Or does not fork.
func Or(a, b bool) bool { return a || b }

// Not does not fork.
func Not(a bool) bool { return !a }

// Implies does not fork.
func Implies(a, b bool) bool { return !a || b }

// Iff does not fork.
func Iff(a, b bool) bool { return a == b }

// Ite32 does not fork.
func Ite32(c bool, a, b uint32) uint32 {
	if c {
		return a
	}
	return b
}

// Ite64 does not fork.
func Ite64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

// B2U does not fork.
func B2U(c bool) uint64 {
	if c {
		return 1
	}
	return 0
}

// Sched is the state of the threads of a concurrent harness.
type Sched struct {
	threads []*thread
	cur     *thread
	points  uint64
	next    int
	main    chan interface{}
	free    bool
}

type thread struct {
	resume chan bool
	done   bool
}

const endMark = 1 << 40

// event is the next scheduling decision.
func (s *Sched) event() (point uint64, to int, ok bool) {
	if s.next >= int(cur.Vals["sched.n"]) {
		return 0, 0, false
	}
	v := cur.Vals[fmt.Sprintf("sched.%d", s.next)]
	return v >> 8, int(v & 255), true
}

func (s *Sched) take() *thread {
	_, to, ok := s.event()
	if !ok {
		return nil
	}
	s.next++
	s.cur = s.threads[to]
	return s.cur
}

// Interleave runs functions as threads, in any interleaving at the points.
func Interleave(fs ...func()) {
	if cur.Vals["sched.free"] == 1 {
		var wg sync.WaitGroup
		start := make(chan bool)
		for _, f := range fs {
			wg.Add(1)
			go func(f func()) {
				defer wg.Done()
				<-start
				f()
			}(f)
		}
		close(start)
		wg.Wait()
		return
	}
	s := &Sched{main: make(chan interface{}, len(fs))}
	for _, f := range fs {
		t := &thread{resume: make(chan bool)}
		s.threads = append(s.threads, t)
		go func(f func()) {
			<-t.resume
			var x interface{}
			func() {
				defer func() { x = recover() }()
				f()
			}()
			t.done = true
			if x != nil {
				s.main <- x
				return
			}
			if n := s.take(); n != nil {
				n.resume <- true
				return
			}
			s.main <- nil
		}(f)
	}
	cur.Conc = s
	s.take().resume <- true
	x := <-s.main
	cur.Conc = nil
	if x != nil {
		panic(x)
	}
}

// Point is where control can pass from one thread to another.
func Point() {
	if cur == nil || cur.Conc == nil {
		return
	}
	s := cur.Conc
	s.points++
	if p, to, ok := s.event(); ok && p == s.points {
		t := s.cur
		s.next++
		s.cur = s.threads[to]
		s.cur.resume <- true
		<-t.resume
	}
}
