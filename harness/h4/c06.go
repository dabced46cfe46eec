package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// op is one operation on a mutable set.
type op struct {
	remove bool
	p      P
}

// inAfter reports whether x is in the set after the operations.
func inAfter(ops []op, x W) bool {
	r := false
	for _, o := range ops {
		if o.remove {
			r = sym.And(r, sym.Not(pHas(o.p, x)))
		} else {
			r = sym.Or(r, pHas(o.p, x))
		}
	}
	return r
}

func symOps(name string, n int, s, g uint32) []op {
	base := symW("base")
	var ops []op
	for i := 0; i < n; i++ {
		o := op{remove: i > 0 && sym.Choose(name+".remove", 2) == 1}
		o.p = windowed(base, name, 1, s, g)[0]
		ops = append(ops, o)
	}
	return ops
}

func (o op) do(s Set_) {
	if o.remove {
		s.Remove(mkPrefix(o.p))
	} else {
		s.Insert(mkPrefix(o.p))
	}
}

func checkHistory(n int, s, g uint32) {
	ops := symOps("op", n, s, g)
	a := fam.NewSet_()
	alias := a
	x := symW("x")
	snaps := []Set{a.Set()}
	for _, o := range ops {
		o.do(a)
		snaps = append(snaps, a.Set())
	}
	for i, sn := range snaps {
		l := prefixesOf(sn)
		canonical(l)
		sym.Assert(sym.Iff(anyHas(l, x), inAfter(ops[:i], x)), "a snapshot has what was inserted and not removed before it")
	}
	sym.Assert(sameList(prefixesOf(alias.Set()), prefixesOf(a.Set())), "copies of a mutable set share its contents")
}

// Q_C06_history2: two operations, any window of 2 lengths; snapshots in between.
func Q_C06_history2() { checkHistory(2, anyScale(1), 1) }

// Q_C06_history3: three operations, 3 windows of 3 lengths; snapshots in between.
func Q_C06_history3() { checkHistory(3, scale(2, 0, bits/2-1, bits-2), 2) }

// Q_C06_history3all: three operations, any window of 2 lengths; snapshots in between.
func Q_C06_history3all() { checkHistory(3, anyScale(1), 1) }

// Q_C06_history4: four operations, 2 windows of 2 lengths; snapshots in between.
func Q_C06_history4() { checkHistory(4, scale(1, 1, bits-1), 1) }

// Q_C06_fork: a mutable set made from a snapshot is independent of it, of the
// mutable set it came from and of others made from it; 2 windows of 2 lengths.
func Q_C06_fork() {
	ops := symOps("op", 4, scale(1, 1, bits-1), 1)
	x := symW("x")
	a := fam.NewSet_()
	ops[0].do(a)
	snap := a.Set()
	b, c := snap.Set_(), snap.Set_()
	ops[1].do(a)
	ops[2].do(b)
	ops[3].do(c)
	has := func(s Set, seq ...op) {
		l := prefixesOf(s)
		sym.Assert(sym.Iff(anyHas(l, x), inAfter(seq, x)), "a set is changed only by operations on it")
	}
	has(snap, ops[0])
	has(a.Set(), ops[0], ops[1])
	has(b.Set(), ops[0], ops[2])
	has(c.Set(), ops[0], ops[3])
}

// Q_C06_operands: the operations on sets leave their operands as they were;
// two prefixes each; 2 windows of 2 lengths.
func Q_C06_operands() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	as, bs := windowed(base, "a", 2, s, 1), windowed(base, "b", 2, s, 1)
	a, b := build(as), build(bs)
	la, lb := prefixesOf(a), prefixesOf(b)
	a.Union(b)
	a.Intersection(b)
	a.Difference(b)
	b.Difference(a)
	a.Contains(b)
	a.FindAvailablePrefix(b, s+1)
	m := a.Set_()
	m.Insert(b)
	m.Remove(b)
	m.Insert(m)
	m.Remove(m)
	sym.Assert(m.IsEmpty(), "a set without itself is empty")
	sym.Assert(sameList(prefixesOf(a), la), "operations do not change the receiver")
	sym.Assert(sameList(prefixesOf(b), lb), "operations do not change the argument")
}

// Q_C06_bulk: inserting and removing whole sets; two prefixes each; 2 windows
// of 3 lengths.
func Q_C06_bulk() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := windowed(base, "a", 2, s, 2), windowed(base, "b", 2, s, 2)
	a, b := build(as), build(bs)
	x := symW("x")
	ina, inb := anyHas(as, x), anyHas(bs, x)
	m := a.Set_()
	m.Insert(b)
	sym.Assert(sym.Iff(anyHas(prefixesOf(m.Set()), x), sym.Or(ina, inb)), "insert adds all addresses of a set")
	sym.Assert(m.Set().Equal(a.Union(b)), "insert is union")
	m = a.Set_()
	m.Remove(b.Set_())
	sym.Assert(sym.Iff(anyHas(prefixesOf(m.Set()), x), sym.And(ina, sym.Not(inb))), "remove removes all addresses of a set")
	sym.Assert(m.Set().Equal(a.Difference(b)), "remove is difference")
}

// Q_C06_build: Build applies what the callback does iff it returns true; 2
// windows of 3 lengths.
func Q_C06_build() {
	ops := symOps("op", 2, scale(2, 0, bits-2), 2)
	keep := sym.Choose("keep", 2) == 1
	x := symW("x")
	a := build([]P{ops[0].p})
	before := prefixesOf(a)
	var kept Set_
	b := a.Build(func(s Set_) bool {
		ops[1].do(s)
		kept = s
		return keep
	})
	want := ops[:1]
	if keep {
		want = ops
	}
	sym.Assert(sym.Iff(anyHas(prefixesOf(b), x), inAfter(want, x)), "Build returns the modified set iff the callback returns true")
	sym.Assert(sameList(prefixesOf(a), before), "Build does not change the receiver")
	kept.Insert(mkPrefix(P{wc(0), 0}))
	sym.Assert(sym.Iff(anyHas(prefixesOf(b), x), inAfter(want, x)), "the result of Build is not changed through the builder")
	sym.Assert(sameList(prefixesOf(a), before), "Build does not change the receiver")
}

// T_C06_history3wide: three operations, 2 windows of 4 lengths.
func T_C06_history3wide() { checkHistory(3, scale(3, 0, bits-3), 3) }

// T_C06_history4wide: four operations, 2 windows of 3 lengths.
func T_C06_history4wide() { checkHistory(4, scale(2, 0, bits-2), 2) }

// T_C06_history5: five operations, a window of 2 lengths.
func T_C06_history5() { checkHistory(5, scale(1, bits-2), 1) }
