package h6

import "verif/harness/sym"

// same asserts that the table has exactly what the map has, at q.
func has(t table, ops []top, q P, label string) {
	present, v := state(ops, q)
	seen := false
	var sv uint8
	es := walk(t)
	for _, e := range es {
		is := pSame(e.p, q)
		seen = sym.Or(seen, is)
		sv = ite8(is, e.v, sv)
	}
	sym.Assert(sym.And(sym.Iff(seen, present), sym.Implies(present, v == sv)), label)
	sym.Assert(int64(len(es)) == size(ops), label)
}

const lSnap = "a snapshot keeps what the table had when it was taken"

func checkSnapshots(ops []top, q P) {
	t := tabulate(nil)
	snaps := []table{t.Table()}
	for _, o := range ops {
		o.do(t)
		snaps = append(snaps, t.Table())
	}
	for i, sn := range snaps {
		has(sn, ops[:i], q, lSnap)
	}
}

// Q_C14_snapshots2: two operations of any kind, any window of 2 lengths;
// snapshots in between.
func Q_C14_snapshots2() {
	s := anyScale(1)
	base := symW("base")
	ops := append(inserts(base, "in", 1, s, 1), symTops(base, "op", 1, s, 1, allKinds...)...)
	checkSnapshots(ops, windowed(base, "q", 1, s, 1)[0])
}

// Q_C14_snapshots3: two insertions and an operation of any kind, 3 windows of
// 3 lengths; snapshots in between.
func Q_C14_snapshots3() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := append(inserts(base, "in", 2, s, 2), symTops(base, "op", 1, s, 2, allKinds...)...)
	checkSnapshots(ops, ops[sym.Choose("q", 3)].p)
}

// Q_C14_snapshots4: three insertions and an operation of any kind, a window
// of 2 lengths; snapshots in between.
func Q_C14_snapshots4() {
	s := scale(1, bits-1)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 1), symTops(base, "op", 1, s, 1, allKinds...)...)
	checkSnapshots(ops, windowed(base, "q", 1, s, 1)[0])
}

// Q_C14_fork: mutable tables made from a snapshot are independent of it, of
// the table it came from and of each other; 2 windows of 2 lengths.
func Q_C14_fork() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	first := inserts(base, "in", 1, s, 1)
	more := symTops(base, "op", 2, s, 1, opInsertOrUpdate, opRemove)
	more = append(more, top{opInsert, windowed(base, "last", 1, s, 1)[0], sym.Uint8("last.value")})
	q := windowed(base, "q", 1, s, 1)[0]
	a := tabulate(first)
	snap := a.Table()
	b, c := snap.Table_(), snap.Table_()
	more[0].do(a)
	more[1].do(b)
	more[2].do(c)
	const l = "a table is changed only by operations on it"
	has(snap, first, q, l)
	has(a.Table(), []top{first[0], more[0]}, q, l)
	has(b.Table(), []top{first[0], more[1]}, q, l)
	has(c.Table(), []top{first[0], more[2]}, q, l)
}

// Q_C14_build: Build applies what the callback does iff it returns true; 2
// windows of 3 lengths.
func Q_C14_build() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	first := inserts(base, "in", 1, s, 2)
	more := symTops(base, "op", 1, s, 2, allKinds...)
	q := more[0].p
	keep := sym.Choose("keep", 2) == 1
	t := tabulate(first).Table()
	var kept table_
	b := t.Build(func(m table_) bool {
		more[0].do(m)
		kept = m
		return keep
	})
	want := first
	if keep {
		want = append(append([]top{}, first...), more...)
	}
	has(b, want, q, "Build returns the modified table iff the callback returns true")
	has(t, first, q, "Build does not change the receiver")
	kept.InsertOrUpdate(mkPrefix(q), 9)
	has(b, want, q, "the result of Build is not changed through the builder")
	has(t, first, q, "Build does not change the receiver")
}

// Q_C14_derived: tables derived by aggregation, mapping and from mutable
// copies are not changed by operations on their origin; 2 windows of 2 lengths.
func Q_C14_derived() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	m := tabulate(inserts(base, "in", 2, s, 1))
	op := symTops(base, "op", 1, s, 1, opInsertOrUpdate, opRemove)[0]
	t := m.Table()
	agg, mapped := t.Aggregate(), t.Map(func(p Prefix, v uint8) uint8 { return v + 1 })
	es, ea, em := walk(t), walk(agg), walk(mapped)
	op.do(m)
	op.do(agg.Table_())
	op.do(mapped.Table_())
	op.do(t.Table_())
	sym.Assert(sameEntries(walk(t), es), lSnap)
	sym.Assert(sameEntries(walk(agg), ea), "an aggregated table stays as it is")
	sym.Assert(sameEntries(walk(mapped), em), "a mapped table stays as it is")
}

// T_C14_snapshots4: two insertions and two operations of any kind, 2 windows
// of 2 lengths.
func T_C14_snapshots4() {
	s := scale(1, 0, bits-1)
	base := symW("base")
	ops := append(inserts(base, "in", 2, s, 1), symTops(base, "op", 2, s, 1, allKinds...)...)
	checkSnapshots(ops, windowed(base, "q", 1, s, 1)[0])
}

// T_C14_snapshots3all: two insertions and an operation, any window of 3 lengths.
func T_C14_snapshots3all() {
	s := anyScale(2)
	base := symW("base")
	ops := append(inserts(base, "in", 2, s, 2), symTops(base, "op", 1, s, 2, allKinds...)...)
	checkSnapshots(ops, ops[sym.Choose("q", 3)].p)
}
