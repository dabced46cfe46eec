package h6

import "verif/harness/sym"

func checkTable(base W, ops []top, s, g uint32) {
	t := tabulate(nil)
	alias := t
	for i, o := range ops {
		o.checked(t, ops[:i])
	}
	n := size(ops)
	sym.Assert(t.NumEntries() == n, "the number of entries is that of the map")
	sym.Assert(t.Table().NumEntries() == n, "the number of entries is that of the map")
	q := windowed(base, "q", 1, s, g)[0]
	present, v := state(ops, q)
	got, ok := t.Get(mkPrefix(q))
	sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
	sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
	got2, ok2 := t.Table().Get(mkPrefix(q))
	sym.Assert(sym.And(sym.Iff(ok, ok2), got == got2), "Get on an immutable table agrees")
	got2, ok2 = alias.Get(mkPrefix(q))
	sym.Assert(sym.And(sym.Iff(ok, ok2), got == got2), "copies of a mutable table share its contents")
}

var allKinds = []int{opInsert, opUpdate, opInsertOrUpdate, opGetOrInsert, opRemove}

// Q_C08_history1: one operation on an empty table, any length.
func Q_C08_history1() {
	s := anyScale(0)
	base := symW("base")
	checkTable(base, symTops(base, "op", 1, s, 0, allKinds...), s, 0)
}

// Q_C08_history2: two operations of any kind, any window of 2 lengths.
func Q_C08_history2() {
	s := anyScale(1)
	base := symW("base")
	checkTable(base, symTops(base, "op", 2, s, 1, allKinds...), s, 1)
}

// Q_C08_history3: an insertion and two operations of any kind, a window of 2
// lengths.
func Q_C08_history3() {
	s := scale(1, bits/2-1)
	base := symW("base")
	ops := append(inserts(base, "in", 1, s, 1), symTops(base, "op", 2, s, 1, allKinds...)...)
	checkTable(base, ops, s, 1)
}

// Q_C08_afterInserts: two insertions and any operation, 3 windows of 3 lengths.
func Q_C08_afterInserts() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := append(inserts(base, "in", 2, s, 2), symTops(base, "op", 1, s, 2, allKinds...)...)
	checkTable(base, ops, s, 2)
}

// Q_C08_removes: three insertions and two removals, a window of 2 lengths.
func Q_C08_removes() {
	s := scale(1, bits-1)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 1), symTops(base, "op", 2, s, 1, opRemove)...)
	checkTable(base, ops, s, 1)
}

// Q_C08_wide: an insertion and any operation on prefixes of 8 lengths, where
// one is far longer than the other or not.
func Q_C08_wide() {
	p, q := gapPair("p")
	if sym.Choose("swap", 2) == 1 {
		p, q = q, p
	}
	ops := []top{
		{opInsert, p, sym.Uint8("v")},
		{allKinds[sym.Choose("kind", opKinds)], q, sym.Uint8("w")},
	}
	t := tabulate(nil)
	for i, o := range ops {
		o.checked(t, ops[:i])
	}
	sym.Assert(t.NumEntries() == size(ops), "the number of entries is that of the map")
	for _, r := range []P{p, q} {
		present, v := state(ops, r)
		got, ok := t.Get(mkPrefix(r))
		sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
		sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
	}
}

// T_C08_history3: three operations of any kind, 4 windows of 2 lengths.
func T_C08_history3() {
	s := scale(1, 0, bits/2-2, bits/2, bits-1)
	base := symW("base")
	checkTable(base, symTops(base, "op", 3, s, 1, allKinds...), s, 1)
}

// T_C08_afterInserts3: three insertions and any operation, 2 windows of 3 lengths.
func T_C08_afterInserts3() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 2), symTops(base, "op", 1, s, 2, allKinds...)...)
	checkTable(base, ops, s, 2)
}

// T_C08_history4: four operations of any kind, a window of 2 lengths.
func T_C08_history4() {
	s := scale(1, bits/2-1)
	base := symW("base")
	checkTable(base, symTops(base, "op", 4, s, 1, opInsert, opUpdate, opRemove), s, 1)
}
