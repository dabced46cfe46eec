package h6

import "verif/harness/sym"

// checkMap maps the values of a table.
func checkMap(ops []top, q P) {
	t := tabulate(ops).Table()
	before := walk(t)
	k := sym.Uint8("k")
	f := func(p P, v uint8) uint8 { return v&k ^ uint8(p.l) }
	var calls []entry
	m := t.Map(func(p Prefix, v uint8) uint8 {
		calls = append(calls, entry{prefixP(p), v})
		return f(prefixP(p), v)
	})
	sym.Assert(sameEntries(calls, before), "the mapper is called once for each entry in order")
	after := walk(m)
	sym.Assert(len(after) == len(before), "the mapped table has the same prefixes")
	for i := range after {
		sym.Assert(pExact(after[i].p, before[i].p), "the mapped table has the same prefixes")
		sym.Assert(after[i].v == f(before[i].p, before[i].v), "the values are what the mapper returned")
	}
	sym.Assert(sameEntries(walk(t), before), "mapping leaves the original as it was")
	sym.Assert(m.NumEntries() == t.NumEntries(), "the mapped table has as many entries")
	present, v := state(ops, q)
	got, ok := m.Get(mkPrefix(q))
	sym.Assert(sym.Iff(ok, present), "the mapped table has an entry iff the original has")
	sym.Assert(sym.Implies(ok, got == f(q, v)), "the value found is what the mapper returned")
}

// checkMapTo maps the value of one prefix, the others stay as they are.
func checkMapTo(ops []top, only P, to uint8) {
	t := tabulate(ops).Table()
	before := walk(t)
	var calls []entry
	m := t.Map(func(p Prefix, v uint8) uint8 {
		calls = append(calls, entry{prefixP(p), v})
		return ite8(pSame(prefixP(p), only), to, v)
	})
	sym.Assert(sameEntries(calls, before), "the mapper is called once for each entry in order")
	sym.Assert(sameEntries(walk(t), before), "mapping leaves the original as it was")
	var want []entry
	for _, e := range before {
		want = append(want, entry{e.p, ite8(pSame(e.p, only), to, e.v)})
	}
	sym.Assert(sameEntries(walk(m), want), "the values are what the mapper returned")
}

// Q_C13_two: two entries, any window of 2 lengths.
func Q_C13_two() {
	s := anyScale(1)
	base := symW("base")
	checkMap(inserts(base, "in", 2, s, 1), windowed(base, "q", 1, s, 1)[0])
}

// Q_C13_three: three entries, 3 windows of 3 lengths.
func Q_C13_three() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := inserts(base, "in", 3, s, 2)
	checkMap(ops, ops[sym.Choose("q", 3)].p)
}

// Q_C13_removed: three insertions and a removal; a window of 3 lengths.
func Q_C13_removed() {
	s := scale(2, bits-2)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 2), top{opRemove, windowed(base, "gone", 1, s, 2)[0], 0})
	checkMap(ops, ops[0].p)
}

// Q_C13_wide: two entries of 8 lengths each.
func Q_C13_wide() {
	p, q := gapPair("p")
	checkMap([]top{{opInsertOrUpdate, p, sym.Uint8("v")}, {opInsertOrUpdate, q, sym.Uint8("w")}}, q)
}

// Q_C13_nil: a nil mapper leaves the values as they are.
func Q_C13_nil() {
	s := scale(2, 0, bits-2)
	t := tabulate(inserts(symW("base"), "in", 2, s, 2)).Table()
	sym.Assert(sameEntries(walk(t.Map(nil)), walk(t)), "a nil mapper leaves the values as they are")
}

// Q_C13_diff: the diff between a table and the mapped one has exactly the
// entries whose values changed; 2 windows of 3 lengths.
func Q_C13_diff() {
	s := scale(2, 0, bits-2)
	t := tabulate(inserts(symW("base"), "in", 2, s, 2)).Table()
	k := sym.Uint8("k")
	m := t.Map(func(p Prefix, v uint8) uint8 { return v & k })
	evs, _ := diff(t, m, allEvents, never)
	es := walk(t)
	sym.Assert(len(evs) == len(es), "every entry is unchanged or changed")
	for i, e := range evs {
		sym.Assert(e.kind == evChanged || e.kind == evSame, "no entry is added or removed")
		sym.Assert(sym.Iff(e.kind == evChanged, es[i].v&k != es[i].v), "an entry is changed iff its value is")
	}
}

// T_C13_four: four entries, 2 windows of 2 lengths.
func T_C13_four() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	checkMap(inserts(base, "in", 4, s, 1), windowed(base, "q", 1, s, 1)[0])
}

// T_C13_two: two entries, any window of 3 lengths.
func T_C13_two() {
	s := anyScale(2)
	base := symW("base")
	checkMap(inserts(base, "in", 2, s, 2), windowed(base, "q", 1, s, 2)[0])
}
