package h4

import "verif/harness/sym"

func checkMatch(ops []top, q P) {
	t := tabulate(ops)
	found, at, v := longest(ops, q)
	checkLookup(t, q, found, at, v)
}

func checkLookup(t table_, q P, found bool, at P, v uint8) {
	got, ok, m := t.LongestMatch(mkPrefix(q))
	sym.Assert(sym.Iff(ok, found), "a match is found iff an entry contains the prefix")
	sym.Assert(sym.Implies(found, got == v), "the value is that of the longest entry that contains the prefix")
	sym.Assert(sym.Implies(found, pSame(prefixP(m), at)), "the match is the longest entry that contains the prefix")
	got2, ok2, m2 := t.Table().LongestMatch(mkPrefix(q))
	sym.Assert(sym.And(ok == ok2, sym.And(got == got2, pExact(prefixP(m), prefixP(m2)))), "an immutable table agrees")
}

// Q_C09_match1: one entry, any prefix, any window of 2 lengths.
func Q_C09_match1() {
	s := anyScale(1)
	base := symW("base")
	checkMatch(inserts(base, "in", 1, s, 1), windowed(base, "q", 1, s, 1)[0])
}

// Q_C09_far: one entry and any prefix, 4 windows of 2 lengths, in the same or
// another block.
func Q_C09_far() {
	s := scale(1, 0, bits/2-1, bits/2, bits-1)
	checkMatch(inserts(symW("base"), "in", 1, s, 1), windowed(symW("other"), "q", 1, s, 1)[0])
}

// Q_C09_match2: two entries, any window of 3 lengths.
func Q_C09_match2() {
	s := anyScale(2)
	base := symW("base")
	checkMatch(inserts(base, "in", 2, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// Q_C09_match3: three entries, 4 windows of 3 lengths.
func Q_C09_match3() {
	s := scale(2, 0, bits/2-2, bits/2, bits-2)
	base := symW("base")
	checkMatch(inserts(base, "in", 3, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// Q_C09_match4: four entries, a window of 2 lengths.
func Q_C09_match4() {
	s := scale(1, bits-1)
	base := symW("base")
	checkMatch(inserts(base, "in", 4, s, 1), windowed(base, "q", 1, s, 1)[0])
}

// Q_C09_address: any address is looked up among two entries, any window of 2
// lengths, in the same block.
func Q_C09_address() {
	s := anyScale(1)
	base := symW("base")
	ops := inserts(base, "in", 2, s, 1)
	t := tabulate(ops)
	x := wJoin(base, symW("x"), s)
	found, at, v := longest(ops, P{x, bits})
	got, ok, m := t.LongestMatch(mkAddr(x))
	sym.Assert(sym.Iff(ok, found), "a match is found iff an entry contains the address")
	sym.Assert(sym.Implies(found, got == v), "the value is that of the longest entry that contains the address")
	sym.Assert(sym.Implies(found, pSame(prefixP(m), at)), "the match is the longest entry that contains the address")
	sym.Assert(sym.Implies(found, pHas(prefixP(m), x)), "the match contains the address")
}

// Q_C09_wide: two entries of 8 lengths each; a prefix of 8 lengths which
// agrees with the longer one up to the length of the shorter one or longer.
func Q_C09_wide() {
	p, q := gapPair("p")
	r := symPL("r", sparseLen("r.len"))
	r.a = wJoin(q.a, r.a, []uint32{p.l, q.l}[sym.Choose("agree", 2)])
	checkMatch([]top{{opInsertOrUpdate, p, sym.Uint8("v")}, {opInsertOrUpdate, q, sym.Uint8("w")}}, r)
}

// Q_C09_removed: three entries, one of them removed, any prefix looked up; 2
// windows of 3 lengths.
func Q_C09_removed() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	ops := inserts(base, "in", 3, s, 2)
	t := tabulate(ops)
	i := sym.Choose("removed", 3)
	gone := ops[i].p
	t.Remove(mkPrefix(gone))
	q := windowed(base, "q", 1, s, 2)[0]
	found, at, v := false, P{}, uint8(0)
	for _, o := range ops {
		better := sym.And(sym.And(pCovers(o.p, q), sym.Not(pSame(o.p, gone))), sym.Or(sym.Not(found), at.l <= o.p.l))
		at = P{wIte(better, o.p.a, at.a), sym.Ite32(better, o.p.l, at.l)}
		v = ite8(better, o.v, v)
		found = sym.Or(found, better)
	}
	checkLookup(t, q, found, at, v)
}

// T_C09_match3all: three entries, any window of 3 lengths.
func T_C09_match3all() {
	s := anyScale(2)
	base := symW("base")
	checkMatch(inserts(base, "in", 3, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// T_C09_match4: four entries, 2 windows of 3 lengths.
func T_C09_match4() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	checkMatch(inserts(base, "in", 4, s, 2), windowed(base, "q", 1, s, 2)[0])
}
