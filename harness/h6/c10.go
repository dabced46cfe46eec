package h6

import "verif/harness/sym"

func checkWalk(ops []top, q P) {
	t := tabulate(ops)
	es := walk(t.Table())
	some := false
	var qv uint8
	for i, e := range es {
		if i > 0 {
			sym.Assert(pBefore(es[i-1].p, e.p), "entries are walked in lexicographical order, each once")
		}
		present, v := state(ops, e.p)
		sym.Assert(present, "entries that are walked are in the table")
		sym.Assert(e.v == v, "entries are walked with their values")
		same := pSame(e.p, q)
		some = sym.Or(some, same)
		qv = ite8(same, e.v, qv)
	}
	present, v := state(ops, q)
	sym.Assert(sym.Iff(some, present), "every entry of the table is walked")
	sym.Assert(sym.Implies(present, qv == v), "entries are walked with their values")
	sym.Assert(t.NumEntries() == int64(len(es)), "as many entries are walked as there are")
}

// Q_C10_walk2: two insertions, any window of 3 lengths.
func Q_C10_walk2() {
	s := anyScale(2)
	base := symW("base")
	checkWalk(inserts(base, "in", 2, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// Q_C10_walk3: three insertions, 3 windows of 3 lengths.
func Q_C10_walk3() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	checkWalk(inserts(base, "in", 3, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// Q_C10_walk4: four insertions, 2 windows of 2 lengths.
func Q_C10_walk4() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	checkWalk(inserts(base, "in", 4, s, 1), windowed(base, "q", 1, s, 1)[0])
}

// Q_C10_removed: three insertions and a removal, 2 windows of 3 lengths.
func Q_C10_removed() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 2), top{opRemove, windowed(base, "gone", 1, s, 2)[0], 0})
	checkWalk(ops, ops[sym.Choose("q", 3)].p)
}

// Q_C10_wide: two entries of 8 lengths each.
func Q_C10_wide() {
	p, q := gapPair("p")
	checkWalk([]top{{opInsertOrUpdate, p, sym.Uint8("v")}, {opInsertOrUpdate, q, sym.Uint8("w")}}, symPL("r", sparseLen("r.len")))
}

// Q_C10_stop: a walk over up to three entries is stopped after any number of
// them; 2 windows of 3 lengths.
func Q_C10_stop() {
	s := scale(2, 0, bits-2)
	t := tabulate(inserts(symW("base"), "in", 3, s, 2)).Table()
	all := walk(t)
	stop := sym.Choose("stop", 4)
	var es []entry
	done := t.Walk(func(p Prefix, v uint8) bool {
		es = append(es, entry{prefixP(p), v})
		return len(es) <= stop
	})
	sym.Assert(done == (len(all) <= stop), "a walk returns whether it was not stopped")
	sym.Assert(len(es) == min(len(all), stop+1), "a walk stops at once")
	sym.Assert(sameEntries(es, all[:len(es)]), "a walk that is stopped visits the same entries up to there")
}

// T_C10_walk3all: three insertions, any window of 3 lengths.
func T_C10_walk3all() {
	s := anyScale(2)
	base := symW("base")
	checkWalk(inserts(base, "in", 3, s, 2), windowed(base, "q", 1, s, 2)[0])
}

// T_C10_walk4: four insertions, 2 windows of 3 lengths.
func T_C10_walk4() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	checkWalk(inserts(base, "in", 4, s, 2), windowed(base, "q", 1, s, 2)[0])
}
