package h6

import "verif/harness/sym"

// checkAggregate aggregates a table made by the operations.
func checkAggregate(ops []top, x W) {
	t := tabulate(ops).Table()
	before := walk(t)
	a := t.Aggregate()
	after := walk(a)
	host := P{x, bits}
	found, _, v := lookup(before, host)
	found2, _, v2 := lookup(after, host)
	sym.Assert(sym.Iff(found, found2), "aggregation keeps which addresses have a match")
	sym.Assert(sym.Implies(found, v == v2), "aggregation keeps the value that each address matches")
	got, ok, _ := a.LongestMatch(mkAddr(x))
	sym.Assert(sym.And(sym.Iff(ok, found2), sym.Implies(ok, got == v2)), "the aggregated table is searched like any other")
	sym.Assert(len(after) <= len(before), "aggregation does not add entries")
	sym.Assert(a.NumEntries() == int64(len(after)), "the aggregated table counts its entries")
	sym.Assert(sameEntries(walk(t), before), "aggregation leaves the original as it was")
	for i, e := range after {
		if i > 0 {
			sym.Assert(pBefore(after[i-1].p, e.p), "aggregated entries are in order, each once")
		}
		// the closest entry that contains e
		var at P
		var av uint8
		inside := false
		for _, f := range after[:i] {
			c := pCovers(f.p, e.p)
			at = P{wIte(c, f.p.a, at.a), sym.Ite32(c, f.p.l, at.l)}
			av = ite8(c, f.v, av)
			inside = sym.Or(inside, c)
			halves := sym.And(f.p.l == e.p.l, sym.And(e.p.l > 0, wEq(wXor(pFirst(f.p), pFirst(e.p)), wBit(e.p.l-1))))
			sym.Assert(sym.Not(sym.And(halves, f.v == e.v)), "two halves of a prefix with the same value are combined")
		}
		sym.Assert(sym.Not(sym.And(inside, av == e.v)), "an entry within one with the same value is dropped")
	}
	again := a.Aggregate()
	sym.Assert(sameEntries(walk(again), after), "aggregating again changes nothing")
}

// Q_C12_two: two entries, any window of 3 lengths.
func Q_C12_two() {
	s := anyScale(2)
	base := symW("base")
	checkAggregate(inserts(base, "in", 2, s, 2), wJoin(base, symW("x"), s))
}

// Q_C12_three: three entries, 3 windows of 3 lengths.
func Q_C12_three() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	checkAggregate(inserts(base, "in", 3, s, 2), wJoin(base, symW("x"), s))
}

// nested draws entries at the nodes of a full binary tree below base/s that
// are selected by the bits of which, with one of three values each: node 1 is
// base/s, nodes 2 and 3 are its halves and so on.
func nested(base W, s uint32, which []int) []top {
	var ops []top
	for _, n := range which {
		l, first := uint32(0), 1
		for first*2 <= n {
			first *= 2
			l++
		}
		a := wOr(wAnd(base, wMask(s)), wShl(wc(uint64(n-first)), bits-s-l))
		ops = append(ops, top{opInsertOrUpdate, P{a, s + l}, sym.Uint8("value") & 3})
	}
	return ops
}

func subsetOf(n, k int) []int {
	var out []int
	for i := 0; i < n && len(out) < k; i++ {
		if sym.Choose("node", 2) == 1 {
			out = append(out, i+1)
		}
	}
	return out
}

// Q_C12_tree7: any subset of the seven prefixes of a tree of three lengths,
// any of four values each; 2 positions.
func Q_C12_tree7() {
	s := scale(2, 1, bits-2)
	base := symW("base")
	x := wJoin(base, symW("x"), s)
	checkAggregate(nested(base, s, subsetOf(7, 5)), x)
}

// Q_C12_far: two entries of 8 lengths each.
func Q_C12_far() {
	p, q := gapPair("p")
	x := wJoin(q.a, symW("x"), []uint32{p.l, q.l}[sym.Choose("agree", 2)])
	checkAggregate([]top{{opInsertOrUpdate, p, sym.Uint8("v")}, {opInsertOrUpdate, q, sym.Uint8("w")}}, x)
}

// Q_C12_removed: three insertions and a removal, which may leave a node
// without an entry; a window of 2 lengths.
func Q_C12_removed() {
	s := scale(1, bits/2-1)
	base := symW("base")
	ops := append(inserts(base, "in", 3, s, 1), top{opRemove, windowed(base, "gone", 1, s, 1)[0], 0})
	checkAggregate(ops, wJoin(base, symW("x"), s))
}

// T_C12_four: four entries, 2 windows of 2 lengths.
func T_C12_four() {
	s := scale(1, 1, bits-1)
	base := symW("base")
	checkAggregate(inserts(base, "in", 4, s, 1), wJoin(base, symW("x"), s))
}

// T_C12_three: three entries, any window of 2 lengths.
func T_C12_three() {
	s := anyScale(1)
	base := symW("base")
	checkAggregate(inserts(base, "in", 3, s, 1), wJoin(base, symW("x"), s))
}

// T_C12_tree15: up to six of the 15 prefixes of a tree of four lengths, any
// of four values each.
func T_C12_tree15() {
	s := scale(3, bits-3)
	base := symW("base")
	checkAggregate(nested(base, s, subsetOf(15, 5)), wJoin(base, symW("x"), s))
}
