package h6

import "verif/harness/sym"

// effective lists the values (plus one; none is 0) that the leaves of a full
// binary tree of depth d match. Node n has the entry es[n] (plus one; none is 0).
func effective(es []uint32, d uint32) []uint32 {
	var out []uint32
	for n := 1 << d; n < 2<<d; n++ {
		e := uint32(0)
		for k := d + 1; k > 0; k-- {
			x := es[n>>(k-1)]
			e = sym.Ite32(x != 0, x, e)
		}
		out = append(out, e)
	}
	return out
}

const tooMany = 1000

func min32(a, b uint32) uint32 { return sym.Ite32(a < b, a, b) }

// smallest is the number of entries needed below node n so that the leaves
// match what they should, if the ones above n give them the value inh.
func smallest(eff []uint32, d uint32, values int, n int) []uint32 {
	cost := make([]uint32, values+1)
	if n >= 1<<d {
		e := eff[n-1<<d]
		for inh := range cost {
			cost[inh] = sym.Ite32(e == uint32(inh), 0, sym.Ite32(e == 0, tooMany, 1))
		}
		return cost
	}
	l, r := smallest(eff, d, values, 2*n), smallest(eff, d, values, 2*n+1)
	best := uint32(tooMany)
	for v := range cost {
		cost[v] = l[v] + r[v]
		if v > 0 {
			best = min32(best, cost[v]+1)
		}
	}
	for v := range cost {
		cost[v] = min32(cost[v], best)
	}
	return cost
}

// local is the number of entries that are left when an entry within one of
// the same value is dropped and halves of the same value are combined, from
// the bottom up. It returns the entry at node n after that, too.
func local(es []uint32, d uint32, n int, above uint32) (count, at uint32) {
	at = sym.Ite32(es[n] == above, 0, es[n])
	if n >= 1<<d {
		return uint32(sym.B2U(at != 0)), at
	}
	below := sym.Ite32(at != 0, at, above)
	cl, l := local(es, d, 2*n, below)
	cr, r := local(es, d, 2*n+1, below)
	both := sym.And(l != 0, l == r)
	at = sym.Ite32(both, sym.Ite32(l == above, 0, l), at)
	return cl + cr - sym.Ite32(both, 2, 0) + uint32(sym.B2U(at != 0)), at
}

// checkSmallest aggregates a table with entries at any of the nodes of a tree
// of depth d and up to four values.
func checkSmallest(base W, s, d uint32, max int) {
	which := subsetOf(2<<d-1, max)
	ops := nested(base, s, which)
	es := make([]uint32, 2<<d)
	for i, n := range which {
		es[n] = uint32(ops[i].v) + 1
	}
	n := uint32(tabulate(ops).Table().Aggregate().NumEntries())
	eff := effective(es, d)
	want := smallest(eff, d, 4, 1)[0]
	now, _ := local(es, d, 1, 0)
	sym.Assert(n >= want, "no table with fewer entries has the same matches")
	sym.KnownAssert(n == want, sym.And(want < now, n == now), "an aggregated table has as few entries as possible", "F01")
}

// Q_C22_tree7: any subset of the seven prefixes of a tree of three lengths,
// any of four values each; 2 positions.
func Q_C22_tree7() {
	s := scale(2, 1, bits-2)
	checkSmallest(symW("base"), s, 2, 7)
}

// Q_C22_tree15: up to four of the 15 prefixes of a tree of four lengths, any
// of four values each.
func Q_C22_tree15() {
	s := scale(3, bits/2-2)
	checkSmallest(symW("base"), s, 3, 4)
}

// T_C22_tree15: up to six of the 15 prefixes of a tree of four lengths, any
// of four values each.
func T_C22_tree15() {
	s := scale(3, bits/2-2)
	checkSmallest(symW("base"), s, 3, 6)
}
