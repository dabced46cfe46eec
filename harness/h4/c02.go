package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// result applies an arbitrary set operation.
func result(a, b Set) Set {
	switch sym.Choose("op", 3) {
	case 0:
		return a.Union(b)
	case 1:
		return a.Intersection(b)
	}
	return a.Difference(b)
}

func checkCanonical(m, n int, s, g uint32) {
	base := symW("base")
	a := build(windowed(base, "a", m, s, g))
	b := build(windowed(base, "b", n, s, g))
	canonical(prefixesOf(result(a, b)))
}

// Q_C02_canonical11: the result of an operation on two sets of one prefix,
// any window of 3 lengths.
func Q_C02_canonical11() { checkCanonical(1, 1, anyScale(2), 2) }

// Q_C02_canonical22: the result of an operation on two sets of two prefixes,
// 2 windows of 3 lengths.
func Q_C02_canonical22() { checkCanonical(2, 2, scale(2, 0, bits-2), 2) }

// Q_C02_canonicalGap: one prefix each, lengths far apart.
func Q_C02_canonicalGap() {
	p, q := gapPair("p")
	if sym.Choose("swap", 2) == 1 {
		p, q = q, p
	}
	canonical(prefixesOf(result(build([]P{p}), build([]P{q}))))
}

// Q_C02_canonicalInsert: four prefixes inserted one by one into a mutable
// set, lengths in 2 windows of 2.
func Q_C02_canonicalInsert() {
	base := symW("base")
	canonical(prefixesOf(build(windowed(base, "a", 4, scale(1, 0, bits-1), 1))))
}

// Q_C02_canonicalSingle: the set of a prefix of any length with host bits, of
// an address, and of the range of a prefix.
func Q_C02_canonicalSingle() {
	p := symPL("p", anyLen("len", 0, bits))
	q := mkPrefix(p)
	for _, l := range [][]P{prefixesOf(q.Set()), prefixesOf(q.Range().Set())} {
		sym.Assert(len(l) == 1, "the set of a prefix is one prefix")
		sym.Assert(pSame(l[0], p), "the set of a prefix has its addresses")
		canonical(l)
	}
	l := prefixesOf(mkAddr(p.a).Set())
	sym.Assert(len(l) == 1, "the set of an address is one prefix")
	sym.Assert(pExact(l[0], P{p.a, bits}), "the set of an address is a host prefix")
}

func checkEqual(as, bs []P, a, b Set) {
	la, lb := prefixesOf(a), prefixesOf(b)
	canonical(la)
	canonical(lb)
	want := sameList(la, lb)
	sym.Assert(sym.Iff(a.Equal(b), want), "equal iff same canonical prefixes")
	sym.Assert(sym.Iff(b.Equal(a), want), "equal iff same canonical prefixes")
	sym.Assert(sym.Iff(a.Set_().Equal(b.Set_()), want), "mutable sets equal iff same canonical prefixes")
	x := symW("x")
	sym.Assert(sym.Implies(want, sym.Iff(anyHas(as, x), anyHas(bs, x))), "equal sets have the same addresses")
	sym.Assert(sym.Implies(sym.Not(want), differ(as, bs, la, lb)), "unequal sets differ in an address")
}

// differ finds an address which tells the sets apart: the first or the last
// address of the first prefix in which the canonical lists differ, or the
// address beside it.
func differ(as, bs, la, lb []P) bool {
	r := false
	for _, l := range [][]P{la, lb} {
		for _, p := range l {
			for _, x := range []W{pFirst(p), pLast(p), wDec(pFirst(p)), wInc(pLast(p))} {
				r = sym.Or(r, sym.Not(sym.Iff(anyHas(as, x), anyHas(bs, x))))
			}
		}
	}
	return r
}

// Q_C02_equal22: two sets of two prefixes; 2 windows of 3 lengths.
func Q_C02_equal22() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := windowed(base, "a", 2, s, 2), windowed(base, "b", 2, s, 2)
	checkEqual(as, bs, build(as), build(bs))
}

// Q_C02_equal11: two sets of one prefix; any window of 3 lengths.
func Q_C02_equal11() {
	s := anyScale(2)
	base := symW("base")
	as, bs := windowed(base, "a", 1, s, 2), windowed(base, "b", 1, s, 2)
	checkEqual(as, bs, build(as), build(bs))
}

// Q_C02_order: the same prefixes inserted in another order make an equal set.
func Q_C02_order() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	ps := windowed(base, "a", 3, s, 2)
	a := build(ps)
	perm := [][]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sym.Choose("perm", 5)]
	b := build([]P{ps[perm[0]], ps[perm[1]], ps[perm[2]]})
	sym.Assert(a.Equal(b), "insertion order does not matter")
	sym.Assert(b.Equal(a), "insertion order does not matter")
}

// Q_C02_undo: a set reached by removing what was added equals the original,
// and (A-B) plus (A and B) equals A.
func Q_C02_undo() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := windowed(base, "a", 2, s, 2), windowed(base, "b", 1, s, 2)
	a, b := build(as), build(bs)
	sym.Assert(a.Difference(b).Union(a.Intersection(b)).Equal(a), "difference and intersection add up to the set")
	sym.Assert(a.Union(b).Difference(b).Equal(a.Difference(b)), "what was added can be removed")
	sym.Assert(a.Union(a).Equal(a), "union with itself")
	sym.Assert(a.Intersection(a).Equal(a), "intersection with itself")
	sym.Assert(a.Difference(a).Equal(Set{}), "difference with itself")
}

// Q_C02_halves: the two halves of any prefix with lengths from the sparse list make the prefix.
func Q_C02_halves() {
	l := sparseLen("len")
	if l == bits {
		sym.Assume(false)
	}
	p := symPL("p", l)
	q := mkPrefix(p)
	a, b := q.Halves()
	s := fam.NewSet_()
	s.Insert(a)
	sym.Assert(!s.Set().Equal(q.Set()), "one half is not the prefix")
	s.Insert(b)
	sym.Assert(s.Set().Equal(q.Set()), "the halves add up to the prefix")
}

// T_C02_canonical32: sets of three and two prefixes, 2 windows of 3 lengths.
func T_C02_canonical32() { checkCanonical(3, 2, scale(2, 0, bits-2), 2) }

// T_C02_canonical22wide: sets of two prefixes, 4 windows of 4 lengths.
func T_C02_canonical22wide() { checkCanonical(2, 2, scale(3, 0, bits/2-1, bits-4, bits-3), 3) }

// T_C02_equal32: sets of three and two prefixes; 2 windows of 3 lengths.
func T_C02_equal32() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := windowed(base, "a", 3, s, 2), windowed(base, "b", 2, s, 2)
	checkEqual(as, bs, build(as), build(bs))
}
