package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// symR is an arbitrary range of the whole address space.
func symR(name string) R {
	r := R{symW(name + ".first"), symW(name + ".last")}
	sym.Assume(wLe(r.f, r.l))
	return r
}

// rangeIn is an arbitrary range whose ends agree with base in the first s
// bits, have k arbitrary bits after that, and end in one of two patterns.
func rangeIn(base W, name string, s, k uint32) R {
	end := func(n string) W {
		return wJoin(base, wJoin(symW(n), pattern(sym.Choose(n+".tail", 2)), s+k), s)
	}
	r := R{end(name + ".first"), end(name + ".last")}
	sym.Assume(wLe(r.f, r.l))
	return r
}

func (r R) mk() Range { return mkRange(r.f, r.l) }

func rangesR(rs []Range) []R {
	var out []R
	for _, r := range rs {
		out = append(out, rangeR(r))
	}
	return out
}

// Q_C05_from: any two addresses.
func Q_C05_from() {
	f, l := symW("first"), symW("last")
	r, empty := fam.RangeFromAddresses(mkAddr(f), mkAddr(l))
	sym.Assert(sym.Iff(empty, wLt(l, f)), "empty iff the last address comes before the first")
	sym.Assert(sym.Or(empty, sym.And(wEq(addrW(r.First()), f), wEq(addrW(r.Last()), l))), "the ends are those given")
}

// Q_C05_plus: any two ranges of the whole address space and any address.
func Q_C05_plus() {
	a, b := symR("a"), symR("b")
	rs := rangesR(a.mk().Plus(b.mk()))
	sym.Assert(len(rs) == 1 || len(rs) == 2, "one or two ranges")
	checkRanges(rs)
	x := symW("x")
	sym.Assert(sym.Iff(anyRange(rs, x), sym.Or(rHas(a, x), rHas(b, x))), "address in the sum iff in one of the ranges")
}

// Q_C05_minus: any two ranges of the whole address space and any address.
func Q_C05_minus() {
	a, b := symR("a"), symR("b")
	rs := rangesR(a.mk().Minus(b.mk()))
	sym.Assert(len(rs) <= 2, "at most two ranges")
	checkRanges(rs)
	x := symW("x")
	sym.Assert(sym.Iff(anyRange(rs, x), sym.And(rHas(a, x), sym.Not(rHas(b, x)))), "address in the difference iff only in the first range")
}

// Q_C05_minusPlus: any two ranges: what is taken away and the rest add up.
func Q_C05_minusPlus() {
	a, b := symR("a"), symR("b")
	sym.Assume(sym.And(wLe(a.f, b.f), wLe(b.l, a.l)))
	got := b.mk()
	for _, r := range a.mk().Minus(b.mk()) {
		rs := got.Plus(r)
		sym.Assert(len(rs) == 1, "a range and what it was taken from are adjacent")
		got = rs[0]
	}
	sym.Assert(sym.And(wEq(addrW(got.First()), a.f), wEq(addrW(got.Last()), a.l)), "the parts add up to the whole")
}

// Q_C05_prefix: the range of a prefix of any length.
func Q_C05_prefix() {
	p := symPL("p", anyLen("p.len", 0, bits))
	q := mkPrefix(p)
	r := rangeR(q.Range())
	sym.Assert(wEq(r.f, pFirst(p)), "a prefix's range starts at its network address")
	sym.Assert(wEq(r.l, pLast(p)), "a prefix's range ends at its last address")
	sym.Assert(sameList(prefixesOf(q.Range().Set()), []P{{pFirst(p), p.l}}), "a prefix's range as a set is that prefix")
	sym.Assert(q.Range().Set().Equal(q.Set()), "a prefix's range as a set is that prefix")
}

func checkRangeSet(s, k uint32) {
	r := rangeIn(symW("base"), "r", s, k)
	l := prefixesOf(r.mk().Set())
	canonical(l)
	sym.Assert(len(l) > 0, "a range is not empty")
	x := symW("x")
	sym.Assert(sym.Iff(anyHas(l, x), rHas(r, x)), "address in a range's set iff in the range")
	sym.Assert(wEq(pFirst(l[0]), r.f), "a range's set starts at its first address")
	sym.Assert(wEq(pLast(l[len(l)-1]), r.l), "a range's set ends at its last address")
	back := rangesOf(r.mk().Set())
	sym.Assert(len(back) == 1, "a range's set has one range")
	sym.Assert(sym.And(wEq(back[0].f, r.f), wEq(back[0].l, r.l)), "a range's set has that range")
}

// Q_C05_set: ranges whose ends differ in at most 4 consecutive arbitrary
// bits, at 4 positions, and end in all zeroes or all ones after that.
func Q_C05_set() { checkRangeSet(scale(4, 0, bits/2-2, bits-5, bits-4), 4) }

// Q_C05_setAt: as set with 2 bits at any position.
func Q_C05_setAt() { checkRangeSet(anyScale(2), 2) }

// Q_C05_contains: containment of two ranges whose ends differ in at most 2
// bits, at 2 positions.
func Q_C05_contains() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	a, b := rangeIn(base, "a", s, 2), rangeIn(base, "b", s, 2)
	sym.Assert(sym.Iff(a.mk().Contains(b.mk()), sym.And(wLe(a.f, b.f), wLe(b.l, a.l))), "range contains range")
}

// Q_C05_containsAddr: containment of any address in a range whose ends differ
// in at most 2 bits, at a position.
func Q_C05_containsAddr() {
	s := scale(2, bits/2-1)
	base := symW("base")
	a := rangeIn(base, "a", s, 2)
	x := symW("x")
	sym.Assert(sym.Iff(a.mk().Contains(mkAddr(x)), rHas(a, x)), "range contains address")
}

// Q_C05_algebra: union, intersection and difference of two ranges whose ends
// differ in a bit, at a position.
func Q_C05_algebra() { checkRangeAlgebra(scale(1, bits/2-1), 1) }

func checkRangeAlgebra(s, k uint32) {
	base := symW("base")
	a, b := rangeIn(base, "a", s, k), rangeIn(base, "b", s, k)
	x := symW("x")
	ina, inb := rHas(a, x), rHas(b, x)
	u := prefixesOf(a.mk().Set().Union(b.mk()))
	canonical(u)
	sym.Assert(sym.Iff(anyHas(u, x), sym.Or(ina, inb)), "union of ranges")
	i := prefixesOf(a.mk().Set().Intersection(b.mk()))
	canonical(i)
	sym.Assert(sym.Iff(anyHas(i, x), sym.And(ina, inb)), "intersection of ranges")
	d := prefixesOf(a.mk().Set().Difference(b.mk()))
	canonical(d)
	sym.Assert(sym.Iff(anyHas(d, x), sym.And(ina, sym.Not(inb))), "difference of ranges")
	rs := rangesR(a.mk().Minus(b.mk()))
	e := fam.NewSet_()
	for _, r := range rs {
		e.Insert(r.mk())
	}
	sym.Assert(e.Set().Equal(a.mk().Set().Difference(b.mk())), "Range.Minus and Set.Difference agree")
}

// T_C05_set6: as set with 6 arbitrary bits, at 4 positions.
func T_C05_set6() { checkRangeSet(scale(6, 0, bits/2-3, bits-7, bits-6), 6) }

// T_C05_setAt3: as set with 3 bits at any position.
func T_C05_setAt3() { checkRangeSet(anyScale(3), 3) }

// T_C05_contains3: as contains with 3 bits.
func T_C05_contains3() {
	s := scale(3, 0, bits/2-1, bits-3)
	base := symW("base")
	a, b := rangeIn(base, "a", s, 3), rangeIn(base, "b", s, 3)
	sym.Assert(sym.Iff(a.mk().Contains(b.mk()), sym.And(wLe(a.f, b.f), wLe(b.l, a.l))), "range contains range")
}

// T_C05_algebra2: as algebra with 2 bits at 2 positions.
func T_C05_algebra2() { checkRangeAlgebra(scale(2, 0, bits-2), 2) }

// T_C05_containsAddr3: as containsAddr with 3 bits at 3 positions.
func T_C05_containsAddr3() {
	s := scale(3, 0, bits/2-1, bits-3)
	base := symW("base")
	a := rangeIn(base, "a", s, 3)
	x := symW("x")
	sym.Assert(sym.Iff(a.mk().Contains(mkAddr(x)), rHas(a, x)), "range contains address")
}
