package h4

import "verif/harness/sym"

// R is a range as plain numbers.
type R struct{ f, l W }

func rHas(r R, x W) bool { return sym.And(wLe(r.f, x), wLe(x, r.l)) }

func rangeR(r Range) R { return R{addrW(r.First()), addrW(r.Last())} }

func rangesOf(s Set) []R {
	var out []R
	done := s.WalkRanges(func(r Range) bool {
		out = append(out, rangeR(r))
		return true
	})
	sym.Assert(done, "a walk that is not stopped returns true")
	return out
}

func anyRange(rs []R, x W) bool {
	r := false
	for _, v := range rs {
		r = sym.Or(r, rHas(v, x))
	}
	return r
}

func checkRanges(rs []R) {
	for i, r := range rs {
		sym.Assert(wLe(r.f, r.l), "walked ranges are not empty")
		if i > 0 {
			q := rs[i-1]
			sym.Assert(sym.And(wLt(q.l, r.f), wLt(wInc(q.l), r.f)), "walked ranges ascend and are not adjacent")
		}
	}
}

func checkWalkRanges(n int, s, g uint32) {
	ps := windowed(symW("base"), "a", n, s, g)
	rs := rangesOf(build(ps))
	checkRanges(rs)
	x := symW("x")
	sym.Assert(sym.Iff(anyRange(rs, x), anyHas(ps, x)), "address in a walked range iff in the set")
}

// Q_C04_ranges1: a set of one prefix of any length.
func Q_C04_ranges1() { checkWalkRanges(1, anyScale(0), 0) }

// Q_C04_ranges2: a set of two prefixes, any window of 2 lengths.
func Q_C04_ranges2() { checkWalkRanges(2, anyScale(1), 1) }

// Q_C04_ranges3: a set of three prefixes, 4 windows of 3 lengths.
func Q_C04_ranges3() { checkWalkRanges(3, scale(2, 0, bits/2-1, bits/2, bits-2), 2) }

// Q_C04_ranges4: a set of four prefixes, 2 windows of 2 lengths.
func Q_C04_ranges4() { checkWalkRanges(4, scale(1, 1, bits-1), 1) }

// Q_C04_rangesGap: a prefix without a much longer one.
func Q_C04_rangesGap() {
	p, q := gapPair("p")
	rs := rangesOf(build([]P{p}).Difference(build([]P{q})))
	checkRanges(rs)
	x := symW("x")
	sym.Assert(sym.Iff(anyRange(rs, x), sym.And(pHas(p, x), sym.Not(pHas(q, x)))), "address in a walked range iff in the set")
}

// Q_C04_top: a set that ends at the last address: the last prefix of 3
// lengths and another one anywhere.
func Q_C04_top() {
	p := P{wOnes(), bits - anyLen("size", 0, 2)}
	q := symPL("q", bits-anyLen("q.size", 0, 1))
	ps := []P{p, q}
	rs := rangesOf(build(ps))
	checkRanges(rs)
	sym.Assert(len(rs) > 0, "a set that is not empty has a range")
	sym.Assert(wEq(rs[len(rs)-1].l, wOnes()), "the last range ends at the last address")
	x := symW("x")
	sym.Assert(sym.Iff(anyRange(rs, x), anyHas(ps, x)), "address in a walked range iff in the set")
}

// Q_C04_stop: walks are stopped by the callback after exactly as many calls.
func Q_C04_stop() {
	s := scale(2, 0, bits-2)
	a := build(windowed(symW("base"), "a", 3, s, 2))
	stop := sym.Choose("stop", 4)
	n := len(rangesOf(a))
	calls := 0
	done := a.WalkRanges(func(Range) bool {
		calls++
		return calls <= stop
	})
	sym.Assert(done == (n <= stop), "a walk returns whether it was not stopped")
	sym.Assert(calls == min(n, stop+1), "a walk stops at once")

	m := len(prefixesOf(a))
	calls = 0
	done = a.WalkPrefixes(func(Prefix) bool {
		calls++
		return calls <= stop
	})
	sym.Assert(done == (m <= stop), "a walk returns whether it was not stopped")
	sym.Assert(calls == min(m, stop+1), "a walk stops at once")
}

// Q_C04_prefixes: the walked prefixes of a set of three have exactly its
// addresses; they ascend and are disjoint and maximal; 2 windows of 3 lengths.
func Q_C04_prefixes() {
	ps := windowed(symW("base"), "a", 3, scale(2, 0, bits-2), 2)
	l := prefixesOf(build(ps))
	canonical(l)
	x := symW("x")
	sym.Assert(sym.Iff(anyHas(l, x), anyHas(ps, x)), "address in a walked prefix iff in the set")
}

// T_C04_ranges3wide: a set of three prefixes, 3 windows of 4 lengths.
func T_C04_ranges3wide() { checkWalkRanges(3, scale(3, 0, bits/2-2, bits-3), 3) }

// T_C04_ranges4: a set of four prefixes, 2 windows of 3 lengths.
func T_C04_ranges4() { checkWalkRanges(4, scale(2, 0, bits-2), 2) }

// T_C04_ranges3all: a set of three prefixes, any window of 2 lengths.
func T_C04_ranges3all() { checkWalkRanges(3, anyScale(1), 1) }
