package h4

import "verif/harness/sym"

// subset reports whether every address of the canonical list bs is in the
// canonical list as.
func subset(as, bs []P) bool {
	r := true
	for _, q := range bs {
		r = sym.And(r, anyCovers(as, q))
	}
	return r
}

func checkContains(m, n int, s, g uint32) {
	base := symW("base")
	as, bs := windowed(base, "a", m, s, g), windowed(base, "b", n, s, g)
	a, b := build(as), build(bs)
	got := a.Contains(b)
	x := symW("x")
	sym.Assert(sym.Implies(sym.And(got, anyHas(bs, x)), anyHas(as, x)), "contains: no address is missing")
	sym.Assert(sym.Iff(got, subset(prefixesOf(a), prefixesOf(b))), "contains iff every prefix is contained")
	sym.Assert(sym.Iff(a.Set_().Contains(b), got), "the mutable set agrees")
	sym.Assert(sym.Iff(b.Difference(a).IsEmpty(), got), "contains iff nothing is left")
}

// Q_C03_contains11: one prefix each; any window of 3 lengths.
func Q_C03_contains11() { checkContains(1, 1, anyScale(2), 2) }

// Q_C03_contains22: two prefixes each; 2 windows of 3 lengths.
func Q_C03_contains22() { checkContains(2, 2, scale(2, 0, bits-2), 2) }

// Q_C03_containsMissing: when a set is reported not to contain another, the
// canonical prefix which is not covered has an address that is not in the set.
func Q_C03_containsMissing() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := windowed(base, "a", 2, s, 2), windowed(base, "b", 1, s, 2)
	a := build(as)
	q := mkPrefix(bs[0])
	if !a.Contains(q) {
		// one of the four quarters of the prefix at the finest length of
		// the window starts outside the set
		r := false
		for i := uint64(0); i < 4; i++ {
			x := wOr(pFirst(bs[0]), wShl(wc(i), bits-(s+2)))
			r = sym.Or(r, sym.And(pHas(bs[0], x), sym.Not(anyHas(as, x))))
		}
		sym.Assert(r, "not contained: some address is missing")
	} else {
		sym.Reach("contained")
	}
}

// Q_C03_prefixContains: a prefix of any length contains another whose length
// is any of 8, with three bit patterns in between, iff it is shorter and the bits agree.
func Q_C03_prefixContains() {
	p, q := gapPair("p")
	a, b := mkPrefix(p), mkPrefix(q)
	sym.Assert(sym.Iff(a.Contains(b), pCovers(p, q)), "prefix contains prefix")
	sym.Assert(sym.Iff(b.Contains(a), pCovers(q, p)), "prefix contains prefix")
	sym.Assert(sym.Iff(a.Set().Contains(b), pCovers(p, q)), "set contains prefix")
	sym.Assert(sym.Iff(b.Contains(a.Range()), pCovers(q, p)), "prefix contains range")
}

// Q_C03_prefixContainsNear: as prefixContains for any window of 3 lengths.
func Q_C03_prefixContainsNear() {
	s := anyScale(2)
	base := symW("base")
	p, q := windowed(base, "p", 1, s, 2)[0], windowed(base, "q", 1, s, 2)[0]
	a, b := mkPrefix(p), mkPrefix(q)
	sym.Assert(sym.Iff(a.Contains(b), pCovers(p, q)), "prefix contains prefix")
	sym.Assert(sym.Iff(a.Contains(mkAddr(q.a)), pHas(p, q.a)), "prefix contains address")
}

// count sums the sizes of a canonical list in units of prefixes of length l,
// up to 2^63; over reports that it does not fit.
func count(ps []P, l uint32) (n uint64, over bool) {
	for _, p := range ps {
		if p.l > l {
			continue
		}
		if l-p.l > 63 {
			return 0, true
		}
		c := uint64(1) << (l - p.l)
		if n+c < n {
			return 0, true
		}
		n += c
	}
	return n, false
}

func checkCounts(ps []P) {
	a := build(ps)
	l := prefixesOf(a)
	sym.Assert(a.IsEmpty() == (len(l) == 0), "empty iff no prefixes")
	sym.Assert(a.Set_().IsEmpty() == (len(l) == 0), "mutable set empty iff no prefixes")
	length := anyLen("length", 0, bits+1)
	want, over := count(l, length)
	got, err := a.NumPrefixes(length)
	if len(l) == 0 {
		sym.Assert(err == nil && got == 0, "an empty set has no prefixes")
	} else if length > bits || over {
		sym.Assert(err != nil, "a count that is invalid or too big is an error")
	} else {
		sym.Assert(err == nil, "a valid count is not an error")
		sym.Assert(got == want, "number of prefixes of a length")
	}
}

// Q_C03_counts: a set of two prefixes in 4 windows of 3 lengths; counts of
// prefixes of every length.
func Q_C03_counts() {
	checkCounts(windowed(symW("base"), "a", 2, scale(2, 0, bits/2, bits-2), 2))
}

// Q_C03_countsFree: a set of two unrelated prefixes of 8 lengths.
func Q_C03_countsFree() {
	p := symPL("p", sparseLen("p.len"))
	q := symPL("q", sparseLen("q.len"))
	n := sym.Choose("n", 3)
	a := build([]P{p, q}[:n])
	l := prefixesOf(a)
	length := sparseLen("length")
	want, over := count(l, length)
	got, err := a.NumPrefixes(length)
	if over {
		sym.Assert(err != nil, "a count that is too big is an error")
	} else {
		sym.Assert(err == nil, "a valid count is not an error")
		sym.Assert(got == want, "number of prefixes of a length")
	}
}

// Q_C03_prefixCounts: number of prefixes of any length in a prefix of any
// length and in its range.
func Q_C03_prefixCounts() {
	p := symPL("p", anyLen("p.len", 0, bits))
	length := anyLen("length", 0, bits+1)
	if bits > 32 && length != p.l && length != p.l+1 && length%8 != 0 && length%8 != 7 && p.l%16 != 1 {
		sym.Assume(false)
	}
	want, over := count([]P{p}, length)
	q := mkPrefix(p)
	for i := 0; i < 2; i++ {
		var got uint64
		var err error
		if i == 0 {
			got, err = q.NumPrefixes(length)
		} else {
			got, err = q.Range().NumPrefixes(length)
		}
		if length > bits || over {
			sym.Assert(err != nil, "a count that is invalid or too big is an error")
		} else {
			sym.Assert(err == nil, "a valid count is not an error")
			sym.Assert(got == want, "number of prefixes of a length")
		}
	}
}

// T_C03_contains32: three prefixes and two; 2 windows of 3 lengths.
func T_C03_contains32() { checkContains(3, 2, scale(2, 0, bits-2), 2) }

// T_C03_contains23: two prefixes and three; 2 windows of 3 lengths.
func T_C03_contains23() { checkContains(2, 3, scale(2, 0, bits-2), 2) }

// T_C03_contains21: two prefixes and one; any window of 3 lengths.
func T_C03_contains21() { checkContains(2, 1, anyScale(2), 2) }
