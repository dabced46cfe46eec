package h6

import "verif/harness/sym"

// cells describes the addresses from base/s in units of prefixes of length s+g.
type cells struct {
	base W
	s, g uint32
}

func (c cells) n() int { return 1 << c.g }

func (c cells) first(i int) W {
	return wOr(wAnd(c.base, wMask(c.s)), wShl(wc(uint64(i)), bits-c.s-c.g))
}

// checkFind looks for a free prefix. All prefixes lie in base/s and none is
// longer than s+g, so that all cells are either free or not.
func checkFind(m, n int, s, g uint32, length uint32) {
	c := cells{symW("base"), s, g}
	as, rs := windowed(c.base, "a", m, s, g), windowed(c.base, "r", n, s, g)
	checkFindIn(c, as, rs, length)
}

func checkFindIn(c cells, as, rs []P, length uint32) {
	s, g := c.s, c.g
	a, r := build(as), build(rs)
	got, err := a.FindAvailablePrefix(r, length)

	free := make([]bool, c.n())
	for i := range free {
		x := c.first(i)
		free[i] = sym.And(anyHas(as, x), sym.Not(anyHas(rs, x)))
	}
	// block reports whether the block of length l in which cell i lies is free
	block := func(i int, l uint32) bool {
		k := 1 << (s + g - l)
		i &^= k - 1
		f := true
		for j := i; j < i+k; j++ {
			f = sym.And(f, free[j])
		}
		return f
	}
	// largest is the length of the largest free block with cell i
	largest := func(i int) uint32 {
		l := s + g
		for k := uint32(1); k <= g; k++ {
			l = sym.Ite32(block(i, s+g-k), s+g-k, l)
		}
		return l
	}
	some := false
	for i := range free {
		if length > s+g {
			some = sym.Or(some, free[i])
		} else if length >= s {
			some = sym.Or(some, block(i, length))
		}
	}
	if err != nil {
		sym.Assert(sym.Not(some), "an error only if there is no room")
		return
	}
	sym.Assert(some, "no prefix is found if there is no room")
	q := prefixP(got)
	sym.Assert(q.l == length, "the prefix found has the length asked for")
	sym.Assert(pNetwork(q), "the prefix found has no host bits")
	x := symW("x")
	sym.Assert(sym.Implies(pHas(q, x), sym.And(anyHas(as, x), sym.Not(anyHas(rs, x)))), "all of the prefix found is available")
	// Best fit: the largest free block it lies in is as small as that of
	// any other candidate.
	mine := uint32(0)
	best := uint32(0)
	for i := range free {
		l := largest(i)
		in := pHas(P{c.first(i), s + g}, q.a)
		if length <= s+g {
			in = pHas(q, c.first(i))
		}
		mine = sym.Ite32(in, l, mine)
		fits := sym.And(free[i], l <= length)
		best = sym.Ite32(sym.And(fits, best < l), l, best)
	}
	sym.Assert(mine == best, "the prefix found is in the smallest free block where it fits")
}

// Q_C07_one: a prefix, less a prefix; any window of 3 lengths; a length
// asked for in the window or one beyond or longer.
func Q_C07_one() {
	s := anyScale(2)
	checkFind(1, 1, s, 2, lengthNear(s, 2))
}

// lengthNear is a length in [s, s+g+1] or the longest.
func lengthNear(s, g uint32) uint32 {
	l := s + uint32(sym.Choose("length", int(g)+3))
	if l == s+g+2 {
		l = bits
	}
	if l > bits {
		sym.Assume(false)
	}
	return l
}

// Q_C07_oneNone: a prefix and nothing reserved.
func Q_C07_oneNone() {
	s := anyScale(2)
	checkFind(1, 0, s, 2, lengthNear(s, 2))
}

// Q_C07_two: two prefixes less a prefix, 2 windows of 3 lengths.
func Q_C07_two() {
	s := scale(2, 0, bits-2)
	checkFind(2, 1, s, 2, lengthNear(s, 2))
}

// Q_C07_reserved2: a prefix less two prefixes, 2 windows of 4 lengths.
func Q_C07_reserved2() {
	s := scale(3, 0, bits-3)
	checkFind(1, 2, s, 3, lengthNear(s, 3))
}

// Q_C07_reserved3: a prefix less three prefixes, a window of 3 lengths.
func Q_C07_reserved3() {
	s := scale(2, bits/2-1)
	checkFind(1, 3, s, 2, lengthNear(s, 2))
}

// Q_C07_two2: two prefixes less two prefixes, a window of 3 lengths.
func Q_C07_two2() {
	s := scale(2, bits/2-1)
	checkFind(2, 2, s, 2, s+uint32(sym.Choose("length", 3)))
}

// Q_C07_gap: a prefix less one in it or next to it, of 8 lengths each; any of
// 8 lengths asked for.
func Q_C07_gap() {
	p, q := gapPair("p")
	length := sparseLen("length")
	a, r := mkPrefix(p).Set(), mkPrefix(q).Set()
	got, err := a.FindAvailablePrefix(r, length)
	// The free blocks of p less q have one of each length from p.l+1 to q.l if q is in p.
	free := p.l <= length
	if pCovers(p, q) {
		free = p.l < q.l && p.l < length
		if err == nil {
			// the smallest free block that fits
			k := min(length, q.l)
			f := prefixP(got)
			sym.Assert(pHas(P{wXor(q.a, wBit(k-1)), k}, f.a), "the prefix found is in the smallest free block where it fits")
		}
	}
	sym.Assert((err == nil) == free, "a prefix is found iff there is room")
	if err == nil {
		f := prefixP(got)
		sym.Assert(f.l == length, "the prefix found has the length asked for")
		sym.Assert(pNetwork(f), "the prefix found has no host bits")
		sym.Assert(pCovers(p, f), "the prefix found is in the set")
		sym.Assert(pDisjoint(q, f), "the prefix found is not reserved")
	}
}

// Q_C07_invalid: a length that is too long is rejected whatever the set has.
func Q_C07_invalid() {
	p := symPL("p", sparseLen("p.len"))
	length := sym.Uint32("length")
	sym.Assume(length > bits)
	_, err := mkPrefix(p).Set().FindAvailablePrefix(Set{}, length)
	sym.Assert(err != nil, "a length that is too long is rejected")
	_, err = mkPrefix(p).Set().FindAvailablePrefix(mkPrefix(P{p.a, bits}), length)
	sym.Assert(err != nil, "a length that is too long is rejected")
}

// Q_C07_repeat: reserving what was found until there is no more room yields
// disjoint prefixes which cover all addresses; any window of 3 lengths.
func Q_C07_repeat() {
	s := anyScale(2)
	base := symW("base")
	as := windowed(base, "a", 1, s, 1)
	length := s + 1 + uint32(sym.Choose("length", 2))
	if length < as[0].l {
		sym.Assume(false)
	}
	a := build(as)
	used := Set{}
	n := 0
	for ; n <= 4; n++ {
		p, err := a.FindAvailablePrefix(used, length)
		if err != nil {
			break
		}
		sym.Assert(used.Intersection(p).IsEmpty(), "what is found is not in use")
		used = used.Union(p)
	}
	sym.Assert(n == 1<<(length-as[0].l), "all prefixes are found")
	sym.Assert(used.Equal(a), "all addresses are used")
}

// T_C07_reserved3: a prefix less three prefixes, 2 windows of 4 lengths.
func T_C07_reserved3() {
	s := scale(3, 0, bits-3)
	checkFind(1, 3, s, 3, s+uint32(sym.Choose("length", 4)))
}

// T_C07_two2: two prefixes less two prefixes, 3 windows of 3 lengths.
func T_C07_two2() {
	s := scale(2, 0, bits/2-2, bits-2)
	checkFind(2, 2, s, 2, lengthNear(s, 2))
}

// T_C07_three1: three prefixes less a prefix, 2 windows of 3 lengths.
func T_C07_three1() {
	s := scale(2, 0, bits-2)
	checkFind(3, 1, s, 2, lengthNear(s, 2))
}
