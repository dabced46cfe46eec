package h6

import "verif/harness/sym"

func checkAlgebra(as, bs []P, a, b Set, x W) {
	ina, inb := anyHas(as, x), anyHas(bs, x)
	switch sym.Choose("op", 3) {
	case 0:
		u := prefixesOf(a.Union(b))
		sym.Assert(sym.Iff(anyHas(u, x), sym.Or(ina, inb)), "union: address in result iff in an operand")
	case 1:
		u := prefixesOf(a.Intersection(b))
		sym.Assert(sym.Iff(anyHas(u, x), sym.And(ina, inb)), "intersection: address in result iff in both operands")
	case 2:
		u := prefixesOf(a.Difference(b))
		sym.Assert(sym.Iff(anyHas(u, x), sym.And(ina, sym.Not(inb))), "difference: address in result iff in the first only")
	}
}

// sets with m and n arbitrary prefixes; every address is tested
func setAlgebra(m, n int, s, g uint32) {
	base := symW("base")
	as, bs := windowed(base, "a", m, s, g), windowed(base, "b", n, s, g)
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C01_algebra11: union, intersection and difference of two sets of one
// arbitrary prefix each; lengths in any window of 3 consecutive lengths, any
// address bits.
func Q_C01_algebra11() { setAlgebra(1, 1, anyScale(2), 2) }

// Q_C01_algebra11wide: as algebra11, in 6 windows of 5 lengths.
func Q_C01_algebra11wide() { setAlgebra(1, 1, scale(4, 0, 13, bits/2-2, bits/2, bits-5, bits-4), 4) }

// Q_C01_algebra21: a set of two arbitrary prefixes with a set of one; 4
// windows of 3 lengths.
func Q_C01_algebra21() { setAlgebra(2, 1, scale(2, 0, bits/2-1, bits/2, bits-2), 2) }

// Q_C01_algebra12: a set of one arbitrary prefix with a set of two.
func Q_C01_algebra12() { setAlgebra(1, 2, scale(2, 0, bits/2-1, bits/2, bits-2), 2) }

// Q_C01_algebra22: two sets of two arbitrary prefixes each; 2 windows of 3
// lengths.
func Q_C01_algebra22() { setAlgebra(2, 2, scale(2, 0, bits-2), 2) }

// Q_C01_algebraGap: one prefix each with lengths far apart (8 lengths from 0
// to the address size, 3 bit patterns in between).
func Q_C01_algebraGap() {
	p, q := gapPair("p")
	if sym.Choose("swap", 2) == 1 {
		p, q = q, p
	}
	as, bs := []P{p}, []P{q}
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C01_unionFree: union and intersection of two and one arbitrary prefixes
// with lengths from the sparse list and unrelated address bits.
func Q_C01_unionFree() {
	p := symPL("p", sparseLen("p.len"))
	q := symPL("q", sparseLen("q.len"))
	x := symW("x")
	if sym.Choose("op", 2) == 0 {
		u := prefixesOf(build([]P{p}).Union(build([]P{q})))
		sym.Assert(sym.Iff(anyHas(u, x), sym.Or(pHas(p, x), pHas(q, x))), "union: address in result iff in an operand")
	} else {
		u := prefixesOf(build([]P{p}).Intersection(build([]P{q})))
		sym.Assert(sym.Iff(anyHas(u, x), sym.And(pHas(p, x), pHas(q, x))), "intersection: address in result iff in both operands")
	}
}

// Q_C01_operands: the other kinds of operand (Address, Prefix, Range, mutable
// sets as receiver and argument) give the same result as the equivalent set.
func Q_C01_operands() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as := windowed(base, "a", 1, s, 2)
	b := windowed(base, "b", 1, s, 2)[0]
	x := symW("x")
	var arg SetI
	inb := pHas(b, x)
	switch sym.Choose("arg", 5) {
	case 0:
		b.l = bits
		if s < bits-2 {
			sym.Assume(false)
		}
		arg, inb = mkAddr(b.a), wEq(b.a, x)
	case 1:
		arg = mkPrefix(b)
	case 2:
		arg = mkPrefix(b).Range()
	case 3:
		arg = build([]P{b}).Set_()
	case 4:
		arg, inb = nil, false
	}
	ina := anyHas(as, x)
	a := build(as).Set_()
	switch sym.Choose("op", 3) {
	case 0:
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Union(arg)), x), sym.Or(ina, inb)), "union: address in result iff in an operand")
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Set().Union(arg)), x), sym.Or(ina, inb)), "union: address in result iff in an operand")
	case 1:
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Intersection(arg)), x), sym.And(ina, inb)), "intersection: address in result iff in both operands")
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Set().Intersection(arg)), x), sym.And(ina, inb)), "intersection: address in result iff in both operands")
	case 2:
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Difference(arg)), x), sym.And(ina, sym.Not(inb))), "difference: address in result iff in the first only")
		sym.Assert(sym.Iff(anyHas(prefixesOf(a.Set().Difference(arg)), x), sym.And(ina, sym.Not(inb))), "difference: address in result iff in the first only")
	}
}

// T_C01_algebra22wide: two sets of two prefixes, 5 windows of 4 lengths.
func T_C01_algebra22wide() { setAlgebra(2, 2, scale(3, 0, bits/2-2, bits/2, bits-4, bits-3), 3) }

// T_C01_algebra32: sets of three and two prefixes, 2 windows of 3 lengths.
func T_C01_algebra32() { setAlgebra(3, 2, scale(2, 0, bits-2), 2) }

// T_C01_algebra23: sets of two and three prefixes, 2 windows of 3 lengths.
func T_C01_algebra23() { setAlgebra(2, 3, scale(2, 0, bits-2), 2) }

// T_C01_algebra21all: sets of two and one prefix, any window of 3 lengths.
func T_C01_algebra21all() { setAlgebra(2, 1, anyScale(2), 2) }
