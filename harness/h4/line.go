package h4

import "verif/harness/sym"

// line is any subset of the prefixes of base with lengths from s to s+d, each within the
// one before, with any values; the longest ones first or last.
func line(base W, name string, s, d uint32) []top {
	var ops []top
	for l := uint32(0); l <= d; l++ {
		if sym.Choose(name, 2) == 1 {
			p := P{base, s + l}
			p.a = pFirst(p)
			ops = append(ops, top{opInsertOrUpdate, p, sym.Uint8(name + ".value")})
		}
	}
	return ops
}

// steps is any subset of the prefixes with lengths from s+1 to s+d that
// differ from base in their last bit, and base itself up to s+d or not.
func steps(base W, name string, s, d uint32) []P {
	var ps []P
	for l := uint32(1); l <= d; l++ {
		if sym.Choose(name, 2) == 1 {
			p := P{wXor(base, wBit(s+l-1)), s + l}
			p.a = pFirst(p)
			ps = append(ps, p)
		}
	}
	if sym.Choose(name, 2) == 1 {
		p := P{base, s + d}
		p.a = pFirst(p)
		ps = append(ps, p)
	}
	return ps
}

// oneIn is an arbitrary prefix with the first s bits of base and a length in [s, s+d].
func oneIn(base W, name string, s, d uint32) P { return windowed(base, name, 1, s, d)[0] }

// stepsAndOne: a set made of steps over 5 lengths and an arbitrary prefix.
func stepsAndOne() (as []P, q P) {
	s := scale(5, bits/2-3)
	base := symW("base")
	as = steps(base, "a", s, 4)
	return as, oneIn(base, "q", s, 5)
}

// Q_C01_steps: any subset of 5 halves on the way to an address, with an arbitrary
// prefix there, either way around.
func Q_C01_steps() {
	as, q := stepsAndOne()
	bs := []P{q}
	if sym.Choose("swap", 2) == 1 {
		as, bs = bs, as
	}
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// T_C01_stepsTwo: any subsets of 5 halves each on the way to two addresses that share some bits.
func T_C01_stepsTwo() {
	s := scale(5, 0, bits/2-3, bits-5)
	base := symW("base")
	other := wXor(base, []W{wc(0), wBit(s + 1), wBit(s + 3)}[sym.Choose("other", 3)])
	as, bs := steps(base, "a", s, 4), steps(other, "b", s, 4)
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C02_steps: the result of an operation on any subset of 5 halves on the way to an
// address and an arbitrary prefix there.
func Q_C02_steps() {
	as, q := stepsAndOne()
	canonical(prefixesOf(result(build(as), build([]P{q}))))
}

// Q_C02_stepsTwo: the result of an operation on any subsets of 4 halves each on the way to
// two addresses that differ in one bit or none.
func Q_C02_stepsTwo() {
	s := scale(4, bits/2-2)
	base := symW("base")
	other := wXor(base, []W{wc(0), wBit(s), wBit(s + 2)}[sym.Choose("other", 3)])
	as, bs := steps(base, "a", s, 3), steps(other, "b", s, 3)
	canonical(prefixesOf(result(build(as), build(bs))))
}

// Q_C03_steps: containment for any subset of 5 halves on the way to an address, and an
// arbitrary prefix there, either way around.
func Q_C03_steps() {
	as, q := stepsAndOne()
	a, b := build(as), mkPrefix(q)
	sym.Assert(sym.Iff(a.Contains(b), anyCovers(prefixesOf(a), q)), "contains iff every prefix is contained")
	in := true
	for _, p := range as {
		in = sym.And(in, pCovers(q, p))
	}
	sym.Assert(sym.Iff(b.Contains(a), in), "contains iff every prefix is contained")
}

// Q_C04_steps: walks over any subset of 4 halves on the way to an address and an arbitrary prefix.
func Q_C04_steps() {
	s := scale(4, bits/2-2)
	base := symW("base")
	as, q := steps(base, "a", s, 3), oneIn(base, "q", s, 4)
	x := wJoin(base, symW("x"), s)
	as = append(as, q)
	rs := rangesOf(build(as))
	checkRanges(rs)
	sym.Assert(sym.Iff(anyRange(rs, x), anyHas(as, x)), "address in a walked range iff in the set")
}

// Q_C06_steps: an insertion or removal in any subset of 5 halves on the way to an
// address; the snapshot from before stays as it was.
func Q_C06_steps() {
	as, q := stepsAndOne()
	s := build(as).Set_()
	snap := s.Set()
	was := prefixesOf(snap)
	x := symW("x")
	o := op{sym.Choose("remove", 2) == 1, q}
	o.do(s)
	sym.Assert(sameList(prefixesOf(snap), was), "a snapshot is not changed by modifications")
	want := sym.Or(anyHas(as, x), pHas(q, x))
	if o.remove {
		want = sym.And(anyHas(as, x), sym.Not(pHas(q, x)))
	}
	sym.Assert(sym.Iff(anyHas(prefixesOf(s.Set()), x), want), "the set has what was inserted and not removed")
}

// Q_C07_steps: any subset of 5 halves on the way to an address, less an arbitrary
// prefix, and any length up to one more.
func Q_C07_steps() {
	s := scale(4, bits/2-2)
	base := symW("base")
	as := steps(base, "a", s, 4)
	r := oneIn(base, "r", s, 4)
	checkFindIn(cells{base, s, 4}, as, []P{r}, s+uint32(sym.Choose("length", 6)))
}

// lineAndOne is a table of any subset of 6 nested prefixes and an arbitrary prefix.
func lineAndOne() (ops []top, q P) {
	s := scale(5, bits/2-3)
	base := symW("base")
	ops = line(base, "t", s, 5)
	return ops, oneIn(base, "q", s, 5)
}

// Q_C08_line: any operation on an arbitrary prefix in a table with any subset of 5
// nested prefixes.
func Q_C08_line() {
	s := scale(4, bits/2-2)
	base := symW("base")
	ops, q := line(base, "t", s, 4), oneIn(base, "q", s, 4)
	t := tabulate(ops)
	o := top{allKinds[sym.Choose("kind", opKinds)], q, sym.Uint8("v")}
	o.checked(t, ops)
	all := append(append([]top{}, ops...), o)
	sym.Assert(t.NumEntries() == size(all), "the number of entries is that of the map")
	for _, o := range all {
		present, v := state(all, o.p)
		got, ok := t.Get(mkPrefix(o.p))
		sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
		sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
	}
}

// Q_C09_line: an arbitrary prefix is looked up in any subset of 6 nested prefixes.
func Q_C09_line() {
	ops, q := lineAndOne()
	checkMatchOf(ops, q)
}

func checkMatchOf(ops []top, q P) {
	t := tabulate(ops)
	found, at, v := longest(ops, q)
	gv, ok, p := t.LongestMatch(mkPrefix(q))
	sym.Assert(sym.Iff(ok, found), "there is a match iff an entry contains the prefix")
	sym.Assert(sym.Implies(found, sym.And(gv == v, pSame(prefixP(p), at))), "the match is the longest entry that contains the prefix")
}

// Q_C09_lineAndOne: an arbitrary prefix is looked up in any subset of 5 nested prefixes
// and an arbitrary one.
func Q_C09_lineAndOne() {
	s := scale(4, bits/2-2)
	base := symW("base")
	ops := line(base, "t", s, 4)
	ops = append(ops, top{opInsertOrUpdate, oneIn(base, "p", s, 4), sym.Uint8("v")})
	checkMatchOf(ops, oneIn(base, "q", s+4, 1))
}

// Q_C10_line: the walk over any subset of 6 nested prefixes with or without an arbitrary one.
func Q_C10_line() {
	ops, q := lineAndOne()
	t := tabulate(ops)
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], q, sym.Uint8("v")}
	o.do(t)
	ops = append(ops, o)
	es := walk(t.Table())
	sym.Assert(int64(len(es)) == size(ops), "the walk visits every entry")
	for i, e := range es {
		if i > 0 {
			sym.Assert(pBefore(es[i-1].p, e.p), "the walk is in lexicographical order")
		}
		present, v := state(ops, e.p)
		sym.Assert(sym.And(present, e.v == v), "the walk visits only entries, with their values")
	}
}

// Q_C11_line: any subset of 4 nested prefixes and the same with an arbitrary one inserted, changed or
// removed, either way around.
func Q_C11_line() { diffLine(3) }

// T_C11_line: as line, with 5 nested prefixes.
func T_C11_line() { diffLine(4) }

func diffLine(d uint32) {
	s := scale(d, bits/2-2)
	base := symW("base")
	as := line(base, "t", s, d)
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], oneIn(base, "q", s, d), sym.Uint8("v")}
	a := tabulate(as).Table()
	b := a.Table_()
	o.do(b)
	bs := append(append([]top{}, as...), o)
	q := P{base, s + uint32(sym.Choose("check", 3))}
	if sym.Choose("swap", 2) == 0 {
		checkDiff(a, b.Table(), as, bs, q)
	} else {
		checkDiff(b.Table(), a, bs, as, q)
	}
}

// Q_C11_lines: any two subsets of 4 nested prefixes of addresses which differ in one bit or none.
func Q_C11_lines() { diffLines(3) }

// T_C11_lines: as lines, with 5 nested prefixes.
func T_C11_lines() { diffLines(4) }

func diffLines(d uint32) {
	s := scale(d, bits/2-2)
	base := symW("base")
	other := wXor(base, []W{wc(0), wBit(s + 1), wBit(s + 2)}[sym.Choose("other", 3)])
	as, bs := line(base, "a", s, d), line(other, "b", s, d)
	checkDiff(tabulate(as).Table(), tabulate(bs).Table(), as, bs, P{other, s + 2})
}

// Q_C12_line: the aggregate of any subset of 4 nested prefixes and one that differs from them in
// one bit.
func Q_C12_line() { aggregateLine(3) }

// T_C12_line: as line, with 5 nested prefixes.
func T_C12_line() { aggregateLine(4) }

func aggregateLine(d uint32) {
	s := scale(d+1, bits/2-2)
	base := symW("base")
	ops := line(base, "t", s, d)
	l := uint32(sym.Choose("at", int(d)))
	p := P{wXor(base, wBit(s+l)), s + l + 1 + uint32(sym.Choose("len", 2))}
	p.a = pFirst(p)
	ops = append(ops, top{opInsertOrUpdate, p, sym.Uint8("v")})
	checkAggregate(ops, wJoin(base, symW("x"), s))
}

// Q_C13_line: the values of any subset of 6 nested prefixes and an arbitrary one are mapped.
func Q_C13_line() {
	ops, q := lineAndOne()
	ops = append(ops, top{opInsertOrUpdate, q, sym.Uint8("v")})
	checkMapTo(ops, q, sym.Uint8("to"))
}

// Q_C14_line: a snapshot of any subset of 5 nested prefixes and any operation on an
// arbitrary one.
func Q_C14_line() {
	s := scale(4, bits/2-2)
	base := symW("base")
	ops, q := line(base, "t", s, 4), oneIn(base, "q", s, 4)
	o := top{allKinds[sym.Choose("kind", opKinds)], q, sym.Uint8("v")}
	t := tabulate(ops)
	snap := t.Table()
	was := walk(snap)
	other := snap.Table_()
	o.do(other)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
	sym.Assert(sameEntries(walk(t.Table()), was), "a mutable copy is independent of where it came from")
	o.do(t)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
}
