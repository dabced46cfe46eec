package h6

import (
	"verif/harness/sym"
)

// Large sets and tables: their own prefixes are fixed, and one or two more
// prefixes are arbitrary. They are as deep and as wide as tries get.

// comb is 32 halves on the way to an address that it is not in, which is all
// addresses but one for step 1.
func comb(step int) []P {
	var ps []P
	w := pattern(2)
	for l := bits; l > 0; l -= step {
		p := P{wXor(w, wBit(uint32(l-1))), uint32(l)}
		p.a = pFirst(p)
		ps = append(ps, p)
	}
	return ps
}

// row is 22 of 64 neighbouring prefixes of a length, no two of which are halves.
func row() []P {
	var ps []P
	s := uint32(bits/2 - 4)
	for k := 0; k < 64; k += 3 {
		ps = append(ps, node(pattern(2), s, 6, k))
	}
	return ps
}

// mixed is 30 disjoint prefixes of various lengths.
func mixed() []P {
	var ps []P
	for k := uint64(0); k < 30; k++ {
		w := wOr(wShl(wc(k), bits-6), wAnd(pattern(2), wNot(wMask(6))))
		l := uint32(6 + (k*k*7+k)%(bits-6))
		p := P{w, l}
		p.a = pFirst(p)
		ps = append(ps, p)
	}
	return ps
}

func bigSet(name string) []P {
	switch sym.Choose(name, 3) {
	case 0:
		return comb(bits / 32)
	case 1:
		return row()
	}
	return mixed()
}

// chain is 17 (35) prefixes of an address whose lengths range from 0 to all of it with gaps
// of various sizes, each within the one before.
func chain() []P {
	var ps []P
	gaps := []int{1, 2, 3}
	if bits > 32 {
		gaps = []int{1, 2, 3, 8, 5}
	}
	for l, i := int(bits), 0; l >= 0; i++ {
		p := P{pattern(2), uint32(l)}
		p.a = pFirst(p)
		ps = append(ps, p)
		l -= gaps[i%len(gaps)]
	}
	return ps
}

// full is 31 prefixes: all of 5 consecutive lengths.
func full() []P {
	var ps []P
	s := uint32(bits/2 - 2)
	for d := 4; d >= 0; d-- {
		for k := 0; k < 1<<d; k++ {
			ps = append(ps, node(pattern(2), s, uint32(d), k))
		}
	}
	return ps
}

// bigTable is a large table of fixed prefixes. Values repeat in runs.
func bigTable(name string, all bool) []top {
	var ps []P
	kinds := 3
	if all {
		kinds = 5
	}
	switch sym.Choose(name, kinds) {
	case 0:
		ps = chain()
	case 1:
		ps = full()
	case 2:
		ps = mixed()
	case 3:
		ps = row()
	case 4:
		ps = comb(bits / 32)
	}
	return entries(ps)
}

func entries(ps []P) []top {
	var ops []top
	for i, p := range ps {
		ops = append(ops, top{opInsertOrUpdate, p, uint8(i / 3 % 5)})
	}
	return ops
}

// wide is an arbitrary prefix. In quick runs it has a length of 0, 1, half or all
// of an address and 32 arbitrary bits (ipv6: the first and last 8 and 16 in the middle;
// the others are those that the nested entries share); in thorough runs 8 lengths and
// all bits are arbitrary.
func wide(name string, all bool) P {
	if all {
		return symPL(name, sparseLen(name+".len"))
	}
	p := symPL(name, []uint32{0, 1, bits / 2, bits}[sym.Choose(name+".len", 4)])
	if bits > 32 {
		fixed := wOr(wAnd(wMask(bits/2-8), wNot(wMask(8))), wAnd(wMask(bits-8), wNot(wMask(bits/2+8))))
		p.a = wOr(wAnd(p.a, wNot(fixed)), wAnd(pattern(2), fixed))
	}
	return p
}

// near is a prefix of one of 4 (8) lengths whose bits are those the nested
// prefixes share, except for any 4 (6) neighbouring bits at one of 3 places. (A prefix
// in the middle of another one splits it in as many ways as there are bits to decide.)
func near(name string, all bool) P {
	n, lens := uint32(4), []uint32{0, 1, bits / 2, bits}
	if all {
		n, lens = 6, sparse
	}
	at := []uint32{0, bits/2 - 2, bits - n}[sym.Choose(name+".at", 3)]
	some := wAnd(wMask(at+n), wNot(wMask(at)))
	p := symPL(name, lens[sym.Choose(name+".len", len(lens))])
	p.a = wOr(wAnd(p.a, some), wAnd(pattern(2), wNot(some)))
	return p
}

// Q_C01_big: a large set (32 prefixes of 32 lengths, 22 neighbours, 30
// of mixed lengths) with an arbitrary prefix, either way around.
func Q_C01_big() { bigC01(false) }

// T_C01_big: as big, with more lengths, bits and tables.
func T_C01_big() { bigC01(true) }

func bigC01(all bool) {
	as, bs := bigSet("a"), []P{near("b", all)}
	if sym.Choose("swap", 2) == 1 {
		as, bs = bs, as
	}
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C01_bigTwo: two large sets, one of them with or without an arbitrary prefix.
func Q_C01_bigTwo() {
	as, bs := bigSet("a"), bigSet("b")
	p := near("p", false)
	as = append(as, p)
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C02_big: the result of an operation on a large set and an arbitrary prefix.
func Q_C02_big() { bigC02(false) }

// T_C02_big: as big, with more lengths, bits and tables.
func T_C02_big() { bigC02(true) }

func bigC02(all bool) {
	a, b := build(bigSet("a")), build([]P{near("b", all)})
	canonical(prefixesOf(result(a, b)))
}

// Q_C03_big: a large set contains an arbitrary prefix iff one of its own does; it
// has as many addresses as its prefixes together.
func Q_C03_big() { bigC03(false) }

// T_C03_big: as big, with more lengths, bits and tables.
func T_C03_big() { bigC03(true) }

func bigC03(all bool) {
	as := bigSet("a")
	a, q := build(as), near("q", all)
	sym.Assert(sym.Iff(a.Contains(mkPrefix(q)), anyCovers(as, q)), "a set contains another iff each of its parts")
	in := true
	for _, p := range as {
		in = sym.And(in, pCovers(q, p))
	}
	sym.Assert(sym.Iff(mkPrefix(q).Contains(a), in), "contains iff every prefix is contained")
}

// Q_C04_big: walks over a large set with or without an arbitrary prefix.
func Q_C04_big() { bigC04(false) }

// T_C04_big: as big, with more lengths, bits and tables.
func T_C04_big() { bigC04(true) }

func bigC04(all bool) {
	as, q := bigSet("a"), near("q", all)
	s := build(as).Set_()
	x := symW("x")
	in := anyHas(as, x)
	if sym.Choose("remove", 2) == 0 {
		s.Insert(mkPrefix(q))
		in = sym.Or(in, pHas(q, x))
	} else {
		s.Remove(mkPrefix(q))
		in = sym.And(in, sym.Not(pHas(q, x)))
	}
	rs := rangesOf(s.Set())
	checkRanges(rs)
	sym.Assert(sym.Iff(anyRange(rs, x), in), "address in a walked range iff in the set")
}

// Q_C06_big: an arbitrary prefix is inserted into or removed from a large set; the
// snapshot from before stays as it was.
func Q_C06_big() { bigC06(false) }

// T_C06_big: as big, with more lengths, bits and tables.
func T_C06_big() { bigC06(true) }

func bigC06(all bool) {
	as, q := bigSet("a"), near("q", all)
	s := build(as).Set_()
	snap := s.Set()
	was := prefixesOf(snap)
	other := snap.Set_()
	x := symW("x")
	o := op{sym.Choose("remove", 2) == 1, q}
	o.do(s)
	sym.Assert(sameList(prefixesOf(snap), was), "a snapshot is not changed by modifications")
	sym.Assert(sameList(prefixesOf(other.Set()), was), "a mutable copy is not changed by modifications of the other")
	now := prefixesOf(s.Set())
	want := sym.Or(anyHas(as, x), pHas(q, x))
	if o.remove {
		want = sym.And(anyHas(as, x), sym.Not(pHas(q, x)))
	}
	sym.Assert(sym.Iff(anyHas(now, x), want), "the set has what was inserted and not removed")
}

// Q_C07_big: all but one address, less an arbitrary prefix; any of 8 lengths asked for.
func Q_C07_big() { bigC07(false) }

// T_C07_big: as big, with more lengths, bits and tables.
func T_C07_big() { bigC07(true) }

func bigC07(all bool) {
	as, r := comb(1), near("r", all)
	length := sparseLen("length")
	got, err := build(as).FindAvailablePrefix(mkPrefix(r), length)
	// The free blocks are the parts that are disjoint from r, and the halves on the
	// way from the part that r lies in, if it does, to r.
	from := uint32(bits)
	for _, p := range as {
		from = sym.Ite32(pCovers(p, r), p.l, from)
	}
	var blocks []P
	var live []bool
	for _, p := range as {
		blocks = append(blocks, p)
		live = append(live, pDisjoint(p, r))
	}
	for l := uint32(1); l <= r.l; l++ {
		b := P{wXor(r.a, wBit(l-1)), l}
		b.a = pFirst(b)
		blocks = append(blocks, b)
		live = append(live, from < l)
	}
	some, best := false, uint32(0)
	for i, b := range blocks {
		fits := sym.And(live[i], b.l <= length)
		some = sym.Or(some, fits)
		best = sym.Ite32(sym.And(fits, best < b.l), b.l, best)
	}
	sym.Assert(sym.Iff(err == nil, some), "a prefix is found iff there is room")
	if err != nil {
		return
	}
	q := prefixP(got)
	sym.Assert(sym.And(q.l == length, pNetwork(q)), "the prefix found has the length asked for")
	mine := uint32(bits + 1)
	for i, b := range blocks {
		mine = sym.Ite32(sym.And(live[i], pCovers(b, q)), b.l, mine)
	}
	sym.Assert(mine != bits+1, "all of the prefix found is available")
	sym.Assert(mine == best, "the prefix found is in the smallest free block where it fits")
}

// bigOp is any operation on an arbitrary prefix.
func bigOp(all bool) top {
	return top{allKinds[sym.Choose("kind", opKinds)], wide("q", all), sym.Uint8("v")}
}

// Q_C08_big: any operation on an arbitrary prefix in a large table (17 or 35
// nested prefixes, a full tree of 31, or 30 mixed ones).
func Q_C08_big() { bigC08(false) }

// T_C08_big: as big, with more lengths, bits and tables.
func T_C08_big() { bigC08(true) }

func bigC08(all bool) {
	ops := bigTable("t", all)
	t := tabulate(ops)
	o := bigOp(all)
	o.checked(t, ops)
	ops = append(ops, o)
	n := size(ops)
	sym.Assert(t.NumEntries() == n, "the number of entries is that of the map")
	present, v := state(ops, o.p)
	got, ok := t.Get(mkPrefix(o.p))
	sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
	sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
	for _, p := range []P{ops[0].p, ops[len(ops)/2].p, ops[len(ops)-2].p} {
		present, v := state(ops, p)
		got, ok := t.Get(mkPrefix(p))
		sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
		sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
	}
}

// Q_C09_big: an arbitrary prefix is looked up in a large table.
func Q_C09_big() { bigC09(false) }

// T_C09_big: as big, with more lengths, bits and tables.
func T_C09_big() { bigC09(true) }

func bigC09(all bool) {
	ops := bigTable("t", all)
	q := wide("q", all)
	t := tabulate(ops)
	found, at, v := longest(ops, q)
	gv, ok, p := t.LongestMatch(mkPrefix(q))
	sym.Assert(sym.Iff(ok, found), "there is a match iff an entry contains the prefix")
	sym.Assert(sym.Implies(found, sym.And(gv == v, pSame(prefixP(p), at))), "the match is the longest entry that contains the prefix")
}

// Q_C10_big: the walk over a large table after an insertion or removal of an arbitrary prefix.
func Q_C10_big() { bigC10(false) }

// T_C10_big: as big, with more lengths, bits and tables.
func T_C10_big() { bigC10(true) }

func bigC10(all bool) {
	ops := bigTable("t", all)
	t := tabulate(ops)
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], wide("q", all), sym.Uint8("v")}
	o.do(t)
	ops = append(ops, o)
	es := walk(t.Table())
	sym.Assert(int64(len(es)) == size(ops), "the walk visits every entry")
	for i, e := range es {
		if i > 0 {
			sym.Assert(pBefore(es[i-1].p, e.p), "the walk is in lexicographical order")
		}
		present, v := state(ops, e.p)
		sym.Assert(sym.And(present, e.v == v), "the walk visits only entries, with their values")
	}
}

// Q_C11_big: a large table and the same after an operation on an arbitrary prefix, as a
// modified copy or built anew, either way around.
func Q_C11_big() { bigC11(false) }

// T_C11_big: as big, with more lengths, bits and tables.
func T_C11_big() { bigC11(true) }

func bigC11(all bool) {
	as := bigTable("t", all)
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], near("q", all), sym.Uint8("v")}
	a := tabulate(as).Table()
	var b table_
	if sym.Choose("shared", 2) == 1 {
		b = a.Table_()
	} else {
		b = tabulate(as)
	}
	o.do(b)
	bs := append(append([]top{}, as...), o)
	l, r := a, b.Table()
	ls, rs := as, bs
	if sym.Choose("swap", 2) == 1 {
		l, r, ls, rs = r, l, rs, ls
	}
	evs, done := diff(l, r, allEvents, never)
	sym.Assert(done, "a diff that is not stopped returns true")
	differ := 0
	for i, e := range evs {
		if i > 0 {
			sym.Assert(pBefore(evs[i-1].p, e.p), "a diff visits prefixes in lexicographical order, each once")
		}
		inL, vl := state(ls, e.p)
		inR, vr := state(rs, e.p)
		switch e.kind {
		case evSame:
			sym.Assert(sym.And(sym.And(inL, inR), sym.And(vl == vr, e.l == vl)), "unchanged: in both tables with the same value")
			continue
		case evChanged:
			sym.Assert(sym.And(sym.And(inL, inR), sym.And(vl != vr, sym.And(e.l == vl, e.r == vr))), "changed: in both tables with different values")
		case evLeft:
			sym.Assert(sym.And(sym.And(inL, sym.Not(inR)), e.l == vl), "left: only in the left table")
		case evRight:
			sym.Assert(sym.And(sym.And(inR, sym.Not(inL)), e.r == vr), "right: only in the right table")
		}
		differ++
	}
	union := size(as)
	if inA, _ := state(as, o.p); o.kind == opInsertOrUpdate {
		union += int64(sym.B2U(sym.Not(inA)))
	}
	sym.Assert(int64(len(evs)) == union, "every prefix of either table is visited")
	few, _ := diff(l, r, allEvents&^(1<<evSame), never)
	sym.Assert(len(few) == differ, "without a callback for unchanged entries, the same differences are found")
}

// Q_C12_big: the aggregate of a large table with an entry that differs from those nested in any 4 bits.
func Q_C12_big() { bigC12(false) }

// T_C12_big: as big, with more lengths, bits and tables.
func T_C12_big() { bigC12(true) }

func bigC12(all bool) {
	ops := bigTable("t", all)
	q := near("q", all)
	x := wOr(wAnd(q.a, wMask(bits-3)), wAnd(symW("x"), wNot(wMask(bits-3))))
	checkAggregate(append(ops, top{opInsertOrUpdate, q, sym.Uint8("v") & 3}), x)
}

// Q_C13_big: a large table with an arbitrary entry whose value, or that of another
// prefix, is mapped to another.
func Q_C13_big() { bigC13(false) }

// T_C13_big: as big, with more lengths, bits and tables.
func T_C13_big() { bigC13(true) }

func bigC13(all bool) {
	ops := bigTable("t", all)
	o := top{opInsertOrUpdate, wide("q", all), sym.Uint8("v")}
	only := []P{o.p, ops[len(ops)/2].p}[sym.Choose("only", 2)]
	checkMapTo(append(ops, o), only, sym.Uint8("to"))
}

// Q_C14_big: a snapshot of a large table, and any operation on an arbitrary prefix.
func Q_C14_big() { bigC14(false) }

// T_C14_big: as big, with more lengths, bits and tables.
func T_C14_big() { bigC14(true) }

func bigC14(all bool) {
	t := tabulate(bigTable("t", all))
	snap := t.Table()
	was := walk(snap)
	other := snap.Table_()
	o := bigOp(all)
	o.do(other)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
	sym.Assert(sameEntries(walk(t.Table()), was), "a mutable copy is independent of where it came from")
	o.do(t)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
}

// many is 300 neighbouring prefixes of a length, less every seventh.
func many() []P {
	var ps []P
	for k := 0; k < 350; k++ {
		if k%7 != 3 {
			ps = append(ps, node(pattern(2), bits/2-9, 9, k*37%350))
		}
	}
	return ps
}

// Q_C08_many: an operation on one of 16 neighbouring prefixes in a table with 300
// entries.
func Q_C08_many() {
	ops := entries(many())
	t := tabulate(ops)
	sym.Assert(t.NumEntries() == 300, "the number of entries is that of the map")
	q := ops[100].p
	q.a = wXor(q.a, wAnd(symW("q"), wNot(wMask(bits/2-4))))
	o := top{allKinds[sym.Choose("kind", opKinds)], q, sym.Uint8("v")}
	o.checked(t, ops)
	in, _ := state(ops, q)
	n := int64(300)
	switch o.kind {
	case opInsert, opInsertOrUpdate, opGetOrInsert:
		n += int64(sym.B2U(sym.Not(in)))
	case opRemove:
		n -= int64(sym.B2U(in))
	}
	ops = append(ops, o)
	sym.Assert(t.NumEntries() == n, "the number of entries is that of the map")
	for i := range ops {
		if i%50 == 0 || i == 300 {
			present, v := state(ops, ops[i].p)
			got, ok := t.Get(mkPrefix(ops[i].p))
			sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
			sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
		}
	}
}

// Q_C03_many: the number of prefixes in a set of 300, less one of 16 neighbours or with it.
func Q_C03_many() {
	ps := many()
	s := build(ps).Set_()
	q := ps[100]
	q.a = wXor(q.a, wAnd(symW("q"), wNot(wMask(bits/2-4))))
	in := anyCovers(ps, q)
	n := uint64(300)
	if sym.Choose("remove", 2) == 1 {
		s.Remove(mkPrefix(q))
		n -= sym.B2U(in)
	} else {
		s.Insert(mkPrefix(q))
		n += sym.B2U(sym.Not(in))
	}
	got, err := s.Set().NumPrefixes(bits / 2)
	sym.Assert(err == nil && got == n, "number of prefixes of a length")
	got, err = s.Set().NumPrefixes(bits/2 + 8)
	sym.Assert(err == nil && got == n<<8, "number of prefixes of a length")
}

// Q_C10_many: the walk over 300 entries after an insertion or removal among 16
// neighbouring prefixes.
func Q_C10_many() {
	ops := entries(many())
	t := tabulate(ops)
	q := ops[100].p
	q.a = wXor(q.a, wAnd(symW("q"), wNot(wMask(bits/2-4))))
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], q, sym.Uint8("v")}
	o.do(t)
	es := walk(t.Table())
	in, _ := state(ops, q)
	n := uint64(300)
	if o.kind == opRemove {
		n -= sym.B2U(in)
	} else {
		n += sym.B2U(sym.Not(in))
	}
	sym.Assert(uint64(len(es)) == n, "the walk visits every entry")
	for i := 1; i < len(es); i++ {
		sym.Assert(pBefore(es[i-1].p, es[i].p), "the walk is in lexicographical order")
	}
	stop := 0
	t.Table().Walk(func(Prefix, uint8) bool { stop++; return stop < 280 })
	sym.Assert(stop == 280, "a walk stops when the callback says so")
}

// Q_C04_many: the ranges of a set of 300 prefixes with or less one of 16 neighbours.
func Q_C04_many() {
	ps := many()
	s := build(ps).Set_()
	q := ps[100]
	q.a = wXor(q.a, wAnd(symW("q"), wNot(wMask(bits/2-4))))
	x := wOr(wAnd(q.a, wMask(bits/2-4)), wAnd(symW("x"), wNot(wMask(bits/2-4))))
	in := anyHas(ps, x)
	if sym.Choose("remove", 2) == 1 {
		s.Remove(mkPrefix(q))
		in = sym.And(in, sym.Not(pHas(q, x)))
	} else {
		s.Insert(mkPrefix(q))
		in = sym.Or(in, pHas(q, x))
	}
	rs := rangesOf(s.Set())
	checkRanges(rs)
	sym.Assert(sym.Iff(anyRange(rs, x), in), "address in a walked range iff in the set")
	ws := prefixesOf(s.Set())
	canonical(ws)
	sym.Assert(sym.Iff(anyHas(ws, x), in), "address in a walked prefix iff in the set")
}
