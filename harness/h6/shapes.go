package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// node is the k-th prefix (from 0) of length s+d in base/s.
func node(base W, s, d uint32, k int) P {
	return P{wOr(wAnd(base, wMask(s)), wShl(wc(uint64(k)), bits-s-d)), s + d}
}

// leaves is any subset of the 2^d prefixes of length s+d in base/s.
func leaves(base W, name string, s, d uint32) []P {
	var ps []P
	for k := 0; k < 1<<d; k++ {
		if sym.Choose(name, 2) == 1 {
			ps = append(ps, node(base, s, d, k))
		}
	}
	return ps
}

// anyNode is any of the prefixes of lengths s to s+d in base/s.
func anyNode(base W, name string, s, d uint32) P {
	n := sym.Choose(name, 2<<d-1)
	l := uint32(0)
	for n >= 1<<l {
		n -= 1 << l
		l++
	}
	return node(base, s, l, n)
}

// tree is any subset of the prefixes of lengths s to s+d in base/s, each with
// any value, as insertions in order of length.
func tree(base W, name string, s, d uint32) []top {
	var ops []top
	for l := uint32(0); l <= d; l++ {
		for k := 0; k < 1<<l; k++ {
			if sym.Choose(name, 2) == 1 {
				ops = append(ops, top{opInsertOrUpdate, node(base, s, l, k), sym.Uint8(name + ".value")})
			}
		}
	}
	return ops
}

// ---- sets

// leafAlgebra: a set of any of 8 neighbouring prefixes, with any subset of the
// 4 pairs or one prefix, as either operand.
func leafAlgebra(s uint32) (as, bs []P) {
	base := symW("base")
	as = leaves(base, "a", s, 3)
	if sym.Choose("b.kind", 2) == 0 {
		bs = leaves(base, "b", s, 2)
	} else {
		bs = []P{anyNode(base, "b", s, 3)}
	}
	if sym.Choose("swap", 2) == 1 {
		as, bs = bs, as
	}
	return
}

// Q_C01_leaves: any subset of 8 neighbouring prefixes of one length with any
// subset of 4 pairs of them, or one prefix or part; either way around.
func Q_C01_leaves() {
	as, bs := leafAlgebra(bits/2 - 2)
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// T_C01_leaves: as leaves, at 3 positions.
func T_C01_leaves() {
	as, bs := leafAlgebra(scale(3, 0, bits/2-1, bits-3))
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// T_C01_leaves8: two subsets of 8 neighbouring prefixes.
func T_C01_leaves8() {
	s := scale(3, bits/2-2)
	base := symW("base")
	as, bs := leaves(base, "a", s, 3), leaves(base, "b", s, 3)
	checkAlgebra(as, bs, build(as), build(bs), symW("x"))
}

// Q_C02_leaves: the result of an operation on any subset of 8 neighbouring
// prefixes and any subset of 4 pairs or a prefix.
func Q_C02_leaves() {
	as, bs := leafAlgebra(bits/2 - 2)
	canonical(prefixesOf(result(build(as), build(bs))))
}

// Q_C02_equalLeaves: any subset of 4 pairs of 8 neighbouring prefixes and any
// subset of the 8, reached by removals, are equal iff they have the same addresses.
func Q_C02_equalLeaves() {
	equalLeaves(2)
}

// T_C02_equalLeaves: as equalLeaves, for two subsets of the 8 prefixes.
func T_C02_equalLeaves() {
	equalLeaves(3)
}

func equalLeaves(d uint32) {
	s := scale(3, bits/2-1)
	base := symW("base")
	as := leaves(base, "a", s, d)
	a := build(as)
	b := fam.NewSet_()
	b.Insert(mkPrefix(P{base, s}))
	n := 0
	for k := 0; k < 8; k++ {
		if sym.Choose("b", 2) == 1 {
			n++
		} else {
			b.Remove(mkPrefix(node(base, s, 3, k)))
		}
	}
	bl := prefixesOf(b.Set())
	canonical(bl)
	same := sameList(prefixesOf(a), bl)
	sym.Assert(sym.Iff(a.Equal(b.Set()), same), "equal iff same canonical prefixes")
	total := 0
	for _, p := range bl {
		total += 1 << (s + 3 - p.l)
	}
	sym.Assert(total == n, "what is left is what was not removed")
	eq := len(as)<<(3-d) == n
	for _, p := range as {
		eq = sym.And(eq, anyCovers(bl, p))
	}
	sym.Assert(sym.Iff(eq, same), "sets with the same addresses have the same prefixes")
}

// Q_C03_leaves: containment for any subset of 8 neighbouring prefixes and any
// subset of 4 pairs or a prefix, either way around.
func Q_C03_leaves() {
	as, bs := leafAlgebra(bits/2 - 2)
	a, b := build(as), build(bs)
	in := true
	for _, p := range bs {
		// p has at most 8 parts of the length of the leaves
		for k := 0; k < 1<<(bits/2+1-p.l); k++ {
			in = sym.And(in, anyCovers(as, node(p.a, p.l, bits/2+1-p.l, k)))
		}
	}
	sym.Assert(sym.Iff(a.Contains(b), in), "a set contains another iff each of its parts")
	n := 0
	for _, p := range as {
		n += 1 << (bits/2 + 1 - p.l)
	}
	got, err := a.NumPrefixes(bits/2 + 1)
	sym.Assert(err == nil && got == uint64(n), "number of prefixes of a length")
}

// Q_C04_leaves: walks over any subset of 8 neighbouring prefixes; 3 positions.
func Q_C04_leaves() {
	walkLeaves(scale(3, 0, bits/2-2, bits-3), 3)
}

// T_C04_leaves: walks over any subset of 16 neighbouring prefixes.
func T_C04_leaves() {
	walkLeaves(scale(4, bits/2-2), 4)
}

func walkLeaves(s, d uint32) {
	as := leaves(symW("base"), "a", s, d)
	a := build(as)
	x := symW("x")
	ps := prefixesOf(a)
	canonical(ps)
	sym.Assert(sym.Iff(anyHas(ps, x), anyHas(as, x)), "the walked prefixes have exactly the addresses of the set")
	var rs [][2]W
	done := a.WalkRanges(func(r Range) bool {
		rs = append(rs, [2]W{addrW(r.First()), addrW(r.Last())})
		return true
	})
	sym.Assert(done, "a walk that is not stopped returns true")
	in := false
	for i, r := range rs {
		sym.Assert(wLe(r[0], r[1]), "ranges are not empty")
		if i > 0 {
			sym.Assert(sym.And(wLt(rs[i-1][1], r[0]), sym.Not(wEq(wInc(rs[i-1][1]), r[0]))), "ranges ascend and are not adjacent")
		}
		in = sym.Or(in, sym.And(wLe(r[0], x), wLe(x, r[1])))
	}
	sym.Assert(sym.Iff(in, anyHas(as, x)), "the walked ranges have exactly the addresses of the set")
}

// Q_C06_leaves: any subset of 8 neighbouring prefixes, from which a snapshot
// is taken, a prefix is inserted or removed, and another one; 2 positions.
func Q_C06_leaves() {
	s := scale(3, 0, bits/2-2)
	base := symW("base")
	var ops []op
	for _, p := range leaves(base, "a", s, 3) {
		ops = append(ops, op{false, p})
	}
	ops = append(ops, op{sym.Choose("remove", 2) == 1, anyNode(base, "p", s, 3)})
	a := fam.NewSet_()
	x := wJoin(base, symW("x"), s)
	snaps := []Set{}
	for _, o := range ops {
		snaps = append(snaps, a.Set())
		o.do(a)
	}
	snaps = append(snaps, a.Set())
	for i := len(snaps) - 3; i < len(snaps); i++ {
		if i < 0 {
			continue
		}
		l := prefixesOf(snaps[i])
		canonical(l)
		sym.Assert(sym.Iff(anyHas(l, x), inAfter(ops[:i], x)), "a snapshot has what was inserted and not removed before it")
	}
}

// Q_C07_leaves: any subset of 8 neighbouring prefixes, less one prefix or
// any subset of the 4 pairs or nothing, any length up to one more.
func Q_C07_leaves() {
	s := scale(3, bits/2-2)
	c := cells{symW("base"), s, 3}
	as := leaves(c.base, "a", s, 3)
	var rs []P
	switch sym.Choose("r.kind", 3) {
	case 1:
		rs = leaves(c.base, "r", s, 2)
	case 2:
		rs = []P{anyNode(c.base, "r", s, 3)}
	}
	checkFindIn(c, as, rs, s+uint32(sym.Choose("length", 5)))
}

// T_C07_reservedLeaves: a prefix, less any subset of 8 neighbouring prefixes,
// and any length up to one more; 3 positions.
func T_C07_reservedLeaves() {
	s := scale(3, 0, bits/2-2, bits-3)
	c := cells{symW("base"), s, 3}
	as := []P{anyNode(c.base, "a", s, 2)}
	checkFindIn(c, as, leaves(c.base, "r", s, 3), lengthNear(s, 3))
}

// Q_C07_reservedLeaves: a prefix and any part, less any subset of 8
// neighbouring prefixes in it, and any length up to one more.
func Q_C07_reservedLeaves() {
	s := scale(3, bits/2-1)
	c := cells{symW("base"), s, 3}
	as := []P{anyNode(c.base, "a", s, 1)}
	checkFindIn(c, as, leaves(c.base, "r", s, 3), s+uint32(sym.Choose("length", 5)))
}

// ---- tables

// Q_C08_tree: any operation on any of 7 prefixes after any subset of them was
// inserted.
func Q_C08_tree() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	o := top{allKinds[sym.Choose("kind", opKinds)], anyNode(base, "p", s, 2), sym.Uint8("v")}
	t := tabulate(ops)
	o.checked(t, ops)
	ops = append(ops, o)
	sym.Assert(t.NumEntries() == size(ops), "the number of entries is that of the map")
	for l := uint32(0); l <= 2; l++ {
		for k := 0; k < 1<<l; k++ {
			p := node(base, s, l, k)
			present, v := state(ops, p)
			got, ok := t.Get(mkPrefix(p))
			sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
			sym.Assert(sym.Implies(present, got == v), "Get returns the value in the map")
		}
	}
}

type (
	anyTable  = fam.Table[interface{}]
	anyTable_ = fam.Table_[interface{}]
)

// equalAny compares values, nil among them.
func equalAny(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.(uint8) == b.(uint8)
}

// anyValues lists the values and prefixes of a table of interface values.
func anyGet(t anyTable, p P) (ok, isNil bool, v uint8) {
	x, ok := t.Get(mkPrefix(p))
	if x == nil {
		return ok, true, 0
	}
	return ok, false, x.(uint8)
}

// Q_C08_nilValues: as tree, in a table whose values are nil interface values,
// all or all but those of the operation.
func Q_C08_nilValues() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	t := fam.NewTableCustomCompare_(equalAny)
	for _, o := range ops {
		t.Insert(mkPrefix(o.p), nil)
	}
	o := top{allKinds[sym.Choose("kind", opKinds)], anyNode(base, "p", s, 2), 0}
	var v interface{}
	withValue := sym.Choose("value", 2) == 1
	if withValue {
		v = uint8(7)
	}
	q := mkPrefix(o.p)
	before, _ := state(ops, o.p)
	switch o.kind {
	case opInsert:
		sym.Assert(sym.Iff(t.Insert(q, v), sym.Not(before)), "Insert returns whether there was no entry")
	case opUpdate:
		sym.Assert(sym.Iff(t.Update(q, v), before), "Update returns whether there was an entry")
	case opInsertOrUpdate:
		t.InsertOrUpdate(q, v)
	case opGetOrInsert:
		w := t.GetOrInsert(q, v)
		sym.Assert(sym.Iff(w == nil, sym.Or(before, !withValue)), "GetOrInsert returns the value there is then")
	case opRemove:
		sym.Assert(sym.Iff(t.Remove(q), before), "Remove returns whether there was an entry")
	}
	all := append(append([]top{}, ops...), o)
	sym.Assert(t.NumEntries() == size(all), "the number of entries is that of the map")
	for l := uint32(0); l <= 2; l++ {
		for k := 0; k < 1<<l; k++ {
			p := node(base, s, l, k)
			present, _ := state(all, p)
			ok, isNil, _ := anyGet(t.Table(), p)
			sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
			set := false
			if withValue {
				switch o.kind {
				case opInsert, opGetOrInsert:
					set = sym.And(pSame(p, o.p), sym.Not(before))
				case opUpdate:
					set = sym.And(pSame(p, o.p), before)
				case opInsertOrUpdate:
					set = pSame(p, o.p)
				}
			}
			sym.Assert(sym.Implies(present, sym.Iff(isNil, sym.Not(set))), "Get returns the value in the map")
		}
	}
}

// Q_C09_tree: any subset of 7 prefixes and any of 15 looked up.
func Q_C09_tree() {
	s := scale(3, bits/2-2)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	q := anyNode(base, "q", s, 3)
	t := tabulate(ops)
	found, at, v := longest(ops, q)
	gv, ok, p := t.LongestMatch(mkPrefix(q))
	sym.Assert(sym.Iff(ok, found), "there is a match iff an entry contains the prefix")
	sym.Assert(sym.Implies(found, sym.And(gv == v, pSame(prefixP(p), at))), "the match is the longest entry that contains the prefix")
}

// Q_C10_tree: any subset of 7 prefixes is walked.
func Q_C10_tree() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	es := walk(tabulate(ops).Table())
	sym.Assert(len(es) == len(ops), "the walk visits every entry")
	for i, e := range es {
		if i > 0 {
			sym.Assert(pBefore(es[i-1].p, e.p), "the walk is in lexicographical order")
		}
		present, v := state(ops, e.p)
		sym.Assert(sym.And(present, e.v == v), "the walk visits only entries, with their values")
	}
}

// Q_C11_tree: any subset of 7 prefixes, and a copy with one of them inserted,
// changed or removed, either way around.
func Q_C11_tree() {
	s := scale(2, bits/2-1)
	base := symW("base")
	as := tree(base, "a", s, 2)
	o := top{[]int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], anyNode(base, "p", s, 2), sym.Uint8("v")}
	a := tabulate(as).Table()
	b := a.Table_()
	o.do(b)
	bs := append(append([]top{}, as...), o)
	q := anyNode(base, "q", s, 2)
	if sym.Choose("swap", 2) == 0 {
		checkDiff(a, b.Table(), as, bs, q)
	} else {
		checkDiff(b.Table(), a, bs, as, q)
	}
}

// T_C11_trees: any two subsets of 7 prefixes.
func T_C11_trees() {
	s := scale(2, bits/2-1)
	base := symW("base")
	as, bs := tree(base, "a", s, 2), tree(base, "b", s, 2)
	checkDiff(tabulate(as).Table(), tabulate(bs).Table(), as, bs, wholeNode(base, s))
}

func wholeNode(base W, s uint32) P { return P{base, s} }

// Q_C13_tree: any subset of 7 prefixes; the mapper changes one or all values.
func Q_C13_tree() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	checkMapTo(ops, anyNode(base, "only", s, 2), sym.Uint8("to"))
}

// Q_C14_tree: any subset of 7 prefixes, a snapshot and any operation.
func Q_C14_tree() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	o := top{allKinds[sym.Choose("kind", opKinds)], anyNode(base, "p", s, 2), sym.Uint8("v")}
	t := tabulate(ops)
	snap := t.Table()
	was := walk(snap)
	other := snap.Table_()
	o.do(other)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
	sym.Assert(sameEntries(walk(t.Table()), was), "a mutable copy is independent of where it came from")
	o.do(t)
	sym.Assert(sameEntries(walk(snap), was), lSnap)
	sym.Assert(sameEntries(walk(t.Table()), walk(other.Table())), "the same operation has the same effect on the copy")
}
