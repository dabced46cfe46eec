package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

const (
	lLin   = "concurrent writes that do not panic take effect one after the other, with the results of that order"
	lOne   = "of concurrent writes one does not panic"
	lQuiet = "a write does not panic unless it overlaps another one"
	lSeen  = "a read sees the state before or after a concurrent write, never a mixture"
	lSnapC = "a snapshot does not change while there are writes"
)

// ---- sets

// setOf makes a new mutable set from prefixes.
func setOf(ps []P) Set_ { return build(ps).Set_() }

// after lists the prefixes after the operations were applied to a new set.
func setAfter(init []P, ops ...op) []P {
	s := setOf(init)
	for _, o := range ops {
		o.do(s)
	}
	return prefixesOf(s.Set())
}

func unless(c bool, o op) []op {
	if c {
		return nil
	}
	return []op{o}
}

func opOn(base W, name string, s, d uint32) op {
	return op{sym.Choose(name+".remove", 2) == 1, anyNode(base, name, s, d)}
}

// Q_C15_setWriters: two concurrent writes on a set of any of the halves of a
// prefix, each of which inserts or removes it or a half; at most 4 switches
// before the end.
func Q_C15_setWriters() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := leaves(base, "in", s, 1)
	a, b := opOn(base, "a", s, 1), opOn(base, "b", s, 1)
	checkSetWriters(init, a, b)
}

// Q_C15_setWritersAny: two concurrent writes on a set of a prefix, all with any
// bits, 3 windows of 2 lengths; at most 4 switches before the end.
func Q_C15_setWritersAny() {
	ops := symOps("op", 3, scale(1, 0, bits/2-1, bits-1), 1)
	checkSetWriters([]P{ops[0].p}, ops[1], ops[2])
}

func checkSetWriters(init []P, a, b op) {
	t := setOf(init)
	var pa, pb bool
	sym.Interleave(
		func() { pa = sym.Panics(func() { a.do(t) }) },
		func() { pb = sym.Panics(func() { b.do(t) }) },
	)
	sym.Assert(!pa || !pb, lOne)
	got := prefixesOf(t.Set())
	first, second := unless(pa, a), unless(pb, b)
	sym.Assert(sym.Or(
		sameList(got, setAfter(init, append(append([]op{}, first...), second...)...)),
		sameList(got, setAfter(init, append(append([]op{}, second...), first...)...))), lLin)
}

// Q_C15_setABA: a write during which another thread makes two, which may
// undo each other.
func Q_C15_setABA() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := leaves(base, "in", s, 1)
	a := opOn(base, "a", s, 1)
	b1, b2 := opOn(base, "b", s, 1), opOn(base, "b", s, 1)
	t := setOf(init)
	var pa, p1, p2 bool
	sym.Interleave(
		func() { pa = sym.Panics(func() { a.do(t) }) },
		func() {
			p1 = sym.Panics(func() { b1.do(t) })
			p2 = sym.Panics(func() { b2.do(t) })
		},
	)
	sym.Assert(!(pa && p1 && p2), lOne)
	sym.Assert(!(p1 && p2) || !pa, lQuiet)
	got := prefixesOf(t.Set())
	x, y, z := unless(pa, a), unless(p1, b1), unless(p2, b2)
	cat := func(l ...[]op) (r []op) {
		for _, o := range l {
			r = append(r, o...)
		}
		return
	}
	sym.Assert(sym.Or(sameList(got, setAfter(init, cat(x, y, z)...)),
		sym.Or(sameList(got, setAfter(init, cat(y, x, z)...)), sameList(got, setAfter(init, cat(y, z, x)...)))), lLin)
}

// T_C15_set3Writers: three concurrent writes.
func T_C15_set3Writers() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := leaves(base, "in", s, 1)
	ops := []op{opOn(base, "a", s, 1), opOn(base, "b", s, 1), opOn(base, "c", s, 1)}
	t := setOf(init)
	var p0, p1, p2 bool
	sym.Interleave(
		func() { p0 = sym.Panics(func() { ops[0].do(t) }) },
		func() { p1 = sym.Panics(func() { ops[1].do(t) }) },
		func() { p2 = sym.Panics(func() { ops[2].do(t) }) },
	)
	p := []bool{p0, p1, p2}
	sym.Assert(!p0 || !p1 || !p2, lOne)
	got := prefixesOf(t.Set())
	ok := false
	for _, perm := range [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		var l []op
		for _, i := range perm {
			l = append(l, unless(p[i], ops[i])...)
		}
		ok = sym.Or(ok, sameList(got, setAfter(init, l...)))
	}
	sym.Assert(ok, lLin)
}

const setReads = 10

// setRead is what reading a mutable set gives, as a list of prefixes.
func setRead(kind int, t Set_, q P) []P {
	yes := func(c bool) []P { return []P{{wc(sym.B2U(c)), 0}} }
	p := mkPrefix(q)
	switch kind {
	case 0:
		return prefixesOf(t.Set())
	case 1:
		return yes(t.IsEmpty())
	case 2:
		return yes(t.Contains(p))
	case 3:
		return prefixesOf(t.Union(p))
	case 4:
		return prefixesOf(t.Intersection(p))
	case 5:
		return prefixesOf(t.Difference(p))
	case 6:
		o := fam.NewSet_()
		o.Insert(p)
		return yes(t.Equal(o))
	case 7:
		o := fam.NewSet_()
		o.Insert(p)
		return yes(o.Equal(t))
	case 8: // as an operand
		o := fam.NewSet_()
		o.Insert(p)
		o.Remove(t)
		return prefixesOf(o.Set())
	}
	return prefixesOf(fam.Set{}.Union(t))
}

// Q_C15_setReader: any read during any write on a set of any of the halves of
// a prefix, each operation on it or a half.
func Q_C15_setReader() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := leaves(base, "in", s, 1)
	w := opOn(base, "w", s, 1)
	q := anyNode(base, "q", s, 1)
	kind := sym.Choose("read", setReads)
	t := setOf(init)
	was := setRead(kind, t, q)
	t2 := setOf(init)
	w.do(t2)
	will := setRead(kind, t2, q)
	var got []P
	var pw, pr bool
	sym.Interleave(
		func() { pr = sym.Panics(func() { got = setRead(kind, t, q) }) },
		func() { pw = sym.Panics(func() { w.do(t) }) },
	)
	sym.Assert(!pw, lQuiet)
	sym.Assert(!pr, "a read does not panic")
	sym.Assert(sym.Or(sameList(got, was), sameList(got, will)), lSeen)
	sym.Assert(sameList(setRead(kind, t, q), will), lLin)
}

// Q_C15_setReads: two reads in a row, or two snapshots, during two writes in a row.
func Q_C15_setReads() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := leaves(base, "in", s, 1)
	w1, w2 := opOn(base, "w", s, 1), opOn(base, "w", s, 1)
	t := setOf(init)
	snap := t.Set()
	var before, g1, g2 []P
	var pw, pr bool
	sym.Interleave(
		func() {
			pr = sym.Panics(func() {
				g1 = prefixesOf(t.Set())
				before = prefixesOf(snap)
				g2 = prefixesOf(t.Set())
			})
		},
		func() {
			pw = sym.Panics(func() {
				w1.do(t)
				w2.do(t)
			})
		},
	)
	sym.Assert(!pw, lQuiet)
	sym.Assert(!pr, "a read does not panic")
	s0, s1, s2 := setAfter(init), setAfter(init, w1), setAfter(init, w1, w2)
	sym.Assert(sameList(before, s0), lSnapC)
	sym.Assert(sym.Or(sym.Or(
		sym.And(sameList(g1, s0), sym.Or(sameList(g2, s0), sym.Or(sameList(g2, s1), sameList(g2, s2)))),
		sym.And(sameList(g1, s1), sym.Or(sameList(g2, s1), sameList(g2, s2)))),
		sym.And(sameList(g1, s2), sameList(g2, s2))), lSeen)
	sym.Assert(sameList(prefixesOf(t.Set()), s2), lLin)
}

// Q_C15_setsCross: two mutable sets that are inserted into or removed from one
// another concurrently.
func Q_C15_setsCross() {
	s := scale(1, bits/2-1)
	base := symW("base")
	as, bs := leaves(base, "a", s, 1), leaves(base, "b", s, 1)
	ra, rb := sym.Choose("a.remove", 2) == 1, sym.Choose("b.remove", 2) == 1
	do := func(t Set_, remove bool, o Set_) {
		if remove {
			t.Remove(o)
		} else {
			t.Insert(o)
		}
	}
	a, b := setOf(as), setOf(bs)
	var pa, pb bool
	sym.Interleave(
		func() { pa = sym.Panics(func() { do(a, ra, b) }) },
		func() { pb = sym.Panics(func() { do(b, rb, a) }) },
	)
	sym.Assert(!pa && !pb, lQuiet)
	ga, gb := prefixesOf(a.Set()), prefixesOf(b.Set())
	a1, b1, a2, b2 := setOf(as), setOf(bs), setOf(as), setOf(bs)
	do(a1, ra, b1)
	na := prefixesOf(a1.Set())
	do(b2, rb, a2)
	nb := prefixesOf(b2.Set())
	do(b1, rb, a1)
	do(a2, ra, b2)
	sym.Assert(sym.Or(
		sym.And(sameList(ga, na), sym.Or(sameList(gb, prefixesOf(b1.Set())), sameList(gb, nb))),
		sym.And(sameList(gb, nb), sameList(ga, prefixesOf(a2.Set())))), lSeen)
}

// ---- tables

// tableTrial performs the operations on a new table.
type trial struct {
	ok []bool
	v  []uint8
	es []entry
}

func tableTrial(init []top, ops ...top) trial {
	t := tabulate(init)
	var r trial
	for _, o := range ops {
		ok, v := o.do(t)
		r.ok, r.v = append(r.ok, ok), append(r.v, v)
	}
	r.es = walk(t.Table())
	return r
}

func anyTop(base W, name string, s, d uint32) top {
	return top{sym.Choose(name+".kind", opKinds), anyNode(base, name, s, d), sym.Uint8(name + ".value")}
}

// someTree is a prefix or its first half or both or none.
func someTree(base W, name string, s uint32) []top {
	var ops []top
	for l := uint32(0); l <= 1; l++ {
		if sym.Choose(name, 2) == 1 {
			ops = append(ops, top{opInsertOrUpdate, node(base, s, l, 0), sym.Uint8(name + ".value")})
		}
	}
	return ops
}

// Q_C15_tableWriters: two concurrent writes, one of any kind and one of insert
// or update, get or insert, and remove, on a table of a prefix, its first half,
// both or none, each on it or a half; at most 4 switches before the end.
func Q_C15_tableWriters() {
	s := scale(1, bits/2-1)
	base := symW("base")
	b := top{[]int{opInsertOrUpdate, opGetOrInsert, opRemove}[sym.Choose("b.kind", 3)], anyNode(base, "b", s, 1), sym.Uint8("b.value")}
	checkTableWriters(someTree(base, "in", s), anyTop(base, "a", s, 1), b)
}

// T_C15_tableWriters: two concurrent writes of any kind on a table of any of a
// prefix and its halves, each on one of them; at most 4 switches before the end.
func T_C15_tableWriters() {
	s := scale(1, bits/2-1)
	base := symW("base")
	checkTableWriters(tree(base, "in", s, 1), anyTop(base, "a", s, 1), anyTop(base, "b", s, 1))
}

// T_C15_tableWritersAny: two concurrent writes of any kind on a table with an
// entry, prefixes with any bits, 3 windows of 2 lengths.
func T_C15_tableWritersAny() {
	base := symW("base")
	s := scale(1, 0, bits/2-1, bits-1)
	init := inserts(base, "in", 1, s, 1)
	ops := symTops(base, "op", 2, s, 1, allKinds...)
	checkTableWriters(init, ops[0], ops[1])
}

func checkTableWriters(init []top, a, b top) {
	t := tabulate(init)
	var pa, pb, oka, okb bool
	var va, vb uint8
	sym.Interleave(
		func() { pa = sym.Panics(func() { oka, va = a.do(t) }) },
		func() { pb = sym.Panics(func() { okb, vb = b.do(t) }) },
	)
	sym.Assert(!pa || !pb, lOne)
	got := walk(t.Table())
	sym.Assert(t.NumEntries() == int64(len(got)), "the number of entries is that of the map")
	switch {
	case pa:
		r := tableTrial(init, b)
		sym.Assert(sym.And(sym.And(sym.Iff(okb, r.ok[0]), vb == r.v[0]), sameEntries(got, r.es)), lLin)
	case pb:
		r := tableTrial(init, a)
		sym.Assert(sym.And(sym.And(sym.Iff(oka, r.ok[0]), va == r.v[0]), sameEntries(got, r.es)), lLin)
	default:
		r, q := tableTrial(init, a, b), tableTrial(init, b, a)
		sym.Assert(sym.Or(
			sym.And(sym.And(sym.And(sym.Iff(oka, r.ok[0]), va == r.v[0]), sym.And(sym.Iff(okb, r.ok[1]), vb == r.v[1])), sameEntries(got, r.es)),
			sym.And(sym.And(sym.And(sym.Iff(okb, q.ok[0]), vb == q.v[0]), sym.And(sym.Iff(oka, q.ok[1]), va == q.v[1])), sameEntries(got, q.es))), lLin)
	}
}

// Q_C15_tableABA: a write of any kind during which another thread makes two,
// which may undo each other, all on one prefix.
func Q_C15_tableABA() {
	p := P{symW("base"), bits / 2}
	var init []top
	if sym.Choose("in", 2) == 1 {
		init = []top{{opInsert, p, sym.Uint8("in.value")}}
	}
	op := func(name string) top {
		return top{sym.Choose(name+".kind", opKinds), p, sym.Uint8(name + ".value")}
	}
	a, b, c := op("a"), op("b"), op("c")
	t := tabulate(init)
	var pa, pb, pc, oka, okb, okc bool
	var va, vb, vc uint8
	sym.Interleave(
		func() { pa = sym.Panics(func() { oka, va = a.do(t) }) },
		func() {
			pb = sym.Panics(func() { okb, vb = b.do(t) })
			pc = sym.Panics(func() { okc, vc = c.do(t) })
		},
	)
	got := walk(t.Table())
	// the possible orders, without the ones that panicked
	ok := false
	for at := 0; at < 3; at++ {
		var ops []top
		var oks []bool
		var vs []uint8
		add := func(p bool, o top, k bool, v uint8) {
			if !p {
				ops, oks, vs = append(ops, o), append(oks, k), append(vs, v)
			}
		}
		if at == 0 {
			add(pa, a, oka, va)
		}
		add(pb, b, okb, vb)
		if at == 1 {
			add(pa, a, oka, va)
		}
		add(pc, c, okc, vc)
		if at == 2 {
			add(pa, a, oka, va)
		}
		r := tableTrial(init, ops...)
		same := sameEntries(got, r.es)
		for i := range ops {
			same = sym.And(same, sym.And(sym.Iff(oks[i], r.ok[i]), vs[i] == r.v[i]))
		}
		ok = sym.Or(ok, same)
	}
	sym.Assert(ok, lLin)
	sym.Assert(!pa || !pb || !pc, lOne)
}

const tableReads = 6

// tableRead is what reading a mutable table gives, as a list of entries.
func tableRead(kind int, t table_, q P) []entry {
	p := mkPrefix(q)
	switch kind {
	case 0:
		return walk(t.Table())
	case 1:
		v, ok := t.Get(p)
		return []entry{{P{wc(sym.B2U(ok)), 0}, v}}
	case 2:
		v, ok, at := t.LongestMatch(p)
		return []entry{{P{wc(sym.B2U(ok)), 0}, v}, {prefixP(at), 0}}
	case 3:
		return []entry{{P{wc(uint64(t.NumEntries())), 0}, 0}}
	case 4:
		return walk(t.Table().Aggregate())
	}
	return walk(t.Table().Table_().Table())
}

// Q_C15_tableReader: any read during any write on a table of a prefix, its
// first half, both or none, each operation on it or a half.
func Q_C15_tableReader() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := someTree(base, "in", s)
	w := anyTop(base, "w", s, 1)
	q := anyNode(base, "q", s, 1)
	kind := sym.Choose("read", tableReads)
	t := tabulate(init)
	was := tableRead(kind, t, q)
	t2 := tabulate(init)
	w.do(t2)
	will := tableRead(kind, t2, q)
	var got []entry
	var pw, pr bool
	sym.Interleave(
		func() { pr = sym.Panics(func() { got = tableRead(kind, t, q) }) },
		func() { pw = sym.Panics(func() { w.do(t) }) },
	)
	sym.Assert(!pw, lQuiet)
	sym.Assert(!pr, "a read does not panic")
	sym.Assert(sym.Or(sameEntries(got, was), sameEntries(got, will)), lSeen)
	sym.Assert(sameEntries(tableRead(kind, t, q), will), lLin)
}

// Q_C15_tableReads: two snapshots of a table and a walk of an older one during
// two writes in a row.
func Q_C15_tableReads() {
	s := scale(1, bits/2-1)
	base := symW("base")
	init := someTree(base, "in", s)
	some := func(name string) top {
		return top{[]int{opInsertOrUpdate, opRemove}[sym.Choose(name+".kind", 2)], anyNode(base, name, s, 1), sym.Uint8(name + ".value")}
	}
	w1, w2 := some("w1"), some("w2")
	t := tabulate(init)
	snap := t.Table()
	var before, g1, g2 []entry
	var pw, pr bool
	sym.Interleave(
		func() {
			pr = sym.Panics(func() {
				g1 = walk(t.Table())
				before = walk(snap)
				g2 = walk(t.Table())
			})
		},
		func() {
			pw = sym.Panics(func() {
				w1.do(t)
				w2.do(t)
			})
		},
	)
	sym.Assert(!pw, lQuiet)
	sym.Assert(!pr, "a read does not panic")
	s0, s1, s2 := tableTrial(init).es, tableTrial(init, w1).es, tableTrial(init, w1, w2).es
	sym.Assert(sameEntries(before, s0), lSnapC)
	sym.Assert(sym.Or(sym.Or(
		sym.And(sameEntries(g1, s0), sym.Or(sameEntries(g2, s0), sym.Or(sameEntries(g2, s1), sameEntries(g2, s2)))),
		sym.And(sameEntries(g1, s1), sym.Or(sameEntries(g2, s1), sameEntries(g2, s2)))),
		sym.And(sameEntries(g1, s2), sameEntries(g2, s2))), lSeen)
	sym.Assert(sameEntries(walk(t.Table()), s2), lLin)
}

// Q_C15_readers: two concurrent reads of any kind of one mutable set or table.
func Q_C15_readers() {
	s := scale(1, bits/2-1)
	base := symW("base")
	q := anyNode(base, "q", s, 1)
	if sym.Choose("table", 2) == 0 {
		t := setOf(leaves(base, "in", s, 1))
		ka, kb := sym.Choose("read", setReads), sym.Choose("read", setReads)
		was, will := setRead(ka, t, q), setRead(kb, t, q)
		var ra, rb []P
		sym.Interleave(func() { ra = setRead(ka, t, q) }, func() { rb = setRead(kb, t, q) })
		sym.Assert(sym.And(sameList(ra, was), sameList(rb, will)), "concurrent reads do not affect each other")
		return
	}
	t := tabulate(tree(base, "in", s, 1))
	ka, kb := sym.Choose("read", tableReads), sym.Choose("read", tableReads)
	was, will := tableRead(ka, t, q), tableRead(kb, t, q)
	var ra, rb []entry
	sym.Interleave(func() { ra = tableRead(ka, t, q) }, func() { rb = tableRead(kb, t, q) })
	sym.Assert(sym.And(sameEntries(ra, was), sameEntries(rb, will)), "concurrent reads do not affect each other")
}

// Q_C15_derived: concurrent writes to two mutable sets or tables made from the
// same immutable one, of any of a prefix and its halves.
func Q_C15_derived() {
	s := scale(1, bits/2-1)
	base := symW("base")
	if sym.Choose("table", 2) == 0 {
		init := leaves(base, "in", s, 1)
		a, b := opOn(base, "a", s, 1), opOn(base, "b", s, 1)
		from := build(init)
		var ga, gb []P
		sym.Interleave(
			func() {
				t := from.Set_()
				a.do(t)
				ga = prefixesOf(t.Set())
			},
			func() {
				t := from.Set_()
				b.do(t)
				gb = prefixesOf(t.Set())
			},
		)
		sym.Assert(sym.And(sameList(ga, setAfter(init, a)), sameList(gb, setAfter(init, b))), "what is made from the same set is independent")
		sym.Assert(sameList(prefixesOf(from), setAfter(init)), lSnapC)
		return
	}
	init := tree(base, "in", s, 1)
	a, b := anyTop(base, "a", s, 1), anyTop(base, "b", s, 1)
	from := tabulate(init).Table()
	was := walk(from)
	var ga, gb []entry
	sym.Interleave(
		func() {
			t := from.Table_()
			a.do(t)
			ga = walk(t.Table())
		},
		func() {
			t := from.Table_()
			b.do(t)
			gb = walk(t.Table())
		},
	)
	sym.Assert(sym.And(sameEntries(ga, tableTrial(init, a).es), sameEntries(gb, tableTrial(init, b).es)), "what is made from the same table is independent")
	sym.Assert(sameEntries(walk(from), was), lSnapC)
}
