package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// cell is a type of values that cannot be compared with ==.
type cell []uint8

type (
	cellTable  = fam.Table[cell]
	cellTable_ = fam.Table_[cell]
)

const (
	lCmpArgs  = "the comparator and the mapper are given values that were stored"
	lCmpKept  = "the value found is equal, for the comparator, to the last one stored"
	lCmpDiff  = "entries are changed iff the comparator says that their values differ"
	lCmpMap   = "the mapped values are equal, for the comparator, to what the mapper returned"
	lCmpMerge = "entries are merged iff the comparator says that their values are equal"
	lCmpMatch = "aggregation keeps the values that match, up to the comparator"
)

const cellMark = 0xa5

func mkCell(v uint8) cell { return cell{cellMark, v} }

// got is the content of a value passed to a callback or returned.
func (c cell) got() uint8 {
	if len(c) != 2 || c[0] != cellMark {
		sym.Assert(false, lCmpArgs)
		return 0
	}
	return c[1]
}

// rel is an equivalence: values are equal if they agree in the bits of m.
type rel uint8

func (m rel) eq(a, b uint8) bool { return (a^b)&uint8(m) == 0 }

func (m rel) table() cellTable_ {
	return fam.NewTableCustomCompare_(func(a, b cell) bool {
		return m.eq(a.got(), b.got())
	})
}

// doCell performs the operation on a table of cells.
func (o top) doCell(t cellTable_) (ok bool, v uint8) {
	p, c := mkPrefix(o.p), mkCell(o.v)
	switch o.kind {
	case opInsert:
		return t.Insert(p, c), 0
	case opUpdate:
		return t.Update(p, c), 0
	case opInsertOrUpdate:
		t.InsertOrUpdate(p, c)
		return true, 0
	case opGetOrInsert:
		return true, t.GetOrInsert(p, c).got()
	}
	return t.Remove(p), 0
}

func (m rel) tabulate(ops []top) cellTable_ {
	t := m.table()
	for _, o := range ops {
		o.doCell(t)
	}
	return t
}

func walkCells(t cellTable) []entry {
	var out []entry
	t.Walk(func(p Prefix, c cell) bool {
		out = append(out, entry{prefixP(p), c.got()})
		return true
	})
	return out
}

// rewrap returns the same table after one of the ways to copy it, all of
// which keep the comparator.
func rewrap(t cellTable_) cellTable {
	switch sym.Choose("copy", 5) {
	case 1:
		return t.Table().Table_().Table()
	case 2:
		return t.Table().Build(func(cellTable_) bool { return true })
	case 3:
		return t.Table().Build(func(cellTable_) bool { return false })
	case 4:
		return t.Table().Map(func(p Prefix, c cell) cell { return c })
	}
	return t.Table()
}

// Q_C21_ops: three operations and the entry of any of the prefixes
// afterwards; 2 windows of 2 lengths.
func Q_C21_ops() {
	s := scale(1, bits/2-1, bits-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	ops := inserts(base, "in", 1, s, 1)
	ops = append(ops, symTops(base, "op", 2, s, 1, allKinds...)...)
	t := m.table()
	for i, o := range ops {
		present, old := state(ops[:i], o.p)
		ok, v := o.doCell(t)
		switch o.kind {
		case opInsert:
			sym.Assert(sym.Iff(ok, sym.Not(present)), "Insert returns whether there was no entry")
		case opUpdate:
			sym.Assert(sym.Iff(ok, present), "Update returns whether there was an entry")
		case opGetOrInsert:
			sym.Assert(m.eq(v, ite8(present, old, o.v)), lCmpKept)
		case opRemove:
			sym.Assert(sym.Iff(ok, present), "Remove returns whether there was an entry")
		}
	}
	sym.Assert(t.NumEntries() == size(ops), "the number of entries is that of the map")
	for _, o := range ops {
		present, v := state(ops, o.p)
		c, ok := t.Get(mkPrefix(o.p))
		sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
		if ok {
			sym.Assert(m.eq(c.got(), v), lCmpKept)
		}
	}
}

// Q_C21_empty: a table that is empty, at first or again, copied in any way,
// mapped or aggregated, once more after an insertion, then filled; 2 windows
// of 2 lengths.
func Q_C21_empty() {
	s := scale(1, 0, bits/2-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	t := m.table()
	switch sym.Choose("before", 3) {
	case 1:
		o := inserts(base, "first", 1, s, 0)[0]
		o.doCell(t)
		o.kind = opRemove
		o.doCell(t)
	case 2:
		t = t.Table().Aggregate().Table_()
	}
	u := rewrap(t).Table_()
	sym.Assert(u.NumEntries() == 0, "the number of entries is that of the map")
	ops := inserts(base, "in", 1, s, 1)
	ops[0].doCell(u)
	if sym.Choose("again", 2) == 1 {
		u = rewrap(u).Table_()
	}
	a := u.Table()
	o := symTops(base, "op", 1, s, 1, opInsertOrUpdate, opUpdate, opGetOrInsert)[0]
	o.doCell(u)
	bs := append(append([]top{}, ops...), o)
	if o.kind == opGetOrInsert {
		present, old := state(ops, o.p)
		bs[1].kind, bs[1].v = opInsertOrUpdate, ite8(present, old, o.v)
	}
	checkCellDiff(m, a, u.Table(), ops, bs)
	checkCellAggregate(m, u.Table(), wJoin(base, symW("x"), s))
}

// Q_C21_diff: tables that differ by an operation, made from the same one in
// any way or separately; a window of 2 lengths.
func Q_C21_diff() {
	s := scale(1, bits/2-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	as := inserts(base, "in", 2, s, 1)
	o := symTops(base, "op", 1, s, 1, opInsertOrUpdate, opUpdate)[0]
	bs := append(append([]top{}, as...), o)
	a := rewrap(m.tabulate(as))
	var b cellTable
	if sym.Choose("separate", 2) == 1 {
		b = m.tabulate(bs).Table()
	} else {
		b_ := a.Table_()
		o.doCell(b_)
		b = b_.Table()
	}
	checkCellDiff(m, a, b, as, bs)
}

func checkCellDiff(m rel, a, b cellTable, as, bs []top) {
	n := int64(0)
	both := func(p P) (l, r uint8) {
		inL, l := state(as, p)
		inR, r := state(bs, p)
		sym.Assert(sym.And(inL, inR), "changed or unchanged: in both tables")
		n++
		return
	}
	a.Diff(b, func(p Prefix, cl, cr cell) bool {
		l, r := both(prefixP(p))
		sym.Assert(sym.Not(m.eq(l, r)), lCmpDiff)
		sym.Assert(sym.And(m.eq(cl.got(), l), m.eq(cr.got(), r)), lCmpKept)
		return true
	}, func(p Prefix, c cell) bool {
		inL, l := state(as, prefixP(p))
		inR, _ := state(bs, prefixP(p))
		sym.Assert(sym.And(sym.And(inL, sym.Not(inR)), m.eq(c.got(), l)), "left: only in the left table")
		n++
		return true
	}, func(p Prefix, c cell) bool {
		inL, _ := state(as, prefixP(p))
		inR, r := state(bs, prefixP(p))
		sym.Assert(sym.And(sym.And(inR, sym.Not(inL)), m.eq(c.got(), r)), "right: only in the right table")
		n++
		return true
	}, func(p Prefix, c cell) bool {
		l, r := both(prefixP(p))
		sym.Assert(m.eq(l, r), lCmpDiff)
		sym.Assert(m.eq(c.got(), l), lCmpKept)
		return true
	})
	union := append([]top{}, as...)
	for _, o := range bs {
		if o.kind != opRemove && o.kind != opUpdate {
			union = append(union, top{opInsert, o.p, o.v})
		}
	}
	sym.Assert(n == size(union), "every prefix of either table is visited once")
	// without the callback for unchanged entries
	k, changed := int64(0), int64(0)
	a.Diff(b, func(p Prefix, cl, cr cell) bool {
		k++
		return true
	}, nil, nil, nil)
	for i, o := range union {
		dup := false
		for _, q := range union[:i] {
			dup = sym.Or(dup, pSame(q.p, o.p))
		}
		inL, l := state(as, o.p)
		inR, r := state(bs, o.p)
		changed += int64(sym.B2U(sym.And(sym.Not(dup), sym.And(sym.And(inL, inR), sym.Not(m.eq(l, r))))))
	}
	sym.Assert(k == changed, lCmpDiff)
}

// Q_C21_map: a mapped table of two entries, and the diff with it; a window of
// 2 lengths.
func Q_C21_map() {
	s := scale(1, 0, bits/2-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	ops := inserts(base, "in", 2, s, 1)
	t := rewrap(m.tabulate(ops))
	before := walkCells(t)
	k := sym.Uint8("k")
	mapped := t.Map(func(p Prefix, c cell) cell { return mkCell(c.got() ^ k) })
	after := walkCells(mapped)
	sym.Assert(len(after) == len(before), "the mapped table has the same prefixes")
	for i, e := range after {
		sym.Assert(pExact(e.p, before[i].p), "the mapped table has the same prefixes")
		sym.Assert(m.eq(e.v, before[i].v^k), lCmpMap)
	}
	sym.Assert(sameEntries(walkCells(t), before), "mapping leaves the original as it was")
	same := m.eq(k, 0)
	n := 0
	t.Diff(mapped, func(p Prefix, l, r cell) bool {
		sym.Assert(sym.Not(same), lCmpDiff)
		n++
		return true
	}, nil, nil, func(p Prefix, c cell) bool {
		sym.Assert(same, lCmpDiff)
		n++
		return true
	})
	sym.Assert(n == len(before), "every prefix of either table is visited once")
	// the mapped table keeps the comparator, too
	u := mapped.Table_()
	p := mkPrefix(ops[0].p)
	sym.Assert(u.Update(p, mkCell(sym.Uint8("w"))), "Update returns whether there was an entry")
	sym.Assert(u.NumEntries() == int64(len(before)), "the number of entries is that of the map")
	checkCellAggregate(m, mapped, wJoin(base, symW("x"), s))
}

// Q_C21_aggregate: any subset of seven prefixes, with any values; copied in
// any way.
func Q_C21_aggregate() {
	s := scale(2, bits/2-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	ops := nested(base, s, subsetOf(7, 4))
	checkCellAggregate(m, rewrap(m.tabulate(ops)), wJoin(base, symW("x"), s))
}

func checkCellAggregate(m rel, t cellTable, x W) {
	before := walkCells(t)
	a := t.Aggregate()
	after := walkCells(a)
	host := P{x, bits}
	found, _, v := lookup(before, host)
	found2, _, v2 := lookup(after, host)
	sym.Assert(sym.Iff(found, found2), "aggregation keeps which addresses have a match")
	sym.Assert(sym.Implies(found, m.eq(v, v2)), lCmpMatch)
	sym.Assert(sameEntries(walkCells(t), before), "aggregation leaves the original as it was")
	for i, e := range after {
		var av uint8
		inside := false
		for _, f := range after[:i] {
			c := pCovers(f.p, e.p)
			av = ite8(c, f.v, av)
			inside = sym.Or(inside, c)
			halves := sym.And(f.p.l == e.p.l, sym.And(e.p.l > 0, wEq(wXor(pFirst(f.p), pFirst(e.p)), wBit(e.p.l-1))))
			sym.Assert(sym.Not(sym.And(halves, m.eq(f.v, e.v))), lCmpMerge)
		}
		sym.Assert(sym.Not(sym.And(inside, m.eq(av, e.v))), lCmpMerge)
	}
	sym.Assert(sameEntries(walkCells(a.Table_().Table().Aggregate()), after), "the aggregated table keeps the comparator")
}

// Q_C21_functions: values that are functions, which cannot be compared with
// == either, behind an interface or not, and a comparator that calls them.
func Q_C21_functions() {
	s := scale(1, bits/2-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	type fn = func() uint8
	t := fam.NewTableCustomCompare_(func(a, b fn) bool { return m.eq(a(), b()) })
	ops := inserts(base, "in", 2, s, 1)
	ops = append(ops, symTops(base, "op", 1, s, 1, opUpdate, opInsertOrUpdate)...)
	for _, o := range ops {
		v := o.v
		f := func() uint8 { return v }
		if o.kind == opUpdate {
			t.Update(mkPrefix(o.p), f)
		} else {
			t.InsertOrUpdate(mkPrefix(o.p), f)
		}
	}
	for _, o := range ops {
		present, v := state(ops, o.p)
		f, ok := t.Get(mkPrefix(o.p))
		sym.Assert(sym.Iff(ok, present), "Get finds an entry iff the map has one")
		if ok {
			sym.Assert(m.eq(f(), v), lCmpKept)
		}
	}
	a := t.Table().Aggregate()
	n := a.NumEntries()
	sym.Assert(n > 0 && n <= t.NumEntries(), "aggregation does not add entries")
}

// Q_C21_nilValues: a comparator is given nil interface values like any others.
func Q_C21_nilValues() {
	s := scale(1, bits/2-1)
	base := symW("base")
	t := fam.NewTableCustomCompare_(equalAny)
	var vs []interface{}
	ps := windowed(base, "in", 2, s, 1)
	for _, p := range ps {
		var v interface{}
		if sym.Choose("nil", 2) == 0 {
			v = sym.Uint8("v")
		}
		vs = append(vs, v)
		t.InsertOrUpdate(mkPrefix(p), v)
	}
	got, ok := t.Get(mkPrefix(ps[1]))
	sym.Assert(ok, "Get finds an entry iff the map has one")
	sym.Assert(equalAny(got, vs[1]), lCmpKept)
	a := t.Table().Aggregate()
	x := wJoin(base, symW("x"), s)
	v1, ok1, _ := t.LongestMatch(mkAddr(x))
	v2, ok2, _ := a.LongestMatch(mkAddr(x))
	sym.Assert(sym.Iff(ok1, ok2), "aggregation keeps which addresses have a match")
	sym.Assert(equalAny(v1, v2), lCmpMatch)
	m := t.Table().Map(func(p Prefix, v interface{}) interface{} {
		if v == nil {
			return uint8(1)
		}
		return nil
	})
	got2, ok := m.Get(mkPrefix(ps[1]))
	sym.Assert(ok, "the mapped table has the same prefixes")
	sym.Assert((got2 == nil) == (got != nil), lCmpMap)
	n := int64(0)
	t.Table().Diff(m, func(p Prefix, l, r interface{}) bool {
		sym.Assert((l == nil) == (r != nil), lCmpDiff)
		n++
		return true
	}, nil, nil, func(p Prefix, v interface{}) bool {
		sym.Assert(false, lCmpDiff)
		return true
	})
	sym.Assert(n == t.NumEntries(), "every prefix of either table is visited once")
}

// T_C21_diff: as diff, 3 positions and any operation.
func T_C21_diff() {
	s := scale(1, 0, bits/2-1, bits-1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	as := inserts(base, "in", 2, s, 1)
	o := symTops(base, "op", 1, s, 1, allKinds...)[0]
	bs := append(append([]top{}, as...), o)
	a := rewrap(m.tabulate(as))
	b_ := a.Table_()
	o.doCell(b_)
	checkCellDiff(m, a, b_.Table(), as, bs)
}

// T_C21_map: as map, any window of 2 lengths.
func T_C21_map() {
	s := anyScale(1)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	ops := inserts(base, "in", 2, s, 1)
	t := m.tabulate(ops).Table()
	before := walkCells(t)
	k := sym.Uint8("k")
	mapped := t.Map(func(p Prefix, c cell) cell { return mkCell(c.got() & k) })
	after := walkCells(mapped)
	sym.Assert(len(after) == len(before), "the mapped table has the same prefixes")
	for i, e := range after {
		sym.Assert(sym.And(pExact(e.p, before[i].p), m.eq(e.v, before[i].v&k)), lCmpMap)
	}
	checkCellAggregate(m, mapped, wJoin(base, symW("x"), s))
}

// T_C21_aggregate: as aggregate, all subsets, 3 positions.
func T_C21_aggregate() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	m := rel(sym.Uint8("m"))
	ops := nested(base, s, subsetOf(7, 7))
	checkCellAggregate(m, m.tabulate(ops).Table(), wJoin(base, symW("x"), s))
}
