package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

const (
	lZeroRead  = "a zero value reads as empty"
	lZeroPanic = "modifying the zero value of a mutable type panics"
	lNilSet    = "a nil set is an empty set"
	lNilPrefix = "a nil prefix is the prefix of length 0"
)

// anyOperand makes one of the kinds of sets there are, and says which
// addresses it has.
func anyOperand(base W, name string, s uint32) (SetI, []P, bool) {
	switch sym.Choose(name+".kind", 7) {
	case 0:
		return nil, nil, false
	case 1:
		return Set{}, nil, false
	case 2:
		return Set_{}, nil, false
	case 3:
		p := windowed(base, name, 1, s, 1)[0]
		return mkPrefix(p), []P{p}, true
	case 4:
		w := symW(name)
		return mkAddr(w), []P{{w, bits}}, true
	case 5:
		p := windowed(base, name, 1, s, 1)[0]
		return build([]P{p}), []P{p}, true
	}
	p := windowed(base, name, 1, s, 1)[0]
	return build([]P{p}).Set_(), []P{p}, true
}

// Q_C20_zeroSet: the zero values of Set and Set_ with any operand.
func Q_C20_zeroSet() {
	s := anyScale(1)
	other, ps, some := anyOperand(symW("base"), "o", s)
	x := symW("x")
	var z Set
	var z_ Set_
	sym.Assert(z.IsEmpty() && z_.IsEmpty(), lZeroRead)
	sym.Assert(z.Contains(other) == !some && z_.Contains(other) == !some, lZeroRead)
	for i, r := range []Set{z.Union(other), z_.Union(other)} {
		sym.Assert(sym.Iff(anyHas(prefixesOf(r), x), anyHas(ps, x)), "the union with a zero value is the other set")
		sym.Assert(r.IsEmpty() == !some, "the union with a zero value is the other set")
		if other != nil {
			sym.Assert(r.Equal(other.Set()), "the union with a zero value is the other set")
			sym.Assert(z.Equal(other.Set()) == !some, "a zero value equals the empty sets only")
			sym.Assert(z_.Equal(other.Set().Set_()) == !some, "a zero value equals the empty sets only")
			sym.Assert(other.Set().Set_().Equal(z_) == !some, "a zero value equals the empty sets only")
			sym.Assert(other.Set().Equal(z) == !some, "a zero value equals the empty sets only")
			sym.Assert(other.Set().Contains([]SetI{z, z_}[i]), "every set contains a zero value")
			sym.Assert(other.Set().Difference([]SetI{z, z_}[i]).Equal(other.Set()), "without a zero value everything is left")
			sym.Assert(other.Set().Intersection([]SetI{z, z_}[i]).IsEmpty(), lZeroRead)
			sym.Assert(other.Set().Union([]SetI{z, z_}[i]).Equal(other.Set()), "the union with a zero value is the other set")
		}
	}
	for _, r := range []Set{z.Intersection(other), z_.Intersection(other), z.Difference(other), z_.Difference(other), z.Set(), z_.Set(), z.Set_().Set()} {
		sym.Assert(r.IsEmpty() && len(prefixesOf(r)) == 0, lZeroRead)
	}
	sym.Assert(z.Equal(z_.Set()) && z_.Equal(z_) && z.Equal(z), "zero values are equal")
}

// Q_C20_zeroSetRest: the other methods of zero sets, any length.
func Q_C20_zeroSetRest() {
	var z Set
	var z_ Set_
	l := sym.Uint32("length")
	_, err := z.FindAvailablePrefix(nil, l)
	sym.Assert(err != nil, "there is no room in a zero value")
	_, err = z_.Set().FindAvailablePrefix(z_, l)
	sym.Assert(err != nil, "there is no room in a zero value")
	n, _ := z.NumPrefixes(l)
	sym.Assert(n == 0, lZeroRead)
	calls := 0
	done := z.WalkPrefixes(func(Prefix) bool { calls++; return true })
	done = z.WalkRanges(func(Range) bool { calls++; return true }) && done
	sym.Assert(done && calls == 0, "nothing is visited in a zero value")
	sym.Assert(z.String() == "[]", "a zero value is written as an empty set")
	keep := sym.Choose("keep", 2) == 1
	b := z.Build(func(s Set_) bool {
		s.Insert(mkAddr(symW("x")))
		return keep
	})
	sym.Assert(b.IsEmpty() == !keep, "a zero value can be built upon")
	sym.Assert(z.IsEmpty(), lZeroRead)
}

// Q_C20_zeroSetWrite: any modification of a zero Set_, and of one made from a
// zero Set, by any operand.
func Q_C20_zeroSetWrite() {
	s := anyScale(1)
	other, ps, _ := anyOperand(symW("base"), "o", s)
	x := symW("x")
	var z_ Set_
	sym.Assert(sym.Panics(func() { z_.Insert(other) }), lZeroPanic)
	sym.Assert(sym.Panics(func() { z_.Remove(other) }), lZeroPanic)
	sym.Assert(z_.IsEmpty(), lZeroRead)
	for _, t := range []Set_{Set{}.Set_(), z_.Set().Set_(), fam.NewSet_()} {
		t.Insert(other)
		sym.Assert(sym.Iff(anyHas(prefixesOf(t.Set()), x), anyHas(ps, x)), "what a mutable copy of a zero value has is what is inserted")
		t.Remove(other)
		sym.Assert(t.IsEmpty(), "nothing is left when what was inserted is removed")
	}
	sym.Assert(Set{}.IsEmpty(), lZeroRead)
}

// Q_C20_nilSet: a nil operand of every operation on any set of two prefixes;
// any window of 2 lengths.
func Q_C20_nilSet() {
	s := anyScale(1)
	a := build(windowed(symW("base"), "a", 2, s, 1))
	sym.Assert(a.Union(nil).Equal(a), lNilSet)
	sym.Assert(a.Intersection(nil).IsEmpty(), lNilSet)
	sym.Assert(a.Difference(nil).Equal(a), lNilSet)
	sym.Assert(a.Contains(nil), lNilSet)
	m := a.Set_()
	sym.Assert(m.Union(nil).Equal(a), lNilSet)
	sym.Assert(m.Intersection(nil).IsEmpty(), lNilSet)
	sym.Assert(m.Difference(nil).Equal(a), lNilSet)
	sym.Assert(m.Contains(nil), lNilSet)
	m.Insert(nil)
	sym.Assert(m.Set().Equal(a), lNilSet)
	m.Remove(nil)
	sym.Assert(m.Set().Equal(a), lNilSet)
	l := s + uint32(sym.Choose("length", 2))
	p, err := a.FindAvailablePrefix(nil, l)
	q, err2 := a.FindAvailablePrefix(Set{}, l)
	sym.Assert((err == nil) == (err2 == nil), lNilSet)
	if err == nil && err2 == nil {
		sym.Assert(pExact(prefixP(p), prefixP(q)), lNilSet)
	}
}

// Q_C20_nilPrefix: every operation of a table with a nil prefix, on any table
// of up to two entries of lengths 0 to 2.
func Q_C20_nilPrefix() {
	zero := P{wc(0), 0}
	var ops []top
	for i := sym.Choose("n", 3); i > 0; i-- {
		ops = append(ops, symTops(wc(0), "in", 1, 0, 2, opInsertOrUpdate)...)
	}
	t := tabulate(ops)
	present, v := state(ops, zero)
	got, ok := t.Get(nil)
	sym.Assert(sym.And(sym.Iff(ok, present), sym.Implies(ok, got == v)), lNilPrefix)
	got, ok = t.Table().Get(nil)
	sym.Assert(sym.And(sym.Iff(ok, present), sym.Implies(ok, got == v)), lNilPrefix)
	got, ok, p := t.LongestMatch(nil)
	sym.Assert(sym.And(sym.Iff(ok, present), sym.Implies(ok, sym.And(got == v, p.Length() == 0))), lNilPrefix)
	got, ok, p = t.Table().LongestMatch(nil)
	sym.Assert(sym.And(sym.Iff(ok, present), sym.Implies(ok, sym.And(got == v, p.Length() == 0))), lNilPrefix)
	o := top{allKinds[sym.Choose("kind", opKinds)], zero, sym.Uint8("v")}
	u := t.Table().Table_()
	ok1, v1 := o.do(u)
	var ok2 bool
	var v2 uint8
	switch o.kind {
	case opInsert:
		ok2 = t.Insert(nil, o.v)
	case opUpdate:
		ok2 = t.Update(nil, o.v)
	case opInsertOrUpdate:
		t.InsertOrUpdate(nil, o.v)
		ok2 = true
	case opGetOrInsert:
		v2 = t.GetOrInsert(nil, o.v)
		ok2 = true
	case opRemove:
		ok2 = t.Remove(nil)
	}
	sym.Assert(sym.And(sym.Iff(ok1, ok2), v1 == v2), lNilPrefix)
	sym.Assert(sameEntries(walk(t.Table()), walk(u.Table())), lNilPrefix)
}

// Q_C20_zeroTable: the zero values of Table and Table_, any prefix.
func Q_C20_zeroTable() {
	p := symPL("p", anyLen("len", 0, bits))
	q := mkPrefix(p)
	var z table
	var z_ table_
	for _, t := range []table{z, z_.Table(), z.Map(nil), z.Aggregate(), z.Map(func(Prefix, uint8) uint8 { return 1 }), z_.Table().Aggregate()} {
		_, ok := t.Get(q)
		_, found, _ := t.LongestMatch(q)
		sym.Assert(!ok && !found && t.NumEntries() == 0 && len(walk(t)) == 0, lZeroRead)
	}
	_, ok := z_.Get(q)
	_, found, _ := z_.LongestMatch(q)
	sym.Assert(!ok && !found && z_.NumEntries() == 0, lZeroRead)
	v := sym.Uint8("v")
	o := top{allKinds[sym.Choose("kind", opKinds)], p, v}
	sym.Assert(sym.Panics(func() { o.do(z_) }), lZeroPanic)
	sym.Assert(z_.NumEntries() == 0, lZeroRead)
	for _, t := range []table_{z.Table_(), z_.Table().Table_(), z.Aggregate().Table_(), fam.NewTable_[uint8]()} {
		o.checked(t, nil)
		present, w := state([]top{o}, p)
		got, ok := t.Get(q)
		sym.Assert(sym.And(sym.Iff(ok, present), sym.Implies(ok, got == w)), "a mutable copy of a zero value is a map")
		w++
		o2 := top{opInsertOrUpdate, p, w}
		o2.do(t)
		got, ok = t.Get(q)
		sym.Assert(sym.And(ok, got == w), "a mutable copy of a zero value is a map")
	}
	keep := sym.Choose("keep", 2) == 1
	b := z.Build(func(t table_) bool {
		o.do(t)
		return keep
	})
	present, _ := state([]top{o}, p)
	_, ok = b.Get(q)
	sym.Assert(sym.Iff(ok, sym.And(keep, present)), "a zero value can be built upon")
	sym.Assert(z.NumEntries() == 0, lZeroRead)
}

// Q_C20_zeroDiff: the diff between a zero table and any of up to two entries,
// either way around, or two zero tables; 3 positions.
func Q_C20_zeroDiff() {
	s := scale(1, 0, bits/2-1, bits-1)
	ops := inserts(symW("base"), "in", sym.Choose("n", 3), s, 1)
	a, kind := tabulate(ops).Table(), evLeft
	var z table
	var evs []event
	done := false
	if sym.Choose("swap", 2) == 0 {
		evs, done = diff(a, z, allEvents, never)
	} else {
		evs, done = diff(z, a, allEvents, never)
		kind = evRight
	}
	es := walk(a)
	sym.Assert(done && len(evs) == len(es), "all entries of the other table differ from a zero table")
	for i, e := range evs {
		sym.Assert(e.kind == kind, "all entries of the other table differ from a zero table")
		v := e.l
		if kind == evRight {
			v = e.r
		}
		sym.Assert(sym.And(pExact(e.p, es[i].p), v == es[i].v), "all entries of the other table differ from a zero table")
	}
}

// Q_C20_zeroValues: the zero values of addresses, masks, prefixes and ranges.
func Q_C20_zeroValues() {
	var a Address
	var m Mask
	var p Prefix
	var r Range
	x := symW("x")
	sym.Assert(wEq(addrW(a), wc(0)), "a zero address has no bit set")
	sym.Assert(m.Length() == 0 && wEq(maskW(m), wc(0)), "a zero mask has length 0")
	sym.Assert(p.Length() == 0 && wEq(addrW(p.Address()), wc(0)), "a zero prefix has length 0 and no bit set")
	sym.Assert(p.Contains(mkAddr(x)), "a zero prefix contains everything")
	sym.Assert(wEq(addrW(r.First()), wc(0)) && wEq(addrW(r.Last()), wc(0)), "a zero range has the first address only")
	sym.Assert(sym.Iff(r.Contains(mkAddr(x)), wEq(x, wc(0))), "a zero range has the first address only")
	zero := mkAddr(wc(0))
	sym.Assert(a == zero && p == mkPrefix(P{wc(0), 0}) && m == mustMask(0) && r == mkRange(wc(0), wc(0)), "zero values equal the ones that are made")
}
