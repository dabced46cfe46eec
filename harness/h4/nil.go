package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// Tables of interface values, some of which are nil.

// aval is such a value as a number.
type aval uint16

const anil aval = 0x100

func (a aval) iface() interface{} {
	if a == anil {
		return nil
	}
	return uint8(a)
}

func avalOf(x interface{}) aval {
	if x == nil {
		return anil
	}
	return aval(x.(uint8))
}

// aentry is an entry of such a table.
type aentry struct {
	p P
	v aval
}

func anyAval(name string) aval {
	if sym.Choose(name+".nil", 2) == 1 {
		return anil
	}
	return aval(sym.Uint8(name))
}

// fourNodes are prefixes of three lengths, of which the last two are within one or the other
// half of the first.
func fourNodes(base W, s uint32) []P {
	return []P{node(base, s, 0, 0), node(base, s, 1, 0), node(base, s, 2, 1), node(base, s, 2, 2)}
}

func someAvals(base W, name string, s uint32) []aentry {
	var es []aentry
	for _, p := range fourNodes(base, s) {
		if sym.Choose(name, 2) == 1 {
			es = append(es, aentry{p, anyAval(name)})
		}
	}
	return es
}

func anyTabulate(es []aentry) anyTable {
	t := fam.NewTableCustomCompare_(equalAny)
	for i := range es {
		e := es[len(es)-1-i]
		t.Insert(mkPrefix(e.p), e.v.iface())
	}
	return t.Table()
}

func walkAny(t anyTable) []aentry {
	var es []aentry
	t.Walk(func(p Prefix, v interface{}) bool {
		es = append(es, aentry{prefixP(p), avalOf(v)})
		return true
	})
	return es
}

// sameAvals compares what a walk had with entries in any order.
func sameAvals(es, want []aentry) bool {
	if len(es) != len(want) {
		return false
	}
	r := true
	for _, w := range want {
		in := false
		for _, e := range es {
			in = sym.Or(in, sym.And(pExact(e.p, w.p), e.v == w.v))
		}
		r = sym.And(r, in)
	}
	return r
}

func longestAny(es []aentry, q P) (found bool, at P, v aval) {
	for _, e := range es {
		if pCovers(e.p, q) && (!found || e.p.l > at.l) {
			found, at, v = true, e.p, e.v
		}
	}
	return
}

func nilScale() (W, uint32) { return symW("base"), scale(2, bits/2-1) }

// Q_C09_nilValues: lookups in tables of any subset of 4 prefixes with values that
// are nil or not.
func Q_C09_nilValues() {
	base, s := nilScale()
	es := someAvals(base, "in", s)
	q := anyNode(base, "q", s, 3)
	found, at, v := longestAny(es, q)
	t := anyTabulate(es)
	gv, ok, p := t.LongestMatch(mkPrefix(q))
	sym.Assert(ok == found, "there is a match iff an entry contains the prefix")
	if ok {
		sym.Assert(sym.And(avalOf(gv) == v, pSame(prefixP(p), at)), "the match is the longest entry that contains the prefix")
	}
	gv, ok, p = t.Table_().LongestMatch(mkPrefix(q))
	sym.Assert(ok == found, "there is a match iff an entry contains the prefix")
	if ok {
		sym.Assert(sym.And(avalOf(gv) == v, pSame(prefixP(p), at)), "the match is the longest entry that contains the prefix")
	}
}

// Q_C10_nilValues: walks over such tables.
func Q_C10_nilValues() {
	base, s := nilScale()
	es := someAvals(base, "in", s)
	got := walkAny(anyTabulate(es))
	sym.Assert(len(got) == len(es), "the walk visits every entry")
	sym.Assert(sameAvals(got, es), "the walk visits only entries, with their values")
	for i := range got {
		if i > 0 {
			sym.Assert(pBefore(got[i-1].p, got[i].p), "the walk is in lexicographical order")
		}
	}
	stop := 1 + sym.Choose("stop", 3)
	n := 0
	done := anyTabulate(es).Walk(func(Prefix, interface{}) bool {
		n++
		return n < stop
	})
	sym.Assert(done == (len(es) < stop) && n == min(stop, len(es)), "the walk ends when the callback says so")
}

// Q_C11_nilValues: diffs between such tables, separate ones or with an entry changed.
func Q_C11_nilValues() {
	base, s := nilScale()
	as := someAvals(base, "a", s)
	a := anyTabulate(as)
	k := sym.Choose("other", 4)
	p := fourNodes(base, s)[k]
	var bs []aentry
	for _, e := range as {
		if !(e.p.l == p.l && k >= 2 && wEq(e.p.a, p.a)) && !(e.p.l == p.l && k < 2) {
			bs = append(bs, e)
		}
	}
	b_ := a.Table_()
	if sym.Choose("other.remove", 2) == 1 {
		b_.Remove(mkPrefix(p))
	} else {
		v := anyAval("other")
		bs = append(bs, aentry{p, v})
		b_.InsertOrUpdate(mkPrefix(p), v.iface())
	}
	b := b_.Table()
	if sym.Choose("separate", 2) == 1 {
		b = anyTabulate(bs)
	}
	if sym.Choose("swap", 2) == 1 {
		a, b, as, bs = b, a, bs, as
	}
	at := func(es []aentry, q P) (in bool, v aval) {
		for _, e := range es {
			if sym.Split(pSame(e.p, q)) {
				return true, e.v
			}
		}
		return
	}
	n := 0
	a.Diff(b, func(q Prefix, l, r interface{}) bool {
		inL, vl := at(as, prefixP(q))
		inR, vr := at(bs, prefixP(q))
		sym.Assert(inL && inR, "changed: in both tables with different values")
		sym.Assert(sym.And(avalOf(l) == vl, sym.And(avalOf(r) == vr, vl != vr)), "changed: the values are those of the tables")
		n++
		return true
	}, func(q Prefix, l interface{}) bool {
		inL, vl := at(as, prefixP(q))
		inR, _ := at(bs, prefixP(q))
		sym.Assert(sym.And(inL && !inR, avalOf(l) == vl), "left: only in the left table")
		n++
		return true
	}, func(q Prefix, r interface{}) bool {
		inL, _ := at(as, prefixP(q))
		inR, vr := at(bs, prefixP(q))
		sym.Assert(sym.And(inR && !inL, avalOf(r) == vr), "right: only in the right table")
		n++
		return true
	}, func(q Prefix, v interface{}) bool {
		inL, vl := at(as, prefixP(q))
		inR, vr := at(bs, prefixP(q))
		sym.Assert(inL && inR, "unchanged: in both tables with the same value")
		sym.Assert(sym.And(avalOf(v) == vl, vl == vr), "unchanged: the value is that of the tables")
		n++
		return true
	})
	want := len(as)
	for _, e := range bs {
		if in, _ := at(as, e.p); !in {
			want++
		}
	}
	sym.Assert(n == want, "every prefix of either table is visited")
}

// Q_C12_nilValues: aggregation of such tables.
func Q_C12_nilValues() {
	base, s := nilScale()
	es := someAvals(base, "in", s)
	q := P{wJoin(base, wOr(wShl(wc(uint64(sym.Choose("q", 8))), bits-s-3), wAnd(symW("x"), wNot(wMask(s+3)))), s), bits}
	t := anyTabulate(es)
	after := walkAny(t.Aggregate())
	found, _, v := longestAny(es, q)
	found2, _, v2 := longestAny(after, q)
	sym.Assert(sym.And(found == found2, v == v2), "aggregation keeps the match of every address")
	sym.Assert(len(after) <= len(es), "aggregation does not add entries")
	for i, e := range after {
		for _, f := range after[i+1:] {
			halves := sym.And(e.p.l == f.p.l, wEq(wXor(pFirst(e.p), pFirst(f.p)), wBit(e.p.l-1)))
			sym.Assert(sym.Not(sym.And(halves, e.v == f.v)), "no two halves have the same value")
		}
	}
	sym.Assert(sameAvals(walkAny(t), es), "aggregation leaves the original as it was")
}

// Q_C13_nilValues: nil values are mapped to others and others to nil, or not.
func Q_C13_nilValues() {
	base, s := nilScale()
	es := someAvals(base, "in", s)
	t := anyTabulate(es)
	flip := sym.Choose("flip", 3)
	f := func(v aval) aval {
		switch {
		case flip == 0:
			return v
		case v != anil:
			return anil
		case flip == 1:
			return 5
		}
		return anil
	}
	calls := 0
	m := t.Map(func(p Prefix, v interface{}) interface{} {
		calls++
		return f(avalOf(v)).iface()
	})
	sym.Assert(calls == len(es), "the mapper is called once for each entry in order")
	var want []aentry
	for _, e := range es {
		want = append(want, aentry{e.p, f(e.v)})
	}
	sym.Assert(sameAvals(walkAny(m), want), "the values are what the mapper returned")
	sym.Assert(sameAvals(walkAny(t), es), "mapping leaves the original as it was")
}

// Q_C14_nilValues: snapshots of such tables, and any operation afterwards.
func Q_C14_nilValues() {
	base, s := nilScale()
	es := someAvals(base, "in", s)
	t := anyTabulate(es)
	m := t.Table_()
	p := mkPrefix(anyNode(base, "op", s, 2))
	v := anyAval("op").iface()
	switch sym.Choose("op.kind", opKinds) {
	case opInsert:
		m.Insert(p, v)
	case opUpdate:
		m.Update(p, v)
	case opInsertOrUpdate:
		m.InsertOrUpdate(p, v)
	case opGetOrInsert:
		m.GetOrInsert(p, v)
	case opRemove:
		m.Remove(p)
	}
	sym.Assert(sameAvals(walkAny(t), es), lSnap)
	later := walkAny(m.Table())
	m.InsertOrUpdate(p, uint8(3))
	sym.Assert(sameAvals(walkAny(t), es), lSnap)
	n, ok := m.Get(p)
	sym.Assert(ok, lSnap)
	sym.Assert(avalOf(n) == 3, lSnap)
	sym.Assert(len(later) <= len(es)+1, lSnap)
}
