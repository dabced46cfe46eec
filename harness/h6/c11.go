package h6

import "verif/harness/sym"

const (
	evChanged = iota
	evLeft
	evRight
	evSame
)

// event is a call of one of the callbacks of Diff.
type event struct {
	kind int
	p    P
	l, r uint8
}

// diff collects the events of a diff. Callbacks whose bit is not set in use
// are nil. It stops after the given number of events.
func diff(a, b table, use, stop int) (evs []event, done bool) {
	add := func(kind int, p Prefix, l, r uint8) bool {
		evs = append(evs, event{kind, prefixP(p), l, r})
		return len(evs) <= stop
	}
	var changed func(p Prefix, l, r uint8) bool
	var left, right, same func(p Prefix, v uint8) bool
	if use&(1<<evChanged) != 0 {
		changed = func(p Prefix, l, r uint8) bool { return add(evChanged, p, l, r) }
	}
	if use&(1<<evLeft) != 0 {
		left = func(p Prefix, v uint8) bool { return add(evLeft, p, v, 0) }
	}
	if use&(1<<evRight) != 0 {
		right = func(p Prefix, v uint8) bool { return add(evRight, p, 0, v) }
	}
	if use&(1<<evSame) != 0 {
		same = func(p Prefix, v uint8) bool { return add(evSame, p, v, v) }
	}
	done = a.Diff(b, changed, left, right, same)
	return
}

const (
	allEvents = 1<<evChanged | 1<<evLeft | 1<<evRight | 1<<evSame
	never     = 1 << 20
)

// checkDiff compares the events with the two maps, at each event and at q.
func checkDiff(a, b table, as, bs []top, q P) {
	evs, done := diff(a, b, allEvents, never)
	sym.Assert(done, "a diff that is not stopped returns true")
	seen := false
	for i, e := range evs {
		if i > 0 {
			sym.Assert(pBefore(evs[i-1].p, e.p), "a diff visits prefixes in lexicographical order, each once")
		}
		inL, vl := state(as, e.p)
		inR, vr := state(bs, e.p)
		switch e.kind {
		case evChanged:
			sym.Assert(sym.And(sym.And(inL, inR), vl != vr), "changed: in both tables with different values")
			sym.Assert(sym.And(e.l == vl, e.r == vr), "changed: the values are those of the tables")
		case evLeft:
			sym.Assert(sym.And(inL, sym.Not(inR)), "left: only in the left table")
			sym.Assert(e.l == vl, "left: the value is that of the left table")
		case evRight:
			sym.Assert(sym.And(inR, sym.Not(inL)), "right: only in the right table")
			sym.Assert(e.r == vr, "right: the value is that of the right table")
		case evSame:
			sym.Assert(sym.And(sym.And(inL, inR), vl == vr), "unchanged: in both tables with the same value")
			sym.Assert(e.l == vl, "unchanged: the value is that of the tables")
		}
		seen = sym.Or(seen, pSame(e.p, q))
	}
	inL, _ := state(as, q)
	inR, _ := state(bs, q)
	sym.Assert(sym.Iff(seen, sym.Or(inL, inR)), "every prefix of either table is visited")

	// Without a callback for unchanged entries common parts may be skipped.
	short, done := diff(a, b, allEvents&^(1<<evSame), never)
	sym.Assert(done, "a diff that is not stopped returns true")
	checkFiltered(evs, short, allEvents&^(1<<evSame))
}

// checkFiltered asserts that some are exactly the events of all whose
// callbacks are in use.
func checkFiltered(all, some []event, use int) {
	var want []event
	for _, e := range all {
		if use&(1<<e.kind) != 0 {
			want = append(want, e)
		}
	}
	r := len(want) == len(some)
	if r {
		for i := range want {
			v, w := want[i], some[i]
			r = sym.And(r, sym.And(v.kind == w.kind, sym.And(pExact(v.p, w.p), sym.And(v.l == w.l, v.r == w.r))))
		}
	}
	sym.Assert(r, "a nil callback changes nothing for the others")
}

// Q_C11_separate11: one entry each; any window of 3 lengths.
func Q_C11_separate11() {
	s := anyScale(2)
	base := symW("base")
	as, bs := inserts(base, "a", 1, s, 2), inserts(base, "b", 1, s, 2)
	checkDiff(tabulate(as).Table(), tabulate(bs).Table(), as, bs, windowed(base, "q", 1, s, 2)[0])
}

// Q_C11_separate21: two entries and one; 3 windows of 3 lengths.
func Q_C11_separate21() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	as, bs := inserts(base, "a", 2, s, 2), inserts(base, "b", 1, s, 2)
	a, b := tabulate(as).Table(), tabulate(bs).Table()
	checkDiff(a, b, as, bs, as[0].p)
	checkDiff(b, a, bs, as, bs[0].p)
}

// Q_C11_separate22: two entries each; a window of 2 lengths.
func Q_C11_separate22() {
	s := scale(1, bits-1)
	base := symW("base")
	as, bs := inserts(base, "a", 2, s, 1), inserts(base, "b", 2, s, 1)
	checkDiff(tabulate(as).Table(), tabulate(bs).Table(), as, bs, windowed(base, "q", 1, s, 1)[0])
}

// Q_C11_derived: up to two entries and a copy modified by one operation of
// any kind, which shares the rest; 3 windows of 3 lengths.
func Q_C11_derived() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	as := inserts(base, "a", 2, s, 2)
	more := symTops(base, "b", 1, s, 2, opInsertOrUpdate, opRemove)
	a := tabulate(as).Table()
	b := a.Table_()
	more[0].do(b)
	bs := append(append([]top{}, as...), more...)
	checkDiff(a, b.Table(), as, bs, as[1].p)
	checkDiff(b.Table(), a, bs, as, more[0].p)
}

// Q_C11_derived3: three entries and a copy modified by an operation; a window
// of 3 lengths.
func Q_C11_derived3() {
	s := scale(2, bits/2-1)
	base := symW("base")
	as := inserts(base, "a", 3, s, 2)
	more := symTops(base, "b", 1, s, 2, opInsertOrUpdate, opRemove)
	a := tabulate(as).Table()
	b := a.Table_()
	more[0].do(b)
	bs := append(append([]top{}, as...), more...)
	checkDiff(a, b.Table(), as, bs, more[0].p)
}

// Q_C11_wide: one entry each of 8 lengths, one far longer than the other or
// not.
func Q_C11_wide() {
	p, q := gapPair("p")
	as, bs := []top{{opInsertOrUpdate, p, sym.Uint8("v")}}, []top{{opInsertOrUpdate, q, sym.Uint8("w")}}
	a, b := tabulate(as).Table(), tabulate(bs).Table()
	checkDiff(a, b, as, bs, p)
	checkDiff(b, a, bs, as, q)
}

// Q_C11_empty: a table of up to two entries and an empty one; 2 windows of 3
// lengths.
func Q_C11_empty() {
	s := scale(2, 0, bits-2)
	as := inserts(symW("base"), "a", 2, s, 2)
	a := tabulate(as).Table()
	checkDiff(a, table{}, as, nil, as[0].p)
	checkDiff(table{}, a, nil, as, as[1].p)
	checkDiff(a, a, as, as, as[0].p)
}

// Q_C11_nil: any subset of the callbacks; two entries each; a window of 2 lengths.
func Q_C11_nil() {
	s := scale(1, bits/2-1)
	base := symW("base")
	a := tabulate(inserts(base, "a", 2, s, 1)).Table()
	b := tabulate(inserts(base, "b", 2, s, 1)).Table()
	use := sym.Choose("use", 16)
	all, _ := diff(a, b, allEvents, never)
	some, done := diff(a, b, use, never)
	sym.Assert(done, "a diff that is not stopped returns true")
	checkFiltered(all, some, use)
}

// Q_C11_stop: a diff of two entries each is stopped after any number of events.
func Q_C11_stop() {
	s := scale(1, bits-1)
	base := symW("base")
	a := tabulate(inserts(base, "a", 2, s, 1)).Table()
	b := tabulate(inserts(base, "b", 2, s, 1)).Table()
	use := []int{allEvents, allEvents &^ (1 << evSame)}[sym.Choose("use", 2)]
	stop := sym.Choose("stop", 4)
	all, _ := diff(a, b, use, never)
	some, done := diff(a, b, use, stop)
	sym.Assert(done == (len(all) <= stop), "a diff returns whether it was not stopped")
	sym.Assert(len(some) == min(len(all), stop+1), "a diff stops at once")
	checkFiltered(all[:len(some)], some, allEvents)
}

// T_C11_separate22: two entries each; 2 windows of 3 lengths.
func T_C11_separate22() {
	s := scale(2, 0, bits-2)
	base := symW("base")
	as, bs := inserts(base, "a", 2, s, 2), inserts(base, "b", 2, s, 2)
	checkDiff(tabulate(as).Table(), tabulate(bs).Table(), as, bs, windowed(base, "q", 1, s, 2)[0])
}

// T_C11_derived32: three entries and a copy modified by two operations; a
// window of 2 lengths.
func T_C11_derived32() {
	s := scale(1, bits-1)
	base := symW("base")
	as := inserts(base, "a", 3, s, 1)
	more := symTops(base, "b", 2, s, 1, opInsertOrUpdate, opRemove)
	a := tabulate(as).Table()
	b := a.Table_()
	more[0].do(b)
	more[1].do(b)
	bs := append(append([]top{}, as...), more...)
	checkDiff(a, b.Table(), as, bs, more[0].p)
}

// T_C11_derivedAll: two entries and a copy modified by an operation; any window of 3 lengths.
func T_C11_derivedAll() {
	s := anyScale(2)
	base := symW("base")
	as := inserts(base, "a", 2, s, 2)
	more := symTops(base, "b", 1, s, 2, opInsertOrUpdate, opRemove)
	a := tabulate(as).Table()
	b := a.Table_()
	more[0].do(b)
	bs := append(append([]top{}, as...), more...)
	checkDiff(a, b.Table(), as, bs, more[0].p)
}
