package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

const (
	lInnerSame   = "walks from within a callback see the same contents"
	lOuterSame   = "what a callback is called with does not depend on what callbacks do"
	lFixedSame   = "an immutable set or table is not changed from within a callback"
	lMutableDone = "changes from within a callback take effect"
	lPropagates  = "a panic of a callback, and no other, is propagated"
	lUsable      = "sets and tables can be used after a callback has panicked"
)

// intruder is called by callbacks. At one of its first calls it acts.
type intruder struct {
	at     int
	panics bool
	act    func()
	calls  int
	done   bool
}

func anyIntruder(calls int, act func()) *intruder {
	return &intruder{at: sym.Choose("at", calls), panics: sym.Choose("panics", 2) == 1, act: act}
}

func (i *intruder) call() {
	n := i.calls
	i.calls++
	if n != i.at || i.done {
		return
	}
	i.done = true
	i.act()
	if i.panics {
		panic("callback")
	}
}

// run runs f and reports whether it got to its end.
func (i *intruder) run(f func()) bool {
	i.calls, i.done = 0, false
	panicked := sym.Panics(f)
	sym.Assert(panicked == (i.done && i.panics), lPropagates)
	return !panicked
}

// useTable reads t in all ways which call back, and compares with what it has.
func useTable(t table, want []entry) {
	sym.Assert(sameEntries(walk(t), want), lInnerSame)
	t.Walk(func(Prefix, uint8) bool { return false })
	m := t.Map(func(p Prefix, v uint8) uint8 { return v + 1 })
	n := 0
	t.Diff(m, func(p Prefix, l, r uint8) bool {
		sym.Assert(r == l+1, lInnerSame)
		n++
		return true
	}, nil, nil, func(p Prefix, v uint8) bool {
		sym.Assert(false, lInnerSame)
		return true
	})
	sym.Assert(n == len(want), lInnerSame)
	t.Build(func(b table_) bool {
		for _, e := range want {
			b.Remove(mkPrefix(e.p))
		}
		sym.Assert(b.NumEntries() == 0, lInnerSame)
		return false
	})
}

// tableCase is a table, its snapshot and an intruder that uses both.
type tableCase struct {
	t_   table_
	t    table
	want []entry
	ops  []top
	o    top
	*intruder
}

// someOf is any subset of 4 of the prefixes of lengths s to s+2 in base/s.
func someOf(base W, s uint32) []top {
	var ops []top
	for _, p := range []P{node(base, s, 0, 0), node(base, s, 1, 0), node(base, s, 2, 0), node(base, s, 2, 3)} {
		if sym.Choose("t", 2) == 1 {
			ops = append(ops, top{opInsertOrUpdate, p, sym.Uint8("t.value")})
		}
	}
	return ops
}

// oneOf is one of those, or of two others.
func oneOf(base W, name string, s uint32) P {
	return []P{node(base, s, 0, 0), node(base, s, 1, 0), node(base, s, 2, 0), node(base, s, 2, 3), node(base, s, 2, 2), node(base, s, 2, 1)}[sym.Choose(name, 6)]
}

func anyTableCase(base W, s uint32, kinds ...int) *tableCase {
	ops := someOf(base, s)
	c := &tableCase{t_: tabulate(ops), ops: ops}
	c.t = c.t_.Table()
	c.want = walk(c.t)
	c.o = top{kinds[sym.Choose("op.kind", len(kinds))], oneOf(base, "op", s), sym.Uint8("op.value")}
	c.intruder = anyIntruder(3, func() {
		useTable(c.t, c.want)
		c.o.do(c.t_)
		useTable(c.t, c.want)
	})
	return c
}

// settled asserts that the tables are as they should be afterwards.
func (c *tableCase) settled() {
	sym.Assert(sameEntries(walk(c.t), c.want), lFixedSame)
	ops := c.ops
	if c.done {
		ops = append(append([]top{}, ops...), c.o)
	}
	has(c.t_.Table(), ops, c.o.p, lMutableDone)
	c.t_.InsertOrUpdate(mkPrefix(c.o.p), 7)
	v, ok := c.t_.Get(mkPrefix(c.o.p))
	sym.Assert(sym.And(ok, v == 7), lUsable)
}

// Q_C23_walk: the callback of a walk over any subset of 4 prefixes reads the
// table, applies any of two operations to a mutable one, and panics or not.
func Q_C23_walk() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anyTableCase(base, s, opInsertOrUpdate, opRemove)
	var got []entry
	ended := c.run(func() {
		c.t.Walk(func(p Prefix, v uint8) bool {
			got = append(got, entry{prefixP(p), v})
			c.call()
			return true
		})
	})
	want := c.want
	if !ended {
		want = want[:c.at+1]
	}
	sym.Assert(sameEntries(got, want), lOuterSame)
	c.settled()
}

// Q_C23_map: as walk, for the mapping of a table.
func Q_C23_map() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anyTableCase(base, s, opInsertOrUpdate, opRemove)
	k := sym.Uint8("k")
	var mapped table
	ended := c.run(func() {
		mapped = c.t.Map(func(p Prefix, v uint8) uint8 {
			c.call()
			return v ^ k
		})
	})
	if ended {
		var want []entry
		for _, e := range c.want {
			want = append(want, entry{e.p, e.v ^ k})
		}
		sym.Assert(sameEntries(walk(mapped), want), lOuterSame)
	} else {
		sym.Assert(mapped.NumEntries() == 0, lOuterSame)
	}
	c.settled()
}

// Q_C23_diff: as walk, for a diff between any subset of 4 prefixes and the same
// after an operation; the callback changes the mutable table that one of them was
// taken from.
func Q_C23_diff() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anyTableCase(base, s, opInsertOrUpdate)
	o := top{opInsertOrUpdate, node(base, s, 2, 3*sym.Choose("other", 2)), sym.Uint8("other.value")}
	if sym.Choose("other.remove", 2) == 1 {
		o.kind = opRemove
	}
	u_ := c.t.Table_()
	o.do(u_)
	u := u_.Table()
	a, b := c.t, u
	if sym.Choose("swap", 2) == 1 {
		a, b = b, a
	}
	want, _ := diff(a, b, allEvents, never)
	var got []event
	ended := c.run(func() {
		add := func(kind int, p Prefix, l, r uint8) bool {
			got = append(got, event{kind, prefixP(p), l, r})
			c.call()
			return true
		}
		a.Diff(b, func(p Prefix, l, r uint8) bool { return add(evChanged, p, l, r) },
			func(p Prefix, v uint8) bool { return add(evLeft, p, v, 0) },
			func(p Prefix, v uint8) bool { return add(evRight, p, 0, v) },
			func(p Prefix, v uint8) bool { return add(evSame, p, v, v) })
	})
	if !ended {
		want = want[:c.at+1]
	}
	sameEvents(want, got, lOuterSame)
	c.settled()
}

func sameEvents(want, got []event, label string) {
	r := len(want) == len(got)
	if r {
		for i := range want {
			v, w := want[i], got[i]
			r = sym.And(r, sym.And(v.kind == w.kind, sym.And(pExact(v.p, w.p), sym.And(v.l == w.l, v.r == w.r))))
		}
	}
	sym.Assert(r, label)
}

// Q_C23_build: the callback of a build uses the table itself, changes the one it
// was taken from, builds another, and panics or not in between.
func Q_C23_build() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anyTableCase(base, s, opInsertOrUpdate, opRemove)
	o := top{opInsertOrUpdate, node(base, s, 2, 3*sym.Choose("other", 2)), sym.Uint8("other.value")}
	c.at %= 2
	var kept table_
	var built table
	ended := c.run(func() {
		built = c.t.Build(func(b table_) bool {
			kept = b
			c.call()
			o.do(b)
			c.call()
			return true
		})
	})
	if ended {
		has(built, append(append([]top{}, c.ops...), o), o.p, lOuterSame)
	} else {
		sym.Assert(built.NumEntries() == 0, lOuterSame)
		kept.Remove(mkPrefix(o.p))
	}
	c.settled()
}

// Q_C23_comparator: a comparator that reads the table it is called for, and
// panics or not; if it does, the operation has no effect.
func Q_C23_comparator() {
	s := scale(2, bits/2-1)
	base := symW("base")
	var hook func()
	t_ := fam.NewTableCustomCompare_(func(a, b uint8) bool {
		if hook != nil {
			hook()
		}
		return a == b
	})
	ops := someOf(base, s)
	for _, o := range ops {
		t_.InsertOrUpdate(mkPrefix(o.p), o.v)
	}
	t := t_.Table()
	want := walk(t)
	o := top{opUpdate, oneOf(base, "op", s), sym.Uint8("op.value")}
	if sym.Choose("op.kind", 2) == 1 {
		o.kind = opInsertOrUpdate
	}
	now := want
	i := anyIntruder(2, func() {
		sym.Assert(sameEntries(walk(t_.Table()), now), lInnerSame)
		sym.Assert(sameEntries(walk(t), want), lInnerSame)
	})
	hook = i.call
	ended := i.run(func() { o.do(t_) })
	hook = nil
	sym.Assert(sameEntries(walk(t), want), lFixedSame)
	if !ended {
		sym.Assert(sameEntries(walk(t_.Table()), want), "an operation whose comparator panics has no effect")
		o.do(t_)
	}
	has(t_.Table(), append(append([]top{}, ops...), o), o.p, lUsable)

	now = walk(t_.Table())
	hook = i.call
	i.run(func() { t_.Table().Aggregate() })
	hook = nil
	sym.Assert(sameEntries(walk(t_.Table()), now), lFixedSame)
}

// ---- sets

// useSet reads s in all ways that call back.
func useSet(s Set, want []P) {
	sym.Assert(sameList(prefixesOf(s), want), lInnerSame)
	rs := rangesOf(s)
	s.WalkPrefixes(func(Prefix) bool { return false })
	s.WalkRanges(func(Range) bool { return false })
	// other sets are walked, too
	other := build([]P{{wc(0), bits}, {wc(2), bits}, {wc(4), bits - 1}})
	rangesOf(other)
	prefixesOf(other)
	other.WalkRanges(func(Range) bool { return false })
	sym.Assert((len(rs) == 0) == (len(want) == 0), lInnerSame)
	s.Build(func(b Set_) bool {
		b.Remove(s)
		sym.Assert(b.IsEmpty(), lInnerSame)
		return false
	})
}

type setCase struct {
	m    Set_
	s    Set
	want []P
	o    op
	*intruder
}

func anySetCase(base W, s uint32) *setCase {
	c := &setCase{m: fam.NewSet_()}
	for _, p := range leaves(base, "s", s, 2) {
		c.m.Insert(mkPrefix(p))
	}
	c.s = c.m.Set()
	c.want = prefixesOf(c.s)
	c.o = op{sym.Choose("op.remove", 2) == 1, anyNode(base, "op", s, 2)}
	c.intruder = anyIntruder(2, func() {
		useSet(c.s, c.want)
		c.o.do(c.m)
		useSet(c.s, c.want)
	})
	return c
}

func (c *setCase) settled(x W) {
	sym.Assert(sameList(prefixesOf(c.s), c.want), lFixedSame)
	in := anyHas(c.want, x)
	if c.done {
		if c.o.remove {
			in = sym.And(in, sym.Not(pHas(c.o.p, x)))
		} else {
			in = sym.Or(in, pHas(c.o.p, x))
		}
	}
	sym.Assert(sym.Iff(anyHas(prefixesOf(c.m.Set()), x), in), lMutableDone)
	c.m.Insert(mkAddr(x))
	sym.Assert(c.m.Contains(mkAddr(x)), lUsable)
}

// Q_C23_prefixes: the callback of a walk over the prefixes of any subset of 4
// neighbours reads the set, changes the mutable one, and panics or not.
func Q_C23_prefixes() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anySetCase(base, s)
	var got []P
	ended := c.run(func() {
		c.s.WalkPrefixes(func(p Prefix) bool {
			got = append(got, prefixP(p))
			c.call()
			return true
		})
	})
	want := c.want
	if !ended {
		want = want[:c.at+1]
	}
	sym.Assert(sameList(got, want), lOuterSame)
	c.settled(wJoin(base, symW("x"), s))
}

// Q_C23_ranges: as prefixes, for the walk over ranges.
func Q_C23_ranges() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anySetCase(base, s)
	all := rangesOf(c.s)
	var got []R
	ended := c.run(func() {
		c.s.WalkRanges(func(r Range) bool {
			got = append(got, rangeR(r))
			c.call()
			return true
		})
	})
	if !ended {
		all = all[:c.at+1]
	}
	r := len(got) == len(all)
	if r {
		for i := range got {
			r = sym.And(r, sym.And(wEq(got[i].f, all[i].f), wEq(got[i].l, all[i].l)))
		}
	}
	sym.Assert(r, lOuterSame)
	c.settled(wJoin(base, symW("x"), s))
}

// Q_C23_buildSet: as build, for sets.
func Q_C23_buildSet() {
	s := scale(2, bits/2-1)
	base := symW("base")
	c := anySetCase(base, s)
	p := node(base, s, 2, 3*sym.Choose("other", 2))
	x := wJoin(base, symW("x"), s)
	var built Set
	ended := c.run(func() {
		built = c.s.Build(func(b Set_) bool {
			c.call()
			b.Insert(mkPrefix(p))
			c.call()
			return true
		})
	})
	if ended {
		sym.Assert(sym.Iff(anyHas(prefixesOf(built), x), sym.Or(anyHas(c.want, x), pHas(p, x))), lOuterSame)
	} else {
		sym.Assert(built.IsEmpty(), lOuterSame)
	}
	c.settled(x)
}
