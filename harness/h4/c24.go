package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

const (
	lShareDiff = "a diff without a callback for unchanged entries compares only entries that contain what was changed"
	lShareNoop = "a diff of what was not changed compares nothing"
	lShareMore = "a diff does not compare the same entries again and again"
)

// counter is a comparator that remembers what it was called with.
type counter struct {
	on    bool
	calls [][2]uint8
}

// shared returns a table whose entries have the values 1, 2, ..., each once.
func (c *counter) shared(ops []top) table_ {
	t := fam.NewTableCustomCompare_(func(a, b uint8) bool {
		if c.on {
			c.calls = append(c.calls, [2]uint8{a, b})
		}
		return a == b
	})
	for i := range ops {
		ops[i].v = uint8(i + 1)
		ops[i].do(t)
	}
	return t
}

// newValue is the first of the values that changes store.
const newValue = 100

// check compares two tables that differ by changes of the given prefixes.
func (c *counter) check(ops []top, l, r table, changed []P) {
	c.checkHow(ops, l, r, changed, sym.Choose("how", 3))
}

// checkHow compares them as they are, the other way around, or without
// callbacks.
func (c *counter) checkHow(ops []top, l, r table, changed []P, how int) {
	if how == 1 {
		l, r = r, l
	}
	c.on, c.calls = true, nil
	if how == 2 {
		l.Diff(r, nil, nil, nil, nil)
	} else {
		one := func(Prefix, uint8) bool { return true }
		l.Diff(r, func(p Prefix, l, r uint8) bool { return true }, one, one, nil)
	}
	c.on = false
	if len(changed) == 0 {
		sym.Assert(len(c.calls) == 0, lShareNoop)
		return
	}
	for i, vs := range c.calls {
		for _, v := range vs {
			if v >= newValue {
				continue
			}
			near := false
			for _, p := range changed {
				near = sym.Or(near, pCovers(ops[v-1].p, p))
			}
			sym.Assert(near, lShareDiff)
		}
		n := 0
		for _, ws := range c.calls[:i] {
			if vs == ws {
				n++
			}
		}
		sym.Assert(n < 4, lShareMore)
	}
}

// idle reports whether the operation changes nothing.
func (o top) idle(before []top) bool {
	present, _ := state(before, o.p)
	switch o.kind {
	case opInsert, opGetOrInsert:
		return present
	case opUpdate, opRemove:
		return sym.Not(present)
	}
	return false
}

// checkShared does the operation on a copy made in one of three ways, and
// compares them in one of three ways.
func checkShared(ops []top, o top) {
	c := new(counter)
	t := c.shared(ops)
	a := t.Table()
	o.v = newValue
	var b table
	how := sym.Choose("how", 5)
	switch how {
	case 3:
		u := a.Table_()
		o.do(u)
		b = u.Table()
	case 4:
		b = a.Build(func(u table_) bool {
			o.do(u)
			return true
		})
	default:
		o.do(t)
		b = t.Table()
	}
	if o.idle(ops) {
		c.checkHow(ops, a, b, nil, how)
	} else {
		c.checkHow(ops, a, b, []P{o.p}, how)
	}
}

// Q_C24_two: two entries and any operation; 3 windows of 3 lengths.
func Q_C24_two() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := inserts(base, "in", 2, s, 2)
	checkShared(ops, symTops(base, "op", 1, s, 2, allKinds...)[0])
}

// Q_C24_tree: any subset of 7 prefixes and any operation.
func Q_C24_tree() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	o := top{kind: allKinds[sym.Choose("kind", opKinds)], p: anyNode(base, "p", s, 2)}
	checkShared(ops, o)
}

// Q_C24_line: any subset of 5 nested prefixes and any operation.
func Q_C24_line() {
	s := scale(4, bits/2-2)
	base := symW("base")
	ops := line(base, "in", s, 4)
	o := top{kind: []int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], p: oneIn(base, "p", s, 5)}
	checkShared(ops, o)
}

// Q_C24_big: a large table and any operation on any of many prefixes.
func Q_C24_big() { bigC24(false) }

// T_C24_big: as big, with more lengths, bits and tables.
func T_C24_big() { bigC24(true) }

func bigC24(all bool) {
	ops := bigTable("t", all)
	checkShared(ops, top{kind: []int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)], p: near("q", all)})
}

// Q_C24_twice: two operations, with snapshots in between; any subset of 7
// prefixes.
func Q_C24_twice() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	c := new(counter)
	t := c.shared(ops)
	a := t.Table()
	var ps []P
	kind := []int{opInsertOrUpdate, opRemove}[sym.Choose("kind", 2)]
	for i := uint8(0); i < 2; i++ {
		o := top{kind: kind, p: anyNode(base, "p", s, 2), v: newValue + i}
		o.do(t)
		ps = append(ps, o.p)
		if i == 0 && sym.Choose("snapshot", 2) == 1 {
			t.Table().Table_().Insert(mkPrefix(o.p), newValue+5)
		}
	}
	c.check(ops, a, t.Table(), ps)
}

// Q_C24_copies: any copy without a change; any subset of 7 prefixes.
func Q_C24_copies() {
	s := scale(2, bits/2-1)
	ops := tree(symW("base"), "in", s, 2)
	c := new(counter)
	t := c.shared(ops)
	a := t.Table()
	b := a
	switch sym.Choose("copy", 4) {
	case 0:
		b = t.Table()
	case 1:
		b = a.Table_().Table()
	case 2:
		b = a.Build(func(u table_) bool { return true })
	case 3:
		b = a.Build(func(u table_) bool {
			u.InsertOrUpdate(mkPrefix(P{wc(0), 0}), newValue)
			return false
		})
	}
	c.check(ops, a, b, nil)
}

// Q_C24_map: a mapper that changes the value of one prefix or none; any subset
// of 7 prefixes.
func Q_C24_map() {
	s := scale(2, bits/2-1)
	base := symW("base")
	ops := tree(base, "in", s, 2)
	c := new(counter)
	a := c.shared(ops).Table()
	only := anyNode(base, "p", s, 2)
	none := sym.Choose("none", 2) == 1
	hit := false
	b := a.Map(func(p Prefix, v uint8) uint8 {
		if !none && pSame(prefixP(p), only) {
			hit = true
			return newValue
		}
		return v
	})
	if hit {
		c.check(ops, a, b, []P{only})
	} else {
		c.check(ops, a, b, nil)
	}
}

// T_C24_three: three entries and any operation; 3 windows of 3 lengths.
func T_C24_three() {
	s := scale(2, 0, bits/2-1, bits-2)
	base := symW("base")
	ops := inserts(base, "in", 3, s, 2)
	checkShared(ops, symTops(base, "op", 1, s, 2, allKinds...)[0])
}
