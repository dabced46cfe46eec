package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

type (
	table  = fam.Table[uint8]
	table_ = fam.Table_[uint8]
)

const (
	opInsert = iota
	opUpdate
	opInsertOrUpdate
	opGetOrInsert
	opRemove
	opKinds
)

// top is one operation on a mutable table.
type top struct {
	kind int
	p    P
	v    uint8
}

func ite8(c bool, a, b uint8) uint8 { return uint8(sym.Ite32(c, uint32(a), uint32(b))) }

// state is what a map keyed by prefixes without their host bits has for q
// after the operations.
func state(ops []top, q P) (present bool, v uint8) {
	for _, o := range ops {
		same := pSame(o.p, q)
		switch o.kind {
		case opInsert, opGetOrInsert:
			v = ite8(sym.And(same, sym.Not(present)), o.v, v)
			present = sym.Or(present, same)
		case opUpdate:
			v = ite8(sym.And(same, present), o.v, v)
		case opInsertOrUpdate:
			v = ite8(same, o.v, v)
			present = sym.Or(present, same)
		case opRemove:
			present = sym.And(present, sym.Not(same))
		}
	}
	return
}

// size is the number of entries after the operations.
func size(ops []top) int64 {
	n := int64(0)
	for i, o := range ops {
		present, _ := state(ops[:i], o.p)
		switch o.kind {
		case opInsert, opInsertOrUpdate, opGetOrInsert:
			n += int64(sym.B2U(sym.Not(present)))
		case opRemove:
			n -= int64(sym.B2U(present))
		}
	}
	return n
}

// do performs the operation. It reports the result as a boolean and a value.
func (o top) do(t table_) (ok bool, v uint8) {
	p := mkPrefix(o.p)
	switch o.kind {
	case opInsert:
		return t.Insert(p, o.v), 0
	case opUpdate:
		return t.Update(p, o.v), 0
	case opInsertOrUpdate:
		t.InsertOrUpdate(p, o.v)
		return true, 0
	case opGetOrInsert:
		return true, t.GetOrInsert(p, o.v)
	}
	return t.Remove(p), 0
}

// checked performs the operation and compares its result with the map.
func (o top) checked(t table_, before []top) {
	present, old := state(before, o.p)
	ok, v := o.do(t)
	switch o.kind {
	case opInsert:
		sym.Assert(sym.Iff(ok, sym.Not(present)), "Insert returns whether there was no entry")
	case opUpdate:
		sym.Assert(sym.Iff(ok, present), "Update returns whether there was an entry")
	case opGetOrInsert:
		sym.Assert(v == ite8(present, old, o.v), "GetOrInsert returns the value there is then")
	case opRemove:
		sym.Assert(sym.Iff(ok, present), "Remove returns whether there was an entry")
	}
}

// symTops draws n operations of the given kinds on prefixes in base/s.
func symTops(base W, name string, n int, s, g uint32, kinds ...int) []top {
	var ops []top
	for i := 0; i < n; i++ {
		o := top{kind: kinds[sym.Choose(name+".kind", len(kinds))]}
		o.p = windowed(base, name, 1, s, g)[0]
		o.v = sym.Uint8(name + ".value")
		ops = append(ops, o)
	}
	return ops
}

// entry is a prefix with its value.
type entry struct {
	p P
	v uint8
}

func walk(t table) []entry {
	var out []entry
	done := t.Walk(func(p Prefix, v uint8) bool {
		out = append(out, entry{prefixP(p), v})
		return true
	})
	sym.Assert(done, "a walk that is not stopped returns true")
	return out
}

func sameEntries(a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.And(pExact(a[i].p, b[i].p), a[i].v == b[i].v))
	}
	return r
}

// inserts draws n prefixes with values in base/s.
func inserts(base W, name string, n int, s, g uint32) []top {
	return symTops(base, name, n, s, g, opInsertOrUpdate)
}

func tabulate(ops []top) table_ {
	t := fam.NewTable_[uint8]()
	for _, o := range ops {
		o.do(t)
	}
	return t
}

// lookup finds the longest match of q in a list of entries with distinct
// prefixes.
func lookup(es []entry, q P) (found bool, at P, v uint8) {
	for _, e := range es {
		better := sym.And(pCovers(e.p, q), sym.Or(sym.Not(found), at.l <= e.p.l))
		at = P{wIte(better, e.p.a, at.a), sym.Ite32(better, e.p.l, at.l)}
		v = ite8(better, e.v, v)
		found = sym.Or(found, better)
	}
	return
}

// longest finds the longest match of q after insertions; a later one of the
// same prefix replaces the value.
func longest(ops []top, q P) (found bool, at P, v uint8) {
	var es []entry
	for _, o := range ops {
		es = append(es, entry{o.p, o.v})
	}
	return lookup(es, q)
}
