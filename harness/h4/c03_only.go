package h4

import "verif/harness/sym"

// Q_C03_numAddresses: number of addresses of a set of two prefixes of 8
// lengths, of prefixes and of their ranges.
func Q_C03_numAddresses() {
	p := symPL("p", sparseLen("p.len"))
	q := symPL("q", sparseLen("q.len"))
	n := sym.Choose("n", 3)
	a := build([]P{p, q}[:n])
	want := int64(0)
	for _, p := range prefixesOf(a) {
		want += int64(1) << (32 - p.l)
	}
	sym.Assert(a.NumAddresses() == want, "number of addresses of a set")
	sym.Assert(a.Set_().NumAddresses() == want, "number of addresses of a mutable set")
	sym.Assert(a.IsEmpty() == (want == 0), "empty iff no addresses")
}

// Q_C03_numAddressesPrefix: number of addresses of a prefix of any length and
// of its range.
func Q_C03_numAddressesPrefix() {
	p := symPL("p", anyLen("p.len", 0, 32))
	q := mkPrefix(p)
	want := int64(1) << (32 - p.l)
	sym.Assert(q.NumAddresses() == want, "number of addresses of a prefix")
	sym.Assert(q.Range().NumAddresses() == want, "number of addresses of a range")
	sym.Assert(q.Set().NumAddresses() == want, "number of addresses of a set")
}

// Q_C03_numAddressesRange: number of addresses of an arbitrary range within a
// block of 32 addresses.
func Q_C03_numAddressesRange() {
	base := symW("base")
	f, l := wJoin(base, symW("first"), 27), wJoin(base, symW("last"), 27)
	sym.Assume(wLe(f, l))
	r := mkRange(f, l)
	sym.Assert(r.NumAddresses() == int64(l.v-f.v)+1, "number of addresses of a range")
}
