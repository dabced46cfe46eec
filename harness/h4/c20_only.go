package h4

import "verif/harness/sym"

// Q_C20_zeroCounts: the numbers of addresses of zero values.
func Q_C20_zeroCounts() {
	var r Range
	var p Prefix
	sym.Assert(Set{}.NumAddresses() == 0 && Set_{}.NumAddresses() == 0, lZeroRead)
	sym.Assert(r.NumAddresses() == 1, "a zero range has the first address only")
	sym.Assert(p.NumAddresses() == 1<<32, "a zero prefix contains everything")
	calls := 0
	sym.Assert(Set{}.WalkAddresses(func(Address) bool { calls++; return true }) && calls == 0, "nothing is visited in a zero value")
}
