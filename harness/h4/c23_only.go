package h4

import "verif/harness/sym"

// Q_C23_addresses: as prefixes, for the walk over the addresses of any subset of 4
// neighbours.
func Q_C23_addresses() {
	s := uint32(bits - 2)
	base := symW("base")
	c := anySetCase(base, s)
	var all, got []W
	c.s.WalkAddresses(func(a Address) bool {
		all = append(all, addrW(a))
		return true
	})
	ended := c.run(func() {
		c.s.WalkAddresses(func(a Address) bool {
			got = append(got, addrW(a))
			c.call()
			return true
		})
	})
	if !ended {
		all = all[:c.at+1]
	}
	r := len(got) == len(all)
	if r {
		for i := range got {
			r = sym.And(r, wEq(got[i], all[i]))
		}
	}
	sym.Assert(r, lOuterSame)
	c.settled(wJoin(base, symW("x"), s))
}
