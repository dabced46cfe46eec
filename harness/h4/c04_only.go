package h4

import "verif/harness/sym"

// Q_C04_addresses: the walked addresses of a set of two prefixes with lengths
// 30 to 32 anywhere (host bits included) are exactly its addresses in ascending order,
// and the walk can be stopped anywhere.
func Q_C04_addresses() {
	ps := []P{
		symPL("p", anyLen("p.len", 30, 32)),
		symPL("q", anyLen("q.len", 30, 32)),
	}
	if sym.Choose("top", 2) == 1 {
		ps[0].a = wOnes()
	}
	a := build(ps[:1+sym.Choose("n", 2)])
	var want []W
	for _, p := range prefixesOf(a) {
		for i := uint32(0); i < uint32(1)<<(32-p.l); i++ {
			want = append(want, W{p.a.v + i})
		}
	}
	stop := 1 + sym.Choose("stop", 9)
	var got []W
	done := a.WalkAddresses(func(x Address) bool {
		got = append(got, addrW(x))
		return len(got) < stop
	})
	sym.Assert(done == (len(want) < stop), "a walk returns whether it was not stopped")
	sym.Assert(len(got) == min(len(want), stop), "the walk has the number of addresses asked for")
	for i := range got {
		sym.Assert(wEq(got[i], want[i]), "the walk has the addresses of the prefixes in order")
		if i > 0 {
			sym.Assert(wLt(got[i-1], got[i]), "walked addresses ascend")
		}
	}
}
