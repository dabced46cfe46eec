package h4

import "verif/harness/sym"

// Q_C17_broadcast: the broadcast address of a prefix of any length.
func Q_C17_broadcast() {
	p := symPL("p", anyLen("p.len", 0, 32))
	b := prefixP(mkPrefix(p).Broadcast())
	sym.Assert(sym.And(b.l == p.l, wEq(b.a, pLast(p))), "the broadcast address has ones after the prefix")
	sym.Assert(wEq(b.a, addrW(mkPrefix(p).Range().Last())), "the broadcast address is the last of the range")
}
