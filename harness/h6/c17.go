package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// Q_C17_parts: a prefix of any length, host bits included, and its parts.
func Q_C17_parts() {
	p := symPL("p", anyLen("p.len", 0, bits))
	q := mkPrefix(p)
	sym.Assert(wEq(addrW(q.Address()), p.a), "a prefix keeps its address, host bits included")
	sym.Assert(q.Length() == int(p.l), "a prefix keeps its length")
	sym.Assert(wEq(maskW(q.Mask()), wMask(p.l)), "the mask has as many ones as the length")
	n, h := prefixP(q.Network()), prefixP(q.Host())
	sym.Assert(sym.And(n.l == p.l, wEq(n.a, wAnd(p.a, wMask(p.l)))), "the network has the first bits and the length")
	sym.Assert(sym.And(h.l == p.l, wEq(h.a, wAnd(p.a, wNot(wMask(p.l))))), "the host has the other bits and the length")
	sym.Assert(wEq(wOr(n.a, h.a), p.a), "network and host add up to the address")
	sym.Assert(q.Network().Network() == q.Network(), "the network of the network is the same")
	sym.Assert(q.Prefix() == q, "a prefix is its own prefix")
	sym.Assert(fam.PrefixFromAddressMask(q.Address(), q.Mask()) == q, "a prefix is made of its address and mask")
}

// Q_C17_host: the host prefix of any address.
func Q_C17_host() {
	w := symW("a")
	p := prefixP(mkAddr(w).Prefix())
	sym.Assert(sym.And(p.l == bits, wEq(p.a, w)), "the host prefix has the address and all bits")
	l := prefixesOf(mkAddr(w).Set())
	sym.Assert(sameList(l, []P{{w, bits}}), "the set of an address has just that")
}

// Q_C17_halves: the halves of a prefix of any length but the longest.
func Q_C17_halves() {
	p := symPL("p", anyLen("p.len", 0, bits-1))
	a, b := mkPrefix(p).Halves()
	l, r := prefixP(a), prefixP(b)
	sym.Assert(l.l == p.l+1 && r.l == p.l+1, "halves are one bit longer")
	sym.Assert(sym.And(pNetwork(l), pNetwork(r)), "halves have no host bits")
	x := symW("x")
	sym.Assert(sym.Iff(pHas(p, x), sym.Or(pHas(l, x), pHas(r, x))), "halves add up to the prefix")
	sym.Assert(pDisjoint(l, r), "halves are disjoint")
	sym.Assert(wLt(l.a, r.a), "halves are in order")
}

// Q_C17_num: the number of prefixes of any length in a prefix of any length.
func Q_C17_num() {
	p := symPL("p", anyLen("p.len", 0, bits))
	l := anyLen("l", 0, bits+3)
	n, err := mkPrefix(p).NumPrefixes(l)
	if l > bits {
		sym.Assert(err != nil, "a length that is too long is rejected")
		return
	}
	if l < p.l {
		sym.Assert(err == nil && n == 0, "no shorter prefix is in a prefix")
		return
	}
	if l-p.l > 63 {
		sym.Assert(err != nil, "a number that does not fit is an error")
		return
	}
	sym.Assert(err == nil, "a number that fits is no error")
	sym.Assert(n == uint64(1)<<(l-p.l), "a prefix has 2^n prefixes which are n bits longer")
}

// Q_C17_numLong: any length that is too long is rejected.
func Q_C17_numLong() {
	p := symPL("p", sparseLen("p.len"))
	l := sym.Uint32("l")
	sym.Assume(l > bits)
	_, err := mkPrefix(p).NumPrefixes(l)
	sym.Assert(err != nil, "a length that is too long is rejected")
}

// Q_C17_equal: two prefixes are equal iff addresses and lengths are.
func Q_C17_equal() {
	p, q := symPL("p", sparseLen("p.len")), symPL("q", sparseLen("q.len"))
	sym.Assert(sym.Iff(mkPrefix(p) == mkPrefix(q), pExact(p, q)), "prefixes are equal iff addresses and lengths are")
	sym.Assert(sym.Iff(mkPrefix(p).Network() == mkPrefix(q).Network(), pSame(p, q)), "networks are equal iff the first bits and lengths are")
}

// Q_C17_range: the range and the set of a prefix of any length.
func Q_C17_range() {
	p := symPL("p", anyLen("p.len", 0, bits))
	q := mkPrefix(p)
	r := q.Range()
	sym.Assert(wEq(addrW(r.First()), pFirst(p)), "the range of a prefix begins with its first address")
	sym.Assert(wEq(addrW(r.Last()), pLast(p)), "the range of a prefix ends with its last address")
	sym.Assert(q.Network().Range() == r, "the range of a prefix does not depend on its host bits")
	x := symW("x")
	sym.Assert(sym.Iff(q.Contains(mkAddr(x)), pHas(p, x)), "a prefix contains the addresses with its first bits")
	sym.Assert(sym.Iff(r.Contains(mkAddr(x)), pHas(p, x)), "the range of a prefix contains the same addresses")
	n := P{pFirst(p), p.l}
	sym.Assert(sameList(prefixesOf(q.Set()), []P{n}), "the set of a prefix has just its network")
	sym.Assert(sameList(prefixesOf(r.Set()), []P{n}), "the set of the range of a prefix has just its network")
}
