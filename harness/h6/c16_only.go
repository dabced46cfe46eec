package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

func symGroups(name string) (g [8]uint16, w W) {
	for i := range g {
		g[i] = sym.Uint16(name)
		w = wOr(wShl(w, 16), wc(uint64(g[i])))
	}
	return
}

// Q_C16_groups: any eight groups as an address and as a mask.
func Q_C16_groups() {
	g, w := symGroups("g")
	a := fam.AddressFromUint16(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7])
	sym.Assert(wEq(addrW(a), w), "groups are in network order")
	sym.Assert(fam.AddressFromUint64(w.h, w.l) == a, "groups and numbers agree")
}

// Q_C16_maskGroups: any eight groups as a mask.
func Q_C16_maskGroups() {
	g, w := symGroups("g")
	m, err := fam.MaskFromUint16(g[0], g[1], g[2], g[3], g[4], g[5], g[6], g[7])
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "groups are a mask iff the ones come first")
	if err == nil {
		sym.Assert(wEq(maskW(m), w), "a mask has its bits")
	}
}

// Q_C16_mask: any number as a mask.
func Q_C16_mask() {
	w := symW("m")
	m, err := fam.MaskFromUint64(w.h, w.l)
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "a number is a mask iff the ones come first")
	if err == nil {
		sym.Assert(wEq(maskW(m), w), "a mask has its bits")
		l := m.Length()
		sym.Assert(wEq(wMask(uint32(l)), w), "a mask has as many ones as its length")
		n, err := fam.MaskFromLength(l)
		sym.Assert(err == nil, "a mask's length is in range")
		sym.Assert(n == m, "a mask is made from its length")
	}
}

// Q_C16_prefixUint64: the address and mask of a prefix as numbers.
func Q_C16_prefixUint64() {
	p := symPL("p", anyLen("p.len", 0, 128))
	a, b, m, n := mkPrefix(p).Uint64()
	sym.Assert(wEq(W{a, b}, p.a), "the address of a prefix")
	sym.Assert(wEq(W{m, n}, wMask(p.l)), "the mask of a prefix")
}

// Q_C16_netmaskBytes: any net.IPMask of 16 bytes all but four of which are
// all zeroes or all ones.
func Q_C16_netmaskBytes() {
	at := sym.Choose("at", 4) * 4
	b := make([]byte, 16)
	for i := range b {
		if i < at {
			b[i] = 0xff
		}
	}
	copy(b[at:], sym.Bytes("b", 4))
	w := wFromBytes(b)
	m, err := fam.MaskFromNetIPMask(b)
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "a net.IPMask is a mask iff the ones come first")
	if err == nil {
		sym.Assert(wEq(maskW(m), w), "a mask has its bits")
	}
}
