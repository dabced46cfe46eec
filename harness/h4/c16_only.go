package h4

import (
	"net"

	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// Q_C16_bytes: any four bytes as an address and as a mask.
func Q_C16_bytes() {
	b := sym.Bytes("b", 4)
	w := wFromBytes(b)
	a := fam.AddressFromBytes(b[0], b[1], b[2], b[3])
	sym.Assert(a.Uint32() == w.v, "bytes are in network order")
	sym.Assert(fam.AddressFromUint32(w.v) == a, "bytes and numbers agree")
	m, err := fam.MaskFromBytes(b[0], b[1], b[2], b[3])
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "bytes are a mask iff the ones come first")
	if err == nil {
		sym.Assert(m.Uint32() == w.v, "a mask has its bits")
		sym.Assert(wEq(wMask(uint32(m.Length())), w), "a mask has as many ones as its length")
	}
}

// Q_C16_mask: any number as a mask.
func Q_C16_mask() {
	w := symW("m")
	m, err := fam.MaskFromUint32(w.v)
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "a number is a mask iff the ones come first")
	if err == nil {
		sym.Assert(m.Uint32() == w.v, "a mask has its bits")
		l := m.Length()
		sym.Assert(wEq(wMask(uint32(l)), w), "a mask has as many ones as its length")
		n, err := fam.MaskFromLength(l)
		sym.Assert(err == nil, "a mask's length is in range")
		sym.Assert(n == m, "a mask is made from its length")
	}
}

// Q_C16_mapped: any net.IP of 16 bytes is an address iff it is a mapped one.
func Q_C16_mapped() {
	b := sym.Bytes("b", 16)
	if sym.Choose("mapped", 2) == 1 {
		copy(b, net.IPv4(0, 0, 0, 0)[:12])
	}
	a, err := fam.AddressFromNetIP(b)
	mapped := true
	for i, x := range b[:12] {
		v := byte(0)
		if i >= 10 {
			v = 0xff
		}
		mapped = sym.And(mapped, x == v)
	}
	sym.Assert(sym.Iff(err == nil, mapped), "a net.IP of 16 bytes is an address iff it is mapped")
	if err == nil {
		sym.Assert(wEq(addrW(a), wFromBytes(b[12:])), "a mapped address has the last four bytes")
	}
}

// Q_C16_prefixUint32: the address and mask of a prefix as numbers.
func Q_C16_prefixUint32() {
	p := symPL("p", anyLen("p.len", 0, 32))
	a, m := mkPrefix(p).Uint32()
	sym.Assert(a == p.a.v, "the address of a prefix")
	sym.Assert(m == wMask(p.l).v, "the mask of a prefix")
}

// Q_C16_netmaskBytes: any net.IPMask of four bytes.
func Q_C16_netmaskBytes() {
	b := sym.Bytes("b", 4)
	w := wFromBytes(b)
	m, err := fam.MaskFromNetIPMask(b)
	sym.Assert(sym.Iff(err == nil, contiguous(w)), "a net.IPMask is a mask iff the ones come first")
	if err == nil {
		sym.Assert(wEq(maskW(m), w), "a mask has its bits")
	}
}
