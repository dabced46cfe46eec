package h4

import (
	"net"

	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// wFromBytes reads an address in network byte order.
func wFromBytes(b []byte) W {
	w := wc(0)
	for _, x := range b {
		w = wOr(wShl(w, 8), wc(uint64(x)))
	}
	return w
}

// Q_C16_slice: any bytes of any length up to 20.
func Q_C16_slice() {
	n := sym.Choose("n", 21)
	b := sym.Bytes("b", n)
	a, err := fam.AddressFromSlice(b)
	sym.Assert((err == nil) == (n == bits/8), "a slice is an address iff it has the right size")
	if err == nil {
		sym.Assert(wEq(addrW(a), wFromBytes(b)), "the bytes are in network order")
	}
	if n == 0 {
		_, err = fam.AddressFromSlice(nil)
		sym.Assert(err != nil, "a nil slice is not an address")
		_, err = fam.AddressFromNetIP(nil)
		sym.Assert(err != nil, "a nil net.IP is not an address")
	}
}

// Q_C16_netip: any address to a net.IP and back.
func Q_C16_netip() {
	w := symW("a")
	ip := mkAddr(w).ToNetIP()
	sym.Assert(len(ip) == bits/8, "a net.IP has the size of the family")
	sym.Assert(wEq(wFromBytes(ip), w), "a net.IP has the bytes in network order")
	b, err := fam.AddressFromNetIP(ip)
	sym.Assert(err == nil, "a net.IP is converted back")
	sym.Assert(wEq(addrW(b), w), "a net.IP is converted back to the same address")
	c, err := fam.AddressFromSlice(ip)
	sym.Assert(err == nil, "the bytes are converted back")
	sym.Assert(wEq(addrW(c), w), "the bytes are converted back to the same address")
	sym.Assert(mkAddr(w).NumBits() == bits, "the number of bits is that of the family")
}

// Q_C16_order: two addresses are equal iff all their bits are.
func Q_C16_order() {
	v, w := symW("v"), symW("w")
	sym.Assert(sym.Iff(mkAddr(v) == mkAddr(w), wEq(v, w)), "addresses are equal iff all bits are")
	_, empty := fam.RangeFromAddresses(mkAddr(v), mkAddr(w))
	sym.Assert(sym.Iff(empty, wLt(w, v)), "addresses are ordered as numbers")
}

// Q_C16_maskLength: any mask length, also negative or too long.
func Q_C16_maskLength() {
	n := int(sym.Range("n", 0, bits+20)) - 10
	m, err := fam.MaskFromLength(n)
	sym.Assert((err == nil) == (0 <= n && n <= bits), "a length is that of a mask iff it is in range")
	if err == nil {
		sym.Assert(wEq(maskW(m), wMask(uint32(n))), "a mask has as many leading ones")
		sym.Assert(m.Length() == n, "a mask has its length")
	}
}

// Q_C16_maskLengthAny: any integer.
func Q_C16_maskLengthAny() {
	n := int(sym.Uint64("n"))
	sym.Assume(n < 0 || bits < n)
	_, err := fam.MaskFromLength(n)
	sym.Assert(err != nil, "a length out of range is rejected")
}

// Q_C16_netmask: any mask to a net.IPMask and back.
func Q_C16_netmask() {
	l := anyLen("l", 0, bits)
	m := mustMask(l)
	nm := m.ToNetIPMask()
	sym.Assert(len(nm) == bits/8, "a net.IPMask has the size of the family")
	sym.Assert(wEq(wFromBytes(nm), wMask(l)), "a net.IPMask has the bits of the mask")
	b, err := fam.MaskFromNetIPMask(nm)
	sym.Assert(err == nil, "a net.IPMask is converted back")
	sym.Assert(b == m, "a net.IPMask is converted back to the same mask")
}

// contiguous reports whether w is a number of ones followed by zeroes only.
func contiguous(w W) bool {
	n := wNot(w)
	return wEq(wAnd(n, wInc(n)), wc(0))
}

// Q_C16_netmaskPrefix: the IPNet of a prefix of any length and any address has its address and mask.
func Q_C16_netmaskPrefix() {
	p := symPL("p", anyLen("p.len", 0, bits))
	q := mkPrefix(p)
	n := q.ToNetIPNet()
	sym.Assert(wEq(wFromBytes(n.IP), p.a), "an IPNet has the address of the prefix")
	sym.Assert(wEq(wFromBytes(n.Mask), wMask(p.l)), "an IPNet has the mask of the prefix")
	r, err := fam.PrefixFromNetIPNet(n)
	sym.Assert(err == nil, "an IPNet is converted back")
	sym.Assert(r == q, "an IPNet is converted back to the same prefix")
	_, err = fam.PrefixFromNetIPNet(nil)
	sym.Assert(err != nil, "a nil IPNet is rejected")
}

// Q_C16_ipnetSizes: an IPNet whose address or mask has another size is
// rejected.
func Q_C16_ipnetSizes() {
	sizes := []int{0, 4, 5, 16, 17}
	i, j := sizes[sym.Choose("ip", len(sizes))], sizes[sym.Choose("mask", 3)]
	if j == 5 {
		j = 16
	}
	ip := sym.Bytes("ip", i)
	mask := net.CIDRMask(sym.Choose("ones", j*8+1), j*8)
	if j == 0 {
		mask = nil
	}
	n := &net.IPNet{IP: ip, Mask: mask}
	p, err := fam.PrefixFromNetIPNet(n)
	if j != bits/8 || i != 4 && i != 16 || bits == 128 && i == 4 {
		sym.Assert(err != nil, "an IPNet of another size is rejected")
	} else if i == bits/8 {
		sym.Assert(err == nil, "an IPNet of the right size is a prefix")
	}
	if err == nil {
		ones, _ := mask.Size()
		sym.Assert(p.Length() == ones, "the prefix has the length of the mask")
		sym.Assert(wEq(addrW(p.Address()), wFromBytes(ip[i-bits/8:])), "the prefix has the address")
	}
}

const (
	lFresh = "what is returned belongs to the caller and may be modified"
	lInput = "what is passed is neither kept nor modified"
)

// scribble overwrites all bytes.
func scribble(b []byte, by byte) {
	for i := range b {
		b[i] ^= by
	}
}

// Q_C16_fresh: the bytes that conversions return may be overwritten without an
// effect on anything else.
func Q_C16_fresh() {
	w, by := symW("a"), sym.Uint8("by")
	a := mkAddr(w)
	ip := a.ToNetIP()
	scribble(ip, by)
	sym.Assert(wEq(wFromBytes(a.ToNetIP()), w), lFresh)
	l := anyLen("l", 0, bits)
	m := mustMask(l)
	nm := m.ToNetIPMask()
	scribble(nm, by)
	sym.Assert(wEq(wFromBytes(m.ToNetIPMask()), wMask(l)), lFresh)
	p := P{w, l}
	q := mkPrefix(p)
	n, o := q.ToNetIPNet(), q.ToNetIPNet()
	sym.Assert(n != o, lFresh)
	scribble(n.IP, by)
	scribble(n.Mask, by)
	n.IP, n.Mask = nil, nil
	for _, n := range []*net.IPNet{o, q.ToNetIPNet()} {
		sym.Assert(wEq(wFromBytes(n.IP), w), lFresh)
		sym.Assert(wEq(wFromBytes(n.Mask), wMask(l)), lFresh)
	}
	sym.Assert(wEq(wFromBytes(a.ToNetIP()), w), lFresh)
	sym.Assert(wEq(wFromBytes(m.ToNetIPMask()), wMask(l)), lFresh)
}

// Q_C16_input: the bytes passed to conversions are not modified and may be
// overwritten afterwards.
func Q_C16_input() {
	w, by := symW("a"), sym.Uint8("by")
	l := anyLen("l", 0, bits)
	ip := append([]byte{}, mkAddr(w).ToNetIP()...)
	mask := append([]byte{}, mustMask(l).ToNetIPMask()...)
	a, err := fam.AddressFromSlice(ip)
	sym.Assert(err == nil, "the bytes are converted back")
	b, err := fam.AddressFromNetIP(ip)
	sym.Assert(err == nil, "a net.IP is converted back")
	m, err := fam.MaskFromNetIPMask(mask)
	sym.Assert(err == nil, "a net.IPMask is converted back")
	n := &net.IPNet{IP: ip, Mask: mask}
	q, err := fam.PrefixFromNetIPNet(n)
	sym.Assert(err == nil, "an IPNet is converted back")
	sym.Assert(len(n.IP) == bits/8 && len(n.Mask) == bits/8, lInput)
	sym.Assert(wEq(wFromBytes(ip), w), lInput)
	sym.Assert(wEq(wFromBytes(mask), wMask(l)), lInput)
	scribble(ip, by)
	scribble(mask, by)
	n.IP, n.Mask = nil, nil
	sym.Assert(wEq(addrW(a), w), lInput)
	sym.Assert(wEq(addrW(b), w), lInput)
	sym.Assert(wEq(maskW(m), wMask(l)), lInput)
	sym.Assert(wEq(addrW(q.Address()), w), lInput)
	sym.Assert(q.Length() == int(l), lInput)
	sym.Assert(wEq(wFromBytes(q.ToNetIPNet().IP), w), lInput)
}
