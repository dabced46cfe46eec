// Package hip holds the symbolic harnesses for the ip package, which chooses
// the family of addresses, masks, prefixes and ranges.
package hip

import (
	"net"

	"gopkg.in/addrs.v1/ip"
	"gopkg.in/addrs.v1/ipv4"
	"gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// foreign implements the interfaces but belongs to neither family.
type foreign struct{}

func (foreign) String() string          { return "foreign" }
func (foreign) ToNetIP() net.IP         { return nil }
func (foreign) NumBits() int            { return 32 }
func (foreign) Length() int             { return 24 }
func (foreign) ToNetIPMask() net.IPMask { return nil }
func (foreign) ToNetIPNet() *net.IPNet  { return nil }

const (
	kNil = iota
	kForeign
	k4
	k6
	kinds
)

const (
	lFam  = "the result belongs to the family of the arguments"
	lSame = "the result is that of the family's own function"
	lErr  = "arguments of different, unknown or no families are rejected"
	lNil  = "nothing is derived from what belongs to no family"
	lSize = "the family is that of the size, and other sizes are rejected"
	lText = "the family is that of the notation, and what is in neither is rejected"
)

func addr4(name string) ipv4.Address { return ipv4.AddressFromUint32(sym.Uint32(name)) }

func addr6(name string) ipv6.Address {
	return ipv6.AddressFromUint64(sym.Uint64(name+".hi"), sym.Uint64(name+".lo"))
}

// anyAddress is an address of either family, a foreign one or nil.
func anyAddress(name string) (int, ip.Address, ipv4.Address, ipv6.Address) {
	k := sym.Choose(name+".kind", kinds)
	switch k {
	case k4:
		a := addr4(name)
		return k, a, a, ipv6.Address{}
	case k6:
		a := addr6(name)
		return k, a, ipv4.Address{}, a
	case kForeign:
		return k, foreign{}, ipv4.Address{}, ipv6.Address{}
	}
	return k, nil, ipv4.Address{}, ipv6.Address{}
}

func mask4(name string) ipv4.Mask {
	m, err := ipv4.MaskFromLength(sym.Choose(name, 33))
	if err != nil {
		panic("mask")
	}
	return m
}

func mask6(name string) ipv6.Mask {
	m, err := ipv6.MaskFromLength(sym.Choose(name, 129))
	if err != nil {
		panic("mask")
	}
	return m
}

// Q_C19_prefixFromAddressMask: any address and any mask, of either family, foreign or nil.
func Q_C19_prefixFromAddressMask() {
	ka, a, a4, a6 := anyAddress("a")
	km := sym.Choose("m.kind", kinds)
	var m ip.Mask
	var m4 ipv4.Mask
	var m6 ipv6.Mask
	switch km {
	case k4:
		m4 = mask4("m")
		m = m4
	case k6:
		m6 = mask6("m")
		m = m6
	case kForeign:
		m = foreign{}
	}
	p, err := ip.PrefixFromAddressMask(a, m)
	switch {
	case ka == k4 && km == k4:
		q, ok := p.(ipv4.Prefix)
		sym.Assert(err == nil && ok, lFam)
		sym.Assert(q == ipv4.PrefixFromAddressMask(a4, m4), lSame)
	case ka == k6 && km == k6:
		q, ok := p.(ipv6.Prefix)
		sym.Assert(err == nil && ok, lFam)
		sym.Assert(q == ipv6.PrefixFromAddressMask(a6, m6), lSame)
	default:
		sym.Assert(err != nil, lErr)
	}
}

// Q_C19_rangeFromAddresses: any two addresses, of either family, foreign or nil.
func Q_C19_rangeFromAddresses() {
	kf, f, f4, f6 := anyAddress("first")
	kl, l, l4, l6 := anyAddress("last")
	r, empty, err := ip.RangeFromAddresses(f, l)
	switch {
	case kf == k4 && kl == k4:
		q, ok := r.(ipv4.Range)
		want, none := ipv4.RangeFromAddresses(f4, l4)
		sym.Assert(err == nil && ok, lFam)
		sym.Assert(empty == none && q == want, lSame)
		if !empty {
			sym.Assert(ip.FirstFromRange(r) == ip.Range(f4), "the first address of a range is the one it was made from")
			sym.Assert(ip.LastFromRange(r) == ip.Range(l4), "the last address of a range is the one it was made from")
		}
	case kf == k6 && kl == k6:
		q, ok := r.(ipv6.Range)
		want, none := ipv6.RangeFromAddresses(f6, l6)
		sym.Assert(err == nil && ok, lFam)
		sym.Assert(empty == none && q == want, lSame)
		if !empty {
			sym.Assert(ip.FirstFromRange(r) == ip.Range(f6), "the first address of a range is the one it was made from")
			sym.Assert(ip.LastFromRange(r) == ip.Range(l6), "the last address of a range is the one it was made from")
		}
	default:
		sym.Assert(err != nil, lErr)
	}
	sym.Assert(ip.FirstFromRange(nil) == nil && ip.LastFromRange(nil) == nil, lNil)
	sym.Assert(ip.FirstFromRange(foreign{}) == nil && ip.LastFromRange(foreign{}) == nil, lNil)
}

// Q_C19_parts: the prefix of any address; the address, mask and range of any
// prefix, of either family, foreign or nil.
func Q_C19_parts() {
	k, a, a4, a6 := anyAddress("a")
	p := ip.PrefixFromAddress(a)
	switch k {
	case k4:
		q, ok := p.(ipv4.Prefix)
		sym.Assert(ok, lFam)
		sym.Assert(q == a4.Prefix() && q.Length() == 32 && q.Address() == a4, "the prefix of an address is its host route")
		x := ipv4.PrefixFromAddressMask(a4, mask4("m"))
		sym.Assert(ip.AddressFromPrefix(x) == ip.Address(x.Address()), lSame)
		sym.Assert(ip.MaskFromPrefix(x) == ip.Mask(x.Mask()), lSame)
		sym.Assert(ip.RangeFromPrefix(x) == ip.Range(x.Range()), lSame)
		y, err := ip.PrefixFromAddressMask(ip.AddressFromPrefix(x), ip.MaskFromPrefix(x))
		sym.Assert(err == nil && y == ip.Prefix(x), "a prefix is made of its address and mask")
	case k6:
		q, ok := p.(ipv6.Prefix)
		sym.Assert(ok, lFam)
		sym.Assert(q == a6.Prefix() && q.Length() == 128 && q.Address() == a6, "the prefix of an address is its host route")
		x := ipv6.PrefixFromAddressMask(a6, mask6("m"))
		sym.Assert(ip.AddressFromPrefix(x) == ip.Address(x.Address()), lSame)
		sym.Assert(ip.MaskFromPrefix(x) == ip.Mask(x.Mask()), lSame)
		sym.Assert(ip.RangeFromPrefix(x) == ip.Range(x.Range()), lSame)
		y, err := ip.PrefixFromAddressMask(ip.AddressFromPrefix(x), ip.MaskFromPrefix(x))
		sym.Assert(err == nil && y == ip.Prefix(x), "a prefix is made of its address and mask")
	default:
		sym.Assert(p == nil, lNil)
		var x ip.Prefix
		if k == kForeign {
			x = foreign{}
		}
		sym.Assert(ip.AddressFromPrefix(x) == nil && ip.MaskFromPrefix(x) == nil && ip.RangeFromPrefix(x) == nil, lNil)
	}
}

// Q_C19_netip: any bytes of up to 20 as a net.IP.
func Q_C19_netip() {
	n := sym.Choose("n", 21)
	var b net.IP
	if n > 0 || sym.Choose("nil", 2) == 0 {
		b = sym.Bytes("b", n)
	}
	a, err := ip.AddressFromNetIP(b)
	switch n {
	case 4:
		want, _ := ipv4.AddressFromNetIP(b)
		got, ok := a.(ipv4.Address)
		sym.Assert(err == nil && ok && got == want, lSize)
		c, err := ip.AddressFromNetIP(a.ToNetIP())
		sym.Assert(err == nil && c == a, "an address is converted to a net.IP and back")
	case 16:
		want, _ := ipv6.AddressFromNetIP(b)
		got, ok := a.(ipv6.Address)
		sym.Assert(err == nil && ok && got == want, lSize)
		c, err := ip.AddressFromNetIP(a.ToNetIP())
		sym.Assert(err == nil && c == a, "an address is converted to a net.IP and back")
	default:
		sym.Assert(err != nil, lSize)
	}
}

// Q_C19_netmask: masks of any number of ones of any size up to 17 bytes; masks
// of 0, a third, all but 5 or all ones with one byte replaced by any other.
func Q_C19_netmask() {
	n := sym.Choose("n", 18)
	m := make(net.IPMask, n)
	ones := sym.Choose("ones", n*8+1)
	for i := range m {
		switch {
		case ones >= i*8+8:
			m[i] = 0xff
		case ones > i*8:
			m[i] = 0xff << (8 - (ones - i*8))
		}
	}
	bad := n != 4 && n != 16
	some := ones == 0 || ones == n*8/3 || ones == n*8-5 || ones == n*8
	if !bad && some && sym.Choose("replace", 2) == 1 {
		i := sym.Choose("at", n)
		x := sym.Uint8("byte")
		sym.Assume(x != m[i])
		m[i] = x
		// the number of leading ones, and whether there are no others
		ones, bad = 0, false
		end := false
		for j := 0; j < n*8; j++ {
			one := m[j/8]>>(7-j%8)&1 == 1
			if sym.Split(one) {
				bad = bad || end
				if !end {
					ones++
				}
			} else {
				end = true
			}
		}
	}
	got, err := ip.MaskFromNetIPMask(m)
	if bad {
		sym.Assert(err != nil, "masks of other sizes or that are not contiguous are rejected")
		return
	}
	sym.Assert(err == nil && got.Length() == ones, "a mask has the length of the net.IPMask")
	_, is4 := got.(ipv4.Mask)
	_, is6 := got.(ipv6.Mask)
	sym.Assert(is4 == (n == 4) && is6 == (n == 16), lSize)
}

// Q_C19_ipnet: IPNets with any address bytes of any size up to 17 and masks of
// 0, 4 or 16 bytes.
func Q_C19_ipnet() {
	n := sym.Choose("n", 18)
	b := sym.Bytes("b", n)
	bits := []int{0, 32, 128}[sym.Choose("bits", 3)]
	ones := sym.Choose("ones", bits+1)
	var m net.IPMask
	if bits > 0 {
		m = net.CIDRMask(ones, bits)
	}
	x := &net.IPNet{IP: b, Mask: m}
	p, err := ip.PrefixFromNetIPNet(x)
	switch {
	case n == 4 && bits == 32:
		want, e := ipv4.PrefixFromNetIPNet(x)
		got, ok := p.(ipv4.Prefix)
		sym.Assert(err == nil && e == nil && ok && got == want && got.Length() == ones, lSize)
	case n == 16 && bits == 128:
		want, e := ipv6.PrefixFromNetIPNet(x)
		got, ok := p.(ipv6.Prefix)
		sym.Assert(err == nil && e == nil && ok && got == want && got.Length() == ones, lSize)
	default:
		sym.Assert(err != nil, lSize)
	}
	_, err = ip.PrefixFromNetIPNet(nil)
	sym.Assert(err != nil, lErr)
}

// texts with every byte of which one is replaced
var texts = []string{"1.2.3.4", "255.0.10.99", "::", "1::2", "a:b:c:d:e:f:1:2", "::1.2.3.4", "1.2.3.4/8", "0.0.0.0/32", "::/0", "1::/128", "::ffff:1.2.3.4"}

// text is a text with one byte replaced by any other, or any of up to 3 bytes.
func text() string {
	if sym.Choose("short", 2) == 1 {
		return string(sym.Bytes("text", sym.Choose("n", 4)))
	}
	s := []byte(texts[sym.Choose("text", len(texts))])
	s[sym.Choose("at", len(s))] = sym.Uint8("byte")
	return string(s)
}

func colon(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = sym.Or(r, s[i] == ':')
	}
	return sym.Split(r)
}

// Q_C19_text: texts of addresses and prefixes with one byte replaced by any,
// and any of up to 3 bytes.
func Q_C19_text() {
	s := text()
	six := colon(s)
	a, err := ip.AddressFromString(s)
	p, perr := ip.PrefixFromString(s)
	if six {
		b, e := ipv6.AddressFromString(s)
		sym.Assert((err == nil) == (e == nil), lText)
		if err == nil {
			c, ok := a.(ipv6.Address)
			sym.Assert(ok && c == b, lText)
		}
		q, e := ipv6.PrefixFromString(s)
		sym.Assert((perr == nil) == (e == nil), lText)
		if perr == nil {
			r, ok := p.(ipv6.Prefix)
			sym.Assert(ok && r == q, lText)
		}
		return
	}
	b, e := ipv4.AddressFromString(s)
	sym.Assert((err == nil) == (e == nil), lText)
	if err == nil {
		c, ok := a.(ipv4.Address)
		sym.Assert(ok && c == b, lText)
	}
	q, e := ipv4.PrefixFromString(s)
	sym.Assert((perr == nil) == (e == nil), lText)
	if perr == nil {
		r, ok := p.(ipv4.Prefix)
		sym.Assert(ok && r == q, lText)
	}
}
