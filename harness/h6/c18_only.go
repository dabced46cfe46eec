package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// groupsOf draws eight groups of which those in at are arbitrary and the
// others zero or not.
func groupsOf(at []int, other uint16) (g [8]uint16, w W) {
	for i := range g {
		g[i] = other
	}
	for _, i := range at {
		g[i] = sym.Uint16("g")
	}
	for i := range g {
		w = wOr(wShl(w, 16), wc(uint64(g[i])))
	}
	return
}

func hex(v uint16) string {
	var s []byte
	for i := 12; i >= 0; i -= 4 {
		d := byte(v >> i & 15)
		if len(s) > 0 || v>>i != 0 || i == 0 {
			if d < 10 {
				s = append(s, '0'+d)
			} else {
				s = append(s, 'a'+d-10)
			}
		}
	}
	return string(s)
}

// notation is the canonical form of an address (RFC 5952).
func notation(g [8]uint16) string {
	best, n := -1, 1
	for i := 0; i < 8; i++ {
		j := i
		for j < 8 && g[j] == 0 {
			j++
		}
		if j-i > n {
			best, n = i, j-i
		}
	}
	s := ""
	for i := 0; i < 8; i++ {
		if i == best {
			s += "::"
			i += n - 1
			continue
		}
		if i > 0 && i != best+n || best < 0 && i > 0 {
			s += ":"
		}
		s += hex(g[i])
	}
	return s
}

// mapped address notation is used for those (RFC 5952, section 5).
func dec(b byte) string {
	var s []byte
	if b >= 100 {
		s = append(s, '0'+b/100)
	}
	if b >= 10 {
		s = append(s, '0'+b/10%10)
	}
	return string(append(s, '0'+b%10))
}

// mapped reports whether the address is an IPv4-mapped one.
func mapped(g [8]uint16) bool {
	return g[0] == 0 && g[1] == 0 && g[2] == 0 && g[3] == 0 && g[4] == 0 && g[5] == 0xffff
}

func checkString(g [8]uint16, w W) {
	a := mkAddr(w)
	s := a.String()
	n := ""
	if mapped(g) {
		n = "::ffff:" + dec(byte(g[6]>>8)) + "." + dec(byte(g[6])) + "." + dec(byte(g[7]>>8)) + "." + dec(byte(g[7]))
	} else {
		n = notation(g)
	}
	sym.Assert(s == n, "an address is written in the canonical notation")
	b, err := fam.AddressFromString(s)
	sym.Assert(err == nil, "an address that was written is read")
	sym.Assert(b == a, "an address that was written is read back as the same")
}

// Q_C18_one: any value of any one group, the others all zero or all not.
func Q_C18_one() {
	g, w := groupsOf([]int{sym.Choose("at", 8)}, []uint16{0, 0xdb8}[sym.Choose("other", 2)])
	checkString(g, w)
}

// Q_C18_two: any values of two neighbouring groups.
func Q_C18_two() {
	i := sym.Choose("at", 7)
	g, w := groupsOf([]int{i, i + 1}, []uint16{0, 0xdb8}[sym.Choose("other", 2)])
	checkString(g, w)
}

// Q_C18_mapped: IPv4-mapped addresses, one of the groups arbitrary.
func Q_C18_mapped() {
	at := 6 + sym.Choose("at", 2)
	g, _ := groupsOf([]int{at}, 0x0a01)
	w := wc(0)
	for i := range g {
		if i < 5 {
			g[i] = 0
		}
		if i == 5 {
			g[i] = 0xffff
		}
		w = wOr(wShl(w, 16), wc(uint64(g[i])))
	}
	checkString(g, w)
}

// Q_C18_zeroes: every group is zero or not.
func Q_C18_zeroes() {
	var g [8]uint16
	w := wc(0)
	for i := range g {
		if sym.Choose("zero", 2) == 0 {
			g[i] = 0x20a
		}
		w = wOr(wShl(w, 16), wc(uint64(g[i])))
	}
	checkString(g, w)
}

// Q_C18_prefix: a prefix of any length with an arbitrary group.
func Q_C18_prefix() {
	g, w := groupsOf([]int{sym.Choose("at", 2) * 7}, 0)
	l := anyLen("l", 0, 128)
	p := mkPrefix(P{w, l})
	s := p.String()
	n := ""
	if l >= 100 {
		n = "1"
	}
	if l >= 10 {
		n += string([]byte{'0' + byte(l/10%10)})
	}
	n += string([]byte{'0' + byte(l%10)})
	sym.Assert(s == notation(g)+"/"+n, "a prefix is written in CIDR notation")
	q, err := fam.PrefixFromString(s)
	sym.Assert(err == nil, "a prefix that was written is read")
	sym.Assert(q == p, "a prefix that was written is read back as the same, host bits included")
}

// Q_C18_mask: the string of any mask.
func Q_C18_mask() {
	l := anyLen("l", 0, 128)
	w := wMask(l)
	var g [8]uint16
	for i := range g {
		g[i] = uint16(wShr(w, uint32(112-16*i)).l)
	}
	sym.Assert(mustMask(l).String() == notation(g), "a mask is written like an address")
}

// Q_C18_v4: a dotted quad is not an address of this family.
func Q_C18_v4() {
	b := sym.Bytes("b", 7)
	for i, x := range b {
		if i%2 == 1 {
			sym.Assume(x == '.')
		} else {
			sym.Assume('0' <= x && x <= '9')
		}
	}
	_, err := fam.AddressFromString(string(b))
	sym.Assert(err != nil, "a dotted quad is not an address of this family")
	_, err = fam.PrefixFromString(string(b) + "/8")
	sym.Assert(err != nil, "a dotted quad is not a prefix of this family")
}
