package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// wNotation is the canonical form of the address.
func wNotation(w W) string {
	var g [8]uint16
	for i := range g {
		g[i] = uint16(wShr(w, uint32(112-16*i)).l)
	}
	return notation(g)
}

// Q_C18_range: the string of a range whose ends have an arbitrary group each.
func Q_C18_range() {
	at := uint32(sym.Choose("at", 3)) * 48
	f := wOr(wShl(wc(0x20010db8), 96), wShl(wc(uint64(sym.Uint16("first"))), at))
	l := wOr(wShl(wc(0x20020db8), 96), wShl(wc(uint64(sym.Uint16("last"))), at))
	if at == 96 {
		l = wOr(l, wc(1))
	}
	sym.Assume(wLe(f, l))
	sym.Assert(mkRange(f, l).String() == "["+wNotation(f)+","+wNotation(l)+"]", "a range is written with its ends")
}

// Q_C18_set: the string of a set of up to two prefixes with 4 arbitrary bits
// each, of 3 lengths.
func Q_C18_set() {
	var ps []P
	for i := 0; i < sym.Choose("n", 3); i++ {
		a := wOr(wShl(wc(0x20010db8), 96), wShl(wc(uint64(sym.Uint8("a")&0xf0)), 48))
		ps = append(ps, P{a, 74 + uint32(sym.Choose("l", 3))})
	}
	a := build(ps)
	s := ""
	for i, p := range prefixesOf(a) {
		if i > 0 {
			s += ", "
		}
		s += wNotation(p.a) + "/" + dec(byte(p.l))
	}
	sym.Assert(a.String() == "["+s+"]", "a set is written as its prefixes")
}

// quadOf is a reference for dotted-quad notation: four numbers below 256
// without leading zeroes, separated by dots.
func quadOf(b []byte) (v uint32, ok bool) {
	parts, digits, x := 0, 0, uint32(0)
	for i := 0; i <= len(b); i++ {
		if i == len(b) || b[i] == '.' {
			if digits == 0 || x > 255 {
				return 0, false
			}
			v = v<<8 | x
			parts++
			digits, x = 0, 0
			continue
		}
		if b[i] < '0' || '9' < b[i] || digits > 0 && x == 0 || digits == 3 {
			return 0, false
		}
		x = x*10 + uint32(b[i]-'0')
		digits++
	}
	return v, parts == 4
}

func hexDigit(x byte) (v uint16, ok bool) {
	switch {
	case '0' <= x && x <= '9':
		return uint16(x - '0'), true
	case 'a' <= x && x <= 'f':
		return uint16(x-'a') + 10, true
	case 'A' <= x && x <= 'F':
		return uint16(x-'A') + 10, true
	}
	return 0, false
}

// parseColons is a reference for the notation of addresses (RFC 4291): eight
// groups of one to four digits, the last two possibly as a dotted quad; two
// colons stand for one or more groups of zeroes, once.
func parseColons(b []byte) (w W, ok bool) {
	var groups []uint16
	gap, i := -1, 0
	if len(b) >= 2 && b[0] == ':' && b[1] == ':' {
		gap, i = 0, 2
	}
	for i < len(b) || gap < 0 {
		if len(groups) == 8 {
			return w, false
		}
		v, j := uint16(0), i
		for j < len(b) {
			d, ok := hexDigit(b[j])
			if !ok {
				break
			}
			if j-i == 4 {
				return w, false
			}
			v = v<<4 | d
			j++
		}
		if j == i {
			return w, false
		}
		if j < len(b) && b[j] == '.' {
			q, ok := quadOf(b[i:])
			if !ok || len(groups) > 6 {
				return w, false
			}
			groups = append(groups, uint16(q>>16), uint16(q))
			break
		}
		groups = append(groups, v)
		if j == len(b) {
			break
		}
		if b[j] != ':' {
			return w, false
		}
		i = j + 1
		if i == len(b) {
			return w, false
		}
		if b[i] == ':' {
			if gap >= 0 {
				return w, false
			}
			gap = len(groups)
			i++
		}
	}
	if gap < 0 && len(groups) != 8 || gap >= 0 && len(groups) > 7 {
		return w, false
	}
	for k, g := range groups {
		if k == gap {
			w = wShl(w, uint32(8-len(groups))*16)
		}
		w = wOr(wShl(w, 16), wc(uint64(g)))
	}
	if gap == len(groups) {
		w = wShl(w, uint32(8-len(groups))*16)
	}
	return w, true
}

func checkParse(b []byte) {
	w, ok := parseColons(b)
	a, err := fam.AddressFromString(string(b))
	sym.Assert((err == nil) == ok, "a string is read iff it is in colon notation")
	if ok && err == nil {
		sym.Assert(wEq(addrW(a), w), "a string is read as the address it denotes")
	}
	p, err := fam.PrefixFromString(string(b) + "/9")
	sym.Assert((err == nil) == ok, "the address of a prefix is read iff it is one by itself")
	if ok && err == nil {
		sym.Assert(pExact(prefixP(p), P{w, 9}), "a string is read as the prefix it denotes")
	}
}

// Q_C18_parse6: any string of up to six bytes.
func Q_C18_parse6() { checkParse(sym.Bytes("b", sym.Choose("n", 7))) }

// T_C18_parse8: any string of up to eight bytes.
func T_C18_parse8() { checkParse(sym.Bytes("b", sym.Choose("n", 9))) }

// Q_C18_parseAround: a valid string in which any two neighbouring bytes are
// replaced by up to two arbitrary ones.
func Q_C18_parseAround() { parseAround(3) }

// T_C18_parseAround: as above, up to three.
func T_C18_parseAround() { parseAround(4) }

func parseAround(n int) {
	tmpl := []string{
		"2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::1", "1::",
		"fe80:0:0:0:0:0:A:0042", "::ffff:192.168.0.1", "64:ff9b::1.2.3.40", "1:2:3:4:5:6:10.0.0.1",
	}
	t := tmpl[sym.Choose("template", len(tmpl))]
	at := sym.Choose("at", len(t)-1)
	b := append([]byte(t[:at]), sym.Bytes("b", sym.Choose("n", n))...)
	checkParse(append(b, t[at+2:]...))
}

// Q_C18_parsePrefix: a slash and any up to three bytes after an address, or
// nothing. (The length may have leading zeroes.)
func Q_C18_parsePrefix() {
	t := sym.Bytes("b", sym.Choose("n", 5))
	if len(t) > 0 {
		sym.Assume(t[0] == '/')
	}
	s := "2001:db8::5" + string(t)
	l, ok := uint32(0), len(t) > 1
	if ok {
		for _, x := range t[1:] {
			if x < '0' || '9' < x {
				ok = false
				break
			}
			l = l*10 + uint32(x-'0')
		}
	}
	if l > 128 {
		ok = false
	}
	p, err := fam.PrefixFromString(s)
	sym.Assert((err == nil) == ok, "a string is read iff it is in CIDR notation")
	if ok {
		sym.Assert(pExact(prefixP(p), P{wOr(wShl(wc(0x20010db8), 96), wc(5)), l}), "a string is read as the prefix it denotes")
	}
}
