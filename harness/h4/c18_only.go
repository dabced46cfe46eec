package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

// dec is the decimal form of a number below 256.
func dec(b byte) string {
	var s []byte
	if b >= 100 {
		s = append(s, '0'+b/100)
	}
	if b >= 10 {
		s = append(s, '0'+b/10%10)
	}
	return string(append(s, '0'+b%10))
}

func quad(b []byte) string {
	return dec(b[0]) + "." + dec(b[1]) + "." + dec(b[2]) + "." + dec(b[3])
}

// Q_C18_address: any address as a string and back.
func Q_C18_address() {
	b := sym.Bytes("b", 4)
	a := fam.AddressFromBytes(b[0], b[1], b[2], b[3])
	s := a.String()
	sym.Assert(s == quad(b), "an address is written in dotted-quad notation")
	c, err := fam.AddressFromString(s)
	sym.Assert(err == nil, "an address that was written is read")
	sym.Assert(c == a, "an address that was written is read back as the same")
}

// Q_C18_prefix: a prefix of any length and any address in which three of the
// bytes have two or three digits, as a string and back.
func Q_C18_prefix() {
	b := sym.Bytes("b", 4)
	sym.Assume(b[0] >= 100 && b[1] >= 100 && b[2] >= 10 && b[2] < 100)
	l := anyLen("l", 0, 32)
	p := fam.PrefixFromAddressMask(fam.AddressFromBytes(b[0], b[1], b[2], b[3]), mustMask(l))
	s := p.String()
	sym.Assert(s == quad(b)+"/"+dec(byte(l)), "a prefix is written in CIDR notation")
	q, err := fam.PrefixFromString(s)
	sym.Assert(err == nil, "a prefix that was written is read")
	sym.Assert(q == p, "a prefix that was written is read back as the same, host bits included")
}

// Q_C18_prefixAddr: any address with one of 3 lengths as a string and back.
func Q_C18_prefixAddr() {
	b := sym.Bytes("b", 4)
	l := []uint32{0, 9, 32}[sym.Choose("l", 3)]
	p := fam.PrefixFromAddressMask(fam.AddressFromBytes(b[0], b[1], b[2], b[3]), mustMask(l))
	s := p.String()
	sym.Assert(s == quad(b)+"/"+dec(byte(l)), "a prefix is written in CIDR notation")
	q, err := fam.PrefixFromString(s)
	sym.Assert(err == nil, "a prefix that was written is read")
	sym.Assert(q == p, "a prefix that was written is read back as the same, host bits included")
}

// Q_C18_mask: the string of any mask.
func Q_C18_mask() {
	l := anyLen("l", 0, 32)
	m := wMask(l).v
	b := []byte{byte(m >> 24), byte(m >> 16), byte(m >> 8), byte(m)}
	sym.Assert(mustMask(l).String() == quad(b), "a mask is written in dotted-quad notation")
}

func wQuad(w W) string {
	return quad([]byte{byte(w.v >> 24), byte(w.v >> 16), byte(w.v >> 8), byte(w.v)})
}

// Q_C18_range: the string of a range whose ends have an arbitrary byte each.
func Q_C18_range() {
	at := uint32(sym.Choose("at", 4)) * 8
	f := wOr(wc(0x01020304&^(0xff<<at)), wShl(wc(uint64(sym.Uint8("first"))), at))
	l := wOr(wc(0xfbfcfdfe&^(0xff<<at)), wShl(wc(uint64(sym.Uint8("last"))), at))
	sym.Assume(wLe(f, l))
	sym.Assert(mkRange(f, l).String() == "["+wQuad(f)+","+wQuad(l)+"]", "a range is written with its ends")
}

// Q_C18_set: the string of a set of up to two prefixes with 4 arbitrary bits
// each, of 3 lengths.
func Q_C18_set() {
	var ps []P
	for i := 0; i < sym.Choose("n", 3); i++ {
		ps = append(ps, P{wOr(wc(0x0a0b0c00), wc(uint64(sym.Uint8("a")&0xf0))), 26 + uint32(sym.Choose("l", 3))})
	}
	a := build(ps)
	s := ""
	for i, p := range prefixesOf(a) {
		if i > 0 {
			s += ", "
		}
		s += wQuad(p.a) + "/" + dec(byte(p.l))
	}
	sym.Assert(a.String() == "["+s+"]", "a set is written as its prefixes")
}

// parseQuad is a reference for dotted-quad notation: four numbers below 256
// without leading zeroes, separated by dots.
func parseQuad(b []byte) (w W, ok bool) {
	parts, digits, v := 0, 0, uint32(0)
	for i := 0; i <= len(b); i++ {
		if i == len(b) || b[i] == '.' {
			if digits == 0 || v > 255 {
				return w, false
			}
			w = wOr(wShl(w, 8), wc(uint64(v)))
			parts++
			digits, v = 0, 0
			continue
		}
		if b[i] < '0' || '9' < b[i] || digits > 0 && v == 0 || digits == 3 {
			return w, false
		}
		v = v*10 + uint32(b[i]-'0')
		digits++
	}
	return w, parts == 4
}

func checkParse(b []byte) {
	w, ok := parseQuad(b)
	a, err := fam.AddressFromString(string(b))
	sym.Assert((err == nil) == ok, "a string is read iff it is in dotted-quad notation")
	if ok {
		sym.Assert(wEq(addrW(a), w), "a string is read as the address it denotes")
	}
	p, err := fam.PrefixFromString(string(b) + "/9")
	sym.Assert((err == nil) == ok, "the address of a prefix is read iff it is one by itself")
	if ok && err == nil {
		sym.Assert(pExact(prefixP(p), P{w, 9}), "a string is read as the prefix it denotes")
	}
}

// Q_C18_parse7: any string of up to seven bytes.
func Q_C18_parse7() { checkParse(sym.Bytes("b", sym.Choose("n", 8))) }

// Q_C18_mapped: an address of the other family, with an arbitrary byte or two
// in place of any two.
func Q_C18_mapped() {
	tmpl := []string{"::ffff:10.1.2.3", "::10.1.2.3", "::ffff:a01:203", "0:0:0:0:0:ffff:10.1.2.3"}
	t := tmpl[sym.Choose("template", len(tmpl))]
	at := sym.Choose("at", len(t)-1)
	b := append([]byte(t[:at]), sym.Bytes("b", sym.Choose("n", 3))...)
	b = append(b, t[at+2:]...)
	checkParse(b)
	_, ok := parseQuad(b)
	_, err := fam.PrefixFromString(string(b) + "/2")
	sym.Assert((err == nil) == ok, "a prefix of the other family is rejected")
}

// Q_C18_parseAround: a valid string in which any two neighbouring bytes are
// replaced by up to three arbitrary ones.
func Q_C18_parseAround() {
	tmpl := []string{"192.168.0.1", "255.25.249.100"}[sym.Choose("template", 2)]
	at := sym.Choose("at", len(tmpl)-1)
	b := []byte(tmpl[:at])
	mid := sym.Bytes("b", sym.Choose("n", 4))
	b = append(append(b, mid...), tmpl[at+2:]...)
	checkParse(b)
}

// Q_C18_parsePrefix: a slash and any up to three bytes after an address, or
// nothing. (The length may have leading zeroes.)
func Q_C18_parsePrefix() {
	t := sym.Bytes("b", sym.Choose("n", 5))
	if len(t) > 0 {
		sym.Assume(t[0] == '/')
	}
	s := "10.1.2.3" + string(t)
	l, ok := uint32(0), len(t) > 1 && t[0] == '/'
	if ok {
		for _, x := range t[1:] {
			if x < '0' || '9' < x {
				ok = false
				break
			}
			l = l*10 + uint32(x-'0')
		}
	}
	if l > 32 {
		ok = false
	}
	p, err := fam.PrefixFromString(s)
	sym.Assert((err == nil) == ok, "a string is read iff it is in CIDR notation")
	if ok {
		sym.Assert(pExact(prefixP(p), P{wc(0x0a010203), l}), "a string is read as the prefix it denotes")
	}
}
