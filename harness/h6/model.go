package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

// P is a prefix as plain numbers: address bits (host bits included) and length.
type P struct {
	a W
	l uint32
}

func mustMask(l uint32) Mask {
	m, err := fam.MaskFromLength(int(l))
	if err != nil {
		panic("mask")
	}
	return m
}

func mkPrefix(p P) Prefix {
	m := mustMask(p.l)
	lemmaW(maskW(m), wMask(p.l))
	q := fam.PrefixFromAddressMask(mkAddr(p.a), m)
	sym.Lemma(uint64(q.Length()), uint64(p.l))
	return q
}

func prefixP(p Prefix) P { return P{addrW(p.Address()), uint32(p.Length())} }

// symPL is an arbitrary prefix of the given length, host bits included.
func symPL(name string, l uint32) P { return P{symW(name), l} }

// scale picks the shortest length of a window of g+1 lengths, from a list.
func scale(g uint32, list ...uint32) uint32 {
	s := list[sym.Choose("scale", len(list))]
	if s > bits-g {
		s = bits - g
	}
	return s
}

// anyScale picks the shortest length of a window of g+1 lengths.
func anyScale(g uint32) uint32 { return anyLen("scale", 0, bits-g) }

func anyLen(name string, lo, hi uint32) uint32 {
	return lo + uint32(sym.Choose(name, int(hi-lo+1)))
}

// wJoin has the first s bits of a and the others of b.
func wJoin(a, b W, s uint32) W {
	return wOr(wAnd(a, wMask(s)), wAnd(b, wNot(wMask(s))))
}

// windowed draws n arbitrary prefixes, host bits included, whose lengths lie
// in [s, s+g] and which agree with base in the first s bits.
func windowed(base W, name string, n int, s, g uint32) []P {
	var ps []P
	for i := 0; i < n; i++ {
		p := symPL(name, anyLen(name+".len", s, s+g))
		p.a = wJoin(base, p.a, s)
		ps = append(ps, p)
	}
	return ps
}

// sparse lists lengths spread over the whole range.
var sparse = func() []uint32 {
	if bits == 32 {
		return []uint32{0, 1, 8, 15, 17, 24, 31, 32}
	}
	return []uint32{0, 1, 33, 63, 64, 65, 127, 128}
}()

func sparseLen(name string) uint32 { return sparse[sym.Choose(name, len(sparse))] }

// patterns of bits for the part of a long prefix that a short one leaves open
func pattern(i int) W {
	switch i {
	case 0:
		return wc(0)
	case 1:
		return wOnes()
	}
	w := wc(0)
	for i := uint32(0); i < bits; i += 3 {
		w = wOr(w, wBit(i))
	}
	return w
}

// gapPair draws two prefixes of arbitrary lengths from the sparse list. The
// first is arbitrary. The second agrees with it in the first bits, except
// possibly in the last of them, and has one of three bit patterns from there to its own
// length. Both have arbitrary host bits.
func gapPair(name string) (p, q P) {
	p = symPL(name+"1", sparseLen(name+".len1"))
	q = symPL(name+"2", sparseLen(name+".len2"))
	if q.l < p.l {
		sym.Assume(false)
	}
	mid := wJoin(p.a, pattern(sym.Choose(name+".pattern", 3)), p.l)
	if p.l > 0 && sym.Choose(name+".apart", 2) == 1 {
		mid = wXor(mid, wBit(p.l-1))
	}
	q.a = wJoin(mid, q.a, q.l)
	return
}

// pNetwork reports whether p has no host bits.
func pNetwork(p P) bool { return wEq(wAnd(p.a, wMask(p.l)), p.a) }

func pFirst(p P) W { return wAnd(p.a, wMask(p.l)) }
func pLast(p P) W  { return wOr(p.a, wNot(wMask(p.l))) }

// pHas reports whether address x is in p.
func pHas(p P, x W) bool { return wEq(wAnd(wXor(p.a, x), wMask(p.l)), wc(0)) }

// pCovers reports whether every address of q is in p.
func pCovers(p, q P) bool { return sym.And(p.l <= q.l, pHas(p, q.a)) }

// pSame reports whether p and q have the same addresses.
func pSame(p, q P) bool { return sym.And(p.l == q.l, pHas(p, q.a)) }

// pExact reports whether p and q are identical, host bits included.
func pExact(p, q P) bool { return sym.And(p.l == q.l, wEq(p.a, q.a)) }

// pDisjoint reports whether p and q share no address.
func pDisjoint(p, q P) bool { return sym.And(sym.Not(pCovers(p, q)), sym.Not(pCovers(q, p))) }

// pBefore reports whether p comes before q in lexicographical order.
func pBefore(p, q P) bool {
	f, g := pFirst(p), pFirst(q)
	return sym.Or(wLt(f, g), sym.And(wEq(f, g), p.l < q.l))
}

// anyHas reports whether x is in one of ps.
func anyHas(ps []P, x W) bool {
	r := false
	for _, p := range ps {
		r = sym.Or(r, pHas(p, x))
	}
	return r
}

// anyCovers reports whether one of ps contains q.
func anyCovers(ps []P, q P) bool {
	r := false
	for _, p := range ps {
		r = sym.Or(r, pCovers(p, q))
	}
	return r
}

// sameList reports whether two lists of prefixes are identical.
func sameList(as, bs []P) bool {
	if len(as) != len(bs) {
		return false
	}
	r := true
	for i := range as {
		r = sym.And(r, pExact(as[i], bs[i]))
	}
	return r
}

// prefixesOf lists the prefixes of a set in walk order.
func prefixesOf(s Set) []P {
	var out []P
	s.WalkPrefixes(func(p Prefix) bool {
		out = append(out, prefixP(p))
		return true
	})
	return out
}

// build inserts the prefixes into a new set.
func build(ps []P) Set {
	s := fam.NewSet_()
	for _, p := range ps {
		s.Insert(mkPrefix(p))
	}
	return s.Set()
}

// canonical asserts that the walk yields sorted, disjoint, non-mergeable
// prefixes without host bits. There is only one such list for any set of
// addresses.
func canonical(ps []P) {
	for i, p := range ps {
		sym.Assert(pNetwork(p), "walked prefixes have no host bits")
		if i > 0 {
			q := ps[i-1]
			sym.Assert(wLt(pLast(q), pFirst(p)), "walked prefixes ascend and are disjoint")
			sib := sym.And(q.l == p.l, sym.And(q.l > 0, wEq(wXor(q.a, p.a), wBit(q.l-1))))
			sym.Assert(sym.Not(sib), "no two walked prefixes are halves of one prefix")
		}
	}
}
