// Package h6 holds the symbolic harnesses for the ipv6 package. All of them
// use only its public API. Files other than base.go and *_only.go are
// generated from h4 by gen.sh.
package h6

import (
	fam "gopkg.in/addrs.v1/ipv6"

	"verif/harness/sym"
)

const (
	bits   = 128
	family = 6
)

// W is an address as a plain number.
type W struct{ h, l uint64 }

type (
	Address = fam.Address
	Prefix  = fam.Prefix
	Mask    = fam.Mask
	Range   = fam.Range
	Set     = fam.Set
	Set_    = fam.Set_
	SetI    = fam.SetI
	PrefixI = fam.PrefixI
)

func symW(name string) W { return W{sym.Uint64(name + ".hi"), sym.Uint64(name + ".lo")} }

func wc(v uint64) W { return W{0, v} }

func wOnes() W { return W{^uint64(0), ^uint64(0)} }

// wBit has bit i (counted from the most significant) set.
func wBit(i uint32) W {
	return W{uint64(1<<63) >> i, sym.Ite64(i >= 64, uint64(1<<63)>>(i-64), 0)}
}

func wMask(l uint32) W {
	return W{
		sym.Ite64(l >= 64, ^uint64(0), ^uint64(0)<<(64-l)),
		sym.Ite64(l >= 64, ^uint64(0)<<(128-l), 0),
	}
}

func wEq(a, b W) bool { return sym.And(a.h == b.h, a.l == b.l) }
func wLt(a, b W) bool { return sym.Or(a.h < b.h, sym.And(a.h == b.h, a.l < b.l)) }
func wLe(a, b W) bool { return sym.Not(wLt(b, a)) }
func wAnd(a, b W) W   { return W{a.h & b.h, a.l & b.l} }
func wOr(a, b W) W    { return W{a.h | b.h, a.l | b.l} }
func wXor(a, b W) W   { return W{a.h ^ b.h, a.l ^ b.l} }
func wNot(a W) W      { return W{^a.h, ^a.l} }
func wInc(a W) W {
	return W{a.h + sym.B2U(a.l == ^uint64(0)), a.l + 1}
}
func wDec(a W) W {
	return W{a.h - sym.B2U(a.l == 0), a.l - 1}
}
func wShl(a W, n uint32) W {
	return W{
		sym.Ite64(n >= 64, a.l<<(n-64), a.h<<n|a.l>>(64-n)),
		a.l << n,
	}
}
func wShr(a W, n uint32) W {
	return W{
		a.h >> n,
		sym.Ite64(n >= 64, a.h>>(n-64), a.l>>n|a.h<<(64-n)),
	}
}
func wIte(c bool, a, b W) W {
	return W{sym.Ite64(c, a.h, b.h), sym.Ite64(c, a.l, b.l)}
}

func mkAddr(w W) Address { return fam.AddressFromUint64(w.h, w.l) }
func addrW(a Address) W {
	h, l := a.Uint64()
	return W{h, l}
}
func maskW(m Mask) W {
	h, l := m.Uint64()
	return W{h, l}
}
func observeW(l string, w W) {
	sym.Observe(l+".hi", w.h)
	sym.Observe(l+".lo", w.l)
}
func lemmaW(a, b W) {
	sym.Lemma(a.h, b.h)
	sym.Lemma(a.l, b.l)
}

func mkRange(f, l W) Range {
	r, empty := fam.RangeFromAddresses(mkAddr(f), mkAddr(l))
	sym.Assert(!empty, "a range whose first address is not after the last is not empty")
	return r
}
