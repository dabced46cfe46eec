// Package h4 holds the symbolic harnesses for the ipv4 package. All of them
// use only its public API.
package h4

import (
	fam "gopkg.in/addrs.v1/ipv4"

	"verif/harness/sym"
)

const (
	bits   = 32
	family = 4
)

// W is an address as a plain number.
type W struct{ v uint32 }

type (
	Address = fam.Address
	Prefix  = fam.Prefix
	Mask    = fam.Mask
	Range   = fam.Range
	Set     = fam.Set
	Set_    = fam.Set_
	SetI    = fam.SetI
	PrefixI = fam.PrefixI
)

func symW(name string) W { return W{sym.Uint32(name)} }

func wc(v uint64) W { return W{uint32(v)} }

func wOnes() W { return W{^uint32(0)} }

// wBit has bit i (counted from the most significant) set.
func wBit(i uint32) W { return W{uint32(0x80000000) >> i} }

func wMask(l uint32) W { return W{^uint32(0) << (32 - l)} }

func wEq(a, b W) bool      { return a.v == b.v }
func wLt(a, b W) bool      { return a.v < b.v }
func wLe(a, b W) bool      { return a.v <= b.v }
func wAnd(a, b W) W        { return W{a.v & b.v} }
func wOr(a, b W) W         { return W{a.v | b.v} }
func wXor(a, b W) W        { return W{a.v ^ b.v} }
func wNot(a W) W           { return W{^a.v} }
func wInc(a W) W           { return W{a.v + 1} }
func wDec(a W) W           { return W{a.v - 1} }
func wShl(a W, n uint32) W { return W{a.v << n} }
func wShr(a W, n uint32) W { return W{a.v >> n} }
func wIte(c bool, a, b W) W {
	return W{sym.Ite32(c, a.v, b.v)}
}

func mkAddr(w W) Address     { return fam.AddressFromUint32(w.v) }
func addrW(a Address) W      { return W{a.Uint32()} }
func maskW(m Mask) W         { return W{m.Uint32()} }
func observeW(l string, w W) { sym.Observe(l, uint64(w.v)) }
func lemmaW(a, b W)          { sym.Lemma(uint64(a.v), uint64(b.v)) }

func mkRange(f, l W) Range {
	r, empty := fam.RangeFromAddresses(mkAddr(f), mkAddr(l))
	sym.Assert(!empty, "a range whose first address is not after the last is not empty")
	return r
}
