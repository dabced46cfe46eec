package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op enumerates the term constructors. Width 0 denotes the Bool sort, any
// other width a bit-vector of that many bits (at most 64).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq  // bool result, any operands
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // k = low bit, w = width
	OConcat
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvult", "bvule", "bvslt", "bvsle",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot",
	"bvshl", "bvlshr", "bvashr", "zext", "sext", "extract", "concat"}

// Term is a hash-consed expression node.
type Term struct {
	id      int32
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	name    string
	lo, hi  uint64 // unsigned interval (bit-vectors only)

	ev      uint64
	evEpoch uint32

	rw      *Term // proven-equal replacement, valid while rwEpoch==ctx.rwEpoch
	rwEpoch uint32

	def bool // defined in the solver
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

// Ctx owns the term graph of one worker.
type Ctx struct {
	tab     map[termKey]*Term
	vars    map[string]*Term
	varList []*Term
	next    int32
	epoch   uint32
	rwEpoch uint32
	tru     *Term
	fls     *Term
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, vars: map[string]*Term{}}
	c.tru = c.Bool(true)
	c.fls = c.Bool(false)
	return c
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) raw(op Op, w uint8, a, b, d *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(d), k}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{id: c.next, op: op, w: w, a: a, b: b, c: d, k: k}
	c.next++
	c.interval(t)
	c.tab[key] = t
	if w > 0 && op != OConst && t.lo == t.hi {
		// the interval pins the value; use the constant instead
		k := c.BV(w, t.lo)
		c.tab[key] = k
		return k
	}
	return t
}

func (c *Ctx) interval(t *Term) {
	m := maskW(t.w)
	t.lo, t.hi = 0, m
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		s, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		} else if lo, cl := bits.Add64(a.lo, b.lo, 0); (cl == 1 || lo > m) && (carry == 0 || t.w == 64) {
			// always wraps exactly once
			t.lo, t.hi = lo&m, s&m
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = a.lo*b.lo, l
		}
	case OUdiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OUrem:
		if b.lo > 0 {
			if a.hi < b.lo {
				t.lo, t.hi = a.lo, a.hi
			} else {
				t.hi = min(a.hi, b.hi-1)
			}
		}
	case OBand:
		t.hi = min(a.hi, b.hi)
	case OBor:
		t.lo = max(a.lo, b.lo)
		l := bits.Len64(a.hi | b.hi)
		t.hi = maskW(uint8(l))
		if l == 0 {
			t.hi = 0
		}
	case OBxor:
		l := bits.Len64(a.hi | b.hi)
		t.hi = maskW(uint8(l))
		if l == 0 {
			t.hi = 0
		}
	case OBnot:
		t.lo, t.hi = m-a.hi, m-a.lo
	case OLshr:
		if b.op == OConst {
			if b.k >= uint64(t.w) {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = a.lo>>b.k, a.hi>>b.k
			}
		} else {
			t.hi = a.hi
			if b.lo < 64 {
				t.hi = a.hi >> b.lo
			} else {
				t.hi = 0
			}
		}
	case OShl:
		if b.op == OConst && b.k < uint64(t.w) && bits.Len64(a.hi)+int(b.k) <= int(t.w) {
			t.lo, t.hi = a.lo<<b.k, a.hi<<b.k
		}
	case OZext:
		t.lo, t.hi = a.lo, a.hi
	case OSext:
		if a.hi < uint64(1)<<(a.w-1) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OExtract:
		if t.k == 0 {
			if a.hi <= m {
				t.lo, t.hi = a.lo, a.hi
			}
		} else if x := a.hi >> t.k; x <= m {
			t.lo, t.hi = a.lo>>t.k, x
		}
	case OConcat:
		t.lo, t.hi = a.lo<<b.w|b.lo, a.hi<<b.w|b.hi
	}
}

func (c *Ctx) Bool(v bool) *Term {
	k := uint64(0)
	if v {
		k = 1
	}
	return c.raw(OConst, 0, nil, nil, nil, k)
}

func (c *Ctx) BV(w uint8, v uint64) *Term {
	return c.raw(OConst, w, nil, nil, nil, v&maskW(w))
}

// Var returns the named variable restricted to [lo,hi]; the restriction is
// also asserted by the caller.
func (c *Ctx) Var(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s:%d:%d:%d", name, w, lo, hi)
	if t, ok := c.vars[key]; ok {
		return t
	}
	t := &Term{id: c.next, op: OVar, w: w, name: name, lo: lo, hi: hi, k: uint64(len(c.varList))}
	c.next++
	c.vars[key] = t
	c.varList = append(c.varList, t)
	return t
}

func (c *Ctx) r(t *Term) *Term {
	for t.rw != nil && t.rwEpoch == c.rwEpoch {
		t = t.rw
	}
	return t
}

func isC(t *Term) bool { return t.op == OConst }

func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (c *Ctx) Not(a *Term) *Term {
	a = c.r(a)
	if isC(a) {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.raw(ONot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a.isFalse() || b.isFalse() {
		return c.fls
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a.isTrue() || b.isTrue() {
		return c.tru
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.raw(OOr, 0, a, b, nil, 0)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a == b {
		return c.tru
	}
	if a.w != b.w {
		panic(engineError{fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w)})
	}
	if isC(a) && isC(b) {
		return c.Bool(a.k == b.k)
	}
	if isC(a) {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return c.fls
		}
		if a.op == OBand && isC(a.b) {
			// contiguous masks become extracts
			if lo, n, ok := contiguous(a.b.k); ok {
				if isC(b) {
					if b.k&^a.b.k != 0 {
						return c.fls
					}
					return c.Eq(c.Extract(a.a, lo, n), c.BV(n, b.k>>lo))
				}
				if b.op == OBand && b.b == a.b {
					return c.Eq(c.Extract(a.a, lo, n), c.Extract(b.a, lo, n))
				}
			}
		}
		if isC(b) {
			switch a.op {
			case OBxor:
				if isC(a.b) {
					return c.Eq(a.a, c.BV(a.w, a.b.k^b.k))
				}
				if b.k == 0 {
					return c.Eq(a.a, a.b)
				}
			case OAdd:
				if isC(a.b) {
					return c.Eq(a.a, c.BV(a.w, b.k-a.b.k))
				}
			case OShl:
				if isC(a.b) && a.b.k > 0 {
					n := uint8(a.b.k)
					if b.k&maskW(n) != 0 {
						return c.fls
					}
					return c.Eq(c.Extract(a.a, 0, a.w-n), c.BV(a.w-n, b.k>>n))
				}
			case OLshr:
				if isC(a.b) && a.b.k > 0 {
					n := uint8(a.b.k)
					if b.k > maskW(a.w-n) {
						return c.fls
					}
					return c.Eq(c.Extract(a.a, n, a.w-n), c.BV(a.w-n, b.k))
				}
			case OConcat:
				return c.And(c.Eq(a.a, c.BV(a.a.w, b.k>>a.b.w)), c.Eq(a.b, c.BV(a.b.w, b.k)))
			case OIte:
				// push the comparison into constant leaves
				if isC(a.b) || isC(a.c) || a.b.op == OIte || a.c.op == OIte {
					if c.constLeaves(a, 8) {
						return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
					}
				}
			case OZext:
				if b.k <= maskW(a.a.w) {
					return c.Eq(a.a, c.BV(a.a.w, b.k))
				}
				return c.fls
			case OBnot:
				return c.Eq(a.a, c.BV(a.w, ^b.k))
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		} else if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
		}
	}
	if !isC(b) && a.id > b.id {
		a, b = b, a
	}
	return c.raw(OEq, 0, a, b, nil, 0)
}

// contiguous reports whether the set bits of m are one run.
func contiguous(m uint64) (lo, n uint8, ok bool) {
	if m == 0 {
		return
	}
	lo = uint8(bits.TrailingZeros64(m))
	x := m >> lo
	if x&(x+1) != 0 {
		return 0, 0, false
	}
	return lo, uint8(bits.Len64(x)), true
}

func (c *Ctx) constLeaves(t *Term, depth int) bool {
	if isC(t) {
		return true
	}
	if depth == 0 || t.op != OIte {
		return false
	}
	return c.constLeaves(t.b, depth-1) && c.constLeaves(t.c, depth-1)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	p, a, b = c.r(p), c.r(a), c.r(b)
	if p.isTrue() {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		switch {
		case a.isTrue():
			return c.Or(p, b)
		case a.isFalse():
			return c.And(c.Not(p), b)
		case b.isTrue():
			return c.Or(c.Not(p), a)
		case b.isFalse():
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		p, a, b = p.a, b, a
	}
	if a.op == OIte && a.a == p {
		a = a.b
	}
	if b.op == OIte && b.a == p {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.raw(OIte, a.w, p, a, b, 0)
}

func sx(v uint64, w uint8) int64 {
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBand:
		return x & y
	case OBor:
		return x | y
	case OBxor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m
	}
	panic("evalBin")
}

// Bin builds a bit-vector binary operation over equal widths.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a.w != b.w {
		panic(engineError{fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w)})
	}
	w := a.w
	m := maskW(w)
	if isC(a) && isC(b) {
		return c.BV(w, evalBin(op, w, a.k, b.k))
	}
	switch op {
	case OAdd, OMul, OBand, OBor, OBxor:
		if isC(a) || (!isC(b) && a.id > b.id) {
			a, b = b, a
		}
	}
	if isC(b) {
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if b.k == 0 {
				return a
			}
		case OBand:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			if a.hi <= b.k && b.k&(b.k+1) == 0 {
				return a
			}
		case OMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if b.k&(b.k-1) == 0 {
				return c.Bin(OShl, a, c.BV(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OUdiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OLshr, a, c.BV(w, uint64(bits.TrailingZeros64(b.k))))
			}
		case OUrem:
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OBand, a, c.BV(w, b.k-1))
			}
			if a.hi < b.k {
				return a
			}
		case OSdiv:
			if b.k == 1 {
				return a
			}
			if sx(b.k, w) > 0 && sx(a.hi, w) >= 0 && a.hi <= m>>1 {
				return c.Bin(OUdiv, a, b)
			}
		case OSrem:
			if sx(b.k, w) > 0 && a.hi <= m>>1 {
				return c.Bin(OUrem, a, b)
			}
		}
		if op == OBor && b.k == m {
			return b
		}
		if op == OBxor && b.k == m {
			return c.BNot(a)
		}
		switch op {
		case OShl, OLshr:
			if b.k >= uint64(w) {
				return c.BV(w, 0)
			}
		}
		// constant reassociation
		if op == OAdd && a.op == OAdd && isC(a.b) {
			return c.Bin(OAdd, a.a, c.BV(w, a.b.k+b.k))
		}
		if op == OSub {
			return c.Bin(OAdd, a, c.BV(w, -b.k))
		}
		// masks and constant shifts become concatenations of extracts
		switch op {
		case OBand:
			if lo, n, ok := contiguous(b.k); ok {
				return c.place(c.Extract(a, lo, n), lo, w)
			}
		case OShl:
			k := uint8(b.k)
			return c.place(c.Extract(a, 0, w-k), k, w)
		case OLshr:
			k := uint8(b.k)
			return c.Zext(c.Extract(a, k, w-k), w)
		}
	}
	switch op {
	case OBand, OBor, OBxor:
		if a.op == OConcat || b.op == OConcat {
			var k uint8
			switch {
			case a.op == OConcat && b.op == OConcat:
				if a.b.w == b.b.w {
					k = a.b.w
				}
			case a.op == OConcat && (isC(b) || b.op == OZext && b.a.w <= a.b.w):
				k = a.b.w
			case b.op == OConcat && (isC(a) || a.op == OZext && a.a.w <= b.b.w):
				k = b.b.w
			}
			if k > 0 {
				return c.Concat(c.Bin(op, c.Extract(a, k, w-k), c.Extract(b, k, w-k)), c.Bin(op, c.Extract(a, 0, k), c.Extract(b, 0, k)))
			}
		}
	}
	if isC(a) && a.k == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUrem, OSrem:
			return a
		case OUdiv:
			if b.lo > 0 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.BV(w, 0)
		case OBand, OBor:
			return a
		}
	}
	// narrow: zext op zext without overflow stays narrow for bit operations
	if (op == OBand || op == OBor || op == OBxor) && a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Zext(c.Bin(op, a.a, b.a), w)
	}
	return c.raw(op, w, a, b, nil, 0)
}

// place puts x at bit lo of an otherwise zero vector of width w.
func (c *Ctx) place(x *Term, lo, w uint8) *Term {
	if lo > 0 {
		x = c.Concat(x, c.BV(lo, 0))
	}
	return c.Zext(x, w)
}

func (c *Ctx) BNot(a *Term) *Term {
	a = c.r(a)
	if isC(a) {
		return c.BV(a.w, ^a.k)
	}
	if a.op == OBnot {
		return a.a
	}
	return c.raw(OBnot, a.w, a, nil, nil, 0)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Bin(OSub, c.BV(a.w, 0), a) }

func (c *Ctx) Ult(a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a == b {
		return c.fls
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.lo >= b.hi {
		return c.fls
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && isC(b) && b.k <= maskW(a.a.w) {
		return c.Ult(a.a, c.BV(a.a.w, b.k))
	}
	if b.op == OZext && isC(a) && a.k <= maskW(b.a.w) {
		return c.Ult(c.BV(b.a.w, a.k), b.a)
	}
	if isC(b) && a.op == OIte && c.constLeaves(a, 8) {
		return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
	}
	return c.raw(OUlt, 0, a, b, nil, 0)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	a, b = c.r(a), c.r(b)
	if a == b {
		return c.fls
	}
	if isC(a) && isC(b) {
		return c.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	h := maskW(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return c.Ult(a, b)
	}
	if a.lo > h && b.hi <= h {
		return c.tru
	}
	if b.lo > h && a.hi <= h {
		return c.fls
	}
	return c.raw(OSlt, 0, a, b, nil, 0)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	a = c.r(a)
	if a.w == w {
		return a
	}
	if isC(a) {
		return c.BV(w, a.k)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.raw(OZext, w, a, nil, nil, 0)
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	a = c.r(a)
	if a.w == w {
		return a
	}
	if isC(a) {
		return c.BV(w, uint64(sx(a.k, a.w)))
	}
	if a.hi <= maskW(a.w)>>1 {
		return c.Zext(a, w)
	}
	return c.raw(OSext, w, a, nil, nil, 0)
}

// Extract returns w bits of a starting at bit lo.
func (c *Ctx) Extract(a *Term, lo uint8, w uint8) *Term {
	a = c.r(a)
	if lo == 0 && a.w == w {
		return a
	}
	if isC(a) {
		return c.BV(w, a.k>>lo)
	}
	switch a.op {
	case OZext:
		if lo >= a.a.w {
			return c.BV(w, 0)
		}
		if lo == 0 && w >= a.a.w {
			return c.Zext(a.a, w)
		}
		if lo+w <= a.a.w {
			return c.Extract(a.a, lo, w)
		}
		return c.Zext(c.Extract(a.a, lo, a.a.w-lo), w)
	case OExtract:
		return c.Extract(a.a, lo+uint8(a.k), w)
	case OConcat:
		if lo+w <= a.b.w {
			return c.Extract(a.b, lo, w)
		}
		if lo >= a.b.w {
			return c.Extract(a.a, lo-a.b.w, w)
		}
		return c.Concat(c.Extract(a.a, 0, lo+w-a.b.w), c.Extract(a.b, lo, a.b.w-lo))
	case OBand, OBor, OBxor:
		return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
	case OBnot:
		return c.BNot(c.Extract(a.a, lo, w))
	case OIte:
		if isC(a.b) || isC(a.c) {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OShl:
		if isC(a.b) {
			s := uint8(a.b.k)
			if lo >= s {
				return c.Extract(a.a, lo-s, w)
			}
			if lo+w <= s {
				return c.BV(w, 0)
			}
		}
	case OLshr:
		if isC(a.b) {
			s := uint8(a.b.k)
			if int(lo)+int(s)+int(w) <= int(a.w) {
				return c.Extract(a.a, lo+s, w)
			}
		}
	}
	return c.raw(OExtract, w, a, nil, nil, uint64(lo))
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	hi, lo = c.r(hi), c.r(lo)
	if isC(hi) && isC(lo) {
		return c.BV(hi.w+lo.w, hi.k<<lo.w|lo.k)
	}
	if isC(hi) && hi.k == 0 {
		return c.Zext(lo, hi.w+lo.w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.k == lo.k+uint64(lo.w) {
		return c.Extract(hi.a, uint8(lo.k), hi.w+lo.w)
	}
	if lo.op == OConcat { // right-nested concatenations are re-associated to the left
		return c.Concat(c.Concat(hi, lo.a), lo.b)
	}
	return c.raw(OConcat, hi.w+lo.w, hi, lo, nil, 0)
}

// Eval evaluates t under the given model (indexed by variable name).
func (c *Ctx) Eval(t *Term, model Model) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evEpoch == c.epoch {
		return t.ev
	}
	var v uint64
	switch t.op {
	case OVar:
		v = model[t.name]
	case ONot:
		v = 1 - c.Eval(t.a, model)
	case OAnd:
		v = c.Eval(t.a, model)
		if v != 0 {
			v = c.Eval(t.b, model)
		}
	case OOr:
		v = c.Eval(t.a, model)
		if v == 0 {
			v = c.Eval(t.b, model)
		}
	case OEq:
		v = b2u(c.Eval(t.a, model) == c.Eval(t.b, model))
	case OIte:
		if c.Eval(t.a, model) != 0 {
			v = c.Eval(t.b, model)
		} else {
			v = c.Eval(t.c, model)
		}
	case OUlt:
		v = b2u(c.Eval(t.a, model) < c.Eval(t.b, model))
	case OSlt:
		v = b2u(sx(c.Eval(t.a, model), t.a.w) < sx(c.Eval(t.b, model), t.b.w))
	case OBnot:
		v = ^c.Eval(t.a, model) & maskW(t.w)
	case OZext:
		v = c.Eval(t.a, model)
	case OSext:
		v = uint64(sx(c.Eval(t.a, model), t.a.w)) & maskW(t.w)
	case OExtract:
		v = (c.Eval(t.a, model) >> t.k) & maskW(t.w)
	case OConcat:
		v = c.Eval(t.a, model)<<t.b.w | c.Eval(t.b, model)
	default:
		v = evalBin(t.op, t.w, c.Eval(t.a, model), c.Eval(t.b, model))
	}
	t.ev, t.evEpoch = v, c.epoch
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) body() string {
	switch t.op {
	case ONot:
		return "(not " + t.a.ref() + ")"
	case OIte:
		return "(ite " + t.a.ref() + " " + t.b.ref() + " " + t.c.ref() + ")"
	case OBnot:
		return "(bvnot " + t.a.ref() + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, t.a.ref())
	}
	return "(" + opNames[t.op] + " " + t.a.ref() + " " + t.b.ref() + ")"
}

// String renders a term for diagnostics (tree form, truncated).
func (t *Term) String() string {
	var sb strings.Builder
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t.op == OConst {
			sb.WriteString(t.ref())
			return
		}
		if t.op == OVar {
			sb.WriteString(t.name)
			return
		}
		if d == 0 {
			sb.WriteString("…")
			return
		}
		sb.WriteString("(" + opNames[t.op])
		if t.op == OExtract {
			fmt.Fprintf(&sb, "[%d+%d]", t.k, t.w)
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				rec(x, d-1)
			}
		}
		sb.WriteString(")")
	}
	rec(t, 7)
	return sb.String()
}
