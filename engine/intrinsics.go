package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(r *Run, fn *ssa.Function, args []Value) Value

const symPkg = harnessPath + "/sym."

// pureIntrinsic lists the standard functions that a mergeable function may
// call.
var pureIntrinsic = map[string]bool{
	"math/bits.LeadingZeros8": true, "math/bits.LeadingZeros16": true,
	"math/bits.LeadingZeros32": true, "math/bits.LeadingZeros64": true, "math/bits.LeadingZeros": true,
	"math/bits.TrailingZeros32": true, "math/bits.TrailingZeros64": true, "math/bits.TrailingZeros": true,
	"math/bits.TrailingZeros8": true, "math/bits.TrailingZeros16": true,
	"math/bits.OnesCount8": true, "math/bits.OnesCount16": true,
	"math/bits.OnesCount32": true, "math/bits.OnesCount64": true, "math/bits.OnesCount": true,
	"math/bits.Len8": true, "math/bits.Len16": true,
	"math/bits.Len32": true, "math/bits.Len64": true, "math/bits.Len": true,
	"math/bits.Add64": true, "math/bits.Sub64": true, "math/bits.Add32": true, "math/bits.Sub32": true,
	"math/bits.Reverse32": true, "math/bits.ReverseBytes32": true, "math/bits.ReverseBytes64": true,
	"math/bits.RotateLeft32": true, "math/bits.RotateLeft64": true,
	symPkg + "And": true, symPkg + "Or": true, symPkg + "Not": true, symPkg + "Implies": true,
	symPkg + "Iff": true, symPkg + "Ite32": true, symPkg + "Ite64": true, symPkg + "B2U": true,
}

var intrinsics map[string]intrinsic

func tm(v Value) *Term { return v.(*Term) }

// lz counts the leading zero bits of t as a term of width 64.
func (c *Ctx) lz(t *Term) *Term {
	w := t.w
	// Each step halves the window; widths are powers of two.
	n := c.BV(64, 0)
	x := t
	for s := w / 2; s >= 1; s /= 2 {
		z := c.Eq(c.Bin(OLshr, x, c.BV(w, uint64(w-s))), c.BV(w, 0))
		n = c.Bin(OAdd, n, c.Ite(z, c.BV(64, uint64(s)), c.BV(64, 0)))
		x = c.Ite(z, c.Bin(OShl, x, c.BV(w, uint64(s))), x)
	}
	top := c.Eq(c.Extract(x, w-1, 1), c.BV(1, 0))
	return c.Bin(OAdd, n, c.Ite(top, c.BV(64, 1), c.BV(64, 0)))
}

func (c *Ctx) tz(t *Term) *Term {
	w := t.w
	n := c.BV(64, 0)
	x := t
	for s := w / 2; s >= 1; s /= 2 {
		z := c.Eq(c.Extract(x, 0, s), c.BV(s, 0))
		n = c.Bin(OAdd, n, c.Ite(z, c.BV(64, uint64(s)), c.BV(64, 0)))
		x = c.Ite(z, c.Bin(OLshr, x, c.BV(w, uint64(s))), x)
	}
	top := c.Eq(c.Extract(x, 0, 1), c.BV(1, 0))
	return c.Bin(OAdd, n, c.Ite(top, c.BV(64, 1), c.BV(64, 0)))
}

func (c *Ctx) popcount(t *Term) *Term {
	if t.w == 1 {
		return c.Zext(t, 8)
	}
	h := t.w / 2
	return c.Bin(OAdd, c.popcount(c.Extract(t, h, h)), c.popcount(c.Extract(t, 0, h)))
}

func symName(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsupported("symbolic variable name")
	}
	return s
}

func init() {
	m := map[string]intrinsic{}
	intrinsics = m

	for _, w := range []string{"8", "16", "32", "64", ""} {
		bitsW := uint64(64)
		if w != "" {
			bitsW, _ = strconv.ParseUint(w, 10, 8)
		}
		m["math/bits.LeadingZeros"+w] = func(r *Run, fn *ssa.Function, a []Value) Value {
			if r.mg == nil {
				return r.splitLZ(tm(a[0]))
			}
			return r.m.ctx.lz(tm(a[0]))
		}
		m["math/bits.TrailingZeros"+w] = func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.tz(tm(a[0])) }
		m["math/bits.OnesCount"+w] = func(r *Run, fn *ssa.Function, a []Value) Value {
			return r.m.ctx.Zext(r.m.ctx.popcount(tm(a[0])), 64)
		}
		m["math/bits.Len"+w] = func(r *Run, fn *ssa.Function, a []Value) Value {
			return r.m.ctx.Bin(OSub, r.m.ctx.BV(64, bitsW), r.m.ctx.lz(tm(a[0])))
		}
	}

	m["math.Pow"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		if x, ok := a[0].(float64); ok && x == 2 {
			switch y := a[1].(type) {
			case *FSym:
				if !y.pow {
					return &FSym{iv: y.iv, pow: true}
				}
			case float64:
				return math.Pow(x, y)
			}
		}
		return math.Pow(r.concFloat(a[0]).(float64), r.concFloat(a[1]).(float64))
	}
	m["math.Exp2"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		if y, ok := a[0].(*FSym); ok && !y.pow {
			return &FSym{iv: y.iv, pow: true}
		}
		return math.Exp2(r.concFloat(a[0]).(float64))
	}

	m["fmt.Errorf"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		// the text of errors is not modelled, only their presence
		return r.mkError(symName(a[0]))
	}
	m["fmt.Sprintf"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.sprintf(symName(a[0]), a[1].(Slice).v)
	}

	cas := func(r *Run, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if r.conc != nil {
			r.conc.access(r, p, true, true)
		}
		eq := r.equal(*p, a[1])
		if r.branch(eq) {
			if r.conc != nil {
				r.conc.stored(p, a[2])
			}
			*p = a[2]
			return r.m.ctx.tru
		}
		return r.m.ctx.fls
	}
	load := func(r *Run, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if r.conc != nil {
			r.conc.access(r, p, false, true)
		}
		return copyVal(*p)
	}
	store := func(r *Run, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if r.conc != nil {
			r.conc.access(r, p, true, true)
			r.conc.stored(p, a[1])
		}
		*p = a[1]
		return nil
	}
	swap := func(r *Run, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if r.conc != nil {
			r.conc.access(r, p, true, true)
			r.conc.stored(p, a[1])
		}
		old := *p
		*p = a[1]
		return old
	}
	add := func(r *Run, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if r.conc != nil {
			r.conc.access(r, p, true, true)
		}
		*p = r.m.ctx.Bin(OAdd, tm(*p), tm(a[1]))
		return *p
	}
	for _, t := range []string{"Pointer", "Uint32", "Uint64", "Int32", "Int64", "Uintptr"} {
		m["sync/atomic.CompareAndSwap"+t] = cas
		m["sync/atomic.Load"+t] = load
		m["sync/atomic.Store"+t] = store
		m["sync/atomic.Swap"+t] = swap
		if t != "Pointer" {
			m["sync/atomic.Add"+t] = add
		}
	}
	m["(*sync.Mutex).Lock"] = func(r *Run, fn *ssa.Function, a []Value) Value { r.lock(a[0].(*Value), true); return nil }
	m["(*sync.Mutex).Unlock"] = func(r *Run, fn *ssa.Function, a []Value) Value { r.unlock(a[0].(*Value), true); return nil }
	m["(*sync.RWMutex).Lock"] = m["(*sync.Mutex).Lock"]
	m["(*sync.RWMutex).Unlock"] = m["(*sync.Mutex).Unlock"]
	m["(*sync.RWMutex).RLock"] = func(r *Run, fn *ssa.Function, a []Value) Value { r.lock(a[0].(*Value), false); return nil }
	m["(*sync.RWMutex).RUnlock"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		r.unlock(a[0].(*Value), false)
		return nil
	}

	sb := func(a Value) *Value { // the buf field of a strings.Builder
		return &(*a.(*Value)).(Struct)[1]
	}
	wr := func(r *Run, b Value, t ...*Term) {
		p := sb(b)
		s := (*p).(Slice)
		n := append([]Value(nil), s.v...)
		for _, x := range t {
			n = append(n, x)
		}
		*p = Slice{n, true}
	}
	m["(*strings.Builder).WriteString"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		bs := r.m.strBytes(a[1])
		wr(r, a[0], bs...)
		return Tuple{r.m.ctx.BV(64, uint64(len(bs))), Iface{}}
	}
	m["(*strings.Builder).WriteByte"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		wr(r, a[0], tm(a[1]))
		return Iface{}
	}
	m["(*strings.Builder).WriteRune"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		s := string(rune(r.concInt(tm(a[1]))))
		wr(r, a[0], r.m.strBytes(s)...)
		return Tuple{r.m.ctx.BV(64, uint64(len(s))), Iface{}}
	}
	m["(*strings.Builder).Grow"] = func(r *Run, fn *ssa.Function, a []Value) Value { return nil }
	m["(*strings.Builder).Len"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.m.ctx.BV(64, uint64(len((*sb(a[0])).(Slice).v)))
	}
	m["(*strings.Builder).String"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		s := (*sb(a[0])).(Slice)
		b := make([]*Term, len(s.v))
		for i := range b {
			b[i] = s.v[i].(*Term)
		}
		return r.m.mkStr(b)
	}

	contains := func(r *Run, fn *ssa.Function, a []Value) Value {
		c := r.m.ctx
		s, sub := r.m.strBytes(a[0]), r.m.strBytes(a[1])
		res := c.fls
		for i := 0; i+len(sub) <= len(s); i++ {
			e := c.tru
			for j := range sub {
				e = c.And(e, c.Eq(s[i+j], sub[j]))
			}
			res = c.Or(res, e)
		}
		return res
	}
	m["strings.Contains"] = contains
	indexByte := func(r *Run, fn *ssa.Function, a []Value) Value {
		var s []*Term
		if sl, ok := a[0].(Slice); ok {
			for _, v := range sl.v {
				s = append(s, v.(*Term))
			}
		} else {
			s = r.m.strBytes(a[0])
		}
		for i := range s {
			if r.branch(r.m.ctx.Eq(s[i], tm(a[1]))) {
				return r.m.ctx.BV(64, uint64(i))
			}
		}
		return r.m.ctx.BV(64, ^uint64(0))
	}
	m["strings.IndexByte"] = indexByte
	m["internal/bytealg.IndexByteString"] = indexByte
	m["internal/bytealg.IndexByte"] = indexByte
	m["internal/stringslite.IndexByte"] = indexByte
	m["bytes.IndexByte"] = indexByte
	lastIndexByte := func(r *Run, fn *ssa.Function, a []Value) Value {
		s := r.m.strBytes(a[0])
		for i := len(s) - 1; i >= 0; i-- {
			if r.branch(r.m.ctx.Eq(s[i], tm(a[1]))) {
				return r.m.ctx.BV(64, uint64(i))
			}
		}
		return r.m.ctx.BV(64, ^uint64(0))
	}
	m["strings.LastIndexByte"] = lastIndexByte
	m["internal/bytealg.LastIndexByteString"] = lastIndexByte
	m["internal/stringslite.Clone"] = func(r *Run, fn *ssa.Function, a []Value) Value { return a[0] }
	m["strings.Clone"] = m["internal/stringslite.Clone"]
	bytesEq := func(r *Run, fn *ssa.Function, a []Value) Value {
		c := r.m.ctx
		x, y := a[0].(Slice).v, a[1].(Slice).v
		if len(x) != len(y) {
			return c.fls
		}
		e := c.tru
		for i := range x {
			e = c.And(e, c.Eq(tm(x[i]), tm(y[i])))
		}
		return e
	}
	m["bytes.Equal"] = bytesEq
	m["internal/bytealg.Equal"] = bytesEq
	m["internal/bytealg.MakeNoZero"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		n := r.concInt(tm(a[0]))
		s := make([]Value, n)
		for i := range s {
			s[i] = r.m.ctx.BV(8, 0)
		}
		return Slice{s, true}
	}
	m["unique.Make"] = func(r *Run, fn *ssa.Function, a []Value) Value {
		key := fn.String() + r.m.show(a[0], Model{})
		if v, ok := r.m.uniq[key]; ok {
			return v
		}
		p := new(Value)
		*p = copyVal(a[0])
		v := Struct{p}
		r.m.uniq[key] = v
		return v
	}

	// ---- the harness interface

	s := func(name string, f intrinsic) { m[symPkg+name] = f }
	for _, d := range []struct {
		n string
		w uint8
	}{{"Uint8", 8}, {"Uint16", 16}, {"Uint32", 32}, {"Uint64", 64}} {
		d := d
		s(d.n, func(r *Run, fn *ssa.Function, a []Value) Value {
			return r.newVar(symName(a[0]), d.w, 0, maskW(d.w))
		})
	}
	s("Bool", func(r *Run, fn *ssa.Function, a []Value) Value { return r.newVar(symName(a[0]), 0, 0, 1) })
	rng := func(r *Run, fn *ssa.Function, a []Value) Value {
		lo, hi := tm(a[1]), tm(a[2])
		if !isC(lo) || !isC(hi) || lo.k > hi.k {
			unsupported("sym.Range bounds")
		}
		if lo.k == hi.k {
			r.model[symName(a[0])] = lo.k
			return lo
		}
		return r.newVar(symName(a[0]), lo.w, lo.k, hi.k)
	}
	s("Range", rng)
	s("Choose", func(r *Run, fn *ssa.Function, a []Value) Value {
		n := symName(a[0])
		k := r.names[n]
		r.names[n]++
		if k > 0 {
			n = fmt.Sprintf("%s#%d", n, k)
		}
		if r.mg != nil {
			panic(mergeAbort{"choose"})
		}
		v := r.choose(int(r.concInt(tm(a[1]))))
		r.model[n] = uint64(v)
		return r.m.ctx.BV(64, uint64(v))
	})
	s("Assume", func(r *Run, fn *ssa.Function, a []Value) Value { r.assume(tm(a[0])); return nil })
	s("Assert", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.assert(tm(a[0]), symName(a[1]), nil, "")
		return nil
	})
	s("KnownAssert", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.assert(tm(a[0]), symName(a[2]), tm(a[1]), symName(a[3]))
		return nil
	})
	s("Split", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.flush()
		return r.m.ctx.Bool(r.branch(tm(a[0])))
	})
	s("Concrete", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.m.ctx.BV(tm(a[0]).w, r.concretize(tm(a[0])))
	})
	s("Lemma", func(r *Run, fn *ssa.Function, a []Value) Value { r.lemma(tm(a[0]), tm(a[1])); return nil })
	s("Observe", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.trace = append(r.trace, traceItem{"obs " + symName(a[0]), tm(a[1])})
		return nil
	})
	s("Str", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.trace = append(r.trace, traceItem{"str " + symName(a[0]), a[1]})
		return nil
	})
	s("Reach", func(r *Run, fn *ssa.Function, a []Value) Value {
		r.labels["reach "+symName(a[0])]++
		return nil
	})
	s("Panics", func(r *Run, fn *ssa.Function, a []Value) (res Value) {
		if r.mg != nil {
			panic(mergeAbort{"panics"})
		}
		top := r.top
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(*targetPanic); !ok {
					panic(x)
				}
				r.top = top
				r.deferFrame = nil
				res = r.m.ctx.tru
			}
		}()
		r.call(a[0], nil, nil)
		return r.m.ctx.fls
	})
	s("And", func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.And(tm(a[0]), tm(a[1])) })
	s("Or", func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.Or(tm(a[0]), tm(a[1])) })
	s("Not", func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.Not(tm(a[0])) })
	s("Implies", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.m.ctx.Or(r.m.ctx.Not(tm(a[0])), tm(a[1]))
	})
	s("Iff", func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.Eq(tm(a[0]), tm(a[1])) })
	ite := func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.m.ctx.Ite(tm(a[0]), tm(a[1]), tm(a[2]))
	}
	s("Ite32", ite)
	s("Ite64", ite)
	s("B2U", func(r *Run, fn *ssa.Function, a []Value) Value {
		return r.m.ctx.Ite(tm(a[0]), r.m.ctx.BV(64, 1), r.m.ctx.BV(64, 0))
	})
	s("IsSymbolic", func(r *Run, fn *ssa.Function, a []Value) Value { return r.m.ctx.tru })
	s("Bytes", func(r *Run, fn *ssa.Function, a []Value) Value {
		n := int(r.concInt(tm(a[1])))
		v := make([]Value, n)
		for i := range v {
			v[i] = r.newVar(fmt.Sprintf("%s[%d]", symName(a[0]), i), 8, 0, 255)
		}
		return Slice{v, true}
	})
	registerConc(s)
}

// lemma asks the solver to prove a = b under the path condition; on success
// later uses of a are replaced by b.
func (r *Run) lemma(a, b *Term) {
	c := r.m.ctx
	a, b = c.r(a), c.r(b)
	for a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		a, b = a.a, b.a
	}
	if a == b || isC(a) || r.mg != nil {
		return
	}
	r.flush()
	if res, _ := r.check(c.Not(c.Eq(a, b))); res == rUnsat {
		a.rw, a.rwEpoch = b, c.rwEpoch
	} else {
		r.h.mu.Lock()
		r.h.LemmaMiss++
		r.h.mu.Unlock()
	}
}

func (r *Run) mkError(text string) Value {
	pk := r.m.prog.ssa.ImportedPackage("errors")
	if pk == nil {
		unsupported("package errors is not loaded")
	}
	t := types.NewPointer(pk.Type("errorString").Type())
	p := new(Value)
	*p = Struct{text}
	return Iface{t, p}
}

func (r *Run) decimal(t *Term, signed bool) []*Term {
	c := r.m.ctx
	if isC(t) {
		if signed {
			return r.m.strBytes(strconv.FormatInt(sx(t.k, t.w), 10))
		}
		return r.m.strBytes(strconv.FormatUint(t.k, 10))
	}
	var out []*Term
	if signed && t.hi > maskW(t.w)>>1 {
		if r.branch(c.Slt(t, c.BV(t.w, 0))) {
			out = append(out, c.BV(8, '-'))
			t = c.Neg(t)
		}
	}
	// number of digits
	n := 1
	for p := uint64(10); ; p *= 10 {
		if p > maskW(t.w) || p > t.hi || r.branch(c.Ult(t, c.BV(t.w, p))) {
			break
		}
		n++
		if p > math.MaxUint64/10 {
			break
		}
	}
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for ; div > 0; div /= 10 {
		d := c.Bin(OUdiv, t, c.BV(t.w, div))
		if n > 1 {
			d = c.Bin(OUrem, d, c.BV(t.w, 10))
		}
		if d.w > 8 {
			d = c.Extract(d, 0, 8)
		}
		out = append(out, c.Bin(OAdd, d, c.BV(8, '0')))
	}
	return out
}

func (r *Run) sprintf(f string, args []Value) Value {
	var out []*Term
	lit := func(s string) { out = append(out, r.m.strBytes(s)...) }
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		if i >= len(f) {
			unsupported("format %q", f)
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			unsupported("format %q: missing argument", f)
		}
		a := args[ai].(Iface)
		ai++
		switch f[i] {
		case 'd', 's', 'v':
			if f[i] != 'd' {
				if s, ok := r.stringer(a); ok {
					out = append(out, r.m.strBytes(s)...)
					continue
				}
			}
			switch v := a.v.(type) {
			case *Term:
				if v.w == 0 {
					if r.branch(v) {
						lit("true")
					} else {
						lit("false")
					}
					continue
				}
				_, signed, _ := basicWidth(a.t.Underlying().(*types.Basic))
				out = append(out, r.decimal(v, signed)...)
			case string, SymStr:
				out = append(out, r.m.strBytes(v)...)
			default:
				unsupported("format %%%c of %T", f[i], a.v)
			}
		case 'x':
			v, ok := a.v.(*Term)
			if !ok {
				unsupported("format %%x of %T", a.v)
			}
			lit(strconv.FormatUint(r.concretize(v), 16))
		default:
			unsupported("format %q", f)
		}
	}
	return r.m.mkStr(out)
}

// stringer calls the String or Error method of a value that has one.
func (r *Run) stringer(a Iface) (Value, bool) {
	if a.t == nil {
		return nil, false
	}
	ms := r.m.prog.ssa.MethodSets.MethodSet(a.t)
	for _, n := range []string{"Error", "String"} {
		if sel := ms.Lookup(nil, n); sel != nil {
			fn := r.m.prog.ssa.MethodValue(sel)
			if fn != nil && fn.Signature.Params().Len() == 0 {
				return r.callFn(fn, []Value{copyVal(a.v)}, nil, nil), true
			}
		}
	}
	return nil, false
}

func decodeRune(b []byte) (rune, int) { return utf8.DecodeRune(b) }

// ---- package level variables

func (r *Run) global(g *ssa.Global) Value {
	pk := g.Package()
	if r.m.prog.whitelisted(pk) {
		if p, ok := r.glob[g]; ok {
			return p
		}
		if !r.gInit[pk] {
			r.gInit[pk] = true
			r.initPackage(pk, r.glob)
		}
		return r.glob[g]
	}
	if p, ok := r.m.stdGlob[g]; ok {
		return p
	}
	if !r.m.stdInit[pk] {
		r.m.stdInit[pk] = true
		r.initPackage(pk, r.m.stdGlob)
	}
	return r.m.stdGlob[g]
}

// initPackage executes the variable initialisers of one package. Initialisers
// outside the engine's reach leave a poison value behind.
func (r *Run) initPackage(pk *ssa.Package, into map[*ssa.Global]*Value) {
	r.m.prog.mu.Lock()
	if !r.m.prog.built[pk] {
		pk.Build()
		r.m.prog.built[pk] = true
	}
	r.m.prog.mu.Unlock()
	for _, mem := range pk.Members {
		if g, ok := mem.(*ssa.Global); ok {
			p := new(Value)
			*p = r.m.zero(g.Type().Underlying().(*types.Pointer).Elem())
			into[g] = p
		}
	}
	init := pk.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	mg, top, steps, cs := r.mg, r.top, r.steps, r.conc
	r.mg, r.conc = nil, nil
	defer func() { r.mg, r.top, r.steps, r.conc = mg, top, steps, cs }()
	fi := r.m.info(init)
	fr := &frame{r: r, fi: fi, env: make([]Value, fi.nslots), prev: -1}
	strict := r.m.prog.whitelisted(pk)
	bi := 0
	for n := 0; n < 100000 && bi >= 0; n++ {
		blk := fi.blocks[bi]
		next := -1
		for i := range blk {
			ci := &blk[i]
			switch in := ci.in.(type) {
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != pk {
					continue // imports are initialised on demand
				}
			case *ssa.Return:
				return
			}
			nx, err := fr.tryStep(ci, bi)
			if err != "" {
				if strict {
					unsupported("initialiser of %s: %s", pk.Pkg.Path(), err)
				}
				if ci.dst >= 0 {
					fr.env[ci.dst] = poison{err}
				}
				if st, ok := ci.in.(*ssa.Store); ok {
					if p, ok := fr.get(&ci.ops[0]).(*Value); ok && p != nil {
						*p = poison{err}
					}
					_ = st
				}
				switch ci.in.(type) {
				case *ssa.If:
					return
				}
			}
			if nx >= 0 {
				next = nx
			}
		}
		fr.prev = bi
		bi = next
	}
}

func (fr *frame) tryStep(ci *cinst, bi int) (next int, err string) {
	next = -1
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case engineError:
				err = x.msg
			case notEncoded:
				err = x.msg
			case *targetPanic:
				err = x.msg
			default:
				err = fmt.Sprint(x)
			}
			fr.r.top = fr
			next = -1
		}
	}()
	fr.r.top = fr
	if phi, ok := ci.in.(*ssa.Phi); ok {
		for k, p := range phi.Block().Preds {
			if p.Index == fr.prev {
				fr.env[ci.dst] = fr.get(&ci.ops[k])
			}
		}
		return -1, ""
	}
	for i := range ci.ops {
		if p, ok := fr.get(&ci.ops[i]).(poison); ok {
			return -1, p.why
		}
	}
	next, _ = fr.step(ci, fr.fi.fn.Blocks[bi])
	return next, ""
}

func (r *Run) collectStrings(vs []Value) string {
	var sb strings.Builder
	for _, v := range vs {
		sb.WriteString(r.m.show(v, r.model))
	}
	return sb.String()
}
