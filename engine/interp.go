package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Machine is one worker: its own term context, solver and compiled code.
type Machine struct {
	prog    *Program
	ctx     *Ctx
	sol     *Solver
	fns     map[*ssa.Function]*fnInfo
	stdGlob map[*ssa.Global]*Value // globals of packages assumed immutable
	stdInit map[*ssa.Package]bool
	infeas  map[*Term]map[uint64]bool // condition -> pc hashes under which it is infeasible
	consts  map[*ssa.Const]Value
	uniq    map[string]Value
}

func newMachine(p *Program) *Machine {
	ctx := newCtx()
	return &Machine{prog: p, ctx: ctx, sol: newSolver(ctx, p.queryTimeoutMs),
		fns: map[*ssa.Function]*fnInfo{}, stdGlob: map[*ssa.Global]*Value{}, stdInit: map[*ssa.Package]bool{},
		infeas: map[*Term]map[uint64]bool{}, consts: map[*ssa.Const]Value{}, uniq: map[string]Value{}}
}

type opKind uint8

const (
	oNone opKind = iota
	oSlot
	oVal
	oGlobal
)

type operand struct {
	kind opKind
	slot int
	val  Value
	glob *ssa.Global
}

type cinst struct {
	in  ssa.Instruction
	ops []operand
	dst int
}

type fnInfo struct {
	fn      *ssa.Function
	nslots  int
	params  []int
	free    []int
	blocks  [][]cinst
	name    string
	intr    intrinsic
	pure    bool
	harness bool // harness package: branches in model functions are merged
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn}
	m.fns[fn] = fi
	base := fn
	if o := fn.Origin(); o != nil {
		base = o
	}
	fi.name = base.String()
	fi.intr = intrinsics[fi.name]
	m.prog.ensureBuilt(fn)
	m.prog.noteFn(fn, fi.name)
	if len(fn.Blocks) == 0 {
		return fi
	}
	slots := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		n := fi.nslots
		slots[v] = n
		fi.nslots++
		return n
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, f := range fn.FreeVars {
		fi.free = append(fi.free, alloc(f))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	var rands []*ssa.Value
	for _, b := range fn.Blocks {
		var cb []cinst
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinst{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			rands = in.Operands(rands[:0])
			for _, r := range rands {
				var op operand
				if r != nil && *r != nil {
					switch v := (*r).(type) {
					case *ssa.Const:
						op = operand{kind: oVal, val: m.constVal(v)}
					case *ssa.Global:
						op = operand{kind: oGlobal, glob: v}
					case *ssa.Function, *ssa.Builtin:
						op = operand{kind: oVal, val: v}
					default:
						s, ok := slots[v]
						if !ok {
							unsupported("operand %T %s in %s", v, v, fn)
						}
						op = operand{kind: oSlot, slot: s}
					}
				}
				ci.ops = append(ci.ops, op)
			}
			cb = append(cb, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	fi.harness = strings.HasPrefix(fi.name, harnessPath)
	fi.pure = fi.harness && m.prog.isPure(fn)
	return fi
}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	r        *Run
	fi       *fnInfo
	env      []Value
	prev     int
	defers   []deferred
	result   Value
	panicing bool
	pval     *targetPanic
	caller   *frame
	depth    int
}

// targetPanic is a Go-level panic of the interpreted program.
type targetPanic struct {
	v   Value // interface value
	msg string
	rt  bool // runtime error
	pos string
}

func (fr *frame) get(op *operand) Value {
	switch op.kind {
	case oSlot:
		return fr.env[op.slot]
	case oVal:
		return op.val
	case oGlobal:
		return fr.r.global(op.glob)
	}
	return nil
}

func (r *Run) rtPanic(f string, a ...interface{}) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	if r.mg != nil {
		panic(mergeAbort{msg})
	}
	panic(&targetPanic{v: Iface{types.Typ[types.String], msg}, msg: msg, rt: true, pos: r.where()})
}

func (r *Run) where() string {
	if r.top == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for f := r.top; f != nil && n < 6; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fi.name)
		n++
	}
	return sb.String()
}

// call invokes a function value.
func (r *Run) call(fv Value, args []Value, site ssa.Instruction) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		return r.callFn(f, args, nil, site)
	case *Closure:
		if f == nil {
			r.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return r.callFn(f.fn, args, f.env, site)
	case *ssa.Builtin:
		return r.builtin(f, args, site)
	case nativeFn:
		return f(r, args)
	}
	unsupported("call of %T", fv)
	return nil
}

type nativeFn func(r *Run, args []Value) Value

func (r *Run) callFn(fn *ssa.Function, args []Value, env []Value, site ssa.Instruction) Value {
	fi := r.m.info(fn)
	if fi.intr != nil {
		return fi.intr(r, fn, args)
	}
	if len(fi.blocks) == 0 {
		unsupported("call of external function %s", fi.name)
	}
	if fi.pure && fi.harness && r.hasSym(args) {
		if v, ok := r.callMerged(fi, args); ok {
			return v
		}
	}
	return r.exec(fi, args, env)
}

func (r *Run) hasSym(args []Value) bool {
	for _, a := range args {
		switch a := a.(type) {
		case *Term:
			if !isC(a) {
				return true
			}
		case Struct:
			if r.hasSym(a) {
				return true
			}
		}
	}
	return false
}

func (r *Run) exec(fi *fnInfo, args []Value, env []Value) (result Value) {
	if r.top != nil && r.top.depth > 2000 {
		panic(pathLimit{"call depth"})
	}
	fr := &frame{r: r, fi: fi, env: make([]Value, fi.nslots), caller: r.top, prev: -1}
	if r.top != nil {
		fr.depth = r.top.depth + 1
	}
	r.top = fr
	for i, s := range fi.params {
		fr.env[s] = args[i]
	}
	for i, s := range fi.free {
		fr.env[s] = env[i]
	}
	if fi.fn.Recover == nil && !hasDefer(fi) {
		fr.run(0)
		r.top = fr.caller
		return fr.result
	}
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			tp, ok := x.(*targetPanic)
			if !ok {
				panic(x)
			}
			r.top = fr
			fr.panicing, fr.pval = true, tp
			fr.runDefers()
			if fr.panicing {
				r.top = fr.caller
				panic(fr.pval)
			}
			// recovered
			if fi.fn.Recover != nil {
				fr.prev = -1
				fr.run(fi.fn.Recover.Index)
			} else if fr.result == nil {
				fr.result = r.m.zero(fi.fn.Signature.Results())
			}
		}()
		fr.run(0)
	}()
	r.top = fr.caller
	return fr.result
}

func hasDefer(fi *fnInfo) bool {
	for _, b := range fi.blocks {
		for i := range b {
			if _, ok := b[i].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if x := recover(); x != nil {
					tp, ok := x.(*targetPanic)
					if !ok {
						panic(x)
					}
					fr.r.top = fr
					fr.panicing, fr.pval = true, tp
				}
			}()
			fr.r.deferFrame = fr
			fr.r.call(d.fn, d.args, d.in)
		}()
	}
}

func (fr *frame) run(bi int) {
	r := fr.r
	for {
		blk := fr.fi.blocks[bi]
		ssab := fr.fi.fn.Blocks[bi]
		i := 0
		// phis in parallel
		if len(blk) > 0 {
			if _, ok := blk[0].in.(*ssa.Phi); ok {
				pi := -1
				for k, p := range ssab.Preds {
					if p.Index == fr.prev {
						pi = k
						break
					}
				}
				var tmp []Value
				for i < len(blk) {
					if _, ok := blk[i].in.(*ssa.Phi); !ok {
						break
					}
					tmp = append(tmp, fr.get(&blk[i].ops[pi]))
					i++
				}
				for k, v := range tmp {
					fr.env[blk[k].dst] = v
				}
			}
		}
		next := -1
		for ; i < len(blk); i++ {
			r.steps++
			if r.steps > r.stepLimit {
				panic(pathLimit{"steps"})
			}
			nx, ret := fr.step(&blk[i], ssab)
			if ret {
				return
			}
			if nx >= 0 {
				next = nx
			}
		}
		if next < 0 {
			unsupported("block without terminator in %s", fr.fi.name)
		}
		fr.prev = bi
		bi = next
	}
}

// step executes one instruction; it returns the successor block of a
// terminator, or ret for a return.
func (fr *frame) step(ci *cinst, ssab *ssa.BasicBlock) (next int, ret bool) {
	r := fr.r
	next = -1
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		fr.env[ci.dst] = r.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.UnOp:
		fr.env[ci.dst] = r.unop(in, fr.get(&ci.ops[0]))
	case *ssa.Call:
		fr.env[ci.dst] = fr.doCall(&in.Call, ci, in)
	case *ssa.If:
		cond := fr.get(&ci.ops[0]).(*Term)
		if r.branch(cond) {
			next = ssab.Succs[0].Index
		} else {
			next = ssab.Succs[1].Index
		}
	case *ssa.Jump:
		next = ssab.Succs[0].Index
	case *ssa.Return:
		switch len(ci.ops) {
		case 0:
		case 1:
			fr.result = fr.get(&ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for k := range ci.ops {
				t[k] = fr.get(&ci.ops[k])
			}
			fr.result = t
		}
		return -1, true
	case *ssa.Alloc:
		p := new(Value)
		*p = r.m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ci.dst] = p
		if r.conc != nil {
			r.conc.alloc(p)
		}
	case *ssa.Store:
		p := fr.get(&ci.ops[0]).(*Value)
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if r.conc != nil {
			r.conc.access(r, p, true, false)
			r.conc.stored(p, fr.get(&ci.ops[1]))
		}
		storeInto(p, fr.get(&ci.ops[1]))
	case *ssa.FieldAddr:
		p := fr.get(&ci.ops[0]).(*Value)
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			unsupported("FieldAddr on %T in %s", *p, fr.fi.name)
		}
		fp := &s[in.Field]
		fr.env[ci.dst] = fp
		if r.conc != nil {
			r.conc.field(p, fp, in)
		}
	case *ssa.Field:
		s, ok := fr.get(&ci.ops[0]).(Struct)
		if !ok {
			unsupported("Field on %T in %s", fr.get(&ci.ops[0]), fr.fi.name)
		}
		fr.env[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		fr.env[ci.dst] = r.indexAddr(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term), in.Index.Type())
	case *ssa.Index:
		fr.env[ci.dst] = r.index(fr.get(&ci.ops[0]), fr.get(&ci.ops[1]).(*Term), in.Index.Type())
	case *ssa.Extract:
		fr.env[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[in.Index]
	case *ssa.Convert:
		fr.env[ci.dst] = r.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[ci.dst] = r.convert(fr.get(&ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{in.X.Type(), copyVal(fr.get(&ci.ops[0]))}
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for k := 1; k < len(ci.ops); k++ {
			cl.env = append(cl.env, fr.get(&ci.ops[k]))
		}
		fr.env[ci.dst] = cl
	case *ssa.TypeAssert:
		fr.env[ci.dst] = r.typeAssert(in, fr.get(&ci.ops[0]).(Iface))
	case *ssa.Slice:
		fr.env[ci.dst] = r.slice(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), fr.get(&ci.ops[2]), fr.get(&ci.ops[3]))
	case *ssa.MakeSlice:
		n := r.concInt(fr.get(&ci.ops[0]).(*Term))
		cp := r.concInt(fr.get(&ci.ops[1]).(*Term))
		if n < 0 || cp < n {
			r.rtPanic("makeslice: len out of range")
		}
		if cp > 1<<20 {
			panic(pathLimit{"huge makeslice"})
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, cp)
		for k := range s {
			s[k] = r.m.zero(el)
		}
		fr.env[ci.dst] = Slice{s[:n], true}
	case *ssa.MakeMap:
		fr.env[ci.dst] = &MapObj{}
	case *ssa.MakeChan:
		fr.env[ci.dst] = &ChanObj{cap: int(r.concInt(fr.get(&ci.ops[0]).(*Term)))}
	case *ssa.MapUpdate:
		mo := fr.get(&ci.ops[0]).(*MapObj)
		if mo == nil {
			r.rtPanic("assignment to entry in nil map")
		}
		k := fr.get(&ci.ops[1])
		if j := r.mapFind(mo, k); j >= 0 {
			mo.vals[j] = copyVal(fr.get(&ci.ops[2]))
		} else {
			mo.keys = append(mo.keys, copyVal(k))
			mo.vals = append(mo.vals, copyVal(fr.get(&ci.ops[2])))
		}
	case *ssa.Lookup:
		fr.env[ci.dst] = r.lookup(in, fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Range:
		switch x := fr.get(&ci.ops[0]).(type) {
		case *MapObj:
			fr.env[ci.dst] = &mapIter{m: x}
		default:
			fr.env[ci.dst] = &strIter{s: r.m.strBytes(x)}
		}
	case *ssa.Next:
		fr.env[ci.dst] = r.next(in, fr.get(&ci.ops[0]))
	case *ssa.Defer:
		fv, args := fr.prepCall(&in.Call, ci)
		fr.defers = append(fr.defers, deferred{fv, args, in})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicing {
			panic(fr.pval)
		}
	case *ssa.Panic:
		v := fr.get(&ci.ops[0]).(Iface)
		if r.mg != nil {
			panic(mergeAbort{"panic"})
		}
		panic(&targetPanic{v: v, msg: r.m.show(v, r.model), pos: r.where()})
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.v) < n {
			r.rtPanic("cannot convert slice to array pointer")
		}
		if !s.set {
			fr.env[ci.dst] = (*Value)(nil)
		} else {
			p := new(Value)
			*p = Array(s.v[:n:n])
			fr.env[ci.dst] = p
		}
	case *ssa.Go:
		unsupported("go statement (use sym.Go)")
	default:
		unsupported("instruction %T in %s", in, fr.fi.name)
	}
	return next, false
}

func (fr *frame) prepCall(cc *ssa.CallCommon, ci *cinst) (Value, []Value) {
	r := fr.r
	if cc.IsInvoke() {
		recv := fr.get(&ci.ops[0]).(Iface)
		if recv.t == nil {
			r.rtPanic("invalid memory address or nil pointer dereference (nil interface call %s)", cc.Method.Name())
		}
		fn := r.m.prog.lookupMethod(recv.t, cc.Method)
		if fn == nil {
			unsupported("method %s on %s", cc.Method.Name(), recv.t)
		}
		args := make([]Value, 0, len(cc.Args)+1)
		args = append(args, copyVal(recv.v))
		for k := 1; k < len(ci.ops); k++ {
			args = append(args, copyVal(fr.get(&ci.ops[k])))
		}
		return fn, args
	}
	args := make([]Value, 0, len(cc.Args))
	for k := 1; k < len(ci.ops); k++ {
		args = append(args, copyVal(fr.get(&ci.ops[k])))
	}
	return fr.get(&ci.ops[0]), args
}

func (fr *frame) doCall(cc *ssa.CallCommon, ci *cinst, site ssa.Instruction) Value {
	fv, args := fr.prepCall(cc, ci)
	return fr.r.call(fv, args, site)
}

// ---- operators

func (r *Run) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	c := r.m.ctx
	switch op {
	case token.EQL:
		return r.equal(x, y)
	case token.NEQ:
		return c.Not(r.equal(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(a, b)
			case token.OR, token.LOR:
				return c.Or(a, b)
			}
			unsupported("bool op %s", op)
		}
		_, signed, _ := basicWidth(xt.Underlying().(*types.Basic))
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			r.mustNot(c.Eq(b, c.BV(b.w, 0)), "integer divide by zero")
			o := OUdiv
			switch {
			case op == token.QUO && signed:
				o = OSdiv
			case op == token.REM && signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return c.Bin(o, a, b)
		case token.AND:
			return c.Bin(OBand, a, b)
		case token.OR:
			return c.Bin(OBor, a, b)
		case token.XOR:
			return c.Bin(OBxor, a, b)
		case token.AND_NOT:
			return c.Bin(OBand, a, c.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := basicWidth(yt.Underlying().(*types.Basic))
			if ysigned {
				r.mustNot(c.Slt(b, c.BV(b.w, 0)), "negative shift amount")
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			sh := b
			if b.w < a.w {
				sh = c.Zext(b, a.w)
			} else if b.w > a.w {
				// saturate
				big := c.Ule(c.BV(b.w, uint64(a.w)), b)
				sh = c.Ite(big, c.BV(a.w, uint64(a.w)), c.Extract(b, 0, a.w))
			}
			return c.Bin(o, a, sh)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case string, SymStr:
		switch op {
		case token.ADD:
			return r.m.mkStr(append(append([]*Term(nil), r.m.strBytes(x)...), r.m.strBytes(y)...))
		case token.LSS:
			return r.strLess(r.m.strBytes(x), r.m.strBytes(y))
		case token.GTR:
			return r.strLess(r.m.strBytes(y), r.m.strBytes(x))
		case token.LEQ:
			return c.Not(r.strLess(r.m.strBytes(y), r.m.strBytes(x)))
		case token.GEQ:
			return c.Not(r.strLess(r.m.strBytes(x), r.m.strBytes(y)))
		}
	case float64:
		if b, ok := y.(float64); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.QUO:
				return a / b
			case token.LSS:
				return c.Bool(a < b)
			case token.LEQ:
				return c.Bool(a <= b)
			case token.GTR:
				return c.Bool(a > b)
			case token.GEQ:
				return c.Bool(a >= b)
			}
		} else {
			return r.binop(op, xt, yt, x, r.concFloat(y))
		}
	case *FSym:
		return r.binop(op, xt, yt, r.concFloat(x), r.concFloat(y))
	}
	unsupported("binop %s on %T", op, x)
	return nil
}

// concFloat forks over the possible values of a symbolic float.
func (r *Run) concFloat(v Value) Value {
	f, ok := v.(*FSym)
	if !ok {
		return v
	}
	n := r.concretize(f.iv)
	if f.pow {
		x := 1.0
		for i := uint64(0); i < n; i++ {
			x *= 2
		}
		return x
	}
	return float64(n)
}

func (r *Run) strLess(a, b []*Term) *Term {
	c := r.m.ctx
	n := min(len(a), len(b))
	res := c.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		res = c.Ite(c.Eq(a[i], b[i]), res, c.Ult(a[i], b[i]))
	}
	return res
}

func (r *Run) isNilLike(v Value) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Value:
		return v == nil
	case *Closure:
		return v == nil
	case Slice:
		return !v.set
	case *MapObj:
		return v == nil
	case *ChanObj:
		return v == nil
	case Iface:
		return v.t == nil
	}
	return false
}

// equal implements == including the run-time panic on uncomparable dynamic types.
func (r *Run) equal(x, y Value) *Term {
	c := r.m.ctx
	switch a := x.(type) {
	case *Term:
		return c.Eq(a, y.(*Term))
	case string, SymStr:
		if as, ok := x.(string); ok {
			if bs, ok := y.(string); ok {
				return c.Bool(as == bs)
			}
		}
		ab, bb := r.m.strBytes(x), r.m.strBytes(y)
		if len(ab) != len(bb) {
			return c.fls
		}
		res := c.tru
		for i := range ab {
			res = c.And(res, c.Eq(ab[i], bb[i]))
		}
		return res
	case float64:
		if b, ok := y.(float64); ok {
			return c.Bool(a == b)
		}
		return r.equal(x, r.concFloat(y))
	case *FSym:
		return r.equal(r.concFloat(x), r.concFloat(y))
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			return c.Bool(a == nil && r.isNilLike(y))
		}
		return c.Bool(a == b)
	case Struct:
		b := y.(Struct)
		res := c.tru
		for i := range a {
			res = c.And(res, r.equal(a[i], b[i]))
			if res.isFalse() {
				return res
			}
		}
		return res
	case Array:
		b := y.(Array)
		res := c.tru
		for i := range a {
			res = c.And(res, r.equal(a[i], b[i]))
			if res.isFalse() {
				return res
			}
		}
		return res
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return c.Bool(a.t == nil && r.isNilLike(y))
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.fls
		}
		if !types.Comparable(a.t) {
			r.rtPanic("comparing uncomparable type %s", a.t)
		}
		return r.equal(a.v, b.v)
	case Slice, *MapObj, *ChanObj:
		if m1, ok := x.(*MapObj); ok {
			if m2, ok := y.(*MapObj); ok {
				return c.Bool(m1 == m2)
			}
		}
		if m1, ok := x.(*ChanObj); ok {
			if m2, ok := y.(*ChanObj); ok {
				return c.Bool(m1 == m2)
			}
		}
		if r.isNilLike(y) {
			return c.Bool(r.isNilLike(x))
		}
		if r.isNilLike(x) {
			return c.Bool(r.isNilLike(y))
		}
	case *Closure:
		if a == nil || r.isNilLike(y) {
			return c.Bool(a == nil && r.isNilLike(y))
		}
	case *ssa.Function:
		if r.isNilLike(y) {
			return c.fls
		}
	case nil:
		return c.Bool(r.isNilLike(y))
	}
	unsupported("== on %T and %T", x, y)
	return nil
}

func (r *Run) unop(in *ssa.UnOp, x Value) Value {
	c := r.m.ctx
	switch in.Op {
	case token.MUL:
		p, ok := x.(*Value)
		if !ok {
			unsupported("load from %T", x)
		}
		if p == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		if r.conc != nil {
			r.conc.access(r, p, false, false)
		}
		if po, ok := (*p).(poison); ok {
			unsupported("use of uninitialised global: %s", po.why)
		}
		return copyVal(*p)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.XOR:
		return c.BNot(x.(*Term))
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return c.Neg(v)
		case float64:
			return -v
		}
	case token.ARROW:
		unsupported("channel receive")
	}
	unsupported("unop %s on %T", in.Op, x)
	return nil
}

func (r *Run) concInt(t *Term) int64 {
	v := r.concretize(t)
	return sx(v, t.w)
}

// idx64 widens an index to 64 bits according to its type.
func (r *Run) idx64(t *Term, ty types.Type) *Term {
	_, signed, _ := basicWidth(ty.Underlying().(*types.Basic))
	if signed {
		return r.m.ctx.Sext(t, 64)
	}
	return r.m.ctx.Zext(t, 64)
}

func (r *Run) boundsCheck(i *Term, n int) {
	c := r.m.ctx
	// unsigned comparison also rejects negative values
	r.mustNot(c.Not(c.Ult(i, c.BV(64, uint64(n)))), "index out of range")
}

func (r *Run) indexAddr(x Value, it *Term, ity types.Type) Value {
	i := r.idx64(it, ity)
	switch a := x.(type) {
	case Slice:
		r.boundsCheck(i, len(a.v))
		return &a.v[r.concretize(i)]
	case *Value:
		if a == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := (*a).(Array)
		r.boundsCheck(i, len(arr))
		p := &arr[r.concretize(i)]
		if r.conc != nil {
			r.conc.elem(a, p)
		}
		return p
	}
	unsupported("IndexAddr on %T", x)
	return nil
}

func (r *Run) index(x Value, it *Term, ity types.Type) Value {
	i := r.idx64(it, ity)
	switch a := x.(type) {
	case Array:
		r.boundsCheck(i, len(a))
		if v, ok := r.selectTerm(a, i); ok {
			return v
		}
		return copyVal(a[r.concretize(i)])
	case string, SymStr:
		b := r.m.strBytes(x)
		r.boundsCheck(i, len(b))
		if isC(i) {
			return b[i.k]
		}
		vs := make([]Value, len(b))
		for k := range b {
			vs[k] = b[k]
		}
		if v, ok := r.selectTerm(vs, i); ok {
			return v
		}
		return b[r.concretize(i)]
	}
	unsupported("Index on %T", x)
	return nil
}

// selectTerm builds an ite chain for a symbolic index into scalar elements.
func (r *Run) selectTerm(a []Value, i *Term) (Value, bool) {
	if isC(i) || len(a) == 0 || len(a) > 512 {
		return nil, false
	}
	c := r.m.ctx
	var res *Term
	for k := len(a) - 1; k >= 0; k-- {
		t, ok := a[k].(*Term)
		if !ok {
			return nil, false
		}
		if res == nil {
			res = t
		} else {
			res = c.Ite(c.Eq(i, c.BV(64, uint64(k))), t, res)
		}
	}
	return res, true
}

func (r *Run) slice(in *ssa.Slice, x, lo, hi, mx Value) Value {
	geti := func(v Value, def int64) int64 {
		if v == nil {
			return def
		}
		return r.concInt(v.(*Term))
	}
	switch a := x.(type) {
	case string, SymStr:
		b := r.m.strBytes(a)
		l, h := geti(lo, 0), geti(hi, int64(len(b)))
		if l < 0 || h < l || h > int64(len(b)) {
			r.rtPanic("slice bounds out of range")
		}
		return r.m.mkStr(b[l:h])
	case Slice:
		l, h := geti(lo, 0), geti(hi, int64(len(a.v)))
		m := geti(mx, int64(cap(a.v)))
		if l < 0 || h < l || m < h || m > int64(cap(a.v)) {
			r.rtPanic("slice bounds out of range")
		}
		if !a.set {
			return Slice{}
		}
		return Slice{a.v[l:h:m], true}
	case *Value:
		if a == nil {
			r.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := []Value((*a).(Array))
		l, h := geti(lo, 0), geti(hi, int64(len(arr)))
		m := geti(mx, int64(len(arr)))
		if l < 0 || h < l || m < h || m > int64(len(arr)) {
			r.rtPanic("slice bounds out of range")
		}
		return Slice{arr[l:h:m], true}
	}
	unsupported("slice of %T", x)
	return nil
}

func (r *Run) convert(x Value, from, to types.Type) Value {
	c := r.m.ctx
	uf, ut := from.Underlying(), to.Underlying()
	switch tt := ut.(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(tt); ok && w > 0 {
			switch v := x.(type) {
			case *Term:
				_, fs, _ := basicWidth(uf.(*types.Basic))
				switch {
				case v.w == w:
					return v
				case v.w > w:
					return c.Extract(v, 0, w)
				case fs:
					return c.Sext(v, w)
				default:
					return c.Zext(v, w)
				}
			case float64:
				_, s, _ := basicWidth(tt)
				if s {
					return c.BV(w, uint64(int64(v)))
				}
				return c.BV(w, uint64(v))
			case *FSym:
				if !v.pow {
					if v.iv.w >= w {
						return c.Extract(v.iv, 0, w)
					}
					return c.Zext(v.iv, w)
				}
				// 2^iv; exact while it fits, otherwise implementation defined
				over := c.Ule(c.BV(v.iv.w, uint64(w)), v.iv)
				if r.branch(over) {
					unsupported("float to integer conversion out of range")
				}
				e := v.iv
				if e.w > w {
					e = c.Extract(e, 0, w)
				} else {
					e = c.Zext(e, w)
				}
				return c.Bin(OShl, c.BV(w, 1), e)
			case *Value: // uintptr(unsafe.Pointer)
				unsupported("uintptr of pointer")
			}
		}
		switch tt.Kind() {
		case types.String:
			switch v := x.(type) {
			case Slice: // []byte or []rune
				el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					b := make([]*Term, len(v.v))
					for i := range b {
						b[i] = v.v[i].(*Term)
					}
					return r.m.mkStr(b)
				}
				rs := make([]rune, len(v.v))
				for i := range rs {
					rs[i] = rune(r.concInt(v.v[i].(*Term)))
				}
				return string(rs)
			case string, SymStr:
				return v
			case *Term:
				return string(rune(r.concInt(v)))
			}
		case types.Float64, types.Float32:
			switch v := x.(type) {
			case float64:
				if tt.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *FSym:
				return v
			case *Term:
				_, s, _ := basicWidth(uf.(*types.Basic))
				if isC(v) {
					if s {
						return float64(sx(v.k, v.w))
					}
					return float64(v.k)
				}
				if v.hi < 1<<53 && (!s || v.hi <= maskW(v.w)>>1) {
					return &FSym{iv: v}
				}
				n := r.concretize(v)
				if s {
					return float64(sx(n, v.w))
				}
				return float64(n)
			}
		case types.UnsafePointer:
			return x
		}
	case *types.Slice:
		el, ok := tt.Elem().Underlying().(*types.Basic)
		if ok && el.Kind() == types.Uint8 {
			switch x.(type) {
			case string, SymStr:
				b := r.m.strBytes(x)
				s := make([]Value, len(b))
				for i := range b {
					s[i] = b[i]
				}
				return Slice{s, true}
			}
		}
		if ok && el.Kind() == types.Int32 {
			if s, ok := x.(string); ok {
				var out []Value
				for _, ru := range s {
					out = append(out, c.BV(32, uint64(ru)))
				}
				return Slice{out, true}
			}
		}
	case *types.Pointer:
		return x
	}
	unsupported("conversion %s -> %s of %T", from, to, x)
	return nil
}

func (r *Run) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	c := r.m.ctx
	ok := false
	var v Value
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && r.m.prog.implements(x.t, in.AssertedType.Underlying().(*types.Interface)) {
			ok, v = true, x
		} else {
			v = Iface{}
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok, v = true, copyVal(x.v)
	} else {
		v = r.m.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, c.Bool(ok)}
	}
	if !ok {
		r.rtPanic("interface conversion: interface is %v, not %s", x.t, in.AssertedType)
	}
	return v
}

func (r *Run) mapFind(mo *MapObj, k Value) int {
	if mo == nil {
		return -1
	}
	for j := range mo.keys {
		if r.branch(r.equal(mo.keys[j], k)) {
			return j
		}
	}
	return -1
}

func (r *Run) lookup(in *ssa.Lookup, x, k Value) Value {
	c := r.m.ctx
	switch a := x.(type) {
	case *MapObj:
		j := r.mapFind(a, k)
		var v Value
		if j >= 0 {
			v = copyVal(a.vals[j])
		} else {
			v = r.m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, c.Bool(j >= 0)}
		}
		return v
	case string, SymStr:
		return r.index(x, k.(*Term), in.Index.Type())
	}
	unsupported("lookup on %T", x)
	return nil
}

func (r *Run) next(in *ssa.Next, it Value) Value {
	c := r.m.ctx
	switch x := it.(type) {
	case *mapIter:
		if x.m == nil || x.pos >= len(x.m.keys) {
			tt := in.Type().(*types.Tuple)
			z := func(i int) Value {
				if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return r.m.zero(tt.At(i).Type())
			}
			return Tuple{c.fls, z(1), z(2)}
		}
		x.pos++
		return Tuple{c.tru, copyVal(x.m.keys[x.pos-1]), copyVal(x.m.vals[x.pos-1])}
	case *strIter:
		if x.pos >= len(x.s) {
			return Tuple{c.fls, c.BV(64, 0), c.BV(32, 0)}
		}
		p := x.pos
		b := x.s[p]
		if r.branch(c.Ult(b, c.BV(8, 0x80))) {
			x.pos++
			return Tuple{c.tru, c.BV(64, uint64(p)), c.Zext(b, 32)}
		}
		// non-ASCII: only concrete text is supported
		var buf []byte
		for _, t := range x.s[p:min(len(x.s), p+4)] {
			buf = append(buf, byte(r.concretize(t)))
		}
		ru, n := decodeRune(buf)
		x.pos += n
		return Tuple{c.tru, c.BV(64, uint64(p)), c.BV(32, uint64(ru))}
	}
	unsupported("next on %T", it)
	return nil
}

func (r *Run) builtin(b *ssa.Builtin, args []Value, site ssa.Instruction) Value {
	c := r.m.ctx
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return c.BV(64, uint64(len(x)))
		case SymStr:
			return c.BV(64, uint64(len(x)))
		case Slice:
			return c.BV(64, uint64(len(x.v)))
		case Array:
			return c.BV(64, uint64(len(x)))
		case *Value:
			return c.BV(64, uint64(len((*x).(Array))))
		case *MapObj:
			if x == nil {
				return c.BV(64, 0)
			}
			return c.BV(64, uint64(len(x.keys)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.BV(64, uint64(cap(x.v)))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch x := args[1].(type) {
		case Slice:
			add = x.v
		case string, SymStr:
			for _, t := range r.m.strBytes(x) {
				add = append(add, t)
			}
		}
		if len(s.v)+len(add) <= cap(s.v) {
			n := s.v[:len(s.v)+len(add)]
			for i, v := range add {
				n[len(s.v)+i] = copyVal(v)
			}
			return Slice{n, s.set || len(add) > 0}
		}
		n := make([]Value, len(s.v), max(2*cap(s.v), len(s.v)+len(add)))
		for i, v := range s.v {
			n[i] = copyVal(v)
		}
		for _, v := range add {
			n = append(n, copyVal(v))
		}
		// fill the spare capacity with zero values
		if len(n) < cap(n) {
			el := site.(ssa.Value).Type().Underlying().(*types.Slice).Elem()
			full := n[:cap(n)]
			for i := len(n); i < len(full); i++ {
				full[i] = r.m.zero(el)
			}
		}
		return Slice{n, true}
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch x := args[1].(type) {
		case Slice:
			src = x.v
		default:
			for _, t := range r.m.strBytes(x) {
				src = append(src, t)
			}
		}
		n := min(len(d.v), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		copy(d.v, tmp)
		return c.BV(64, uint64(n))
	case "panic":
		v := args[0].(Iface)
		if r.mg != nil {
			panic(mergeAbort{"panic"})
		}
		panic(&targetPanic{v: v, msg: r.m.show(v, r.model), pos: r.where()})
	case "recover":
		// the deferred function's caller is the panicking frame
		if f := r.top; f != nil {
			// r.top is the deferred function itself; its caller is the frame running defers
			if p := f.caller; p != nil && p.panicing {
				p.panicing = false
				v := p.pval.v
				return v
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		res := args[0]
		for _, a := range args[1:] {
			x, y := res.(*Term), a.(*Term)
			t := site.(ssa.Value).Type()
			lt := r.binop(token.LSS, t, t, x, y).(*Term)
			if b.Name() == "min" {
				res = c.Ite(lt, x, y)
			} else {
				res = c.Ite(lt, y, x)
			}
		}
		return res
	case "delete":
		mo := args[0].(*MapObj)
		if j := r.mapFind(mo, args[1]); j >= 0 {
			mo.keys = append(mo.keys[:j:j], mo.keys[j+1:]...)
			mo.vals = append(mo.vals[:j:j], mo.vals[j+1:]...)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				x.keys, x.vals = nil, nil
			}
			return nil
		case Slice:
			if call, ok := site.(ssa.CallInstruction); ok {
				if st, ok := call.Common().Args[0].Type().Underlying().(*types.Slice); ok {
					for i := range x.v {
						storeInto(&x.v[i], r.m.zero(st.Elem()))
					}
					return nil
				}
			}
		}
	case "ssa:wrapnilchk":
		if r.isNilLike(args[0]) {
			r.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len): ptr must come from SliceData
	}
	unsupported("builtin %s", b.Name())
	return nil
}
