package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term     booleans and integers
//	string    fully concrete string
//	SymStr    string of known length with symbolic bytes
//	float64   concrete floating point
//	*FSym     exact symbolic floating point (integer valued)
//	*Value    pointer (nil pointer = (*Value)(nil))
//	Struct, Array, Slice, Tuple
//	Iface     interface value
//	*Closure, *ssa.Function, *ssa.Builtin
//	*MapObj, *ChanObj
//	poison    value of an initialiser that could not be executed
type Value interface{}

type (
	// SymStr is a string with symbolic bytes (each a width-8 term).
	SymStr []*Term
	Struct []Value
	Array  []Value
	Slice  struct {
		v   []Value
		set bool // non-nil
	}
	Tuple []Value
	Iface struct {
		t types.Type
		v Value
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	MapObj struct {
		keys, vals []Value
	}
	ChanObj struct {
		cap int
		buf []Value
	}
	poison  struct{ why string }
	mapIter struct {
		m   *MapObj
		pos int
	}
	strIter struct {
		s   []*Term
		pos int
	}
	// FSym is a symbolic float whose exact value is the unsigned integer iv
	// (when pow is false) or 2^iv (when pow is true).
	FSym struct {
		iv  *Term
		pow bool
	}
)

type engineError struct{ msg string }

func (e engineError) Error() string { return e.msg }

// notEncoded marks code outside what the engine can execute; the path that
// meets it is left undecided.
type notEncoded struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(notEncoded{fmt.Sprintf(f, a...)})
}

func basicWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(u); ok {
			if w == 0 {
				return m.ctx.fls
			}
			return m.ctx.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return ""
		case types.Float64, types.Float32, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = m.zero(u.At(i).Type())
		}
		return tu
	}
	unsupported("zero value of %s", t)
	return nil
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		unsupported("constant of type %s", c.Type())
	}
	if w, _, ok := basicWidth(t); ok {
		if w == 0 {
			return m.ctx.Bool(constant.BoolVal(c.Value))
		}
		if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return m.ctx.BV(w, v)
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Value))
		return m.ctx.BV(w, uint64(v))
	}
	switch t.Kind() {
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Value))
		return string(rune(v))
	case types.Float64, types.UntypedFloat, types.Float32:
		f, _ := constant.Float64Val(c.Value)
		if t.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	unsupported("constant %s", c)
	return nil
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// storeInto writes v to the cell p keeping the identity of nested cells.
func storeInto(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				storeInto(&old[i], nv[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (m *Machine) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		b := make([]*Term, len(v))
		for i := range b {
			b[i] = m.ctx.BV(8, uint64(v[i]))
		}
		return b
	case SymStr:
		return v
	}
	unsupported("string value %T", v)
	return nil
}

func (m *Machine) mkStr(b []*Term) Value {
	buf := make([]byte, len(b))
	for i, t := range b {
		t = m.ctx.r(t)
		if !isC(t) {
			return SymStr(append([]*Term(nil), b...))
		}
		buf[i] = byte(t.k)
	}
	return string(buf)
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case SymStr:
		return len(v)
	}
	unsupported("strLen %T", v)
	return 0
}

// concrete evaluation of a value under a model, for diagnostics
func (m *Machine) show(v Value, model Model) string {
	switch v := v.(type) {
	case *Term:
		x := m.ctx.Eval(v, model)
		if v.w == 0 {
			return fmt.Sprint(x == 1)
		}
		return fmt.Sprint(x)
	case string:
		return fmt.Sprintf("%q", v)
	case SymStr:
		b := make([]byte, len(v))
		for i, t := range v {
			b[i] = byte(m.ctx.Eval(t, model))
		}
		return fmt.Sprintf("%q", string(b))
	case Struct:
		s := "{"
		for i, x := range v {
			if i > 0 {
				s += " "
			}
			s += m.show(x, model)
		}
		return s + "}"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return m.show(v.v, model)
	case float64:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("<%T>", v)
}

func floatBits(f float64) uint64 { return math.Float64bits(f) }
