package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value = any

// Representation:
//
//	bool              bool | *Term (width 0)
//	integers, uintptr uint64 (masked to the width of the static type) | *Term
//	floats            float64 ; complex: complex128
//	string            string | symStr
//	pointer           *value (nil: (*value)(nil)) | *symPtr | *dataPtr | native objects
//	slice             []value ; array: arrayV ; struct: structV
//	map               *mapV ; interface: iface ; func: *ssa.Function | *closure | *nativeFn | *ssa.Builtin
//	chan              *chanV
type (
	structV []value
	arrayV  []value
	tuple   []value
	symStr  []value
	iface   struct {
		t types.Type // canonical; nil for the nil interface
		v value
	}
	closure struct {
		fn  *ssa.Function
		env []value
	}
	nativeFn struct {
		name string
		f    func(in *interp, args []value) value
	}
	// symPtr: address of element idx of a, idx symbolic and within bounds
	symPtr struct {
		a   []value
		idx *Term
	}
	// dataPtr: unsafe.SliceData / unsafe.StringData
	dataPtr struct {
		s   []value
		str value
	}
	poison struct{ msg string }
)

type targetPanic struct{ v value } // v is an iface

func mkString(b []value) value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			c := make(symStr, len(b))
			copy(c, b)
			return c
		}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.(uint64))
	}
	return string(buf)
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case symStr:
		return len(v)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strAt(v value, i int) value {
	switch v := v.(type) {
	case string:
		return uint64(v[i])
	case symStr:
		return v[i]
	}
	panic(fmt.Sprintf("strAt %T", v))
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		r := make([]value, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = uint64(v[i])
		}
		return r
	case symStr:
		r := make([]value, len(v))
		copy(r, v)
		return r
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strSlice(v value, lo, hi int) value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case symStr:
		return mkString(v[lo:hi])
	}
	panic(fmt.Sprintf("strSlice %T", v))
}

func strCat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	n := strLen(a)
	r := make(symStr, 0, n+strLen(b))
	for i := 0; i < n; i++ {
		r = append(r, strAt(a, i))
	}
	for i := 0; i < strLen(b); i++ {
		r = append(r, strAt(b, i))
	}
	return r
}

func goStr(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf("concrete string needed, have %T", v)})
	}
	return s
}

// --- types

type intInfo struct {
	w      uint8
	signed bool
}

var basicInfo = map[types.BasicKind]intInfo{
	types.Int: {64, true}, types.Int8: {8, true}, types.Int16: {16, true}, types.Int32: {32, true}, types.Int64: {64, true},
	types.Uint: {64, false}, types.Uint8: {8, false}, types.Uint16: {16, false}, types.Uint32: {32, false}, types.Uint64: {64, false},
	types.Uintptr: {64, false}, types.UntypedInt: {64, true}, types.UntypedRune: {32, true},
}

func intOf(t types.Type) (intInfo, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		i, ok := basicInfo[b.Kind()]
		return i, ok
	}
	return intInfo{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isComplex(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsComplex != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isIface(t types.Type) bool { return types.IsInterface(t) }

var (
	nilPtr   value = (*value)(nil)
	nilSlice value = []value(nil)
	nilMap   value = (*mapV)(nil)
	nilFunc  value = (*ssa.Function)(nil)
	nilChan  value = (*chanV)(nil)
	nilIface value = iface{}
	zeroInt  value = uint64(0)
	vFalse   value = false
	vTrue    value = true
	emptyStr value = ""
	zeroFlt  value = float64(0)
)

// zero returns the zero value of t.
func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsInteger != 0:
			return zeroInt
		case u.Info()&types.IsString != 0:
			return emptyStr
		case u.Info()&types.IsFloat != 0:
			return zeroFlt
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return nilMap
	case *types.Signature:
		return nilFunc
	case *types.Chan:
		return nilChan
	case *types.Interface:
		return nilIface
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(arrayV, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case structV, arrayV:
				a[0] = z
				for i := 1; i < n; i++ {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic("zero of type parameter")
	}
	panic(fmt.Sprintf("zero: unexpected %s", t))
}

// copyVal copies aggregates (structs and arrays are values).
func copyVal(v value) value {
	switch v := v.(type) {
	case structV:
		r := make(structV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	case arrayV:
		r := make(arrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case structV, arrayV:
				r[i] = copyVal(x)
			default:
				r[i] = x
			}
		}
		return r
	}
	return v
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// show renders a value for diagnostics and observations.
func (in *interp) showConcrete(v value, m model) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		x := in.tc.Eval(v, m)
		if v.w == 0 {
			return fmt.Sprint(x == 1)
		}
		return fmt.Sprint(x)
	case symStr:
		b := make([]byte, len(v))
		for i, x := range v {
			switch x := x.(type) {
			case uint64:
				b[i] = byte(x)
			case *Term:
				b[i] = byte(in.tc.Eval(x, m))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case string:
		return fmt.Sprintf("%q", v)
	case uint64, bool, float64:
		return fmt.Sprint(v)
	case []value:
		var p []string
		for _, x := range v {
			p = append(p, in.showConcrete(x, m))
		}
		return "[" + strings.Join(p, " ") + "]"
	case iface:
		if v.t == nil {
			return "<nil>"
		}
		return in.showConcrete(v.v, m)
	}
	return fmt.Sprintf("%T", v)
}
