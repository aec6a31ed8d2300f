package main

// Emulation of package reflect (and internal/reflectlite) over go/types.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type rtypeV struct{ t types.Type }

// rv is the payload of a reflect.Value.
type rv struct {
	t    types.Type
	addr *value // addressable location, or nil
	v    value
	ro   bool
	// embedRO: ro only because it is an embedded unexported field; its exported fields are accessible
	embedRO bool
}

func (r *rv) get() value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func mkRV(r *rv) value { return structV{r, nilPtr, zeroInt} }

func getRV(in *interp, v value) *rv {
	s, ok := v.(structV)
	if !ok {
		in.unsupported("reflect.Value is %T", v)
	}
	r, ok := s[0].(*rv)
	if !ok {
		return nil
	}
	return r
}

func (in *interp) needRV(v value, m string) *rv {
	r := getRV(in, v)
	if r == nil {
		in.reflectPanic("reflect: call of reflect.Value." + m + " on zero Value")
	}
	return r
}

func (in *interp) reflectPanic(msg string) {
	if in.spec {
		panic(specFail{msg})
	}
	panic(targetPanic{iface{t: in.canon(types.Typ[types.String]), v: msg}})
}

func (in *interp) rtypeIface(t types.Type, lite bool) value {
	if t == nil {
		return iface{}
	}
	return iface{t: in.rtypeT(lite), v: rtypeV{in.canon(t)}}
}

func (in *interp) rtypeT(lite bool) types.Type {
	if lite {
		return in.canon(in.P.namedType("internal/reflectlite", "rtype"))
	}
	return in.canon(types.NewPointer(in.P.namedType("reflect", "rtype")))
}

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return kBool
		case types.Int, types.UntypedInt:
			return kInt
		case types.Int8:
			return kInt8
		case types.Int16:
			return kInt16
		case types.Int32, types.UntypedRune:
			return kInt32
		case types.Int64:
			return kInt64
		case types.Uint:
			return kUint
		case types.Uint8:
			return kUint8
		case types.Uint16:
			return kUint16
		case types.Uint32:
			return kUint32
		case types.Uint64:
			return kUint64
		case types.Uintptr:
			return kUintptr
		case types.Float32:
			return kFloat32
		case types.Float64, types.UntypedFloat:
			return kFloat64
		case types.Complex64:
			return kComplex64
		case types.Complex128:
			return kComplex128
		case types.String, types.UntypedString:
			return kString
		case types.UnsafePointer:
			return kUnsafePointer
		}
	case *types.Array:
		return kArray
	case *types.Chan:
		return kChan
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kInterface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPointer
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return kInvalid
}

func (in *interp) typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		n := t.Obj().Name()
		return n
	case *types.Basic:
		return t.Name()
	}
	return ""
}

// structFieldV builds a reflect.StructField.
func (in *interp) structFieldV(st *types.Struct, i int, lite bool) value {
	f := st.Field(i)
	sft := in.P.namedType("reflect", "StructField")
	us := sft.Underlying().(*types.Struct)
	out := make(structV, us.NumFields())
	for j := 0; j < us.NumFields(); j++ {
		switch us.Field(j).Name() {
		case "Name":
			out[j] = f.Name()
		case "PkgPath":
			if !f.Exported() && f.Pkg() != nil {
				out[j] = f.Pkg().Path()
			} else {
				out[j] = ""
			}
		case "Type":
			out[j] = in.rtypeIface(f.Type(), false)
		case "Tag":
			out[j] = st.Tag(i)
		case "Offset":
			out[j] = uint64(i * 8)
		case "Index":
			out[j] = []value{uint64(i)}
		case "Anonymous":
			out[j] = f.Anonymous()
		}
	}
	return out
}

// methodsOf: exported methods in sorted order.
func (in *interp) methodsOf(t types.Type) []*types.Selection {
	ms := in.P.prog.MethodSets.MethodSet(t)
	var l []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			l = append(l, ms.At(i))
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Obj().Name() < l[j].Obj().Name() })
	return l
}

// ifaceOf converts the value into an interface value.
func (in *interp) ifaceOf(r *rv) iface {
	v := r.get()
	if isIface(r.t) {
		return v.(iface)
	}
	return iface{t: r.t, v: copyVal(v)}
}

// assignTo converts r's value for storage in a location of type dt.
func (in *interp) assignTo(r *rv, dt types.Type, what string) value {
	if isIface(dt) {
		if isIface(r.t) {
			return r.get()
		}
		if !types.AssignableTo(r.t, dt) {
			in.reflectPanic(fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", in.typeString(r.t), in.typeString(dt)))
		}
		return in.ifaceOf(r)
	}
	if !types.AssignableTo(r.t, dt) {
		in.reflectPanic(fmt.Sprintf("reflect.Set: value of type %s is not assignable to type %s", in.typeString(r.t), in.typeString(dt)))
	}
	return copyVal(r.get())
}

func (in *interp) mustSet(r *rv, m string) {
	if r.ro {
		in.reflectPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
	if r.addr == nil {
		in.reflectPanic("reflect: reflect.Value." + m + " using unaddressable value")
	}
}

func (in *interp) mustExported(r *rv, m string) {
	if r.ro {
		in.reflectPanic("reflect: reflect.Value." + m + " using value obtained using unexported field")
	}
}

func (in *interp) kindPanic(m string, r *rv) {
	in.reflectPanic(fmt.Sprintf("reflect: call of reflect.Value.%s on %s Value", m, in.typeString(r.t)))
}

func (in *interp) fieldRV(r *rv, i int) *rv {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		in.kindPanic("Field", r)
	}
	if i < 0 || i >= st.NumFields() {
		in.reflectPanic("reflect: Field index out of range")
	}
	f := st.Field(i)
	n := &rv{t: in.canon(f.Type()), ro: r.ro && !r.embedRO}
	if !f.Exported() {
		n.embedRO = f.Anonymous() && !n.ro
		n.ro = true
	}
	sv, ok := r.get().(structV)
	if !ok {
		in.unsupported("reflect field of %T", r.get())
	}
	if r.addr != nil {
		n.addr = &sv[i]
	} else {
		n.v = sv[i]
	}
	return n
}

func (in *interp) fieldByName(t types.Type, name string) ([]int, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return idx, true
	}
	if obj == nil {
		// unexported: search direct fields
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return []int{i}, true
				}
			}
		}
	}
	return nil, false
}

func (in *interp) isNilV(v value) (bool, bool) {
	switch v := v.(type) {
	case *value:
		return v == nil, true
	case []value:
		return v == nil, true
	case *mapV:
		return v == nil, true
	case iface:
		return v.t == nil, true
	case *ssa.Function:
		return v == nil, true
	case *chanV:
		return v == nil, true
	case *closure, *nativeFn, *dataPtr, *symPtr:
		return false, true
	}
	return false, false
}

// isZeroV returns bool or *Term.
func (in *interp) isZeroV(t types.Type, v value) value {
	switch v := v.(type) {
	case uint64:
		return v == 0
	case bool:
		return !v
	case float64:
		return v == 0
	case *Term:
		if v.w == 0 {
			return in.boolVal(in.tc.Not(v))
		}
		return in.boolVal(in.tc.Eq(v, in.tc.Const(0, v.w)))
	case string, symStr:
		return strLen(v) == 0
	case structV:
		st := t.Underlying().(*types.Struct)
		l := []*Term{}
		for i := range v {
			l = append(l, in.termOf(in.isZeroV(st.Field(i).Type(), v[i]), 0))
		}
		return in.boolVal(in.tc.And(l...))
	case arrayV:
		et := t.Underlying().(*types.Array).Elem()
		l := []*Term{}
		for i := range v {
			l = append(l, in.termOf(in.isZeroV(et, v[i]), 0))
		}
		return in.boolVal(in.tc.And(l...))
	case rtypeV:
		return false
	case *rv:
		return false
	}
	if n, ok := in.isNilV(v); ok {
		return n
	}
	in.unsupported("IsZero of %T", v)
	return nil
}

func one(v value) []value { return []value{v} }

func u64(v value, in *interp) int { return in.concInt(v) }

type intrFn = func(in *interp, fr *frame, args []value) value

func init() {
	reg := func(name string, f intrFn) {
		intrinsics["reflect."+name] = f
		intrinsics["internal/reflectlite."+name] = f
	}
	regV := func(name string, f intrFn) {
		intrinsics["(reflect.Value)."+name] = f
		intrinsics["(internal/reflectlite.Value)."+name] = f
	}
	regT := func(name string, f func(in *interp, t types.Type, args []value, lite bool) value) {
		intrinsics["(*reflect.rtype)."+name] = func(in *interp, fr *frame, args []value) value {
			return f(in, args[0].(rtypeV).t, args[1:], false)
		}
		intrinsics["(internal/reflectlite.rtype)."+name] = func(in *interp, fr *frame, args []value) value {
			return f(in, args[0].(rtypeV).t, args[1:], true)
		}
	}
	reg("ValueOf", func(in *interp, fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return structV{nilPtr, nilPtr, zeroInt}
		}
		return mkRV(&rv{t: i.t, v: i.v})
	})
	intrinsics["reflect.TypeOf"] = func(in *interp, fr *frame, a []value) value { return in.rtypeIface(a[0].(iface).t, false) }
	intrinsics["internal/reflectlite.TypeOf"] = func(in *interp, fr *frame, a []value) value { return in.rtypeIface(a[0].(iface).t, true) }
	intrinsics["reflect.Indirect"] = func(in *interp, fr *frame, a []value) value {
		r := getRV(in, a[0])
		if r == nil || kindOf(r.t) != kPointer {
			return a[0]
		}
		return in.elemRV(r)
	}
	intrinsics["reflect.New"] = func(in *interp, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeV).t
		p := new(value)
		*p = zero(t)
		in.noteAlloc(p)
		return mkRV(&rv{t: in.canon(types.NewPointer(t)), v: p})
	}
	intrinsics["reflect.Zero"] = func(in *interp, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeV).t
		return mkRV(&rv{t: t, v: zero(t)})
	}
	intrinsics["reflect.MakeSlice"] = func(in *interp, fr *frame, a []value) value {
		t := a[0].(iface).v.(rtypeV).t
		n, c := in.concInt(a[1]), in.concInt(a[2])
		s := make([]value, c)
		for i := range s {
			s[i] = zero(t.Underlying().(*types.Slice).Elem())
		}
		in.noteSlice(s)
		return mkRV(&rv{t: t, v: s[:n]})
	}
	mm := func(in *interp, fr *frame, a []value) value {
		m := newMapV()
		in.noteMap(m)
		return mkRV(&rv{t: a[0].(iface).v.(rtypeV).t, v: m})
	}
	intrinsics["reflect.MakeMap"] = mm
	intrinsics["reflect.MakeMapWithSize"] = mm
	pt := func(in *interp, fr *frame, a []value) value {
		return in.rtypeIface(types.NewPointer(a[0].(iface).v.(rtypeV).t), false)
	}
	intrinsics["reflect.PtrTo"] = pt
	intrinsics["reflect.PointerTo"] = pt
	intrinsics["reflect.SliceOf"] = func(in *interp, fr *frame, a []value) value {
		return in.rtypeIface(types.NewSlice(a[0].(iface).v.(rtypeV).t), false)
	}
	intrinsics["reflect.MapOf"] = func(in *interp, fr *frame, a []value) value {
		return in.rtypeIface(types.NewMap(a[0].(iface).v.(rtypeV).t, a[1].(iface).v.(rtypeV).t), false)
	}
	intrinsics["reflect.Append"] = func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Append")
		et := r.t.Underlying().(*types.Slice).Elem()
		var add []value
		for _, x := range a[1].([]value) {
			add = append(add, in.assignTo(in.needRV(x, "Append"), et, "Append"))
		}
		s, _ := r.get().([]value)
		return mkRV(&rv{t: r.t, v: in.appendV(s, add, r.t)})
	}
	intrinsics["reflect.Copy"] = func(in *interp, fr *frame, a []value) value {
		d, s := in.needRV(a[0], "Copy"), in.needRV(a[1], "Copy")
		var dv, sv []value
		switch x := d.get().(type) {
		case []value:
			dv = x
		case arrayV:
			dv = x
		}
		switch x := s.get().(type) {
		case []value:
			sv = x
		case arrayV:
			sv = x
		default:
			sv = strBytes(x)
		}
		n := min(len(dv), len(sv))
		for i := 0; i < n; i++ {
			in.store(&dv[i], copyVal(sv[i]))
		}
		return uint64(n)
	}
	reg("Swapper", func(in *interp, fr *frame, a []value) value {
		s, _ := a[0].(iface).v.([]value)
		return &nativeFn{"swap", func(in *interp, x []value) value {
			i, j := in.concInt(x[0]), in.concInt(x[1])
			if i < 0 || j < 0 || i >= len(s) || j >= len(s) {
				in.runtimePanic("reflect: slice index out of range")
			}
			t := copyVal(s[i])
			u := copyVal(s[j])
			in.store(&s[i], u)
			in.store(&s[j], t)
			return nil
		}}
	})
	intrinsics["reflect.DeepEqual"] = func(in *interp, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if x.t != y.t {
			return false
		}
		return in.deepEqual(x.t, x.v, y.v, 0)
	}

	// --- Value
	regV("Kind", func(in *interp, fr *frame, a []value) value {
		r := getRV(in, a[0])
		if r == nil {
			return uint64(0)
		}
		return kindOf(r.t)
	})
	regV("IsValid", func(in *interp, fr *frame, a []value) value { return getRV(in, a[0]) != nil })
	intrinsics["(reflect.Value).Type"] = func(in *interp, fr *frame, a []value) value {
		return in.rtypeIface(in.needRV(a[0], "Type").t, false)
	}
	intrinsics["(internal/reflectlite.Value).Type"] = func(in *interp, fr *frame, a []value) value {
		return in.rtypeIface(in.needRV(a[0], "Type").t, true)
	}
	regV("Elem", func(in *interp, fr *frame, a []value) value { return in.elemRV(in.needRV(a[0], "Elem")) })
	regV("NumField", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "NumField")
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			in.kindPanic("NumField", r)
		}
		return uint64(st.NumFields())
	})
	regV("Field", func(in *interp, fr *frame, a []value) value {
		return mkRV(in.fieldRV(in.needRV(a[0], "Field"), u64(a[1], in)))
	})
	regV("FieldByIndex", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "FieldByIndex")
		for k, i := range a[1].([]value) {
			if k > 0 && kindOf(r.t) == kPointer {
				r = getRV(in, in.elemRV(r))
				if r == nil {
					in.reflectPanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			r = in.fieldRV(r, u64(i, in))
		}
		return mkRV(r)
	})
	regV("FieldByName", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "FieldByName")
		idx, ok := in.fieldByName(r.t, goStr(a[1]))
		if !ok {
			return structV{nilPtr, nilPtr, zeroInt}
		}
		for k, i := range idx {
			if k > 0 && kindOf(r.t) == kPointer {
				r = getRV(in, in.elemRV(r))
				if r == nil {
					in.reflectPanic("reflect: indirection through nil pointer to embedded struct")
				}
			}
			r = in.fieldRV(r, i)
		}
		return mkRV(r)
	})
	regV("Len", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Len")
		switch v := r.get().(type) {
		case []value:
			return uint64(len(v))
		case arrayV:
			return uint64(len(v))
		case *mapV:
			return uint64(v.len())
		case string, symStr:
			return uint64(strLen(v))
		case *value:
			if v != nil {
				if x, ok := (*v).(arrayV); ok {
					return uint64(len(x))
				}
			}
		}
		in.kindPanic("Len", r)
		return nil
	})
	regV("Cap", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Cap")
		switch v := r.get().(type) {
		case []value:
			return uint64(cap(v))
		case arrayV:
			return uint64(len(v))
		}
		in.kindPanic("Cap", r)
		return nil
	})
	regV("Index", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Index")
		i := u64(a[1], in)
		switch v := r.get().(type) {
		case []value:
			if i < 0 || i >= len(v) {
				in.reflectPanic("reflect: slice index out of range")
			}
			return mkRV(&rv{t: in.canon(r.t.Underlying().(*types.Slice).Elem()), addr: &v[i], ro: r.ro})
		case arrayV:
			if i < 0 || i >= len(v) {
				in.reflectPanic("reflect: array index out of range")
			}
			n := &rv{t: in.canon(r.t.Underlying().(*types.Array).Elem()), ro: r.ro}
			if r.addr != nil {
				n.addr = &v[i]
			} else {
				n.v = v[i]
			}
			return mkRV(n)
		case string, symStr:
			if i < 0 || i >= strLen(v) {
				in.reflectPanic("reflect: string index out of range")
			}
			return mkRV(&rv{t: in.canon(types.Typ[types.Uint8]), v: strAt(v, i)})
		}
		in.kindPanic("Index", r)
		return nil
	})
	regV("IsNil", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "IsNil")
		n, ok := in.isNilV(r.get())
		if !ok {
			in.kindPanic("IsNil", r)
		}
		return n
	})
	regV("IsZero", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "IsZero")
		return in.isZeroV(r.t, r.get())
	})
	regV("Interface", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Interface")
		in.mustExported(r, "Interface")
		return in.ifaceOf(r)
	})
	intrinsics["reflect.valueInterface"] = func(in *interp, fr *frame, a []value) value {
		return in.ifaceOf(in.needRV(a[0], "Interface"))
	}
	regV("CanInterface", func(in *interp, fr *frame, a []value) value { return !in.needRV(a[0], "CanInterface").ro })
	regV("CanSet", func(in *interp, fr *frame, a []value) value {
		r := getRV(in, a[0])
		return r != nil && r.addr != nil && !r.ro
	})
	regV("CanAddr", func(in *interp, fr *frame, a []value) value { r := getRV(in, a[0]); return r != nil && r.addr != nil })
	regV("Addr", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Addr")
		if r.addr == nil {
			in.reflectPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&rv{t: in.canon(types.NewPointer(r.t)), v: r.addr, ro: r.ro, embedRO: r.embedRO})
	})
	regV("Set", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Set")
		in.mustSet(r, "Set")
		x := in.needRV(a[1], "Set")
		in.mustExported(x, "Set")
		in.store(r.addr, in.assignTo(x, r.t, "Set"))
		return nil
	})
	regV("SetZero", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "SetZero")
		in.mustSet(r, "SetZero")
		in.store(r.addr, zero(r.t))
		return nil
	})
	setNum := func(name string, ok func(k uint64) bool) {
		regV(name, func(in *interp, fr *frame, a []value) value {
			r := in.needRV(a[0], name)
			in.mustSet(r, name)
			if !ok(kindOf(r.t)) {
				in.kindPanic(name, r)
			}
			v := a[1]
			if ii, isInt := intOf(r.t); isInt {
				switch x := v.(type) {
				case uint64:
					v = x & mask(ii.w)
				case *Term:
					v = in.intVal(in.tc.Trunc(x, ii.w))
				}
			}
			if kindOf(r.t) == kFloat32 {
				v = float64(float32(v.(float64)))
			}
			in.store(r.addr, v)
			return nil
		})
	}
	setNum("SetInt", func(k uint64) bool { return k >= kInt && k <= kInt64 })
	setNum("SetUint", func(k uint64) bool { return k >= kUint && k <= kUintptr })
	setNum("SetBool", func(k uint64) bool { return k == kBool })
	setNum("SetFloat", func(k uint64) bool { return k == kFloat32 || k == kFloat64 })
	setNum("SetString", func(k uint64) bool { return k == kString })
	setNum("SetBytes", func(k uint64) bool { return k == kSlice })
	regV("Grow", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Grow")
		in.mustSet(r, "Grow")
		s, _ := r.get().([]value)
		n := u64(a[1], in)
		if len(s)+n > cap(s) {
			add := make([]value, n)
			for i := range add {
				add[i] = zero(r.t.Underlying().(*types.Slice).Elem())
			}
			in.store(r.addr, in.appendV(s, add, r.t)[:len(s)])
		}
		return nil
	})
	regV("SetLen", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "SetLen")
		in.mustSet(r, "SetLen")
		in.store(r.addr, r.get().([]value)[:u64(a[1], in)])
		return nil
	})
	getNum := func(name string, ok func(k uint64) bool, w uint8) {
		regV(name, func(in *interp, fr *frame, a []value) value {
			r := in.needRV(a[0], name)
			if !ok(kindOf(r.t)) {
				in.kindPanic(name, r)
			}
			v := r.get()
			if ii, isInt := intOf(r.t); isInt {
				switch x := v.(type) {
				case uint64:
					if ii.signed {
						return sext(x, ii.w)
					}
					return x
				case *Term:
					return in.convInt(x, ii, intInfo{64, ii.signed})
				}
			}
			return v
		})
	}
	getNum("Int", func(k uint64) bool { return k >= kInt && k <= kInt64 }, 64)
	getNum("Uint", func(k uint64) bool { return k >= kUint && k <= kUintptr }, 64)
	getNum("Bool", func(k uint64) bool { return k == kBool }, 0)
	getNum("Float", func(k uint64) bool { return k == kFloat32 || k == kFloat64 }, 0)
	getNum("Complex", func(k uint64) bool { return k == kComplex64 || k == kComplex128 }, 0)
	regV("String", func(in *interp, fr *frame, a []value) value {
		r := getRV(in, a[0])
		if r == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == kString {
			return r.get()
		}
		return "<" + in.typeString(r.t) + " Value>"
	})
	regV("Bytes", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Bytes")
		switch v := r.get().(type) {
		case []value:
			return v
		case arrayV:
			return []value(v)
		}
		in.kindPanic("Bytes", r)
		return nil
	})
	for _, n := range []string{"Pointer", "UnsafePointer", "UnsafeAddr"} {
		n := n
		regV(n, func(in *interp, fr *frame, a []value) value {
			r := in.needRV(a[0], n)
			switch v := r.get().(type) {
			case *ssa.Function, *closure:
				return v
			case *value:
				if v == nil && n == "Pointer" {
					return uint64(0)
				}
				if n == "Pointer" {
					return uint64(0xc000000000)
				}
				return v
			case []value:
				if len(v) == 0 {
					return uint64(0)
				}
				return uint64(0xc000000000)
			case *mapV:
				if v == nil {
					return uint64(0)
				}
				return uint64(0xc000000000)
			}
			return uint64(0xc000000000)
		})
	}
	regV("NumMethod", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "NumMethod")
		return uint64(len(in.methodsOf(r.t)))
	})
	regV("MethodByName", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "MethodByName")
		for _, s := range in.methodsOf(r.t) {
			if s.Obj().Name() == goStr(a[1]) {
				in.unsupported("reflect MethodByName found")
			}
		}
		return structV{nilPtr, nilPtr, zeroInt}
	})
	regV("MapIndex", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "MapIndex")
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			in.kindPanic("MapIndex", r)
		}
		k := in.assignTo(in.needRV(a[1], "MapIndex"), mt.Key(), "MapIndex")
		v, ok := in.mapGet(r.get().(*mapV), k, mt.Key())
		if !ok {
			return structV{nilPtr, nilPtr, zeroInt}
		}
		return mkRV(&rv{t: in.canon(mt.Elem()), v: v, ro: r.ro})
	})
	regV("MapKeys", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "MapKeys")
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			in.kindPanic("MapKeys", r)
		}
		it := in.mapIter(r.get().(*mapV), fr != nil && fr.fn.permMaps)
		out := []value{}
		for {
			t := it.next(in).(tuple)
			if !t[0].(bool) {
				return out
			}
			out = append(out, mkRV(&rv{t: in.canon(mt.Key()), v: t[1], ro: r.ro}))
		}
	})
	regV("MapRange", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "MapRange")
		p := new(value)
		*p = &rmapIter{it: in.mapIter(r.get().(*mapV), fr != nil && fr.fn.permMaps), mt: r.t.Underlying().(*types.Map), ro: r.ro}
		return p
	})
	intrinsics["(*reflect.MapIter).Next"] = func(in *interp, fr *frame, a []value) value {
		it := (*a[0].(*value)).(*rmapIter)
		t := it.it.next(in).(tuple)
		if !t[0].(bool) {
			return false
		}
		it.k, it.v = t[1], t[2]
		return true
	}
	intrinsics["(*reflect.MapIter).Key"] = func(in *interp, fr *frame, a []value) value {
		it := (*a[0].(*value)).(*rmapIter)
		return mkRV(&rv{t: in.canon(it.mt.Key()), v: it.k, ro: it.ro})
	}
	intrinsics["(*reflect.MapIter).Value"] = func(in *interp, fr *frame, a []value) value {
		it := (*a[0].(*value)).(*rmapIter)
		return mkRV(&rv{t: in.canon(it.mt.Elem()), v: it.v, ro: it.ro})
	}
	regV("SetMapIndex", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "SetMapIndex")
		in.mustExported(r, "SetMapIndex")
		mt, ok := r.t.Underlying().(*types.Map)
		if !ok {
			in.kindPanic("SetMapIndex", r)
		}
		k := in.assignTo(in.needRV(a[1], "SetMapIndex"), mt.Key(), "SetMapIndex")
		x := getRV(in, a[2])
		m := r.get().(*mapV)
		if x == nil {
			if m != nil {
				in.mapDelete(m, k, mt.Key())
			}
			return nil
		}
		if m == nil {
			panic(targetPanic{iface{t: in.canon(in.P.rtErr), v: "assignment to entry in nil map"}})
		}
		in.mapSet(m, k, in.assignTo(x, mt.Elem(), "SetMapIndex"), mt.Key())
		return nil
	})
	over := func(name string, signed bool) {
		regV(name, func(in *interp, fr *frame, a []value) value {
			r := in.needRV(a[0], name)
			ii, ok := intOf(r.t)
			if !ok || ii.signed != signed {
				in.kindPanic(name, r)
			}
			if ii.w == 64 {
				return false
			}
			x := in.termOf(a[1], 64)
			var y *Term
			if signed {
				y = in.tc.Sext(in.tc.Trunc(x, ii.w), 64)
			} else {
				y = in.tc.Zext(in.tc.Trunc(x, ii.w), 64)
			}
			return in.boolVal(in.tc.Not(in.tc.Eq(x, y)))
		})
	}
	over("OverflowInt", true)
	over("OverflowUint", false)
	regV("OverflowFloat", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "OverflowFloat")
		if kindOf(r.t) == kFloat64 {
			return false
		}
		f, ok := a[1].(float64)
		if !ok {
			in.unsupported("symbolic float")
		}
		if f < 0 {
			f = -f
		}
		return 3.4028234663852886e38 < f && f <= 1.7976931348623157e308
	})
	regV("Convert", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Convert")
		t := a[1].(iface).v.(rtypeV).t
		if !types.ConvertibleTo(r.t, t) {
			in.reflectPanic("reflect.Value.Convert: value of type " + in.typeString(r.t) + " cannot be converted to type " + in.typeString(t))
		}
		if isIface(t) {
			return mkRV(&rv{t: t, v: in.ifaceOf(r)})
		}
		return mkRV(&rv{t: t, v: in.convert(r.t, t, copyVal(r.get()))})
	})
	regV("Slice", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Slice")
		i, j := u64(a[1], in), u64(a[2], in)
		switch v := r.get().(type) {
		case []value:
			if i < 0 || j < i || j > cap(v) {
				in.reflectPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(&rv{t: r.t, v: v[i:j]})
		case string, symStr:
			return mkRV(&rv{t: r.t, v: strSlice(v, i, j)})
		}
		in.unsupported("reflect Slice of %s", r.t)
		return nil
	})
	regV("Comparable", func(in *interp, fr *frame, a []value) value {
		r := getRV(in, a[0])
		return r == nil || types.Comparable(r.t)
	})
	for n, f := range map[string]func(k uint64) bool{
		"CanInt": func(k uint64) bool { return k >= kInt && k <= kInt64 }, "CanUint": func(k uint64) bool { return k >= kUint && k <= kUintptr },
		"CanFloat": func(k uint64) bool { return k == kFloat32 || k == kFloat64 }} {
		f := f
		regV(n, func(in *interp, fr *frame, a []value) value { return f(kindOf(in.needRV(a[0], n).t)) })
	}
	regV("Call", func(in *interp, fr *frame, a []value) value {
		r := in.needRV(a[0], "Call")
		sig := r.t.Underlying().(*types.Signature)
		var args []value
		for i, x := range a[1].([]value) {
			if sig.Variadic() {
				in.unsupported("reflect Call of a variadic function")
			}
			args = append(args, in.assignTo(in.needRV(x, "Call"), sig.Params().At(i).Type(), "Call"))
		}
		res := in.call(r.get(), args, fr)
		out := []value{}
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, mkRV(&rv{t: in.canon(sig.Results().At(0).Type()), v: res}))
		default:
			for i, x := range res.(tuple) {
				out = append(out, mkRV(&rv{t: in.canon(sig.Results().At(i).Type()), v: x}))
			}
		}
		return out
	})

	// --- Type
	regT("Kind", func(in *interp, t types.Type, a []value, lite bool) value { return kindOf(t) })
	regT("String", func(in *interp, t types.Type, a []value, lite bool) value { return in.typeString(t) })
	regT("Name", func(in *interp, t types.Type, a []value, lite bool) value {
		if n, ok := t.(*types.Named); ok && n.TypeArgs().Len() > 0 {
			s := in.typeString(t)
			return s[strings.Index(s, ".")+1:]
		}
		return typeName(t)
	})
	regT("PkgPath", func(in *interp, t types.Type, a []value, lite bool) value {
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	regT("Elem", func(in *interp, t types.Type, a []value, lite bool) value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in.rtypeIface(u.Elem(), lite)
		case *types.Slice:
			return in.rtypeIface(u.Elem(), lite)
		case *types.Array:
			return in.rtypeIface(u.Elem(), lite)
		case *types.Map:
			return in.rtypeIface(u.Elem(), lite)
		case *types.Chan:
			return in.rtypeIface(u.Elem(), lite)
		}
		in.reflectPanic("reflect: Elem of invalid type " + in.typeString(t))
		return nil
	})
	regT("Key", func(in *interp, t types.Type, a []value, lite bool) value {
		if u, ok := t.Underlying().(*types.Map); ok {
			return in.rtypeIface(u.Key(), lite)
		}
		in.reflectPanic("reflect: Key of non-map type " + in.typeString(t))
		return nil
	})
	regT("Len", func(in *interp, t types.Type, a []value, lite bool) value {
		if u, ok := t.Underlying().(*types.Array); ok {
			return uint64(u.Len())
		}
		in.reflectPanic("reflect: Len of non-array type " + in.typeString(t))
		return nil
	})
	regT("NumField", func(in *interp, t types.Type, a []value, lite bool) value {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			in.reflectPanic("reflect: NumField of non-struct type " + in.typeString(t))
		}
		return uint64(st.NumFields())
	})
	regT("Field", func(in *interp, t types.Type, a []value, lite bool) value {
		st, ok := t.Underlying().(*types.Struct)
		i := u64(a[0], in)
		if !ok || i < 0 || i >= st.NumFields() {
			in.reflectPanic("reflect: Field of non-struct type or index out of bounds " + in.typeString(t))
		}
		return in.structFieldV(st, i, lite)
	})
	regT("FieldByName", func(in *interp, t types.Type, a []value, lite bool) value {
		idx, ok := in.fieldByName(t, goStr(a[0]))
		if !ok {
			return tuple{zero(in.P.namedType("reflect", "StructField")), false}
		}
		cur := t
		for k, i := range idx {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				cur = p.Elem()
			}
			st := cur.Underlying().(*types.Struct)
			if k == len(idx)-1 {
				f := in.structFieldV(st, i, lite).(structV)
				us := in.P.namedType("reflect", "StructField").Underlying().(*types.Struct)
				for j := 0; j < us.NumFields(); j++ {
					if us.Field(j).Name() == "Index" {
						var l []value
						for _, x := range idx {
							l = append(l, uint64(x))
						}
						f[j] = l
					}
				}
				return tuple{f, true}
			}
			cur = st.Field(i).Type()
		}
		return nil
	})
	regT("NumMethod", func(in *interp, t types.Type, a []value, lite bool) value {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return uint64(i.NumMethods())
		}
		return uint64(len(in.methodsOf(t)))
	})
	regT("MethodByName", func(in *interp, t types.Type, a []value, lite bool) value {
		z := zero(in.P.namedType("reflect", "Method"))
		for _, s := range in.methodsOf(t) {
			if s.Obj().Name() == goStr(a[0]) {
				in.unsupported("reflect Type.MethodByName found")
			}
		}
		return tuple{z, false}
	})
	regT("Implements", func(in *interp, t types.Type, a []value, lite bool) value {
		u := a[0].(iface).v.(rtypeV).t
		return in.implements(t, u)
	})
	regT("AssignableTo", func(in *interp, t types.Type, a []value, lite bool) value {
		return types.AssignableTo(t, a[0].(iface).v.(rtypeV).t)
	})
	regT("ConvertibleTo", func(in *interp, t types.Type, a []value, lite bool) value {
		return types.ConvertibleTo(t, a[0].(iface).v.(rtypeV).t)
	})
	regT("Comparable", func(in *interp, t types.Type, a []value, lite bool) value { return types.Comparable(t) })
	regT("Size", func(in *interp, t types.Type, a []value, lite bool) value {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t))
	})
	regT("Bits", func(in *interp, t types.Type, a []value, lite bool) value {
		return uint64(types.SizesFor("gc", "amd64").Sizeof(t) * 8)
	})
	regT("NumIn", func(in *interp, t types.Type, a []value, lite bool) value {
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	})
	regT("NumOut", func(in *interp, t types.Type, a []value, lite bool) value {
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	})
	regT("In", func(in *interp, t types.Type, a []value, lite bool) value {
		return in.rtypeIface(t.Underlying().(*types.Signature).Params().At(u64(a[0], in)).Type(), lite)
	})
	regT("Out", func(in *interp, t types.Type, a []value, lite bool) value {
		return in.rtypeIface(t.Underlying().(*types.Signature).Results().At(u64(a[0], in)).Type(), lite)
	})
	regT("IsVariadic", func(in *interp, t types.Type, a []value, lite bool) value {
		return t.Underlying().(*types.Signature).Variadic()
	})
}

type rmapIter struct {
	it   *mapIter
	mt   *types.Map
	ro   bool
	k, v value
}

func (in *interp) elemRV(r *rv) value {
	switch u := r.t.Underlying().(type) {
	case *types.Pointer:
		p, ok := r.get().(*value)
		if !ok {
			in.unsupported("reflect Elem of %T", r.get())
		}
		if p == nil {
			return structV{nilPtr, nilPtr, zeroInt}
		}
		return mkRV(&rv{t: in.canon(u.Elem()), addr: p, ro: r.ro, embedRO: r.embedRO})
	case *types.Interface:
		i := r.get().(iface)
		if i.t == nil {
			return structV{nilPtr, nilPtr, zeroInt}
		}
		return mkRV(&rv{t: i.t, v: i.v, ro: r.ro})
	}
	in.kindPanic("Elem", r)
	return nil
}

func (in *interp) deepEqual(t types.Type, x, y value, depth int) value {
	if depth > 60 {
		in.unsupported("DeepEqual depth")
	}
	and := func(l []value) value {
		var ts []*Term
		for _, v := range l {
			ts = append(ts, in.termOf(v, 0))
		}
		return in.boolVal(in.tc.And(ts...))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		var l []value
		for i := range a {
			l = append(l, in.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return and(l)
	case *types.Array:
		a, b := x.(arrayV), y.(arrayV)
		var l []value
		for i := range a {
			l = append(l, in.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return and(l)
	case *types.Struct:
		a, b := x.(structV), y.(structV)
		var l []value
		for i := range a {
			l = append(l, in.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return and(l)
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return in.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return in.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Map:
		a, b := x.(*mapV), y.(*mapV)
		if (a == nil) != (b == nil) || a.len() != b.len() {
			return false
		}
		if a == nil {
			return true
		}
		var l []value
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			v, ok := in.mapGet(b, e.k, u.Key())
			if !ok {
				return false
			}
			l = append(l, in.deepEqual(u.Elem(), e.v, v, depth+1))
		}
		return and(l)
	case *types.Signature:
		a, _ := in.isNilV(x)
		b, _ := in.isNilV(y)
		return a && b
	}
	return in.equals(t, x, y)
}
