package main

// Functions that are modelled instead of executed: assembly, runtime, synchronisation, the operating system,
// logging, and the harness interface.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrFn{}

// specOK: intrinsics that neither fork nor write, usable during speculation.
var specOK = map[string]bool{}

func nop(in *interp, fr *frame, args []value) value { return nil }

func retZero(f *ssa.Function) intrFn {
	sig := f.Signature
	return func(in *interp, fr *frame, args []value) value { return zeroResult(sig) }
}

// logIntrinsic: the package's output functions keep their records while vLogs runs, and do nothing otherwise.
func logIntrinsic(name string, f *ssa.Function) intrFn {
	n := strings.TrimPrefix(name, "github.com/meilihao/logx.")
	if f.Signature.Recv() != nil || f.Synthetic != "" {
		return nil
	}
	k := strings.TrimSuffix(n, "f")
	if k != "Debug" && k != "Info" && k != "Warn" && k != "Error" {
		return nil
	}
	return func(in *interp, fr *frame, args []value) value {
		l, on := in.native["logs"].(*value)
		if !on {
			return zeroResult(f.Signature)
		}
		if k == n {
			vs, _ := args[0].([]value)
			args = []value{strings.TrimSuffix(strings.Repeat("%v ", len(vs)), " "), args[0]}
		}
		msg := in.realFn(in.P.fn("fmt", "Sprintf"), args)
		*l = strCat(strCat(strCat(*l, "["+k[:1]+"] "), msg), "\n")
		return zeroResult(f.Signature)
	}
}

// pkgIntrinsic: whole-package policies.
func pkgIntrinsic(path, name string, f *ssa.Function) intrFn {
	switch name {
	case "reflect.TypeFor":
		return func(in *interp, fr *frame, args []value) value { return in.rtypeIface(f.TypeArgs()[0], false) }
	case "reflect.TypeAssert":
		return func(in *interp, fr *frame, args []value) value {
			r := in.needRV(args[0], "TypeAssert")
			in.mustExported(r, "TypeAssert")
			v, at := in.ifaceOf(r), in.canon(f.TypeArgs()[0])
			if v.t != nil {
				if isIface(at) {
					if in.implements(v.t, at) {
						return tuple{v, true}
					}
				} else if v.t == at {
					return tuple{copyVal(v.v), true}
				}
			}
			return tuple{zero(at), false}
		}
	case "unique.Make":
		return func(in *interp, fr *frame, args []value) value {
			t := in.canon(f.TypeArgs()[0])
			if in.uniq == nil {
				in.uniq = map[string]*value{}
			}
			k := fmt.Sprintf("%s|%s", t, in.uniqKey(args[0]))
			p := in.uniq[k]
			if p == nil {
				p = new(value)
				*p = copyVal(args[0])
				in.uniq[k] = p
			}
			return structV{p}
		}
	}
	if f.Synthetic == "package initializer" {
		return nop // initialisation is lazy, per package
	}
	switch path {
	case "github.com/meilihao/logx":
		if fn := logIntrinsic(name, f); fn != nil {
			return fn
		}
		return retZero(f)
	case "log", "log/slog", "log/internal":
		return retZero(f)
	case "reflect", "internal/reflectlite":
		if reflectReal[name] || strings.HasPrefix(name, "(reflect.StructTag)") || strings.HasPrefix(name, "(reflect.Kind)") || strings.HasSuffix(name, ".IsExported") || strings.HasPrefix(name, "(*reflect.ValueError)") || f.Synthetic != "" {
			return nil
		}
		return func(in *interp, fr *frame, args []value) value {
			in.unsupported("reflect function %s", name)
			return nil
		}
	case "internal/godebug":
		return retZero(f)
	case "internal/race", "internal/msan", "internal/asan":
		return retZero(f)
	case "github.com/json-iterator/go":
		if fn, ok := jsonIntr[name]; ok {
			return fn
		}
		return func(in *interp, fr *frame, args []value) value {
			in.unsupported("jsoniter function %s", name)
			return nil
		}
	}
	return nil
}

var jsonIntr = map[string]intrFn{}

var reflectReal = map[string]bool{"reflect.TypeFor": true, "reflect.TypeAssert": false, "reflect.VisibleFields": true, "reflect.ifaceE2I": false}

func (in *interp) byteT(v value) *Term { return in.termOf(v, 8) }

func (in *interp) uniqKey(v value) string {
	switch v := v.(type) {
	case structV:
		s := "{"
		for _, x := range v {
			s += in.uniqKey(x) + ","
		}
		return s + "}"
	case string:
		return fmt.Sprintf("%q", v)
	case uint64, bool:
		return fmt.Sprint(v)
	case symStr:
		b := make([]value, len(v))
		for i := range v {
			b[i] = in.concU(v[i])
		}
		return in.uniqKey(mkString(b))
	case *Term:
		return fmt.Sprint(in.concU(v))
	case *value:
		return fmt.Sprintf("%p", v)
	}
	in.unsupported("unique.Make of %T", v)
	return ""
}

func seqLen(v value) int {
	if s, ok := v.([]value); ok {
		return len(s)
	}
	return strLen(v)
}

func seqAt(v value, i int) value {
	if s, ok := v.([]value); ok {
		return s[i]
	}
	return strAt(v, i)
}

func (in *interp) eqByte(a, b value) value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return in.boolVal(in.tc.Eq(in.byteT(a), in.byteT(b)))
}

// indexByteV forks over the position of the first c in s.
func (in *interp) indexByteV(s value, c value) value {
	if str, ok := s.(string); ok {
		if b, ok := c.(uint64); ok {
			return uint64(int64(strings.IndexByte(str, byte(b))))
		}
	}
	n := seqLen(s)
	// one query for absence first: the common outcome for most inputs
	var or []*Term
	for i := 0; i < n; i++ {
		or = append(or, in.termOf(in.eqByte(seqAt(s, i), c), 0))
	}
	if !in.decide(in.tc.Or(or...)) {
		return ^uint64(0)
	}
	for i := 0; i < n; i++ {
		if in.decide(or[i]) {
			return uint64(i)
		}
	}
	panic(pathEnd{kind: "assume"})
}

func (in *interp) lastIndexByteV(s value, c value) value {
	n := seqLen(s)
	for i := n - 1; i >= 0; i-- {
		if in.truth(in.eqByte(seqAt(s, i), c)) {
			return uint64(i)
		}
	}
	return ^uint64(0)
}

func (in *interp) matchAt(s value, i int, sub value) value {
	var l []*Term
	for j := 0; j < seqLen(sub); j++ {
		e := in.eqByte(seqAt(s, i+j), seqAt(sub, j))
		if e == false {
			return false
		}
		l = append(l, in.termOf(e, 0))
	}
	return in.boolVal(in.tc.And(l...))
}

func (in *interp) indexV(s, sub value) value {
	n, m := seqLen(s), seqLen(sub)
	var or []*Term
	for i := 0; i+m <= n; i++ {
		or = append(or, in.termOf(in.matchAt(s, i, sub), 0))
	}
	if !in.decide(in.tc.Or(or...)) {
		return ^uint64(0)
	}
	for i := range or {
		if in.decide(or[i]) {
			return uint64(i)
		}
	}
	panic(pathEnd{kind: "assume"})
}

// lower/upper for ASCII-only (decided) strings; falls back to executing the real code otherwise.
func (in *interp) caseMap(s value, lo, hi byte, delta uint64) (value, bool) {
	ss, ok := s.(symStr)
	if !ok {
		str := s.(string)
		if lo == 'A' {
			return strings.ToLower(str), true
		}
		return strings.ToUpper(str), true
	}
	tc := in.tc
	var l []*Term
	for _, b := range ss {
		l = append(l, tc.cmp(opUlt, in.byteT(b), tc.Const(0x80, 8)))
	}
	if !in.decide(tc.And(l...)) {
		return nil, false
	}
	r := make([]value, len(ss))
	for i, b := range ss {
		t := in.byteT(b)
		is := tc.And(tc.cmp(opUle, tc.Const(uint64(lo), 8), t), tc.cmp(opUle, t, tc.Const(uint64(hi), 8)))
		r[i] = in.intVal(tc.Ite(is, tc.Bin(opAdd, t, tc.Const(delta, 8)), t))
	}
	return mkString(r), true
}

func realCall(in *interp, pkg, name string, args []value) value {
	return in.realFn(in.P.fn(pkg, name), args)
}

// realFn runs the body of a function that an intrinsic stands for.
func (in *interp) realFn(f *ssa.Function, args []value) value {
	c := in.fnsReal[f]
	if c == nil {
		c = &cfn{fn: f, name: fnName(f)}
		in.fnsReal[f] = c
		in.compileBody(c)
	}
	return in.callFn(c, args, nil, in.top)
}

func (in *interp) fieldPtr(p value, t types.Type, name string) *value {
	st := t.Underlying().(*types.Struct)
	s := (*p.(*value)).(structV)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &s[i]
		}
	}
	in.unsupported("no field %s in %s", name, t)
	return nil
}

type poolState struct{ items []value }
type onceKey struct{ p *value }

func (in *interp) nativeState(kind string, p value, mk func() any) any {
	k := fmt.Sprintf("%s:%p", kind, p)
	s, ok := in.native[k]
	if !ok {
		s = mk()
		in.native[k] = s
	}
	return s
}

type smapState struct{ m *mapV }

func init() {
	I := intrinsics
	defer schedIntrinsics(I)
	I["crypto/internal/fips140.RecordApproved"] = nop
	I["crypto/internal/fips140.RecordNonApproved"] = nop
	I["crypto/internal/boring/sig.StandardCrypto"] = nop
	I["crypto/internal/boring/sig.BoringCrypto"] = nop
	for _, n := range []string{"crypto/sha1", "crypto/internal/fips140/sha256", "crypto/internal/fips140/sha512"} {
		n := n
		I[n+".block"] = func(in *interp, fr *frame, a []value) value { return realCall(in, n, "blockGeneric", a) }
	}
	// --- bytealg
	I["internal/bytealg.IndexByte"] = func(in *interp, fr *frame, a []value) value { return in.indexByteV(a[0], a[1]) }
	I["internal/bytealg.IndexByteString"] = I["internal/bytealg.IndexByte"]
	I["strings.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["bytes.IndexByte"] = I["internal/bytealg.IndexByte"]
	I["internal/bytealg.LastIndexByte"] = func(in *interp, fr *frame, a []value) value { return in.lastIndexByteV(a[0], a[1]) }
	I["internal/bytealg.LastIndexByteString"] = I["internal/bytealg.LastIndexByte"]
	I["strings.LastIndexByte"] = I["internal/bytealg.LastIndexByte"]
	I["internal/bytealg.Index"] = func(in *interp, fr *frame, a []value) value { return in.indexV(a[0], a[1]) }
	I["internal/bytealg.IndexString"] = I["internal/bytealg.Index"]
	I["strings.Index"] = I["internal/bytealg.Index"]
	I["bytes.Index"] = I["internal/bytealg.Index"]
	I["strings.Contains"] = func(in *interp, fr *frame, a []value) value {
		s, sub := a[0], a[1]
		if x, ok := s.(string); ok {
			if y, ok := sub.(string); ok {
				return strings.Contains(x, y)
			}
		}
		n, m := seqLen(s), seqLen(sub)
		var or []*Term
		for i := 0; i+m <= n; i++ {
			or = append(or, in.termOf(in.matchAt(s, i, sub), 0))
		}
		return in.boolVal(in.tc.Or(or...))
	}
	I["strings.HasPrefix"] = func(in *interp, fr *frame, a []value) value {
		if seqLen(a[0]) < seqLen(a[1]) {
			return false
		}
		return in.matchAt(a[0], 0, a[1])
	}
	I["strings.HasSuffix"] = func(in *interp, fr *frame, a []value) value {
		n, m := seqLen(a[0]), seqLen(a[1])
		if n < m {
			return false
		}
		return in.matchAt(a[0], n-m, a[1])
	}
	I["bytes.HasPrefix"] = I["strings.HasPrefix"]
	I["bytes.HasSuffix"] = I["strings.HasSuffix"]
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["internal/stringslite.Index"] = I["internal/bytealg.Index"]
	I["internal/stringslite.IndexByte"] = I["internal/bytealg.IndexByte"]
	for _, n := range []string{"strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix"} {
		specOK[n] = true
	}
	cnt := func(in *interp, fr *frame, a []value) value {
		n := uint64(0)
		for i := 0; i < seqLen(a[0]); i++ {
			if in.truth(in.eqByte(seqAt(a[0], i), a[1])) {
				n++
			}
		}
		return n
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	I["internal/bytealg.Equal"] = func(in *interp, fr *frame, a []value) value {
		if seqLen(a[0]) != seqLen(a[1]) {
			return false
		}
		return in.matchAt(a[0], 0, a[1])
	}
	I["bytes.Equal"] = I["internal/bytealg.Equal"]
	I["internal/bytealg.Compare"] = func(in *interp, fr *frame, a []value) value {
		x, y := mkString(a[0].([]value)), mkString(a[1].([]value))
		if in.truth(in.strEq(x, y)) {
			return uint64(0)
		}
		if in.truth(in.strLess(x, y, false)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	I["internal/bytealg.CompareString"] = func(in *interp, fr *frame, a []value) value {
		if in.truth(in.strEq(a[0], a[1])) {
			return uint64(0)
		}
		if in.truth(in.strLess(a[0], a[1], false)) {
			return ^uint64(0)
		}
		return uint64(1)
	}
	I["internal/bytealg.MakeNoZero"] = func(in *interp, fr *frame, a []value) value {
		n := in.concInt(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = zeroInt
		}
		in.noteSlice(s)
		return s
	}
	I["bytes.growSlice"] = func(in *interp, fr *frame, a []value) value {
		b, n := a[0].([]value), in.concInt(a[1])
		c := len(b) + n
		if c < 2*cap(b) {
			c = 2 * cap(b)
		}
		s := make([]value, c)
		copy(s, b)
		for i := len(b); i < c; i++ {
			s[i] = zeroInt
		}
		in.noteSlice(s)
		return s[:len(b)]
	}
	// --- strings
	I["strings.ToLower"] = func(in *interp, fr *frame, a []value) value {
		if r, ok := in.caseMap(a[0], 'A', 'Z', 32); ok {
			return r
		}
		return realCall(in, "strings", "ToLower", a)
	}
	I["strings.ToUpper"] = func(in *interp, fr *frame, a []value) value {
		if r, ok := in.caseMap(a[0], 'a', 'z', 256-32); ok {
			return r
		}
		return realCall(in, "strings", "ToUpper", a)
	}
	I["strings.EqualFold"] = func(in *interp, fr *frame, a []value) value {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		if ok1 && ok2 {
			return strings.EqualFold(x, y)
		}
		return realCall(in, "strings", "EqualFold", a)
	}
	I["(*strings.Builder).copyCheck"] = nop
	I["internal/abi.NoEscape"] = func(in *interp, fr *frame, a []value) value { return a[0] }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["strings.Clone"] = func(in *interp, fr *frame, a []value) value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["internal/abi.FuncPCABIInternal"] = func(in *interp, fr *frame, a []value) value { return uint64(1) }
	I["internal/abi.FuncPCABI0"] = I["internal/abi.FuncPCABIInternal"]
	// --- sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "sync.runtime_registerPoolCleanup",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "runtime.AddCleanup", "(*sync.Cond).Broadcast", "(*sync.Cond).Signal", "internal/runtime/atomic.StorepNoWB"} {
		I[n] = nop
	}
	I["(*sync.Mutex).TryLock"] = func(in *interp, fr *frame, a []value) value { return true }
	I["(*sync.Once).Do"] = func(in *interp, fr *frame, a []value) value {
		p := in.fieldPtr(a[0], in.P.namedType("sync", "Once"), "done")
		// done is atomic.Bool / atomic.Uint32: reuse its last cell as a flag
		f := lastCell(p)
		if in.truthy(*f) {
			return nil
		}
		in.sync(func() {
			defer func() { in.store(f, flagLike(*f)) }()
			in.call(a[1], nil, fr)
		})
		return nil
	}
	I["(*sync.Pool).Get"] = func(in *interp, fr *frame, a []value) value {
		if in.initing > 0 {
			return in.poolNew(a[0], fr)
		}
		st := in.nativeState("pool", a[0], func() any { return &poolState{} }).(*poolState)
		if n := len(st.items); n > 0 {
			v := st.items[n-1]
			st.items = st.items[:n-1]
			in.path.frameTake(in, v)
			return v
		}
		v := in.poolNew(a[0], fr)
		return v
	}
	I["(*sync.Pool).Put"] = func(in *interp, fr *frame, a []value) value {
		if in.initing > 0 || a[1].(iface).t == nil {
			return nil
		}
		st := in.nativeState("pool", a[0], func() any { return &poolState{} }).(*poolState)
		st.items = append(st.items, a[1])
		in.path.frameGive(in, a[1])
		return nil
	}
	// sync.Map as an ordinary map
	sm := func(in *interp, p value) *mapV {
		return in.nativeState("smap", p, func() any { return &smapState{newMapV()} }).(*smapState).m
	}
	anyT := types.Universe.Lookup("any").Type()
	I["(*sync.Map).Load"] = func(in *interp, fr *frame, a []value) value {
		v, ok := in.mapGet(sm(in, a[0]), a[1], anyT)
		if !ok {
			v = iface{}
		}
		return tuple{v, ok}
	}
	I["(*sync.Map).Store"] = func(in *interp, fr *frame, a []value) value {
		in.mapSetQuiet(sm(in, a[0]), a[1], a[2], anyT)
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(in *interp, fr *frame, a []value) value {
		m := sm(in, a[0])
		if v, ok := in.mapGet(m, a[1], anyT); ok {
			return tuple{v, true}
		}
		in.mapSetQuiet(m, a[1], a[2], anyT)
		return tuple{a[2], false}
	}
	I["(*sync.Map).Delete"] = func(in *interp, fr *frame, a []value) value {
		in.mapDelete(sm(in, a[0]), a[1], anyT)
		return nil
	}
	I["(*sync.Map).Range"] = func(in *interp, fr *frame, a []value) value {
		m := sm(in, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if !e.dead && !in.truth(in.call(a[1], []value{e.k, e.v}, fr)) {
				break
			}
		}
		return nil
	}
	// --- atomics
	ld := func(in *interp, fr *frame, a []value) value { return in.load(a[0]) }
	st := func(in *interp, fr *frame, a []value) value { in.sync(func() { in.storeTo(a[0], a[1]) }); return nil }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		I["sync/atomic.Load"+t] = ld
		I["sync/atomic.Store"+t] = st
		I["sync/atomic.Add"+t] = func(in *interp, fr *frame, a []value) value {
			v := in.tc.Bin(opAdd, in.termOf(in.load(a[0]), w), in.termOf(a[1], w))
			in.sync(func() { in.storeTo(a[0], in.intVal(v)) })
			return in.intVal(v)
		}
		I["sync/atomic.Swap"+t] = func(in *interp, fr *frame, a []value) value {
			o := in.load(a[0])
			in.sync(func() { in.storeTo(a[0], a[1]) })
			return o
		}
		I["sync/atomic.CompareAndSwap"+t] = func(in *interp, fr *frame, a []value) value {
			if in.truth(in.equals(nil, in.load(a[0]), a[1])) {
				in.sync(func() { in.storeTo(a[0], a[2]) })
				return true
			}
			return false
		}
	}
	// atomic.Value: struct{v any}
	I["(*sync/atomic.Value).Load"] = func(in *interp, fr *frame, a []value) value { return (*a[0].(*value)).(structV)[0] }
	I["(*sync/atomic.Value).Store"] = func(in *interp, fr *frame, a []value) value {
		in.sync(func() { in.store(&(*a[0].(*value)).(structV)[0], a[1]) })
		return nil
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(in *interp, fr *frame, a []value) value {
		p := &(*a[0].(*value)).(structV)[0]
		if in.truth(in.equals(nil, *p, a[1])) {
			in.sync(func() { in.store(p, a[2]) })
			return true
		}
		return false
	}
	// --- math
	I["math.Float64bits"] = func(in *interp, fr *frame, a []value) value {
		f, ok := a[0].(float64)
		if !ok {
			in.unsupported("symbolic float")
		}
		return math.Float64bits(f)
	}
	I["math.Float64frombits"] = func(in *interp, fr *frame, a []value) value { return math.Float64frombits(in.concU(a[0])) }
	I["math.Float32bits"] = func(in *interp, fr *frame, a []value) value {
		return uint64(math.Float32bits(float32(a[0].(float64))))
	}
	I["math.Float32frombits"] = func(in *interp, fr *frame, a []value) value {
		return float64(math.Float32frombits(uint32(in.concU(a[0]))))
	}
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		I["internal/strconv."+strings.ToLower(n[:1])+n[1:]] = I["math."+n]
	}
	// the number a text spells is fixed per path: there is no symbolic floating point
	I["internal/strconv.readFloat"] = func(in *interp, fr *frame, a []value) value {
		r := realCall(in, "internal/strconv", "readFloat", a).(tuple)
		if ok, c := r[len(r)-1].(bool); c && ok {
			if _, c := a[0].(string); !c {
				l := strBytes(a[0])
				t := make([]byte, len(l))
				for i := range l {
					t[i] = byte(in.concU(l[i]))
				}
				return realCall(in, "internal/strconv", "readFloat", []value{string(t)})
			}
		}
		return r
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Abs": math.Abs, "floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "sqrt": math.Sqrt, "archFloor": math.Floor, "archCeil": math.Ceil, "archTrunc": math.Trunc} {
		I["math."+n] = func(in *interp, fr *frame, a []value) value {
			x, ok := a[0].(float64)
			if !ok {
				in.unsupported("symbolic float")
			}
			return f(x)
		}
	}
	I["math.Pow"] = func(in *interp, fr *frame, a []value) value { return math.Pow(a[0].(float64), a[1].(float64)) }
	I["math.FMA"] = func(in *interp, fr *frame, a []value) value {
		return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
	}
	// bits with symbolic arguments are executed; multiplication helpers are concrete
	// --- runtime
	I["runtime.Caller"] = func(in *interp, fr *frame, a []value) value {
		return tuple{uint64(0), "", uint64(0), false}
	}
	I["runtime.Callers"] = func(in *interp, fr *frame, a []value) value { return uint64(0) }
	I["runtime.Stack"] = I["runtime.Callers"]
	I["runtime/debug.Stack"] = func(in *interp, fr *frame, a []value) value { return []value{} }
	I["runtime.GOMAXPROCS"] = func(in *interp, fr *frame, a []value) value { return uint64(1) }
	I["runtime.NumCPU"] = I["runtime.GOMAXPROCS"]
	I["runtime.NumGoroutine"] = I["runtime.GOMAXPROCS"]
	I["runtime.FuncForPC"] = func(in *interp, fr *frame, a []value) value {
		p := new(value)
		*p = structV{a[0]}
		return p
	}
	I["(*runtime.Func).Name"] = func(in *interp, fr *frame, a []value) value {
		switch f := (*a[0].(*value)).(structV)[0].(type) {
		case *ssa.Function:
			return f.String()
		case *closure:
			return f.fn.String()
		}
		return ""
	}
	I["(runtime.Error).RuntimeError"] = nop
	// --- os, time, environment
	I["os.Getenv"] = func(in *interp, fr *frame, a []value) value { return "" }
	I["syscall.Getenv"] = func(in *interp, fr *frame, a []value) value { return tuple{"", false} }
	I["os.LookupEnv"] = I["syscall.Getenv"]
	I["os.Getpid"] = func(in *interp, fr *frame, a []value) value { return uint64(4242) }
	I["os.runtime_args"] = func(in *interp, fr *frame, a []value) value { return []value{} }
	I["syscall.runtime_envs"] = I["os.runtime_args"]
	I["time.now"] = func(in *interp, fr *frame, a []value) value { return tuple{uint64(1700000000), uint64(0), uint64(1)} }
	I["time.runtimeNow"] = I["time.now"]
	I["time.runtimeNano"] = func(in *interp, fr *frame, a []value) value { return uint64(1000) }
	I["time.Now"] = func(in *interp, fr *frame, a []value) value {
		f := in.P.fn("time", "Unix")
		return in.callSSA(f, []value{uint64(1700000000), uint64(0)})
	}
	I["time.open"] = func(in *interp, fr *frame, a []value) value { return tuple{uint64(0), in.errno(syscall.ENOENT)} } // no zone files
	I["runtime.GOROOT"] = func(in *interp, fr *frame, a []value) value { return "/nogoroot" }
	I["time.Since"] = func(in *interp, fr *frame, a []value) value { return uint64(0) }
	I["time.initLocal"] = func(in *interp, fr *frame, a []value) value {
		g := in.global(in.P.byPath["time"].Var("localLoc"))
		in.store(in.fieldPtr(g.addr, in.P.namedType("time", "Location"), "name"), "Local")
		return nil
	}
	I["mime.TypeByExtension"] = func(in *interp, fr *frame, a []value) value {
		switch e := a[0].(type) {
		case string:
			return mimeType(e)
		}
		return "application/x-modelled"
	}
	I["runtime.fastrand64"] = func(in *interp, fr *frame, a []value) value { return uint64(12345) }
	I["internal/bytealg.init"] = nop
	I["maps.clone"] = func(in *interp, fr *frame, a []value) value {
		i := a[0].(iface)
		m := i.v.(*mapV)
		n := newMapV()
		in.noteMap(n)
		kt := i.t.Underlying().(*types.Map).Key()
		for _, e := range m.ents {
			if !e.dead {
				in.mapSet(n, e.k, e.v, kt)
			}
		}
		return iface{i.t, n}
	}
	I["errors.As"] = func(in *interp, fr *frame, a []value) value {
		err := a[0].(iface)
		tgt := a[1].(iface)
		if tgt.t == nil {
			in.reflectPanic("errors: target cannot be nil")
		}
		tt := in.canon(deref(tgt.t))
		p := tgt.v.(*value)
		for err.t != nil {
			ok := err.t == tt
			if isIface(tt) {
				ok = in.implements(err.t, tt)
			}
			if ok {
				if isIface(tt) {
					in.store(p, err)
				} else {
					in.store(p, copyVal(err.v))
				}
				return true
			}
			if m := in.lookupMethod(err.t, nil, "As"); m != nil {
				if in.truth(in.callSSA(m, []value{copyVal(err.v), tgt})) {
					return true
				}
			}
			m := in.lookupMethod(err.t, nil, "Unwrap")
			if m == nil || !isIface(m.Signature.Results().At(0).Type()) {
				return false
			}
			err = in.callSSA(m, []value{copyVal(err.v)}).(iface)
		}
		return false
	}
	I["unique.runtime_registerUniqueMapCleanup"] = nop
	I["crypto/internal/sysrand.Read"] = nop
	I["internal/runtime/sys.GetCallerPC"] = func(in *interp, fr *frame, a []value) value { return uint64(0) }
	// a deterministic multipart boundary / random source
	I["math/rand.Int63"] = func(in *interp, fr *frame, a []value) value { return uint64(4) }

	// --- harness interface
	H := func(n string, f intrFn) { I[harnessPath+"."+n] = f }
	name := func(in *interp, v value) string {
		n := goStr(v)
		in.path.nvar[n]++
		if k := in.path.nvar[n]; k > 1 {
			return fmt.Sprintf("%s#%d", n, k)
		}
		return n
	}
	addIn := func(in *interp, x input) { in.path.inputs = append(in.path.inputs, x) }
	H("vByte", func(in *interp, fr *frame, a []value) value {
		n := name(in, a[0])
		t := in.tc.Var(n, 8)
		addIn(in, input{name: n, kind: "byte", t: t})
		return t
	})
	H("vBool", func(in *interp, fr *frame, a []value) value {
		n := name(in, a[0])
		t := in.tc.Var(n, 0)
		addIn(in, input{name: n, kind: "bool", t: t})
		return t
	})
	for _, k := range []string{"vI64", "vU64"} {
		H(k, func(in *interp, fr *frame, a []value) value {
			n := name(in, a[0])
			t := in.tc.Var(n, 64)
			addIn(in, input{name: n, kind: "u64", t: t})
			return t
		})
	}
	H("vInt", func(in *interp, fr *frame, a []value) value {
		n := name(in, a[0])
		t := in.tc.Var(n, 64)
		addIn(in, input{name: n, kind: "u64", t: t})
		lo, hi := in.concU(a[1]), in.concU(a[2])
		in.path.assume(in.tc.And(in.tc.cmp(opSle, in.tc.Const(lo, 64), t), in.tc.cmp(opSle, t, in.tc.Const(hi, 64))))
		return t
	})
	H("vChoose", func(in *interp, fr *frame, a []value) value {
		n := name(in, a[0])
		c := in.path.choose(in.concInt(a[1]))
		addIn(in, input{name: n, kind: "choose", v: uint64(c)})
		return uint64(c)
	})
	str := func(in *interp, n string, lo, hi int, alpha string) value {
		l := lo + in.path.choose(hi-lo+1)
		b := make([]value, l)
		for i := range b {
			t := in.tc.Var(fmt.Sprintf("%s[%d]", n, i), 8)
			b[i] = t
			if alpha != "" {
				var set [256]bool
				for j := 0; j < len(alpha); j++ {
					set[alpha[j]] = true
				}
				var or []*Term
				for j := 0; j < 256; {
					if !set[j] {
						j++
						continue
					}
					k := j
					for k < 256 && set[k] {
						k++
					}
					or = append(or, in.rangeTerm(t, j, k-1))
					j = k
				}
				in.path.assume(in.tc.Or(or...))
			}
		}
		addIn(in, input{name: n, kind: "string", s: b})
		return mkString(b)
	}
	H("vStr", func(in *interp, fr *frame, a []value) value {
		return str(in, name(in, a[0]), in.concInt(a[1]), in.concInt(a[2]), "")
	})
	H("vStrOf", func(in *interp, fr *frame, a []value) value {
		return str(in, name(in, a[0]), in.concInt(a[1]), in.concInt(a[2]), goStr(a[3]))
	})
	H("vAssume", func(in *interp, fr *frame, a []value) value { in.path.assume(a[0]); return nil })
	H("vAssert", func(in *interp, fr *frame, a []value) value {
		in.path.assert(a[0], in.showMsg(a[1]), in.where())
		return nil
	})
	H("vFail", func(in *interp, fr *frame, a []value) value {
		in.path.assert(false, in.showMsg(a[0]), in.where())
		return nil
	})
	H("vReach", func(in *interp, fr *frame, a []value) value { in.path.reached[goStr(a[0])] = true; return nil })
	H("vObs", func(in *interp, fr *frame, a []value) value {
		in.path.obsV = append(in.path.obsV, obsRec{label: goStr(a[0]), v: a[1]})
		return nil
	})
	H("vB", func(in *interp, fr *frame, a []value) value {
		if in.tier == "thorough" {
			return a[1]
		}
		return a[0]
	})
	H("vAnd", func(in *interp, fr *frame, a []value) value {
		var l []*Term
		for _, x := range a[0].([]value) {
			l = append(l, in.termOf(x, 0))
		}
		return in.boolVal(in.tc.And(l...))
	})
	H("vOr", func(in *interp, fr *frame, a []value) value {
		var l []*Term
		for _, x := range a[0].([]value) {
			l = append(l, in.termOf(x, 0))
		}
		return in.boolVal(in.tc.Or(l...))
	})
	H("vNot", func(in *interp, fr *frame, a []value) value { return in.boolVal(in.tc.Not(in.termOf(a[0], 0))) })
	H("vIteStr", func(in *interp, fr *frame, a []value) value {
		c := in.termOf(a[0], 0)
		if c.isConst() || strLen(a[1]) != strLen(a[2]) {
			if in.truth(in.boolVal(c)) {
				return a[1]
			}
			return a[2]
		}
		n := strLen(a[1])
		r := make([]value, n)
		for i := range r {
			r[i] = in.intVal(in.tc.Ite(c, in.byteT(strAt(a[1], i)), in.byteT(strAt(a[2], i))))
		}
		return mkString(r)
	})
	H("vIn", func(in *interp, fr *frame, a []value) value {
		set := goStr(a[1])
		var or []*Term
		for i := 0; i < len(set); i++ {
			or = append(or, in.tc.Eq(in.byteT(a[0]), in.tc.Const(uint64(set[i]), 8)))
		}
		return in.boolVal(in.tc.Or(or...))
	})
	H("vFrameBegin", func(in *interp, fr *frame, a []value) value { in.path.frameBegin(in); return nil })
	H("vFrameEnd", func(in *interp, fr *frame, a []value) value { return in.path.frameEnd(in) })
	H("vSym", func(in *interp, fr *frame, a []value) value { return true })
	H("vConcInt", func(in *interp, fr *frame, a []value) value { return in.concU(a[0]) })
	for _, n := range []string{"vAnd", "vOr", "vNot", "vIn"} {
		specOK[harnessPath+"."+n] = true
	}
}

func (in *interp) showMsg(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return in.showConcrete(v, in.path.m)
}

func lastCell(p *value) *value {
	for {
		s, ok := (*p).(structV)
		if !ok {
			return p
		}
		p = &s[len(s)-1]
	}
}

func (in *interp) truthy(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case uint64:
		return v != 0
	}
	return false
}

func flagLike(v value) value {
	if _, ok := v.(bool); ok {
		return true
	}
	return uint64(1)
}

func (in *interp) mapSetQuiet(m *mapV, k, v value, kt types.Type) {
	var f *frameMon
	if in.path != nil {
		f = in.path.frame
		in.path.frame = nil
	}
	in.mapSet(m, k, v, kt)
	if in.path != nil {
		in.path.frame = f
	}
}

func (in *interp) poolNew(p value, fr *frame) value {
	f := *in.fieldPtr(p, in.P.namedType("sync", "Pool"), "New")
	if n, ok := in.isNilV(f); ok && n {
		return iface{}
	}
	return in.call(f, nil, fr)
}

func mimeType(ext string) string {
	switch strings.ToLower(ext) {
	case ".html", ".htm":
		return "text/html; charset=utf-8"
	case ".css":
		return "text/css; charset=utf-8"
	case ".js", ".mjs":
		return "text/javascript; charset=utf-8"
	case ".json":
		return "application/json"
	case ".txt":
		return "text/plain; charset=utf-8"
	case ".png":
		return "image/png"
	case ".xml":
		return "text/xml; charset=utf-8"
	}
	return ""
}

// frame monitoring
func (in *interp) noteAlloc(p *value) {
	if in.path != nil && in.path.frame != nil {
		in.path.frame.alloc(p)
	}
}
func (in *interp) noteSlice(s []value) {
	if in.path != nil && in.path.frame != nil {
		in.path.frame.allocSlice(s)
	}
}
func (in *interp) noteMap(m *mapV) {
	if in.path != nil && in.path.frame != nil {
		in.path.frame.maps[m] = true
	}
}
