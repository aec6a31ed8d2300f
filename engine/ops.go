package main

// Instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (k *compiler) instr(ins ssa.Instruction) func(fr *frame) {
	in := k.in
	switch ins := ins.(type) {
	case *ssa.Alloc:
		dst := k.reg(ins)
		t := deref(ins.Type())
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			return func(fr *frame) {
				p := new(value)
				*p = zero(t)
				in.noteAlloc(p)
				fr.regs[dst] = p
			}
		}
		z := zero(t)
		return func(fr *frame) {
			p := new(value)
			*p = z
			in.noteAlloc(p)
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		return k.binop(ins)
	case *ssa.UnOp:
		return k.unop(ins)
	case *ssa.ChangeInterface:
		dst, x := k.reg(ins), k.op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		dst, x := k.reg(ins), k.op(ins.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.MultiConvert:
		dst, x := k.reg(ins), k.op(ins.X)
		st, dt := ins.X.Type(), ins.Type()
		return func(fr *frame) { fr.regs[dst] = in.convert(st, dt, fr.get(&x)) }
	case *ssa.Convert:
		dst, x := k.reg(ins), k.op(ins.X)
		st, dt := ins.X.Type(), ins.Type()
		if si, ok := intOf(st); ok {
			if di, ok := intOf(dt); ok {
				return func(fr *frame) {
					switch v := fr.get(&x).(type) {
					case uint64:
						if si.signed {
							fr.regs[dst] = sext(v, si.w) & mask(di.w)
						} else {
							fr.regs[dst] = v & mask(di.w)
						}
					case *Term:
						fr.regs[dst] = in.convInt(v, si, di)
					default:
						fr.regs[dst] = v // unsafe pointers kept as they are
					}
				}
			}
		}
		return func(fr *frame) { fr.regs[dst] = in.convert(st, dt, fr.get(&x)) }
	case *ssa.MakeInterface:
		dst, x := k.reg(ins), k.op(ins.X)
		t := in.canon(ins.X.Type())
		return func(fr *frame) { fr.regs[dst] = iface{t, fr.get(&x)} }
	case *ssa.Extract:
		dst, x, i := k.reg(ins), k.op(ins.Tuple), ins.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(tuple)[i] }
	case *ssa.Slice:
		return k.slice(ins)
	case *ssa.SliceToArrayPointer:
		dst, x := k.reg(ins), k.op(ins.X)
		n := deref(ins.Type()).Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s := fr.get(&x).([]value)
			if int64(len(s)) < n {
				in.runtimePanic("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[dst] = nilPtr
				return
			}
			p := new(value)
			*p = arrayV(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.Call:
		return k.call(ins)
	case *ssa.Defer:
		fv, args := k.callee(&ins.Call)
		return func(fr *frame) {
			f, a := fv(fr, args)
			fr.defers = append(fr.defers, deferred{f, a})
		}
	case *ssa.RunDefers:
		return func(fr *frame) { in.runDefers(fr) }
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return k.concurrency(ins)
	case *ssa.Store:
		a, v := k.op(ins.Addr), k.op(ins.Val)
		return func(fr *frame) { in.storeTo(fr.get(&a), fr.get(&v)) }
	case *ssa.FieldAddr:
		dst, x, i := k.reg(ins), k.op(ins.X), ins.Field
		name := ins.X.Type().String()
		return func(fr *frame) {
			p, ok := fr.get(&x).(*value)
			if !ok {
				in.unsupported("field address of %T (%s)", fr.get(&x), name)
			}
			if p == nil {
				in.runtimePanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(structV)
			if !ok || i >= len(s) {
				in.unsupported("field address: %T as %s", *p, name)
			}
			fr.regs[dst] = &s[i]
		}
	case *ssa.Field:
		dst, x, i := k.reg(ins), k.op(ins.X), ins.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(structV)[i] }
	case *ssa.IndexAddr:
		dst, x, ix := k.reg(ins), k.op(ins.X), k.op(ins.Index)
		ii, _ := intOf(ins.Index.Type())
		_, isPtr := ins.X.Type().Underlying().(*types.Pointer)
		return func(fr *frame) {
			var a []value
			switch s := fr.get(&x).(type) {
			case []value:
				a = s
			case *value:
				if s == nil {
					in.runtimePanic("invalid memory address or nil pointer dereference")
				}
				a = (*s).(arrayV)
			default:
				in.unsupported("index address of %T", s)
			}
			_ = isPtr
			fr.regs[dst] = in.indexAddr(a, fr.get(&ix), ii)
		}
	case *ssa.Index:
		dst, x, ix := k.reg(ins), k.op(ins.X), k.op(ins.Index)
		ii, _ := intOf(ins.Index.Type())
		lw := uint8(0)
		if e, ok := intOf(ins.Type()); ok {
			lw = e.w
		}
		return func(fr *frame) {
			switch s := fr.get(&x).(type) {
			case arrayV:
				in.loadW = lw
				fr.regs[dst] = in.load(in.indexAddr(s, fr.get(&ix), ii))
			default:
				fr.regs[dst] = in.strIndex(s, fr.get(&ix), ii)
			}
		}
	case *ssa.Lookup:
		dst, x, ix := k.reg(ins), k.op(ins.X), k.op(ins.Index)
		if isString(ins.X.Type()) {
			ii, _ := intOf(ins.Index.Type())
			return func(fr *frame) { fr.regs[dst] = in.strIndex(fr.get(&x), fr.get(&ix), ii) }
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		commaOk := ins.CommaOk
		return func(fr *frame) {
			m := fr.get(&x).(*mapV)
			v, ok := in.mapGet(m, fr.get(&ix), mt.Key())
			if !ok {
				v = zero(mt.Elem())
			} else {
				v = copyVal(v)
			}
			if commaOk {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		m, ky, v := k.op(ins.Map), k.op(ins.Key), k.op(ins.Value)
		kt := ins.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mm := fr.get(&m).(*mapV)
			if mm == nil {
				panic(targetPanic{iface{t: in.canon(in.P.rtErr), v: "assignment to entry in nil map"}})
			}
			in.mapSet(mm, fr.get(&ky), fr.get(&v), kt)
		}
	case *ssa.MakeMap:
		dst := k.reg(ins)
		return func(fr *frame) {
			m := newMapV()
			in.noteMap(m)
			fr.regs[dst] = m
		}
	case *ssa.MakeSlice:
		dst, l, c := k.reg(ins), k.op(ins.Len), k.op(ins.Cap)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) {
			n, cp := in.concInt(fr.get(&l)), in.concInt(fr.get(&c))
			if n < 0 || cp < n || cp > 1<<26 {
				in.runtimePanic("makeslice: len out of range")
			}
			a := make([]value, cp)
			z := zero(et)
			switch z.(type) {
			case structV, arrayV:
				for i := range a {
					a[i] = zero(et)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
			in.noteSlice(a)
			fr.regs[dst] = a[:n]
		}
	case *ssa.MakeClosure:
		dst := k.reg(ins)
		f := ins.Fn.(*ssa.Function)
		var bs []opnd
		for _, b := range ins.Bindings {
			bs = append(bs, k.op(b))
		}
		return func(fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = fr.get(&bs[i])
			}
			fr.regs[dst] = &closure{f, env}
		}
	case *ssa.TypeAssert:
		dst, x := k.reg(ins), k.op(ins.X)
		at := ins.AssertedType
		toI := isIface(at)
		ct := in.canon(at)
		commaOk := ins.CommaOk
		return func(fr *frame) {
			v, isI := fr.get(&x).(iface)
			if !isI {
				in.unsupported("type assertion on %T", fr.get(&x))
			}
			var r value
			ok := false
			if v.t != nil {
				if toI {
					ok = in.implements(v.t, ct)
					r = v
				} else if v.t == ct {
					ok = true
					r = copyVal(v.v)
				}
			}
			if !ok {
				if !commaOk {
					src := "nil"
					if v.t != nil {
						src = v.t.String()
					}
					in.runtimePanic(fmt.Sprintf("interface conversion: interface is %s, not %s", src, at))
				}
				r = zero(at)
			}
			if commaOk {
				fr.regs[dst] = tuple{r, ok}
			} else {
				fr.regs[dst] = r
			}
		}
	case *ssa.Range:
		dst, x := k.reg(ins), k.op(ins.X)
		if isString(ins.X.Type()) {
			return func(fr *frame) { fr.regs[dst] = &strIter{s: fr.get(&x)} }
		}
		return func(fr *frame) { fr.regs[dst] = in.mapIter(fr.get(&x).(*mapV), fr.fn.permMaps) }
	case *ssa.Next:
		dst, x := k.reg(ins), k.op(ins.Iter)
		if ins.IsString {
			return func(fr *frame) { fr.regs[dst] = in.strNext(fr.get(&x).(*strIter)) }
		}
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).(*mapIter).next(in) }
	}
	panic(fmt.Sprintf("instr %T", ins))
}

func (in *interp) indexAddr(a []value, idx value, ii intInfo) value {
	switch i := idx.(type) {
	case uint64:
		n := int64(i)
		if ii.signed {
			n = int64(sext(i, ii.w))
		}
		if n < 0 || n >= int64(len(a)) {
			in.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", n, len(a)))
		}
		return &a[n]
	case *Term:
		in.checkIndex(i, len(a), ii)
		if len(a) == 1 {
			return &a[0]
		}
		return &symPtr{a, i}
	}
	panic(fmt.Sprintf("index %T @ %s", idx, in.where()))
}

// checkIndex decides 0 <= i < n (panicking in the target otherwise).
func (in *interp) checkIndex(i *Term, n int, ii intInfo) {
	tc := in.tc
	if uint64(n) > mask(i.w) && (!ii.signed || uint64(n) > mask(i.w)) {
		if !ii.signed {
			return
		}
	}
	if uint64(n) > mask(i.w) {
		// signed narrow index into a large array: only negatives are out of range
		if !in.decide(tc.Not(tc.cmp(opSlt, i, tc.Const(0, i.w)))) {
			in.runtimePanic("index out of range (symbolic)")
		}
		return
	}
	c := tc.cmp(opUlt, i, tc.Const(uint64(n), i.w))
	if !in.decide(c) {
		in.runtimePanic(fmt.Sprintf("index out of range with length %d (symbolic index)", n))
	}
}

func (in *interp) strIndex(s value, idx value, ii intInfo) value {
	n := strLen(s)
	switch i := idx.(type) {
	case uint64:
		k := int64(i)
		if ii.signed {
			k = int64(sext(i, ii.w))
		}
		if k < 0 || k >= int64(n) {
			in.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return strAt(s, int(k))
	case *Term:
		in.checkIndex(i, n, ii)
		in.loadW = 8
		return in.selectIdx(strBytes(s), i)
	}
	panic(fmt.Sprintf("string index %T", idx))
}

func (in *interp) implements(t, it types.Type) bool {
	key := [2]types.Type{t, it}
	if r, ok := in.impl[key]; ok {
		return r
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	in.impl[key] = r
	return r
}

// --- unary

func (k *compiler) unop(ins *ssa.UnOp) func(fr *frame) {
	if ins.Op == token.ARROW {
		return k.concurrency(ins)
	}
	in := k.in
	dst, x := k.reg(ins), k.op(ins.X)
	switch ins.Op {
	case token.MUL:
		lw := uint8(0)
		if e, ok := intOf(ins.Type()); ok {
			lw = e.w
		}
		str := isString(ins.Type())
		return func(fr *frame) {
			p := fr.get(&x)
			if pp, ok := p.(*value); ok && pp != nil {
				switch v := (*pp).(type) {
				case structV, arrayV:
					fr.regs[dst] = copyVal(v)
				case nil:
					in.unsupported("use of a value whose initialiser could not be executed")
				case []value:
					if str { // *(*string)(unsafe.Pointer(&bytes))
						fr.regs[dst] = mkString(v)
						return
					}
					fr.regs[dst] = v
				default:
					fr.regs[dst] = v
				}
				return
			}
			in.loadW = lw
			fr.regs[dst] = in.load(p)
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case bool:
				fr.regs[dst] = !v
			case *Term:
				fr.regs[dst] = in.boolVal(in.tc.Not(v))
			default:
				panic(fmt.Sprintf("! %T", v))
			}
		}
	case token.SUB:
		if ii, ok := intOf(ins.Type()); ok {
			return func(fr *frame) {
				switch v := fr.get(&x).(type) {
				case uint64:
					fr.regs[dst] = -v & mask(ii.w)
				case *Term:
					fr.regs[dst] = in.intVal(in.tc.BvNeg(v))
				}
			}
		}
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			}
		}
	case token.XOR:
		ii, _ := intOf(ins.Type())
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case uint64:
				fr.regs[dst] = ^v & mask(ii.w)
			case *Term:
				fr.regs[dst] = in.intVal(in.tc.BvNot(v))
			}
		}
	}
	panic("unop " + ins.Op.String())
}

// --- binary

func (k *compiler) binop(ins *ssa.BinOp) func(fr *frame) {
	in := k.in
	dst, x, y := k.reg(ins), k.op(ins.X), k.op(ins.Y)
	op := ins.Op
	xt := ins.X.Type()
	if ii, ok := intOf(xt); ok {
		if op == token.SHL || op == token.SHR {
			yi, _ := intOf(ins.Y.Type())
			return func(fr *frame) { fr.regs[dst] = in.shift(op, ii, yi, fr.get(&x), fr.get(&y)) }
		}
		f := intOp(op, ii)
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if u, ok := a.(uint64); ok {
				if v, ok := b.(uint64); ok {
					if (op == token.QUO || op == token.REM) && v == 0 {
						in.runtimePanic("integer divide by zero")
					}
					fr.regs[dst] = f(u, v)
					return
				}
			}
			fr.regs[dst] = in.symInt(op, ii, a, b)
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		return func(fr *frame) {
			r := in.equals(xt, fr.get(&x), fr.get(&y))
			if neg {
				switch b := r.(type) {
				case bool:
					r = !b
				case *Term:
					r = in.boolVal(in.tc.Not(b))
				}
			}
			fr.regs[dst] = r
		}
	}
	if isString(xt) {
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			switch op {
			case token.ADD:
				fr.regs[dst] = strCat(a, b)
			case token.LSS:
				fr.regs[dst] = in.strLess(a, b, false)
			case token.LEQ:
				fr.regs[dst] = in.strLess(a, b, true)
			case token.GTR:
				fr.regs[dst] = in.strLess(b, a, false)
			case token.GEQ:
				fr.regs[dst] = in.strLess(b, a, true)
			}
		}
	}
	if isFloat(xt) {
		f32 := xt.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			a, ok1 := fr.get(&x).(float64)
			b, ok2 := fr.get(&y).(float64)
			if !ok1 || !ok2 {
				in.unsupported("symbolic floating point")
			}
			var r float64
			switch op {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[dst] = a < b
				return
			case token.LEQ:
				fr.regs[dst] = a <= b
				return
			case token.GTR:
				fr.regs[dst] = a > b
				return
			case token.GEQ:
				fr.regs[dst] = a >= b
				return
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		}
	}
	if isComplex(xt) {
		return func(fr *frame) {
			a, b := fr.get(&x).(complex128), fr.get(&y).(complex128)
			switch op {
			case token.ADD:
				fr.regs[dst] = a + b
			case token.SUB:
				fr.regs[dst] = a - b
			case token.MUL:
				fr.regs[dst] = a * b
			case token.QUO:
				fr.regs[dst] = a / b
			}
		}
	}
	if isBool(xt) {
		return func(fr *frame) {
			a, b := in.termOf(fr.get(&x), 0), in.termOf(fr.get(&y), 0)
			switch op {
			case token.AND, token.LAND:
				fr.regs[dst] = in.boolVal(in.tc.And(a, b))
			case token.OR, token.LOR:
				fr.regs[dst] = in.boolVal(in.tc.Or(a, b))
			default:
				in.unsupported("bool op %s", op)
			}
		}
	}
	s := ins.String()
	return func(fr *frame) { in.unsupported("binop %s", s) }
}

func intOp(op token.Token, ii intInfo) func(a, b uint64) value {
	m := mask(ii.w)
	w := ii.w
	switch op {
	case token.ADD:
		return func(a, b uint64) value { return (a + b) & m }
	case token.SUB:
		return func(a, b uint64) value { return (a - b) & m }
	case token.MUL:
		return func(a, b uint64) value { return (a * b) & m }
	case token.QUO:
		if ii.signed {
			return func(a, b uint64) value {
				x, y := int64(sext(a, w)), int64(sext(b, w))
				if y == -1 {
					return uint64(-x) & m
				}
				return uint64(x/y) & m
			}
		}
		return func(a, b uint64) value { return a / b }
	case token.REM:
		if ii.signed {
			return func(a, b uint64) value {
				x, y := int64(sext(a, w)), int64(sext(b, w))
				if y == -1 {
					return uint64(0)
				}
				return uint64(x%y) & m
			}
		}
		return func(a, b uint64) value { return a % b }
	case token.AND:
		return func(a, b uint64) value { return a & b }
	case token.OR:
		return func(a, b uint64) value { return a | b }
	case token.XOR:
		return func(a, b uint64) value { return a ^ b }
	case token.AND_NOT:
		return func(a, b uint64) value { return a &^ b }
	case token.EQL:
		return func(a, b uint64) value { return a == b }
	case token.NEQ:
		return func(a, b uint64) value { return a != b }
	}
	if ii.signed {
		switch op {
		case token.LSS:
			return func(a, b uint64) value { return int64(sext(a, w)) < int64(sext(b, w)) }
		case token.LEQ:
			return func(a, b uint64) value { return int64(sext(a, w)) <= int64(sext(b, w)) }
		case token.GTR:
			return func(a, b uint64) value { return int64(sext(a, w)) > int64(sext(b, w)) }
		case token.GEQ:
			return func(a, b uint64) value { return int64(sext(a, w)) >= int64(sext(b, w)) }
		}
	}
	switch op {
	case token.LSS:
		return func(a, b uint64) value { return a < b }
	case token.LEQ:
		return func(a, b uint64) value { return a <= b }
	case token.GTR:
		return func(a, b uint64) value { return a > b }
	case token.GEQ:
		return func(a, b uint64) value { return a >= b }
	}
	panic("intOp " + op.String())
}

func (in *interp) symInt(op token.Token, ii intInfo, x, y value) value {
	tc := in.tc
	if _, ok := x.(*value); ok { // pointer as uintptr
		in.unsupported("pointer arithmetic")
	}
	a, b := in.termOf(x, ii.w), in.termOf(y, ii.w)
	lt, le := opUlt, opUle
	if ii.signed {
		lt, le = opSlt, opSle
	}
	switch op {
	case token.ADD:
		return in.intVal(tc.Bin(opAdd, a, b))
	case token.SUB:
		return in.intVal(tc.Bin(opSub, a, b))
	case token.MUL:
		return in.intVal(tc.Bin(opMul, a, b))
	case token.QUO, token.REM:
		if in.decide(tc.Eq(b, tc.Const(0, ii.w))) {
			in.runtimePanic("integer divide by zero")
		}
		o := opUdiv
		switch {
		case op == token.QUO && ii.signed:
			o = opSdiv
		case op == token.REM && ii.signed:
			o = opSrem
		case op == token.REM:
			o = opUrem
		}
		return in.intVal(tc.Bin(o, a, b))
	case token.AND:
		return in.intVal(tc.Bin(opBvand, a, b))
	case token.OR:
		return in.intVal(tc.Bin(opBvor, a, b))
	case token.XOR:
		return in.intVal(tc.Bin(opBvxor, a, b))
	case token.AND_NOT:
		return in.intVal(tc.Bin(opBvand, a, tc.BvNot(b)))
	case token.EQL:
		return in.boolVal(tc.Eq(a, b))
	case token.NEQ:
		return in.boolVal(tc.Not(tc.Eq(a, b)))
	case token.LSS:
		return in.boolVal(tc.cmp(lt, a, b))
	case token.LEQ:
		return in.boolVal(tc.cmp(le, a, b))
	case token.GTR:
		return in.boolVal(tc.cmp(lt, b, a))
	case token.GEQ:
		return in.boolVal(tc.cmp(le, b, a))
	}
	panic("symInt " + op.String())
}

func (in *interp) shift(op token.Token, ii, yi intInfo, x, y value) value {
	tc := in.tc
	if yc, ok := y.(uint64); ok {
		if yi.signed && int64(sext(yc, yi.w)) < 0 {
			in.runtimePanic("negative shift amount")
		}
		switch xv := x.(type) {
		case uint64:
			if op == token.SHL {
				if yc >= uint64(ii.w) {
					return uint64(0)
				}
				return (xv << yc) & mask(ii.w)
			}
			if ii.signed {
				if yc >= 64 {
					yc = 63
				}
				return uint64(int64(sext(xv, ii.w))>>yc) & mask(ii.w)
			}
			if yc >= 64 {
				return uint64(0)
			}
			return xv >> yc
		case *Term:
			if yc >= uint64(ii.w) {
				if op == token.SHR && ii.signed {
					yc = uint64(ii.w) - 1
				} else {
					return uint64(0)
				}
			}
			o := opShl
			if op == token.SHR {
				o = opLshr
				if ii.signed {
					o = opAshr
				}
			}
			return in.intVal(tc.Bin(o, xv, tc.Const(yc, ii.w)))
		}
	}
	yt, ok := y.(*Term)
	if !ok {
		in.unsupported("shift by %T", y)
	}
	if yi.signed {
		if in.decide(tc.cmp(opSlt, yt, tc.Const(0, yi.w))) {
			in.runtimePanic("negative shift amount")
		}
	}
	xt := in.termOf(x, ii.w)
	var big *Term
	if mask(yt.w) < uint64(ii.w) {
		big = tc.False
	} else {
		big = tc.cmp(opUle, tc.Const(uint64(ii.w), yt.w), yt)
	}
	var amt *Term
	if yt.w >= ii.w {
		amt = tc.Trunc(yt, ii.w)
	} else {
		amt = tc.Zext(yt, ii.w)
	}
	switch {
	case op == token.SHL:
		return in.intVal(tc.Ite(big, tc.Const(0, ii.w), tc.Bin(opShl, xt, amt)))
	case ii.signed:
		return in.intVal(tc.Bin(opAshr, xt, tc.Ite(big, tc.Const(uint64(ii.w)-1, ii.w), amt)))
	}
	return in.intVal(tc.Ite(big, tc.Const(0, ii.w), tc.Bin(opLshr, xt, amt)))
}

func (in *interp) convInt(v *Term, si, di intInfo) value {
	tc := in.tc
	if v.w != si.w {
		panic(fmt.Sprintf("convInt: term width %d, static %d @ %s", v.w, si.w, in.where()))
	}
	if di.w < si.w {
		return in.intVal(tc.Trunc(v, di.w))
	}
	if si.signed {
		return in.intVal(tc.Sext(v, di.w))
	}
	return in.intVal(tc.Zext(v, di.w))
}

// strLess: a < b (or <=) lexicographically.
func (in *interp) strLess(a, b value, orEq bool) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	tc := in.tc
	n := strLen(a)
	if strLen(b) < n {
		n = strLen(b)
	}
	var r *Term
	if orEq {
		r = tc.Bool(strLen(a) <= strLen(b))
	} else {
		r = tc.Bool(strLen(a) < strLen(b))
	}
	for i := n - 1; i >= 0; i-- {
		x, y := in.termOf(strAt(a, i), 8), in.termOf(strAt(b, i), 8)
		r = tc.Ite(tc.Eq(x, y), r, tc.cmp(opUlt, x, y))
	}
	return in.boolVal(r)
}

func (in *interp) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if strLen(b) != n {
		return false
	}
	var l []*Term
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		u, ok1 := x.(uint64)
		v, ok2 := y.(uint64)
		if ok1 && ok2 {
			if u != v {
				return false
			}
			continue
		}
		e := in.tc.Eq(in.termOf(x, 8), in.termOf(y, 8))
		if e == in.tc.False {
			return false
		}
		l = append(l, e)
	}
	return in.boolVal(in.tc.And(l...))
}

// equals: == on values of static type t; returns bool or *Term.
func (in *interp) equals(t types.Type, x, y value) value {
	switch a := x.(type) {
	case string, symStr:
		return in.strEq(x, y)
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return in.boolVal(in.tc.Eq(b, in.tc.Const(a, b.w)))
		}
		return false
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return in.boolVal(in.tc.Eq(b, in.tc.Bool(a)))
		}
	case *Term:
		return in.boolVal(in.tc.Eq(a, in.termOf(y, a.w)))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		in.unsupported("symbolic floating point")
	case complex128:
		return a == y.(complex128)
	case *value:
		switch b := y.(type) {
		case *value:
			return a == b
		case *dataPtr:
			return false
		}
		return false
	case *dataPtr:
		if b, ok := y.(*dataPtr); ok {
			return a == b || (len(a.s) > 0 && len(b.s) > 0 && &a.s[0] == &b.s[0])
		}
		return false
	case iface:
		b, ok := y.(iface)
		if !ok {
			in.unsupported("interface compared with %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		if !types.Comparable(a.t) {
			in.runtimePanic("comparing uncomparable type " + a.t.String())
		}
		return in.equals(a.t, a.v, b.v)
	case structV:
		b := y.(structV)
		st := t.Underlying().(*types.Struct)
		l := []*Term{}
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			l = append(l, in.termOf(in.equals(st.Field(i).Type(), a[i], b[i]), 0))
		}
		return in.boolVal(in.tc.And(l...))
	case arrayV:
		b := y.(arrayV)
		et := t.Underlying().(*types.Array).Elem()
		l := []*Term{}
		for i := range a {
			l = append(l, in.termOf(in.equals(et, a[i], b[i]), 0))
		}
		return in.boolVal(in.tc.And(l...))
	case *mapV:
		b, _ := y.(*mapV)
		return a == b
	case *chanV:
		b, _ := y.(*chanV)
		return a == b
	case []value: // only against nil
		b, _ := y.([]value)
		if b == nil {
			return a == nil
		}
		if a == nil {
			return b == nil
		}
	case *ssa.Function:
		switch b := y.(type) {
		case *ssa.Function:
			return a == b
		default:
			return false
		}
	case *closure:
		switch b := y.(type) {
		case *closure:
			return a == b
		default:
			return false
		}
	case *nativeFn:
		return x == y
	case nil:
		in.unsupported("comparison of an uninitialised value")
	default:
		if a == y {
			return true
		}
		return nativeEq(a, y)
	}
	panic(fmt.Sprintf("equals %T %T @ %s", x, y, in.where()))
}

// --- conversions

func (in *interp) convert(st, dt types.Type, x value) value {
	su, du := st.Underlying(), dt.Underlying()
	if si, ok := intOf(st); ok {
		if di, ok := intOf(dt); ok {
			switch v := x.(type) {
			case uint64:
				if si.signed {
					return sext(v, si.w) & mask(di.w)
				}
				return v & mask(di.w)
			case *Term:
				return in.convInt(v, si, di)
			}
			return x
		}
		if isFloat(dt) {
			u := in.concU(x) // one path per value: there is no symbolic floating point
			var f float64
			if si.signed {
				f = float64(int64(sext(u, si.w)))
			} else {
				f = float64(u)
			}
			if du.(*types.Basic).Kind() == types.Float32 {
				if si.signed {
					f = float64(float32(int64(sext(u, si.w))))
				} else {
					f = float64(float32(u))
				}
			}
			return f
		}
		if isString(dt) { // string(rune)
			switch v := x.(type) {
			case uint64:
				return string(rune(sext(v, si.w)))
			case *Term:
				tc := in.tc
				if in.decide(tc.cmp(opUlt, v, tc.Const(0x80, v.w))) {
					return mkString([]value{in.intVal(tc.Trunc(v, 8))})
				}
				f := in.P.fn("unicode/utf8", "AppendRune")
				r := in.callSSA(f, []value{[]value(nil), in.convInt(v, si, intInfo{32, true})})
				return mkString(r.([]value))
			}
		}
		if b, ok := du.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if _, ok := x.(uint64); ok {
				if x.(uint64) == 0 {
					return nilPtr
				}
				in.unsupported("uintptr to pointer")
			}
			return x
		}
	}
	if isFloat(st) {
		f, ok := x.(float64)
		if !ok {
			in.unsupported("symbolic floating point")
		}
		if di, ok := intOf(dt); ok {
			if di.signed {
				return uint64(int64(f)) & mask(di.w)
			}
			if f >= 9.2e18 {
				return uint64(f) & mask(di.w)
			}
			return uint64(int64(f)) & mask(di.w)
		}
		if isFloat(dt) {
			if du.(*types.Basic).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
	}
	if isComplex(st) && isComplex(dt) {
		return x
	}
	if isString(st) {
		if isString(dt) {
			return x
		}
		if sl, ok := du.(*types.Slice); ok {
			ei, _ := intOf(sl.Elem())
			if ei.w == 8 {
				b := strBytes(x)
				in.noteSlice(b)
				return b
			}
			// []rune
			it := &strIter{s: x}
			out := []value{}
			for {
				t := in.strNext(it).(tuple)
				if !t[0].(bool) {
					return out
				}
				out = append(out, t[2])
			}
		}
	}
	if sl, ok := su.(*types.Slice); ok {
		if isString(dt) {
			ei, _ := intOf(sl.Elem())
			s := x.([]value)
			if ei.w == 8 {
				return mkString(s)
			}
			var out value = ""
			for _, r := range s {
				out = strCat(out, in.convert(sl.Elem(), dt, r))
			}
			return out
		}
		if ar, ok := du.(*types.Array); ok {
			s := x.([]value)
			if int64(len(s)) < ar.Len() {
				in.runtimePanic("cannot convert slice to array")
			}
			return copyVal(arrayV(s[:ar.Len()]))
		}
		return x
	}
	// pointers / unsafe.Pointer
	if b, ok := su.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if b, ok := du.(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr) {
		return x
	}
	if types.Identical(su, du) {
		return x
	}
	if _, ok := su.(*types.Pointer); ok {
		return x
	}
	in.unsupported("conversion %s to %s", st, dt)
	return nil
}

// --- strings

type strIter struct {
	s   value
	pos int
}

func (in *interp) strNext(it *strIter) value {
	n := strLen(it.s)
	if it.pos >= n {
		return tuple{false, uint64(0), uint64(0)}
	}
	i := it.pos
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		it.pos += w
		return tuple{true, uint64(i), uint64(uint32(r))}
	}
	switch b := strAt(it.s, i).(type) {
	case uint64:
		if b < 0x80 {
			it.pos++
			return tuple{true, uint64(i), b}
		}
	case *Term:
		if in.decide(in.tc.cmp(opUlt, b, in.tc.Const(0x80, 8))) {
			it.pos++
			return tuple{true, uint64(i), in.intVal(in.tc.Zext(b, 32))}
		}
	}
	t := in.callSSA(in.P.fn("unicode/utf8", "DecodeRuneInString"), []value{strSlice(it.s, i, n)}).(tuple)
	it.pos += in.concInt(t[1])
	return tuple{true, uint64(i), t[0]}
}

// --- slicing

func (k *compiler) slice(ins *ssa.Slice) func(fr *frame) {
	in := k.in
	dst, x := k.reg(ins), k.op(ins.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMx := ins.Low != nil, ins.High != nil, ins.Max != nil
	if hasLo {
		lo = k.op(ins.Low)
	}
	if hasHi {
		hi = k.op(ins.High)
	}
	if hasMx {
		mx = k.op(ins.Max)
	}
	return func(fr *frame) {
		xv := fr.get(&x)
		var n, cp int
		var arr []value
		isStr := false
		switch s := xv.(type) {
		case string, symStr:
			n = strLen(s)
			cp = n
			isStr = true
		case []value:
			arr, n, cp = s, len(s), cap(s)
		case *value:
			if s == nil {
				in.runtimePanic("invalid memory address or nil pointer dereference")
			}
			a, ok := (*s).(arrayV)
			if !ok {
				in.unsupported("slice of pointer to %T", *s)
			}
			arr, n, cp = a, len(a), len(a)
		default:
			in.unsupported("slice of %T", xv)
		}
		l, h, m := 0, n, cp
		if hasLo {
			l = in.concInt(fr.get(&lo))
		}
		if hasHi {
			h = in.concInt(fr.get(&hi))
		}
		if hasMx {
			m = in.concInt(fr.get(&mx))
		}
		lim := cp
		if hasMx {
			lim = m
		}
		if m < 0 || m > cp || h < 0 || h > lim || l < 0 || l > h {
			in.runtimePanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if isStr {
			fr.regs[dst] = strSlice(xv, l, h)
			return
		}
		if arr == nil {
			fr.regs[dst] = nilSlice
			return
		}
		fr.regs[dst] = arr[l:h:m]
	}
}

// --- calls

type argsFn func(fr *frame, args []opnd) (value, []value)

// callee compiles the evaluation of function value and arguments (used by defer and dynamic calls).
func (k *compiler) callee(c *ssa.CallCommon) (argsFn, []opnd) {
	in := k.in
	var args []opnd
	for _, a := range c.Args {
		args = append(args, k.op(a))
	}
	fv := k.op(c.Value)
	if c.IsInvoke() {
		m := c.Method
		return func(fr *frame, ops []opnd) (value, []value) {
			i, ok := fr.get(&fv).(iface)
			if !ok {
				in.unsupported("method call on %T", fr.get(&fv))
			}
			if i.t == nil {
				in.runtimePanic("invalid memory address or nil pointer dereference")
			}
			a := make([]value, len(ops)+1)
			a[0] = copyVal(i.v)
			for j := range ops {
				a[j+1] = fr.get(&ops[j])
			}
			return in.methodOf(i.t, m), a
		}, args
	}
	return func(fr *frame, ops []opnd) (value, []value) {
		a := make([]value, len(ops))
		for j := range ops {
			a[j] = fr.get(&ops[j])
		}
		return fr.get(&fv), a
	}, args
}

func (in *interp) methodOf(t types.Type, m *types.Func) *ssa.Function {
	key := methodKey{t, m}
	f := in.methods[key]
	if f == nil {
		f = in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			in.unsupported("no method %s on %s", m.Name(), t)
		}
		in.methods[key] = f
	}
	return f
}

func (in *interp) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := in.P.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return in.P.prog.MethodValue(sel)
}

func (k *compiler) call(ins *ssa.Call) func(fr *frame) {
	in := k.in
	dst := k.reg(ins)
	c := &ins.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return k.builtinCall(dst, b, ins)
	}
	if f := c.StaticCallee(); f != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			var args []opnd
			for _, a := range c.Args {
				args = append(args, k.op(a))
			}
			var cf *cfn
			return func(fr *frame) {
				if cf == nil {
					cf = in.compiled(f)
				}
				a := make([]value, len(args))
				for j := range args {
					a[j] = fr.get(&args[j])
				}
				fr.regs[dst] = in.callFn(cf, a, nil, fr)
			}
		}
	}
	fv, args := k.callee(c)
	return func(fr *frame) {
		f, a := fv(fr, args)
		fr.regs[dst] = in.call(f, a, fr)
	}
}

func (k *compiler) builtinCall(dst int, b *ssa.Builtin, ins *ssa.Call) func(fr *frame) {
	in := k.in
	var args []opnd
	for _, a := range ins.Call.Args {
		args = append(args, k.op(a))
	}
	switch b.Name() {
	case "len":
		x := args[0]
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case string:
				fr.regs[dst] = uint64(len(v))
			case symStr:
				fr.regs[dst] = uint64(len(v))
			case []value:
				fr.regs[dst] = uint64(len(v))
			case *mapV:
				fr.regs[dst] = uint64(v.len())
			case arrayV:
				fr.regs[dst] = uint64(len(v))
			case *value:
				fr.regs[dst] = uint64(len((*v).(arrayV)))
			case *chanV:
				if v == nil {
					fr.regs[dst] = uint64(0)
				} else {
					fr.regs[dst] = uint64(len(v.buf))
				}
			default:
				panic(fmt.Sprintf("len %T @ %s", v, in.where()))
			}
		}
	case "cap":
		x := args[0]
		return func(fr *frame) {
			switch v := fr.get(&x).(type) {
			case []value:
				fr.regs[dst] = uint64(cap(v))
			case arrayV:
				fr.regs[dst] = uint64(len(v))
			case *value:
				fr.regs[dst] = uint64(len((*v).(arrayV)))
			case *chanV:
				fr.regs[dst] = uint64(0)
				if v != nil {
					fr.regs[dst] = uint64(v.cap)
				}
			default:
				fr.regs[dst] = uint64(0)
			}
		}
	}
	return func(fr *frame) {
		a := make([]value, len(args))
		for j := range args {
			a[j] = fr.get(&args[j])
		}
		fr.regs[dst] = in.builtin(b, a, fr, ins)
	}
}

func (in *interp) builtin(b *ssa.Builtin, args []value, fr *frame, ins *ssa.Call) value {
	sig, _ := b.Type().(*types.Signature)
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]value)
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		default:
			add = strBytes(y)
		}
		return in.appendV(s, add, sig.Params().At(0).Type())
	case "copy":
		d := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		default:
			src = strBytes(y)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		if n > 0 {
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				in.store(&d[i], tmp[i])
			}
		}
		return uint64(n)
	case "close":
		in.chanClose(args[0].(*chanV))
		return nil
	case "delete":
		m := args[0].(*mapV)
		if m != nil {
			in.mapDelete(m, args[1], sig.Params().At(0).Type().Underlying().(*types.Map).Key())
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range append([]*mapEnt(nil), x.ents...) {
					if !e.dead {
						in.mapKill(x, e)
					}
				}
			}
		case []value:
			z := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], zero(z))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch v := args[0].(type) {
		case []value:
			return uint64(len(v))
		case *mapV:
			return uint64(v.len())
		default:
			return uint64(strLen(v))
		}
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		f := fr.caller
		if f == nil || !f.panicking {
			return nilIface
		}
		f.panicking = false
		tp := f.panicV.(targetPanic)
		f.panicV = nil
		if i, ok := tp.v.(iface); ok {
			return i
		}
		in.unsupported("recover of %T", tp.v)
	case "min", "max":
		r := args[0]
		t := sig.Params().At(0).Type()
		for _, a := range args[1:] {
			var less value
			if ii, ok := intOf(t); ok {
				if u, ok := a.(uint64); ok {
					if v, ok := r.(uint64); ok {
						less = intOp(token.LSS, ii)(u, v)
					}
				}
				if less == nil {
					less = in.symInt(token.LSS, ii, a, r)
				}
				lt := in.termOf(less, 0)
				if b.Name() == "max" {
					lt = in.tc.Not(lt)
				}
				r = in.intVal(in.tc.Ite(lt, in.termOf(a, ii.w), in.termOf(r, ii.w)))
				continue
			}
			switch x := a.(type) {
			case float64:
				if b.Name() == "min" {
					r = math.Min(x, r.(float64))
				} else {
					r = math.Max(x, r.(float64))
				}
			default:
				l := in.truth(in.strLess(a, r, false))
				if l == (b.Name() == "min") {
					r = a
				}
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.runtimePanic(fmt.Sprintf("value method %s.%s called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return nilPtr
	case "String": // unsafe.String
		n := in.concInt(args[1])
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case *dataPtr:
			if p.s != nil {
				return mkString(p.s[:n])
			}
			return strSlice(p.str, 0, n)
		case *value:
			if n == 1 {
				return mkString([]value{*p})
			}
			in.unsupported("unsafe.String of a plain pointer")
		}
	case "Slice": // unsafe.Slice
		n := in.concInt(args[1])
		switch p := args[0].(type) {
		case *dataPtr:
			if p.s != nil {
				return p.s[:n:n]
			}
			return strBytes(p.str)[:n]
		case *value:
			if n == 0 {
				return []value{}
			}
			if a, ok := (*p).(arrayV); ok && len(a) >= n {
				return []value(a[:n:n])
			}
		}
		in.unsupported("unsafe.Slice")
	case "SliceData":
		s := args[0].([]value)
		if s == nil {
			return nilPtr
		}
		return &dataPtr{s: s}
	case "StringData":
		return &dataPtr{str: args[0]}
	case "Sizeof", "Alignof":
		if sig != nil && sig.Params().Len() > 0 {
			t, sz := sig.Params().At(0).Type(), types.SizesFor("gc", "amd64")
			if _, tp := t.(*types.TypeParam); !tp {
				if b.Name() == "Sizeof" {
					return uint64(sz.Sizeof(t))
				}
				return uint64(sz.Alignof(t))
			}
		}
	}
	in.unsupported("builtin %s", b.Name())
	return nil
}

func growCap(old, need int) int {
	n := old * 2
	if old > 256 {
		n = old + old/4 + 192
	}
	if n < need {
		n = need
	}
	if n < 8 && need <= 8 {
		n = need
		if n < 4 {
			n = 4
		} else {
			n = 8
		}
	}
	return n
}

func (in *interp) appendV(s, add []value, st types.Type) []value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			in.storeRaw(&r[len(s)+i], tmp[i])
		}
		return r
	}
	r := make([]value, n, growCap(cap(s), n))
	copy(r, s)
	for i, x := range s { // aggregates are copied into the new backing store
		switch x.(type) {
		case structV, arrayV:
			r[i] = copyVal(x)
		}
	}
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	if full := r[:cap(r)]; len(full) > n {
		et := types.Typ[types.Byte].Underlying()
		if sl, ok := st.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		z := zero(et)
		switch z.(type) {
		case structV, arrayV:
			for i := n; i < len(full); i++ {
				full[i] = zero(et)
			}
		default:
			for i := n; i < len(full); i++ {
				full[i] = z
			}
		}
	}
	in.noteSlice(r[:cap(r)])
	return r
}

// storeRaw stores into slice capacity, whose cells may still be nil.
func (in *interp) storeRaw(p *value, v value) {
	if *p == nil {
		if in.logging {
			in.log = append(in.log, undoEnt{p: p})
		}
		if in.path != nil && in.path.frame != nil {
			in.path.frame.onStore(in, p)
		}
		*p = v
		return
	}
	in.store(p, v)
}
