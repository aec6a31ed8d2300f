package main

// Bit-vector and boolean terms, hash-consed per worker, with light simplification,
// concrete evaluation under a model, and SMT-LIB2 printing.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type op uint8

const (
	opConst op = iota
	opVar
	opNot
	opAnd
	opOr
	opEq
	opIte
	opAdd
	opSub
	opMul
	opUdiv
	opSdiv
	opUrem
	opSrem
	opShl
	opLshr
	opAshr
	opBvand
	opBvor
	opBvxor
	opBvnot
	opBvneg
	opUlt
	opUle
	opSlt
	opSle
	opExtract // k = lo, width = w
	opZext
	opSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvult", "bvule", "bvslt", "bvsle", "extract", "zext", "sext"}

// Term: width 0 = Bool.
type Term struct {
	op   op
	w    uint8
	k    uint64 // const value, var index, extract low bit
	a    []*Term
	id   int
	vars []int32 // sorted variable indices

	evalGen int
	evalVal uint64

	defined bool // define-fun emitted to this worker's solver

	h  hash2 // structural hash, by variable names
	ha hash2 // the same with all variables of a width identified
}

type hash2 [2]uint64

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

var hashSeed = hash2{0x1234567, 0x89abcdef01}

func hashTerm(t *Term, name string, sel func(x *Term) hash2) hash2 {
	var r hash2
	for i := 0; i < 2; i++ {
		v := mix(hashSeed[i] ^ uint64(t.op)<<8 ^ uint64(t.w))
		if t.op == opVar {
			for j := 0; j < len(name); j++ {
				v = mix(v ^ uint64(name[j]))
			}
			r[i] = v
			continue
		}
		v = mix(v ^ t.k)
		switch t.op {
		case opAnd, opOr, opEq, opAdd, opMul, opBvand, opBvor, opBvxor:
			s := uint64(0)
			for _, x := range t.a {
				s += mix(sel(x)[i] ^ hashSeed[i])
			}
			v = mix(v ^ s)
		default:
			for _, x := range t.a {
				v = mix(v ^ sel(x)[i])
			}
		}
		r[i] = v
	}
	return r
}

func (t *Term) rehash(name string) {
	t.h = hashTerm(t, name, func(x *Term) hash2 { return x.h })
	t.ha = hashTerm(t, "", func(x *Term) hash2 { return x.ha })
}

type tkey struct {
	op      op
	w       uint8
	k       uint64
	a, b, c int
}

type TermCtx struct {
	tab   map[tkey]*Term
	nary  map[string]*Term
	n     int
	vars  []*Term // variable terms by index
	names []string
	byNm  map[string]*Term
	gen   int
	True  *Term
	False *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, nary: map[string]*Term{}, byNm: map[string]*Term{}}
	c.True = c.mk(opConst, 0, 1)
	c.False = c.mk(opConst, 0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset test
	i, j := 0, 0
	sub := true
	for j < len(b) {
		for i < len(a) && a[i] < b[j] {
			i++
		}
		if i == len(a) || a[i] != b[j] {
			sub = false
			break
		}
		j++
	}
	if sub {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (c *TermCtx) mk(o op, w uint8, k uint64, a ...*Term) *Term {
	if len(a) <= 3 {
		key := tkey{op: o, w: w, k: k, a: -1, b: -1, c: -1}
		if len(a) > 0 {
			key.a = a[0].id
		}
		if len(a) > 1 {
			key.b = a[1].id
		}
		if len(a) > 2 {
			key.c = a[2].id
		}
		if t := c.tab[key]; t != nil {
			return t
		}
		t := c.alloc(o, w, k, a)
		c.tab[key] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d:%d:%d", o, w, k)
	for _, x := range a {
		fmt.Fprintf(&sb, ",%d", x.id)
	}
	s := sb.String()
	if t := c.nary[s]; t != nil {
		return t
	}
	t := c.alloc(o, w, k, a)
	c.nary[s] = t
	return t
}

func (c *TermCtx) alloc(o op, w uint8, k uint64, a []*Term) *Term {
	t := &Term{op: o, w: w, k: k, id: c.n}
	c.n++
	if len(a) > 0 {
		t.a = append([]*Term(nil), a...)
		for _, x := range a {
			t.vars = mergeVars(t.vars, x.vars)
		}
	}
	t.rehash("")
	return t
}

// Var returns the variable with this name (created on first use; names are deterministic per path position).
func (c *TermCtx) Var(name string, w uint8) *Term {
	nm := fmt.Sprintf("%s!%d", name, w)
	if t := c.byNm[nm]; t != nil {
		return t
	}
	idx := len(c.vars)
	t := &Term{op: opVar, w: w, k: uint64(idx), id: c.n, vars: []int32{int32(idx)}}
	c.n++
	t.rehash(nm)
	c.vars = append(c.vars, t)
	c.names = append(c.names, nm)
	c.byNm[nm] = t
	return t
}

func (c *TermCtx) Const(v uint64, w uint8) *Term { return c.mk(opConst, w, v&mask(w)) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) isConst() bool { return t.op == opConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch {
	case a == c.True:
		return c.False
	case a == c.False:
		return c.True
	case a.op == opNot:
		return a.a[0]
	case a.op == opUlt:
		return c.cmp(opUle, a.a[1], a.a[0])
	case a.op == opUle:
		return c.cmp(opUlt, a.a[1], a.a[0])
	case a.op == opSlt:
		return c.cmp(opSle, a.a[1], a.a[0])
	case a.op == opSle:
		return c.cmp(opSlt, a.a[1], a.a[0])
	}
	return c.mk(opNot, 0, 0, a)
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.nAry(opAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.nAry(opOr, xs) }

func (c *TermCtx) nAry(o op, xs []*Term) *Term {
	unit, zero := c.True, c.False
	if o == opOr {
		unit, zero = c.False, c.True
	}
	var l []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == o {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[c.Not(x).id] {
			return false
		}
		seen[x.id] = true
		l = append(l, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(l) {
	case 0:
		return unit
	case 1:
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return c.mk(o, 0, 0, l...)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case opZext:
			if b.k > mask(a.a[0].w) {
				return c.False
			}
			return c.Eq(a.a[0], c.Const(b.k, a.a[0].w))
		case opSext:
			in := a.a[0].w
			lo := b.k & mask(in)
			if sext(lo, in)&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a[0], c.Const(lo, in))
		case opIte:
			x, y := a.a[1], a.a[2]
			if x.isConst() || y.isConst() {
				return c.Or(c.And(a.a[0], c.Eq(x, b)), c.And(c.Not(a.a[0]), c.Eq(y, b)))
			}
		case opAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(b.k-a.a[1].k, a.w))
			}
		case opBvxor:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(b.k^a.a[1].k, a.w))
			}
		}
	}
	if a.op == opZext && b.op == opZext && a.a[0].w == b.a[0].w {
		return c.Eq(a.a[0], b.a[0])
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(opEq, 0, 0, a, b)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() || b.isConst() {
			return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
		}
	}
	if cond.op == opNot {
		return c.Ite(cond.a[0], b, a)
	}
	return c.mk(opIte, a.w, 0, cond, a, b)
}

func sext(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	if v>>(w-1)&1 == 1 {
		return v | ^mask(w)
	}
	return v & mask(w)
}

func (c *TermCtx) cmp(o op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a == b {
		return c.Bool(o == opUle || o == opSle)
	}
	if a.isConst() && b.isConst() {
		return c.Bool(evalOp(o, 0, a.w, 0, []uint64{a.k, b.k}) == 1)
	}
	w := a.w
	switch o {
	case opSlt, opSle:
		// zero-extended (hence non-negative) operands compare unsigned
		nn := func(t *Term) bool {
			return (t.op == opZext && t.a[0].w < w) || (t.isConst() && t.k>>(w-1) == 0)
		}
		if nn(a) && nn(b) {
			if o == opSlt {
				return c.cmp(opUlt, a, b)
			}
			return c.cmp(opUle, a, b)
		}
		if nn(a) && b.isConst() { // b negative
			return c.False
		}
		if nn(b) && a.isConst() { // a negative
			return c.True
		}
	case opUlt:
		if b.isConst() {
			if b.k == 0 {
				return c.False
			}
			if b.k == 1 {
				return c.Eq(a, c.Const(0, w))
			}
			if a.op == opZext {
				in := a.a[0]
				if b.k > mask(in.w) {
					return c.True
				}
				return c.cmp(opUlt, in, c.Const(b.k, in.w))
			}
		}
		if a.isConst() {
			if a.k == mask(w) {
				return c.False
			}
			if b.op == opZext {
				in := b.a[0]
				if a.k >= mask(in.w) {
					return c.False
				}
				return c.cmp(opUlt, c.Const(a.k, in.w), in)
			}
		}
		if a.op == opZext && b.op == opZext && a.a[0].w == b.a[0].w {
			return c.cmp(opUlt, a.a[0], b.a[0])
		}
	case opUle:
		if a.isConst() && a.k == 0 {
			return c.True
		}
		if b.isConst() {
			if b.k == mask(w) {
				return c.True
			}
			return c.cmp(opUlt, a, c.Const(b.k+1, w))
		}
		if a.isConst() {
			return c.cmp(opUlt, c.Const(a.k-1, w), b)
		}
		if a.op == opZext && b.op == opZext && a.a[0].w == b.a[0].w {
			return c.cmp(opUle, a.a[0], b.a[0])
		}
	}
	return c.mk(o, 0, 0, a, b)
}

func (c *TermCtx) Bin(o op, a, b *Term) *Term {
	switch o {
	case opUlt, opUle, opSlt, opSle:
		return c.cmp(o, a, b)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width mismatch %d %d", opNames[o], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(evalOp(o, w, w, 0, []uint64{a.k, b.k}), w)
	}
	comm := o == opAdd || o == opMul || o == opBvand || o == opBvor || o == opBvxor
	if comm && (a.isConst() || (!b.isConst() && a.id > b.id)) {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case b.k == 0 && (o == opAdd || o == opSub || o == opBvor || o == opBvxor || o == opShl || o == opLshr || o == opAshr):
			return a
		case b.k == 0 && (o == opMul || o == opBvand):
			return b
		case b.k == 1 && (o == opMul || o == opUdiv || o == opSdiv):
			return a
		case b.k == mask(w) && o == opBvand:
			return a
		case b.k == mask(w) && o == opBvor:
			return b
		}
		if o == opSub {
			return c.Bin(opAdd, a, c.Const(-b.k, w))
		}
		if o == opAdd && a.op == opAdd && a.a[1].isConst() {
			return c.Bin(opAdd, a.a[0], c.Const(a.a[1].k+b.k, w))
		}
		if (o == opUdiv || o == opUrem) && b.k != 0 && b.k&(b.k-1) == 0 {
			if o == opUdiv {
				return c.Bin(opLshr, a, c.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
			return c.Bin(opBvand, a, c.Const(b.k-1, w))
		}
		if o == opLshr && a.op == opZext && b.k < uint64(w) {
			in := a.a[0]
			if b.k >= uint64(in.w) {
				return c.Const(0, w)
			}
			return c.Zext(c.Bin(opLshr, in, c.Const(b.k, in.w)), w)
		}
		if o == opBvand && a.op == opZext {
			in := a.a[0]
			return c.Zext(c.Bin(opBvand, in, c.Const(b.k, in.w)), w)
		}
	}
	if a == b {
		switch o {
		case opSub, opBvxor:
			return c.Const(0, w)
		case opBvand, opBvor:
			return a
		}
	}
	return c.mk(o, w, 0, a, b)
}

func (c *TermCtx) BvNot(a *Term) *Term {
	if a.isConst() {
		return c.Const(^a.k, a.w)
	}
	return c.mk(opBvnot, a.w, 0, a)
}
func (c *TermCtx) BvNeg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.k, a.w)
	}
	return c.mk(opBvneg, a.w, 0, a)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == opZext {
		return c.Zext(a.a[0], w)
	}
	return c.mk(opZext, w, 0, a)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(sext(a.k, a.w), w)
	}
	if a.op == opZext && a.a[0].w < a.w {
		return c.Zext(a.a[0], w)
	}
	return c.mk(opSext, w, 0, a)
}

func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == opZext || a.op == opSext {
		in := a.a[0]
		if in.w == w {
			return in
		}
		if in.w > w {
			return c.Trunc(in, w)
		}
		if a.op == opZext {
			return c.Zext(in, w)
		}
		return c.Sext(in, w)
	}
	if a.op == opIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.Ite(a.a[0], c.Trunc(a.a[1], w), c.Trunc(a.a[2], w))
	}
	return c.mk(opExtract, w, 0, a)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp: w result width, aw operand width.
func evalOp(o op, w, aw uint8, k uint64, a []uint64) uint64 {
	m := mask(w)
	s := func(i int) int64 { return int64(sext(a[i], aw)) }
	switch o {
	case opNot:
		return a[0] ^ 1
	case opAdd:
		return (a[0] + a[1]) & m
	case opSub:
		return (a[0] - a[1]) & m
	case opMul:
		return (a[0] * a[1]) & m
	case opUdiv:
		if a[1] == 0 {
			return m
		}
		return (a[0] / a[1]) & m
	case opUrem:
		if a[1] == 0 {
			return a[0]
		}
		return (a[0] % a[1]) & m
	case opSdiv:
		x, y := s(0), s(1)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case opSrem:
		x, y := s(0), s(1)
		if y == 0 {
			return a[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case opShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return (a[0] << a[1]) & m
	case opLshr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case opAshr:
		sh := a[1]
		if sh >= uint64(w) {
			sh = uint64(w) - 1
		}
		return uint64(s(0)>>sh) & m
	case opBvand:
		return a[0] & a[1]
	case opBvor:
		return a[0] | a[1]
	case opBvxor:
		return a[0] ^ a[1]
	case opBvnot:
		return ^a[0] & m
	case opBvneg:
		return -a[0] & m
	case opUlt:
		return b2u(a[0] < a[1])
	case opUle:
		return b2u(a[0] <= a[1])
	case opSlt:
		return b2u(s(0) < s(1))
	case opSle:
		return b2u(s(0) <= s(1))
	case opExtract:
		return (a[0] >> k) & m
	case opZext:
		return a[0]
	case opSext:
		return sext(a[0], aw) & m
	}
	panic("evalOp " + opNames[o])
}

// Eval evaluates t under the model (missing variables are 0).
func (c *TermCtx) Eval(t *Term, m model) uint64 {
	c.gen++
	return c.eval(t, m)
}

func (c *TermCtx) eval(t *Term, m model) uint64 {
	switch t.op {
	case opConst:
		return t.k
	case opVar:
		return m[int32(t.k)]
	}
	if t.evalGen == c.gen {
		return t.evalVal
	}
	var v uint64
	switch t.op {
	case opAnd:
		v = 1
		for _, x := range t.a {
			if c.eval(x, m) == 0 {
				v = 0
				break
			}
		}
	case opOr:
		for _, x := range t.a {
			if c.eval(x, m) == 1 {
				v = 1
				break
			}
		}
	case opIte:
		if c.eval(t.a[0], m) == 1 {
			v = c.eval(t.a[1], m)
		} else {
			v = c.eval(t.a[2], m)
		}
	case opEq:
		v = b2u(c.eval(t.a[0], m) == c.eval(t.a[1], m))
	default:
		var buf [2]uint64
		for i, x := range t.a {
			buf[i] = c.eval(x, m)
		}
		v = evalOp(t.op, t.w, t.a[0].w, t.k, buf[:len(t.a)])
	}
	t.evalGen = c.gen
	t.evalVal = v
	return v
}

type model map[int32]uint64

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case opConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case opVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case opExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, t.a[0].ref())
	case opZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	case opSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, x := range t.a {
			sb.WriteString(" " + x.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}
