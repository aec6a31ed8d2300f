package main

// SSA interpreter: functions of the target program are compiled to closures over register frames.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/meilihao/water"
const harnessPath = modPath + "/zzverif"

// program is shared (read-only) by all workers.
type program struct {
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	harness *ssa.Package
	rtErr   types.Type // runtime.errorString
}

type undoEnt struct {
	p   *value
	old value
	f   func()
}

type gref struct {
	addr *value
	pkg  *pkgState
	name string
}

type pkgState struct {
	pkg   *ssa.Package
	state uint8 // 0 not initialised, 1 running/done
}

type interp struct {
	P        *program
	tc       *TermCtx
	w        *worker
	path     *path
	depth    int
	funcsRun map[string]int
	funcGen  int
	uniq     map[string]*value
	fns      map[*ssa.Function]*cfn
	fnsReal  map[*ssa.Function]*cfn
	globals  map[*ssa.Global]*gref
	pkgs     map[*ssa.Package]*pkgState
	types    typeutil.Map
	methods  map[methodKey]*ssa.Function
	impl     map[[2]types.Type]bool
	log      []undoEnt
	logging  bool
	initing  int
	initErrs []string
	spec     bool // speculative evaluation of a merge region
	top      *frame
	native   map[string]any // per-path native state (vfs, pools...)
	tier     string
	fset     *token.FileSet
	noMerge  bool
	loadW    uint8
	cleanup  []func()
	memo     map[string]value
}

type methodKey struct {
	t types.Type
	m *types.Func
}

type specFail struct{ why string }

func newInterp(P *program, w *worker) *interp {
	in := &interp{P: P, tc: w.tc, w: w, funcsRun: map[string]int{}, fns: map[*ssa.Function]*cfn{}, funcGen: 1, fnsReal: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*gref{},
		pkgs: map[*ssa.Package]*pkgState{}, methods: map[methodKey]*ssa.Function{}, impl: map[[2]types.Type]bool{}, native: map[string]any{}, memo: map[string]value{}}
	in.types.SetHasher(typeutil.MakeHasher())
	in.fset = P.prog.Fset
	return in
}

func (in *interp) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if c := in.types.At(t); c != nil {
		return c.(types.Type)
	}
	in.types.Set(t, t)
	return t
}

func (in *interp) unsupported(f string, a ...any) {
	panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf(f, a...) + " @ " + in.where()})
}

func (in *interp) where() string {
	var l []string
	for fr := in.top; fr != nil && len(l) < 6; fr = fr.caller {
		l = append(l, fr.fn.name)
	}
	return strings.Join(l, " < ")
}

func (in *interp) panicString(v value) string {
	i, ok := v.(iface)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return fmt.Sprintf("%s(%s)", i.t, s)
	}
	// errors: run Error()
	var out string
	func() {
		defer func() { recover() }()
		if f := in.lookupMethod(i.t, nil, "Error"); f != nil {
			r := in.callSSA(f, []value{i.v})
			out = in.showConcrete(r, in.path.m)
		}
	}()
	if out == "" {
		out = in.showConcrete(i.v, in.path.m)
	}
	return fmt.Sprintf("%s(%s)", i.t, out)
}

func (in *interp) runtimePanic(msg string) {
	if in.spec {
		panic(specFail{msg})
	}
	panic(targetPanic{iface{t: in.canon(in.P.rtErr), v: msg}})
}

// --- memory

func (in *interp) store(p *value, v value) {
	switch old := (*p).(type) {
	case structV:
		if n, ok := v.(structV); ok {
			if len(n) != len(old) {
				in.unsupported("store: struct layouts differ")
			}
			for i := range old {
				in.store(&old[i], n[i])
			}
			return
		}
	case arrayV:
		if n, ok := v.(arrayV); ok {
			for i := range old {
				in.store(&old[i], n[i])
			}
			return
		}
	}
	if in.logging {
		in.log = append(in.log, undoEnt{p: p, old: *p})
	}
	if in.path != nil && in.path.frame != nil {
		in.path.frame.onStore(in, p)
	}
	*p = v
}

func (in *interp) undo(f func()) {
	if in.logging {
		in.log = append(in.log, undoEnt{f: f})
	}
}

func (in *interp) rollback() {
	in.logging = false
	in.spec = false
	for i := len(in.log) - 1; i >= 0; i-- {
		e := &in.log[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
		*e = undoEnt{}
	}
	in.log = in.log[:0]
	if cap(in.log) > 1<<20 {
		in.log = nil
	}
	in.native = map[string]any{}
	in.depth = 0
	in.top = nil
	in.initing = 0
}

func (in *interp) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		v := *p
		switch v.(type) {
		case structV, arrayV:
			return copyVal(v)
		case nil:
			in.unsupported("use of a value whose initialiser could not be executed")
		}
		return v
	case *symPtr:
		return in.selectIdx(p.a, p.idx)
	case *dataPtr:
		if p.s != nil {
			return p.s[:1][0]
		}
		return strAt(p.str, 0)
	}
	in.unsupported("load through %T", p)
	return nil
}

func (in *interp) storeTo(p value, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if in.spec {
			panic(specFail{"store"})
		}
		in.store(p, v)
		return
	case *symPtr:
		i := in.concInt(p.idx)
		in.store(&p.a[i], v)
		return
	case *dataPtr:
		if p.s != nil {
			in.store(&p.s[:1][0], v)
			return
		}
	}
	in.unsupported("store through %T", p)
}

// selectIdx reads a[idx] for a symbolic in-bounds idx.
func (in *interp) selectIdx(a []value, idx *Term) value {
	tc := in.tc
	simple := len(a) <= 1024
	if simple {
		for _, x := range a {
			switch x.(type) {
			case uint64, bool, *Term:
			default:
				simple = false
			}
			if !simple {
				break
			}
		}
	}
	if !simple {
		return copyVal(a[in.concInt(idx)])
	}
	w := uint8(255)
	for _, x := range a {
		switch x := x.(type) {
		case bool:
			w = 0
		case *Term:
			w = x.w
		}
	}
	if w == 0 {
		// boolean table: disjunction of index ranges
		var or []*Term
		n := len(a)
		if mx := mask(idx.w); uint64(n) > mx {
			n = int(mx) + 1
		}
		for i := 0; i < n; {
			switch x := a[i].(type) {
			case *Term:
				or = append(or, tc.And(tc.Eq(idx, tc.Const(uint64(i), idx.w)), x))
				i++
			case bool:
				if !x {
					i++
					continue
				}
				j := i
				for j < n {
					if b, ok := a[j].(bool); !ok || !b {
						break
					}
					j++
				}
				or = append(or, in.rangeTerm(idx, i, j-1))
				i = j
			}
		}
		return in.boolVal(tc.Or(or...))
	}
	// integer table: ITE over runs of equal values. Width: unknown from the values alone; use 64 and let
	// the caller's static type truncate.
	ew := in.elemW(a, w)
	type run struct {
		lo, hi int
		v      value
	}
	var runs []run
	for i := 0; i < len(a); {
		j := i + 1
		for j < len(a) && a[j] == a[i] {
			j++
		}
		runs = append(runs, run{i, j - 1, a[i]})
		i = j
	}
	if len(runs) > 300 {
		return a[in.concInt(idx)]
	}
	// group by value
	byV := map[value][]*Term{}
	var order []value
	for _, r := range runs {
		if _, ok := byV[r.v]; !ok {
			order = append(order, r.v)
		}
		byV[r.v] = append(byV[r.v], in.rangeTerm(idx, r.lo, r.hi))
	}
	// most frequent (by runs) value is the default
	def := order[0]
	for _, v := range order {
		if len(byV[v]) > len(byV[def]) {
			def = v
		}
	}
	res := in.termOf(def, ew)
	for _, v := range order {
		if v == def {
			continue
		}
		res = tc.Ite(tc.Or(byV[v]...), in.termOf(v, ew), res)
	}
	return in.intVal(res)
}

// elemW: width of table elements; w from a symbolic element, or recorded by the load instruction.
func (in *interp) elemW(a []value, w uint8) uint8 {
	if w != 255 {
		return w
	}
	if in.loadW != 0 {
		return in.loadW
	}
	in.unsupported("table element width unknown")
	return 0
}

func (in *interp) rangeTerm(idx *Term, lo, hi int) *Term {
	tc := in.tc
	if lo == hi {
		if uint64(lo) > mask(idx.w) {
			return tc.False
		}
		return tc.Eq(idx, tc.Const(uint64(lo), idx.w))
	}
	if uint64(lo) > mask(idx.w) {
		return tc.False
	}
	h := uint64(hi)
	if h > mask(idx.w) {
		h = mask(idx.w)
	}
	return tc.And(tc.cmp(opUle, tc.Const(uint64(lo), idx.w), idx), tc.cmp(opUle, idx, tc.Const(h, idx.w)))
}

// --- scalars

func (in *interp) termOf(v value, w uint8) *Term {
	switch v := v.(type) {
	case *Term:
		if v.w != w {
			panic(fmt.Sprintf("termOf width %d want %d @ %s", v.w, w, in.where()))
		}
		return v
	case uint64:
		return in.tc.Const(v, w)
	case bool:
		return in.tc.Bool(v)
	}
	panic(fmt.Sprintf("termOf %T", v))
}

func (in *interp) intVal(t *Term) value {
	if t.isConst() {
		return t.k
	}
	return t
}

func (in *interp) boolVal(t *Term) value {
	if t.isConst() {
		return t.k == 1
	}
	return t
}

// truth decides a boolean value.
func (in *interp) truth(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return in.decide(v)
	}
	panic(fmt.Sprintf("truth %T @ %s", v, in.where()))
}

func (in *interp) decide(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	if in.spec {
		if in.path.pcSet[t.id] {
			return true
		}
		if in.path.pcSet[in.tc.Not(t).id] {
			return false
		}
		panic(specFail{"decide"})
	}
	return in.path.decide(t)
}

func (in *interp) concInt(v value) int { return int(int64(in.concU(v))) }

func (in *interp) concU(v value) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		if v.isConst() {
			return v.k
		}
		if in.spec {
			panic(specFail{"concretise"})
		}
		return in.path.concretise(v)
	}
	panic(fmt.Sprintf("concU %T @ %s", v, in.where()))
}

// --- package initialisation

func (in *interp) pkgOf(p *ssa.Package) *pkgState {
	s := in.pkgs[p]
	if s == nil {
		s = &pkgState{pkg: p}
		in.pkgs[p] = s
	}
	return s
}

func (in *interp) global(g *ssa.Global) *gref {
	r := in.globals[g]
	if r == nil {
		r = &gref{addr: new(value), name: g.String()}
		*r.addr = zero(deref(g.Type()))
		if g.Pkg != nil {
			r.pkg = in.pkgOf(g.Pkg)
		}
		in.globals[g] = r
	}
	return r
}

func (in *interp) ensureInit(ps *pkgState) {
	if ps == nil || ps.state != 0 {
		return
	}
	ps.state = 1
	f := ps.pkg.Func("init")
	if f == nil {
		return
	}
	if _, skip := skipInit[ps.pkg.Pkg.Path()]; skip {
		if ps.pkg.Pkg.Path() == jsoniterPath {
			in.jsonGlobals(ps.pkg)
		}
		return
	}
	savedLog, savedSpec, savedTop, savedDepth := in.logging, in.spec, in.top, in.depth
	var savedFrame *frameMon
	if in.path != nil {
		savedFrame = in.path.frame
		in.path.frame = nil
	}
	in.logging, in.spec = false, false
	in.initing++
	in.runInit(f)
	in.initing--
	in.logging, in.spec, in.top, in.depth = savedLog, savedSpec, savedTop, savedDepth
	if in.path != nil {
		in.path.frame = savedFrame
	}
}

// runInit executes a package initialiser; instructions that cannot be executed leave poison values behind.
func (in *interp) runInit(f *ssa.Function) {
	c := &cfn{fn: f, name: fnName(f)}
	in.compileBody(c)
	fr := &frame{in: in, fn: c, regs: make([]value, c.nregs), caller: nil}
	fr.blk = c.blocks[0]
	in.top = fr
	fr.tolerant = true
	defer func() {
		if r := recover(); r != nil {
			in.initErrs = append(in.initErrs, fmt.Sprintf("init %s: %v", f.Pkg.Pkg.Path(), r))
		}
	}()
	in.loop(fr)
}

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "reflect": true, "os/signal": true, "internal/godebug": true, "crypto/internal/fips140/check": true, "github.com/json-iterator/go": true, "github.com/modern-go/reflect2": true}

// --- compiled functions

type opnd struct {
	k uint8 // 0 register, 1 constant, 2 global
	i int
	c value
	g *gref
}

type phiMove struct {
	dst int
	src opnd
}

const (
	tJump = iota
	tIf
	tReturn
	tPanic
)

type cblock struct {
	idx    int
	rpo    int
	code   []func(fr *frame)
	term   int
	cond   opnd
	succ   [2]*cblock
	phis   [2][]phiMove
	phiT   []phiInfo // phis of this block
	ret    []opnd
	pure   bool
	header bool // target of a back edge
	src    *ssa.BasicBlock
}

type phiInfo struct {
	reg int
	w   uint8 // merge width; 255: only identical values can be merged
}

type cfn struct {
	fn        *ssa.Function
	name      string
	nregs     int
	nparams   int
	blocks    []*cblock
	hasDefer  bool
	recoverB  *cblock
	intrinsic func(in *interp, fr *frame, args []value) value
	body      bool
	pureFn    bool // whole body is pure and acyclic: results can be merged
	retW      []uint8
	permMaps  bool
	counted   int
	water     bool
}

type frame struct {
	in        *interp
	fn        *cfn
	regs      []value
	blk       *cblock
	caller    *frame
	defers    []deferred
	result    value
	panicking bool
	panicV    any
	isDefer   bool
	tolerant  bool
	done      bool
	idx       int // instruction index (tolerant frames)
	phiTmp    []value
}

type deferred struct {
	fn   value
	args []value
}

func (fr *frame) get(o *opnd) value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.c
	}
	if o.g.pkg != nil && o.g.pkg.state == 0 {
		fr.in.ensureInit(o.g.pkg)
	}
	return o.g.addr
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (in *interp) compiled(f *ssa.Function) *cfn {
	c := in.fns[f]
	if c == nil {
		c = &cfn{fn: f, name: fnName(f)}
		in.fns[f] = c
		c.intrinsic = intrinsics[c.name]
		if c.intrinsic == nil {
			if p := f.Pkg; p != nil {
				c.intrinsic = pkgIntrinsic(p.Pkg.Path(), c.name, f)
			} else if o := f.Origin(); o != nil && o.Pkg != nil {
				c.intrinsic = pkgIntrinsic(o.Pkg.Pkg.Path(), c.name, f)
			}
		}
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if f.Parent() != nil && pk == nil {
			pk = f.Parent().Pkg
		}
		if pk != nil {
			pp := pk.Pkg.Path()
			c.water = strings.HasPrefix(pp, modPath) && pp != harnessPath
			c.permMaps = c.water
		}
	}
	if c.body || c.intrinsic != nil {
		return c
	}
	in.compileBody(c)
	return c
}

type compiler struct {
	in   *interp
	c    *cfn
	regs map[ssa.Value]int
}

func (k *compiler) op(v ssa.Value) opnd {
	in := k.in
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, c: constValue(v)}
	case *ssa.Global:
		return opnd{k: 2, g: in.global(v)}
	case *ssa.Function:
		return opnd{k: 1, c: v}
	case *ssa.Builtin:
		return opnd{k: 1, c: v}
	}
	r, ok := k.regs[v]
	if !ok {
		r = len(k.regs)
		k.regs[v] = r
	}
	return opnd{k: 0, i: r}
}

func (k *compiler) reg(v ssa.Value) int {
	o := k.op(v)
	return o.i
}

func (in *interp) compileBody(c *cfn) {
	f := c.fn
	c.body = true
	k := &compiler{in: in, c: c, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		k.reg(p)
	}
	for _, p := range f.FreeVars {
		k.reg(p)
	}
	c.nparams = len(f.Params)
	if len(f.Blocks) == 0 {
		c.nregs = len(k.regs)
		return
	}
	bl := make([]*cblock, len(f.Blocks))
	for i, b := range f.Blocks {
		bl[i] = &cblock{idx: i, src: b}
	}
	// reverse post order
	seen := make([]bool, len(bl))
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := range f.Blocks {
		if !seen[i] {
			dfs(f.Blocks[i])
		}
	}
	for i, b := range post {
		bl[b.Index].rpo = len(post) - i
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if bl[s.Index].rpo <= bl[b.Index].rpo {
				bl[s.Index].header = true
			}
		}
	}
	allPure := f.Recover == nil
	for i, b := range f.Blocks {
		cb := bl[i]
		cb.pure = true
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				w := uint8(255)
				if isBool(ins.Type()) {
					w = 0
				} else if ii, ok := intOf(ins.Type()); ok && ii.w <= 32 {
					w = ii.w
				}
				cb.phiT = append(cb.phiT, phiInfo{reg: k.reg(ins), w: w})
			case *ssa.DebugRef:
			case *ssa.If:
				cb.term = tIf
				cb.cond = k.op(ins.Cond)
			case *ssa.Jump:
				cb.term = tJump
			case *ssa.Return:
				cb.term = tReturn
				for _, r := range ins.Results {
					cb.ret = append(cb.ret, k.op(r))
				}
			case *ssa.Panic:
				cb.term = tPanic
				cb.cond = k.op(ins.X)
				cb.pure = false
			default:
				if _, ok := ins.(*ssa.Defer); ok {
					c.hasDefer = true
				}
				cb.code = append(cb.code, k.instr(ins))
				if !pureInstr(ins) {
					cb.pure = false
				}
			}
		}
		if !cb.pure || cb.header {
			allPure = false
		}
		for j, s := range b.Succs {
			cb.succ[j] = bl[s.Index]
			pi := 0
			// index of this edge among s.Preds (an If may have both edges to s)
			cnt := 0
			for x, p := range s.Preds {
				if p == b {
					if cnt == 0 || (j == 1 && b.Succs[0] == s) {
						pi = x
					}
					cnt++
				}
			}
			for _, ins := range s.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				cb.phis[j] = append(cb.phis[j], phiMove{k.reg(ph), k.op(ph.Edges[pi])})
			}
		}
	}
	c.blocks = bl
	if f.Recover != nil {
		c.recoverB = bl[f.Recover.Index]
	}
	c.nregs = len(k.regs)
	res := f.Signature.Results()
	c.pureFn = allPure && len(bl) <= 40 && res.Len() > 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		w := uint8(255)
		if isBool(t) {
			w = 0
		} else if ii, ok := intOf(t); ok {
			w = ii.w
		}
		c.retW = append(c.retW, w)
	}
}

func pureInstr(ins ssa.Instruction) bool {
	switch ins := ins.(type) {
	case *ssa.BinOp:
		if ins.Op == token.QUO || ins.Op == token.REM {
			_, ok := ins.Y.(*ssa.Const)
			return ok && !isFloat(ins.X.Type())
		}
		if ins.Op == token.ADD && isString(ins.X.Type()) {
			return false
		}
		return true
	case *ssa.UnOp:
		return ins.Op != token.ARROW
	case *ssa.Convert:
		_, a := intOf(ins.X.Type())
		_, b := intOf(ins.Type())
		return a && b
	case *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
		return true
	case *ssa.Lookup:
		return isString(ins.X.Type())
	case *ssa.Call:
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if f := ins.Call.StaticCallee(); f != nil {
			// decided when executed: only pure functions survive speculation
			return len(f.Blocks) > 0 && len(f.Blocks) <= 40
		}
	}
	return false
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if t, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case t.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case t.Info()&types.IsInteger != 0:
			ii, ok := basicInfo[t.Kind()]
			if !ok {
				ii = intInfo{64, true}
			}
			if ii.signed {
				return uint64(c.Int64()) & mask(ii.w)
			}
			return c.Uint64() & mask(ii.w)
		case t.Info()&types.IsFloat != 0:
			f := c.Float64()
			if t.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case t.Info()&types.IsComplex != 0:
			return c.Complex128()
		case t.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(fmt.Sprintf("constValue: %s", c))
}

// --- execution

func (in *interp) callSSA(f *ssa.Function, args []value) value {
	return in.callFn(in.compiled(f), args, nil, in.top)
}

// call invokes a function value.
func (in *interp) call(fv value, args []value, caller *frame) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(in.compiled(f), args, nil, caller)
	case *closure:
		return in.callFn(in.compiled(f.fn), args, f.env, caller)
	case *nativeFn:
		return f.f(in, args)
	case *ssa.Builtin:
		return in.builtin(f, args, caller, nil)
	}
	panic(fmt.Sprintf("call of %T @ %s", fv, in.where()))
}

const maxDepth = 4000

func (in *interp) callFn(c *cfn, args []value, env []value, caller *frame) value {
	if c.intrinsic != nil {
		if in.spec && !specOK[c.name] {
			panic(specFail{"intrinsic " + c.name})
		}
		return c.intrinsic(in, caller, args)
	}
	if len(c.blocks) == 0 {
		if c.fn.Pkg != nil { // assembly with a portable twin
			if g := c.fn.Pkg.Func(c.fn.Name() + "Generic"); g != nil && types.Identical(g.Signature, c.fn.Signature) {
				return in.callFn(in.compiled(g), args, env, caller)
			}
		}
		in.unsupported("no body: %s", c.name)
	}
	if c.pureFn && in.initing == 0 && !in.noMerge {
		sym := in.spec
		if !sym {
			for _, a := range args {
				if _, ok := a.(*Term); ok {
					sym = true
					break
				}
			}
		}
		if sym {
			if r, ok := in.mergedCall(c, args, env, caller); ok {
				c.count(in)
				return r
			}
		}
	}
	if in.spec {
		panic(specFail{"call"})
	}
	c.count(in)
	fr := &frame{in: in, fn: c, regs: make([]value, c.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	in.depth++
	if in.depth > maxDepth {
		panic(pathEnd{kind: "limit", msg: "call depth limit (stack overflow?) in " + c.name})
	}
	saved := in.top
	in.top = fr
	fr.blk = c.blocks[0]
	if !c.hasDefer {
		in.loop(fr)
	} else {
		in.execDefer(fr)
	}
	in.top = saved
	in.depth--
	return fr.result
}

func (c *cfn) count(in *interp) {
	if c.counted != in.funcGen && in.initing == 0 {
		c.counted = in.funcGen
		in.funcsRun[c.fn.String()]++
	}
}

func (in *interp) execDefer(fr *frame) {
	depth := in.depth
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(targetPanic); !ok {
				panic(r)
			}
			in.depth = depth
			in.top = fr
			fr.panicking = true
			fr.panicV = r
			in.runDefers(fr)
			// recovered
			fr.blk = nil
		}()
		in.loop(fr)
	}()
	if fr.done {
		return
	}
	if fr.fn.recoverB != nil {
		fr.blk = fr.fn.recoverB
		in.loop(fr)
	} else {
		fr.result = zeroResult(fr.fn.fn.Signature)
	}
}

func zeroResult(sig *types.Signature) value {
	switch sig.Results().Len() {
	case 0:
		return nil
	default:
		return zero(sig.Results())
	}
}

func (in *interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (in *interp) runDefer(fr *frame, d deferred) {
	ok := false
	depth := in.depth
	defer func() {
		if ok {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, is := r.(targetPanic); !is {
			panic(r)
		}
		in.depth = depth
		in.top = fr
		fr.panicking = true
		fr.panicV = r
	}()
	in.call(d.fn, d.args, fr)
	ok = true
}

// loop runs a frame until it returns.
func (in *interp) loop(fr *frame) {
	for {
		b := fr.blk
		if in.initing == 0 {
			p := in.path
			p.steps += int64(len(b.code)) + 1
			if p.steps > p.limit {
				panic(pathEnd{kind: "limit", msg: "step limit in " + fr.fn.name})
			}
		}
		if fr.tolerant {
			in.tolerantBlock(fr, b)
		} else {
			for _, f := range b.code {
				f(fr)
			}
		}
		switch b.term {
		case tJump:
			in.edge(fr, b, 0)
		case tIf:
			switch c := fr.get(&b.cond).(type) {
			case bool:
				if c {
					in.edge(fr, b, 0)
				} else {
					in.edge(fr, b, 1)
				}
			case *Term:
				in.branch(fr, b, c)
			default:
				if fr.tolerant {
					in.edge(fr, b, 1)
					continue
				}
				panic(fmt.Sprintf("if on %T @ %s", c, in.where()))
			}
		case tReturn:
			switch len(b.ret) {
			case 0:
			case 1:
				fr.result = fr.get(&b.ret[0])
			default:
				t := make(tuple, len(b.ret))
				for i := range b.ret {
					t[i] = fr.get(&b.ret[i])
				}
				fr.result = t
			}
			fr.done = true
			return
		case tPanic:
			panic(targetPanic{fr.get(&b.cond)})
		}
	}
}

func (in *interp) tolerantBlock(fr *frame, b *cblock) {
	for i := 0; i < len(b.code); i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					in.initErrs = append(in.initErrs, fmt.Sprintf("%s: %v", fr.fn.name, r))
					in.top = fr
				}
			}()
			b.code[i](fr)
		}()
	}
}

// edge moves along b.succ[i], evaluating phis.
func (in *interp) edge(fr *frame, b *cblock, i int) {
	ph := b.phis[i]
	switch len(ph) {
	case 0:
	case 1:
		fr.regs[ph[0].dst] = fr.get(&ph[0].src)
	default:
		if cap(fr.phiTmp) < len(ph) {
			fr.phiTmp = make([]value, len(ph))
		}
		tmp := fr.phiTmp[:len(ph)]
		for j := range ph {
			tmp[j] = fr.get(&ph[j].src)
		}
		for j := range ph {
			fr.regs[ph[j].dst] = tmp[j]
		}
	}
	fr.blk = b.succ[i]
}

// --- region merging

type redge struct {
	to   *cblock
	cond *Term
	phi  []value
}

func (in *interp) mkEdge(fr *frame, b *cblock, i int, cond *Term) redge {
	e := redge{to: b.succ[i], cond: cond}
	for j := range b.phis[i] {
		e.phi = append(e.phi, fr.get(&b.phis[i][j].src))
	}
	return e
}

func sameVal(a, b value) (r bool) {
	switch x := a.(type) {
	case uint64, bool, string, *value, *Term, float64, *mapV, *ssa.Function, *closure:
		return a == b
	case iface:
		y, ok := b.(iface)
		return ok && x.t == y.t && (x.t == nil || sameVal(x.v, y.v))
	case []value:
		y, ok := b.([]value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) || (x == nil) != (y == nil) {
			return false
		}
		return cap(x) == 0 || &x[:1][0] == &y[:1][0]
	case symStr:
		y, ok := b.(symStr)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	}
	return false
}

// mergeable: the phi values of two edges into the same block can be combined.
func mergeable(t *cblock, a, b redge) bool {
	for i := range t.phiT {
		if sameVal(a.phi[i], b.phi[i]) {
			continue
		}
		if t.phiT[i].w == 255 || !scalar(a.phi[i]) || !scalar(b.phi[i]) {
			return false
		}
	}
	return true
}

func scalar(v value) bool {
	switch v.(type) {
	case uint64, bool, *Term:
		return true
	}
	return false
}

// combine merges edges (all to the same block, pairwise mergeable).
func (in *interp) combine(es []redge) redge {
	r := es[0]
	if len(es) == 1 {
		return r
	}
	phi := append([]value(nil), r.phi...)
	conds := []*Term{r.cond}
	for _, e := range es[1:] {
		for i := range phi {
			if !sameVal(phi[i], e.phi[i]) {
				w := r.to.phiT[i].w
				t := in.tc.Ite(e.cond, in.termOf(e.phi[i], w), in.termOf(phi[i], w))
				if w == 0 {
					phi[i] = in.boolVal(t)
				} else {
					phi[i] = in.intVal(t)
				}
			}
		}
		conds = append(conds, e.cond)
	}
	return redge{to: r.to, cond: in.tc.Or(conds...), phi: phi}
}

type retEdge struct {
	cond *Term
	v    []value
}

// region evaluates pure blocks from the pending edges; it returns the exits (grouped) and returns.
func (in *interp) region(fr *frame, pending []redge, whole bool) (exits [][]redge, rets []retEdge) {
	tc := in.tc
	budget := 24
	if whole {
		budget = 64
	}
	notPure := map[*cblock]bool{}
	addExit := func(es []redge) {
		for _, e := range es {
			done := false
			for gi := range exits {
				g := exits[gi]
				if g[0].to != e.to {
					continue
				}
				ok := true
				for _, x := range g {
					if !mergeable(e.to, x, e) {
						ok = false
					}
				}
				if ok {
					exits[gi] = append(g, e)
					done = true
					break
				}
			}
			if !done {
				exits = append(exits, []redge{e})
			}
		}
	}
	for len(pending) > 0 {
		// smallest rpo target
		t := pending[0].to
		one := true
		for _, e := range pending[1:] {
			if e.to != t {
				one = false
			}
			if e.to.rpo < t.rpo {
				t = e.to
			}
		}
		var es, rest []redge
		for _, e := range pending {
			if e.to == t {
				es = append(es, e)
			} else {
				rest = append(rest, e)
			}
		}
		pending = rest
		ok := t.pure && !t.header && budget > 0 && !notPure[t]
		if !whole {
			if t.term == tReturn || (one && len(exits) == 0) {
				ok = false
			}
		}
		if ok {
			for i := 1; i < len(es) && ok; i++ {
				for j := 0; j < i; j++ {
					if !mergeable(t, es[i], es[j]) {
						ok = false
					}
				}
			}
		}
		if ok {
			budget--
			e := in.combine(es)
			ok = in.specBlock(fr, t, e)
			if ok {
				var next []redge
				switch t.term {
				case tReturn:
					v := make([]value, len(t.ret))
					for i := range t.ret {
						v[i] = fr.get(&t.ret[i])
					}
					rets = append(rets, retEdge{e.cond, v})
				case tJump:
					next = append(next, in.mkEdge(fr, t, 0, e.cond))
				case tIf:
					switch c := fr.get(&t.cond).(type) {
					case bool:
						if c {
							next = append(next, in.mkEdge(fr, t, 0, e.cond))
						} else {
							next = append(next, in.mkEdge(fr, t, 1, e.cond))
						}
					case *Term:
						next = append(next, in.mkEdge(fr, t, 0, tc.And(e.cond, c)), in.mkEdge(fr, t, 1, tc.And(e.cond, tc.Not(c))))
					}
				}
				for _, n := range next {
					if n.cond == tc.False {
						continue
					}
					if n.to.rpo <= t.rpo {
						addExit([]redge{n})
					} else {
						pending = append(pending, n)
					}
				}
				continue
			}
		}
		addExit(es)
	}
	return
}

func (in *interp) specBlock(fr *frame, b *cblock, e redge) (ok bool) {
	for i := range b.phiT {
		fr.regs[b.phiT[i].reg] = e.phi[i]
	}
	if len(b.code) == 0 {
		return true
	}
	saved, top, depth, lw := in.spec, in.top, in.depth, in.loadW
	in.spec = true
	defer func() {
		in.spec = saved
		if !ok {
			r := recover()
			in.top, in.depth, in.loadW = top, depth, lw
			switch r.(type) {
			case specFail:
			default:
				panic(r)
			}
		}
	}()
	for _, f := range b.code {
		f(fr)
	}
	ok = true
	return
}

// branch decides a symbolic If, merging pure side-effect-free regions first.
func (in *interp) branch(fr *frame, b *cblock, c *Term) {
	p := in.path
	if in.spec {
		panic(specFail{"branch"})
	}
	if p.pcSet[c.id] {
		in.edge(fr, b, 0)
		return
	}
	nc := in.tc.Not(c)
	if p.pcSet[nc.id] {
		in.edge(fr, b, 1)
		return
	}
	if in.noMerge {
		if in.decide(c) {
			in.edge(fr, b, 0)
		} else {
			in.edge(fr, b, 1)
		}
		return
	}
	exits, _ := in.region(fr, []redge{in.mkEdge(fr, b, 0, c), in.mkEdge(fr, b, 1, nc)}, false)
	sort.SliceStable(exits, func(i, j int) bool { return exits[i][0].to.rpo < exits[j][0].to.rpo })
	for i, g := range exits {
		e := in.combine(g)
		if i == len(exits)-1 || in.decide(e.cond) {
			for j := range e.to.phiT {
				fr.regs[e.to.phiT[j].reg] = e.phi[j]
			}
			fr.blk = e.to
			return
		}
	}
}

// mergedCall evaluates a pure acyclic function without forking.
func (in *interp) mergedCall(c *cfn, args, env []value, caller *frame) (res value, ok bool) {
	fr := &frame{in: in, fn: c, regs: make([]value, c.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	if in.depth > maxDepth {
		return nil, false
	}
	in.depth++
	saved := in.top
	in.top = fr
	exits, rets := in.region(fr, []redge{{to: c.blocks[0], cond: in.tc.True}}, true)
	in.top = saved
	in.depth--
	if len(exits) > 0 || len(rets) == 0 {
		return nil, false
	}
	out := append([]value(nil), rets[0].v...)
	for _, r := range rets[1:] {
		for i := range out {
			if sameVal(out[i], r.v[i]) {
				continue
			}
			w := c.retW[i]
			if w == 255 || w > 32 || !scalar(out[i]) || !scalar(r.v[i]) {
				return nil, false
			}
			t := in.tc.Ite(r.cond, in.termOf(r.v[i], w), in.termOf(out[i], w))
			if w == 0 {
				out[i] = in.boolVal(t)
			} else {
				out[i] = in.intVal(t)
			}
		}
	}
	if len(out) == 1 {
		return out[0], true
	}
	return tuple(out), true
}
