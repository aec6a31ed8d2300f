package main

// Path exploration: re-execution with decision prefixes. Every branch on a symbolic condition is decided
// by the solver (or by the model of the current path condition, which is a solver answer).

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type decision struct {
	taken  bool
	forced bool   // other side infeasible: no constraint added
	val    uint64 // concretisation value, or chosen alternative
	kind   uint8  // 0 branch, 1 concretise, 2 choose
}

type workItem struct {
	dec []decision
	m   map[string]uint64 // model by variable name
}

type pathEnd struct {
	kind string // "assume", "limit", "unsupported", "violation", "done"
	msg  string
}

type input struct {
	name string
	kind string // byte,bool,int,uint64,int64,string,choose
	t    *Term
	v    uint64
	s    []value
}

type Violation struct {
	Msg    string           `json:"msg"`
	Inputs []map[string]any `json:"inputs"`
	Loc    string           `json:"loc"`
	Kind   string           `json:"kind"`
}

type PathResult struct {
	inputs  []map[string]any
	obs     []string
	kind    string
	reached map[string]bool
}

// Explorer is shared by the workers of one harness.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []workItem
	active   int
	stop     bool
	deadline time.Time

	paths      int
	ended      map[string]int // by kind
	incomplete map[string]int // reasons
	viol       []Violation
	known      map[string]Violation
	reached    map[string]int
	samples    []PathResult // for cross validation
	fallback   []PathResult // aborted paths
	nSamples   int
	maxSamples int
	rng        *rand.Rand
	funcs      map[string]int
	queries    int
	cacheHits  int
	solverTime time.Duration
	branches   int
	asserts    int
	assertQ    int
	instrs     int64
	maxDec     int
	unknowns   int
	timedOut   bool
	errs       []string
	bounds     map[string]string
}

func newExplorer(seed int64, budget time.Duration) *Explorer {
	e := &Explorer{ended: map[string]int{}, incomplete: map[string]int{}, reached: map[string]int{}, known: map[string]Violation{},
		rng: rand.New(rand.NewSource(seed)), funcs: map[string]int{}, maxSamples: 400, bounds: map[string]string{}}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(budget)
	e.stack = []workItem{{}}
	return e
}

func (e *Explorer) next() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			if !e.stop && (len(e.stack) > 0) {
				e.timedOut = true
			}
			e.stop = true
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.stack); n > 0 {
			if n > 2 && e.rng.Intn(4) == 0 {
				// mostly depth first, but visit distant parts of the space early in case time runs out
				k := e.rng.Intn(n)
				e.stack[k], e.stack[n-1] = e.stack[n-1], e.stack[k]
			}
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) doneOne() {
	e.mu.Lock()
	e.active--
	e.mu.Unlock()
	e.cond.Broadcast()
}

// path is the state of one execution.
type path struct {
	calm     int // map iterations take one order
	sched    *sched
	w        *worker
	prefix   []decision
	dec      []decision
	pc       []*Term
	pcSet    map[int]bool
	m        model
	inputs   []input
	nvar     map[string]int
	obs      []string
	obsV     []obsRec
	reached  map[string]bool
	steps    int64
	limit    int64
	frame    *frameMon
	frameOld *frameMon
}

type obsRec struct {
	label string
	v     value
	t     string
}

func (p *path) inPrefix() bool { return len(p.dec) < len(p.prefix) }

// slice returns the constraints of pc connected to t's variables, plus t.
func (p *path) slice(t *Term) []*Term {
	vs := map[int32]bool{}
	for _, v := range t.vars {
		vs[v] = true
	}
	used := make([]bool, len(p.pc))
	var l []*Term
	for ch := true; ch; {
		ch = false
		for i, c := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				l = append(l, c)
				for _, v := range c.vars {
					vs[v] = true
				}
			}
		}
	}
	l = append(l, t)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// feasible decides pc ∧ t.
func (p *path) feasible(t *Term) (satRes, model) {
	tc := p.w.tc
	if t == tc.False {
		return unsat, nil
	}
	if t == tc.True {
		return sat, p.m
	}
	res, m := p.w.solver.Check(p.slice(t))
	if res != sat {
		return res, nil
	}
	full := make(model, len(p.m)+len(m))
	for k, v := range p.m {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	if os.Getenv("GOSYM_PARANOID") != "" {
		for _, c := range p.pc {
			if tc.Eval(c, full) != 1 {
				panic("model does not satisfy path condition")
			}
		}
		if tc.Eval(t, full) != 1 {
			panic("model does not satisfy query")
		}
	}
	return sat, full
}

func (p *path) addPC(t *Term) {
	tc := p.w.tc
	if t == tc.True || p.pcSet[t.id] {
		return
	}
	if t.op == opAnd {
		for _, x := range t.a {
			p.addPC(x)
		}
		return
	}
	p.pcSet[t.id] = true
	p.pc = append(p.pc, t)
}

func (p *path) named(m model) map[string]uint64 {
	r := make(map[string]uint64, len(m))
	for k, v := range m {
		r[p.w.tc.names[k]] = v
	}
	return r
}

func (p *path) pushAlt(d decision, m model) {
	nd := make([]decision, len(p.dec)+1)
	copy(nd, p.dec)
	nd[len(p.dec)] = d
	p.w.ex.push(workItem{dec: nd, m: p.named(m)})
}

// decide returns the truth of cond on this path, forking when both are possible.
func (p *path) decide(cond *Term) bool {
	tc := p.w.tc
	if cond.isConst() {
		return cond.k == 1
	}
	if p.pcSet[cond.id] {
		return true
	}
	neg := tc.Not(cond)
	if p.pcSet[neg.id] {
		return false
	}
	if p.inPrefix() {
		d := p.prefix[len(p.dec)]
		if d.kind != 0 {
			panic(fmt.Sprintf("replay mismatch: branch expected, have kind %d", d.kind))
		}
		p.dec = append(p.dec, d)
		if !d.forced {
			if d.taken {
				p.addPC(cond)
			} else {
				p.addPC(neg)
			}
		}
		return d.taken
	}
	p.w.branches++
	mv := tc.Eval(cond, p.m) == 1
	mine, other := cond, neg
	if !mv {
		mine, other = neg, cond
	}
	res, m2 := p.feasible(other)
	d := decision{taken: mv}
	switch res {
	case sat:
		p.pushAlt(decision{taken: !mv}, m2)
		p.addPC(mine)
	case unsat:
		d.forced = true
	default:
		p.w.note("solver unknown at a branch: other side not explored")
		p.addPC(mine)
	}
	p.dec = append(p.dec, d)
	return mv
}

// concretise forks over the feasible values of t.
func (p *path) concretise(t *Term) uint64 {
	tc := p.w.tc
	if t.isConst() {
		return t.k
	}
	if t.w == 0 {
		return b2u(p.decide(t))
	}
	for {
		if p.inPrefix() {
			d := p.prefix[len(p.dec)]
			if d.kind != 1 {
				panic("replay mismatch: concretisation expected")
			}
			p.dec = append(p.dec, d)
			eq := tc.Eq(t, tc.Const(d.val, t.w))
			if d.taken {
				if !d.forced {
					p.addPC(eq)
				}
				return d.val
			}
			p.addPC(tc.Not(eq))
			continue
		}
		p.w.branches++
		v := tc.Eval(t, p.m)
		eq := tc.Eq(t, tc.Const(v, t.w))
		d := decision{kind: 1, val: v, taken: true}
		if eq == tc.True {
			return v
		}
		res, m2 := p.feasible(tc.Not(eq))
		switch res {
		case sat:
			p.pushAlt(decision{kind: 1, val: v, taken: false}, m2)
			p.addPC(eq)
		case unsat:
			d.forced = true
		default:
			p.w.note("solver unknown at a concretisation")
			p.addPC(eq)
		}
		p.dec = append(p.dec, d)
		return v
	}
}

// choose picks one of n structural alternatives (all are explored).
func (p *path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.inPrefix() {
		d := p.prefix[len(p.dec)]
		if d.kind != 2 {
			panic("replay mismatch: choice expected")
		}
		p.dec = append(p.dec, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		p.pushAlt(decision{kind: 2, val: uint64(i)}, p.m)
	}
	p.dec = append(p.dec, decision{kind: 2, val: 0})
	return 0
}

func (p *path) assume(c value) {
	tc := p.w.tc
	t := p.w.boolTerm(c)
	if t == tc.True {
		return
	}
	if t == tc.False {
		panic(pathEnd{kind: "assume"})
	}
	if tc.Eval(t, p.m) == 1 {
		p.addPC(t)
		return
	}
	res, m := p.feasible(t)
	switch res {
	case sat:
		p.m = m
		p.addPC(t)
	case unsat:
		panic(pathEnd{kind: "assume"})
	default:
		panic(pathEnd{kind: "unknown", msg: "solver unknown at an assumption"})
	}
}

func (p *path) assert(c value, msg, loc string) {
	tc := p.w.tc
	t := p.w.boolTerm(c)
	p.w.asserts++
	if t == tc.True {
		return
	}
	if t == tc.False {
		p.violate(msg, loc, "assert", p.m)
		panic(pathEnd{kind: "violation"})
	}
	neg := tc.Not(t)
	if tc.Eval(t, p.m) == 0 {
		p.violate(msg, loc, "assert", p.m)
	} else if !p.inPrefix() {
		p.w.assertQ++
		res, m := p.feasible(neg)
		switch res {
		case sat:
			p.violate(msg, loc, "assert", m)
		case unknown:
			p.w.note("solver unknown at an assertion: " + msg)
		}
	}
	p.assume(t)
}

func (p *path) violate(msg, loc, kind string, m model) {
	v := Violation{Msg: msg, Loc: loc, Kind: kind, Inputs: p.vector(m)}
	e := p.w.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, x := range e.viol {
		if x.Msg == msg {
			n++
		}
	}
	if n < 4 && len(e.viol) < 40 {
		e.viol = append(e.viol, v)
	}
	if len(e.viol) >= 24 {
		e.stop = true
		e.cond.Broadcast()
	}
}

// vector concretises the inputs under m.
func (p *path) vector(m model) []map[string]any {
	tc := p.w.tc
	var r []map[string]any
	for _, in := range p.inputs {
		e := map[string]any{"n": in.name, "k": in.kind}
		switch in.kind {
		case "string":
			b := make([]int, len(in.s))
			for i, x := range in.s {
				if t, ok := x.(*Term); ok {
					b[i] = int(tc.Eval(t, m))
				} else {
					b[i] = int(x.(uint64))
				}
			}
			e["s"] = b
		default:
			v := in.v
			if in.t != nil {
				v = tc.Eval(in.t, m)
			}
			e["v"] = fmt.Sprint(v)
		}
		r = append(r, e)
	}
	return r
}

// worker: one interpreter, one solver process.
type worker struct {
	id       int
	ex       *Explorer
	tc       *TermCtx
	solver   *Solver
	in       *interp
	p        *path
	branches int
	asserts  int
	assertQ  int
	instrs   int64
	notes    map[string]int
}

func (w *worker) note(s string) { w.notes[s]++ }

func (w *worker) boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return w.tc.Bool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

func (w *worker) run(harness func(in *interp)) {
	for {
		it, ok := w.ex.next()
		if !ok {
			return
		}
		w.runPath(it, harness)
		w.ex.doneOne()
	}
}

func (w *worker) runPath(it workItem, harness func(in *interp)) {
	p := &path{w: w, prefix: it.dec, pcSet: map[int]bool{}, m: model{}, nvar: map[string]int{}, reached: map[string]bool{}, limit: stepLimit}
	for k, v := range it.m {
		// names carry "!width"
		i := strings.LastIndexByte(k, '!')
		var wd uint8
		fmt.Sscanf(k[i+1:], "%d", &wd)
		t := w.tc.Var(k[:i], wd)
		p.m[int32(t.k)] = v
	}
	w.p = p
	w.in.path = p
	w.in.depth = 0
	w.in.logging = true
	end := pathEnd{kind: "done"}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r
				case targetPanic:
					msg := "uncaught panic: " + w.in.panicString(r.v)
					end = pathEnd{kind: "panic", msg: msg}
				default:
					st := string(debug.Stack())
					end = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v @ %s", r, w.in.where())}
					if os.Getenv("GOSYM_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, end.msg, st)
					}
				}
			}
		}()
		harness(w.in)
	}()
	w.in.endGoroutines()
	if end.kind == "panic" {
		p.violate(end.msg, "", "panic", p.m)
	}
	w.in.rollback()
	e := w.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	e.paths++
	e.ended[end.kind]++
	e.instrs += p.steps
	if len(p.dec) > e.maxDec {
		e.maxDec = len(p.dec)
	}
	for k := range p.reached {
		e.reached[k]++
	}
	switch end.kind {
	case "done":
		e.nSamples++
		r := PathResult{kind: "done"}
		idx := len(e.samples)
		if idx >= e.maxSamples {
			idx = e.rng.Intn(e.nSamples)
		}
		if idx < e.maxSamples {
			r.inputs = p.vector(p.m)
			for _, o := range p.obsV {
				r.obs = append(r.obs, o.label+"="+w.in.showConcrete(o.v, p.m))
			}
			if idx == len(e.samples) {
				e.samples = append(e.samples, r)
			} else {
				e.samples[idx] = r
			}
		}
	case "limit", "unsupported", "unknown":
		e.incomplete[end.kind+": "+end.msg]++
		if len(e.fallback) < 2000 {
			e.fallback = append(e.fallback, PathResult{kind: end.kind, inputs: p.vector(p.m)})
		}
	}
}

func (w *worker) finish() {
	e := w.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	e.queries += w.solver.queries
	e.cacheHits += w.solver.cacheHits
	e.solverTime += w.solver.time
	e.unknowns += w.solver.unknowns
	e.branches += w.branches
	e.asserts += w.asserts
	e.assertQ += w.assertQ
	e.errs = append(e.errs, w.solver.errs...)
	for k, v := range w.notes {
		e.incomplete[k] += v
	}
	for f, n := range w.in.funcsRun {
		e.funcs[f] += n
	}
}

var stepLimit int64 = 3_000_000
