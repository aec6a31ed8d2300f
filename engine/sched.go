package main

// Goroutines, channels, select, wait groups and timers of the analysed program.
//
// A goroutine of the program is a coroutine: a goroutine of the engine that runs only while it holds the
// baton. Control passes at go statements and where a goroutine blocks, and which of the runnable goroutines
// continues is a decision of the path, so every order of the program's goroutines that differs at those
// points is explored. There is no preemption in between. Timers fire once nothing else can run.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type chanV struct {
	buf    []value
	cap    int
	closed bool
	elem   types.Type
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	sel *selState
	idx int
	v   value // to be sent
}

type selState struct {
	fired bool
	idx   int
	v     value
	ok    bool // for a send: the channel was not closed
}

type coro struct {
	wake  chan struct{}
	ready func() bool // nil: runnable
	done  bool
	top   *frame
	depth int
}

type sched struct {
	main   *coro
	cur    *coro
	all    []*coro
	kill   bool
	fail   any // a panic that left a goroutine: it ends the path
	timers []*timerV
}

type timerV struct {
	p    *value
	when uint64
	f    value
	arg  value
	on   bool
}

type coroKilled struct{}

const maxCoros = 64

func (in *interp) scheduler() *sched {
	p := in.path
	if p == nil || in.initing > 0 {
		in.unsupported("goroutine during initialisation")
	}
	if p.sched == nil {
		m := &coro{wake: make(chan struct{})}
		p.sched = &sched{main: m, cur: m, all: []*coro{m}}
	}
	return p.sched
}

// spawn starts a goroutine.
func (in *interp) spawn(fv value, args []value, mayWait bool) {
	s := in.scheduler()
	if len(s.all) >= maxCoros {
		in.unsupported("more than %d goroutines", maxCoros)
	}
	c := &coro{wake: make(chan struct{})}
	s.all = append(s.all, c)
	go func() {
		<-c.wake
		defer func() {
			c.done = true
			if r := recover(); r != nil {
				if t, ok := r.(targetPanic); ok {
					// no deferred function of another goroutine can recover it
					r = pathEnd{kind: "panic", msg: "uncaught panic in a goroutine: " + in.panicString(t.v)}
				}
				if _, ok := r.(coroKilled); !ok && s.fail == nil {
					s.fail = r
				}
			}
			if s.kill {
				c.wake <- struct{}{}
				return
			}
			n := s.main
			if s.fail == nil {
				func() {
					defer func() {
						if r := recover(); r != nil {
							s.fail = r
						}
					}()
					n = in.pickNext(s)
				}()
				if s.fail != nil {
					n = s.main
				}
			}
			s.cur = n
			n.wake <- struct{}{}
		}()
		if s.kill {
			return
		}
		in.top, in.depth = nil, 0
		in.call(fv, args, nil)
	}()
	if mayWait && in.path.choose(2) == 0 {
		in.switchTo(s, c)
	}
}

// pickNext chooses who runs when the current goroutine cannot.
func (in *interp) pickNext(s *sched) *coro {
	for {
		var l []*coro
		for _, c := range s.all {
			if !c.done && (c.ready == nil || c.ready()) && !(c == s.cur && c.ready == nil) {
				l = append(l, c)
			}
		}
		if len(l) > 0 {
			return l[in.path.choose(len(l))]
		}
		var t *timerV
		for _, x := range s.timers {
			if x.on && (t == nil || x.when < t.when) {
				t = x
			}
		}
		if t == nil {
			in.unsupported("every goroutine is blocked")
		}
		t.on = false
		if t.f == nil {
			continue // a sleeper
		}
		in.spawn(t.f, []value{t.arg, uint64(0), uint64(0)}, false)
	}
}

func (in *interp) switchTo(s *sched, n *coro) {
	me := s.cur
	if n == me {
		return
	}
	top, depth := in.top, in.depth
	s.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if s.kill {
		panic(coroKilled{})
	}
	in.top, in.depth = top, depth
	if me == s.main && s.fail != nil {
		r := s.fail
		s.fail = nil
		s.kill = true
		panic(r)
	}
}

// park blocks the current goroutine until ready holds.
func (in *interp) park(ready func() bool) {
	if in.spec {
		panic(specFail{"blocks"})
	}
	s := in.scheduler()
	me := s.cur
	me.ready = ready
	for !ready() {
		in.switchTo(s, in.pickNext(s))
	}
	me.ready = nil
}

// endGoroutines ends what is still running when the harness has returned.
func (in *interp) endGoroutines() {
	if in.path == nil || in.path.sched == nil {
		return
	}
	s := in.path.sched
	s.kill = true
	for _, c := range s.all {
		if c != s.main && !c.done {
			c.wake <- struct{}{}
			<-c.wake
		}
	}
}

// yield lets any runnable goroutine continue, this one included.
func (in *interp) yield() {
	if in.path == nil || in.path.sched == nil {
		return
	}
	s := in.path.sched
	me := s.cur
	me.ready = func() bool { return true }
	in.switchTo(s, in.pickNext(s))
	me.ready = nil
}

// sleep: durations order what wakes up; nothing wakes up while anything can run.
func (in *interp) sleep(d int64) {
	if in.path == nil || in.path.sched == nil || d <= 0 {
		in.yield()
		return
	}
	s := in.path.sched
	t := &timerV{when: uint64(d), on: true}
	s.timers = append(s.timers, t)
	in.park(func() bool { return !t.on })
}

func (in *interp) touch(c *chanV) {
	if in.logging && in.path != nil {
		old := *c
		old.buf = append([]value(nil), c.buf...)
		in.log = append(in.log, undoEnt{f: func() { *c = old; c.recvq, c.sendq = nil, nil }})
	}
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *chanV) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || waiting(c.recvq))
}
func (c *chanV) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || waiting(c.sendq))
}

func (in *interp) trySend(c *chanV, v value) bool {
	if c == nil {
		return false
	}
	if c.closed {
		in.plainPanic("send on closed channel")
	}
	in.touch(c)
	if w := pop(&c.recvq); w != nil {
		*w.sel = selState{fired: true, idx: w.idx, v: v, ok: true}
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (in *interp) tryRecv(c *chanV) (v value, ok, ready bool) {
	if c == nil {
		return nil, false, false
	}
	in.touch(c)
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append([]value(nil), c.buf[1:]...)
		if w := pop(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			*w.sel = selState{fired: true, idx: w.idx, ok: true}
		}
		return v, true, true
	}
	if w := pop(&c.sendq); w != nil {
		*w.sel = selState{fired: true, idx: w.idx, ok: true}
		return w.v, true, true
	}
	if c.closed {
		return zero(c.elem), false, true
	}
	return nil, false, false
}

func (in *interp) chanSend(c *chanV, v value) {
	if in.trySend(c, v) {
		return
	}
	st := &selState{}
	if c != nil {
		c.sendq = append(c.sendq, &waiter{sel: st, v: v})
	}
	in.park(func() bool { return st.fired })
	if !st.ok {
		in.plainPanic("send on closed channel")
	}
}

func (in *interp) chanRecv(c *chanV) (value, bool) {
	if v, ok, ready := in.tryRecv(c); ready {
		return v, ok
	}
	st := &selState{}
	if c != nil {
		c.recvq = append(c.recvq, &waiter{sel: st})
	}
	in.park(func() bool { return st.fired })
	return st.v, st.ok
}

func (in *interp) chanClose(c *chanV) {
	if c == nil {
		in.plainPanic("close of nil channel")
	}
	if c.closed {
		in.plainPanic("close of closed channel")
	}
	in.touch(c)
	c.closed = true
	for w := pop(&c.recvq); w != nil; w = pop(&c.recvq) {
		*w.sel = selState{fired: true, idx: w.idx, v: zero(c.elem)}
	}
	for w := pop(&c.sendq); w != nil; w = pop(&c.sendq) {
		*w.sel = selState{fired: true, idx: w.idx}
	}
}

// plainPanic: a runtime panic whose text the runtime does not prefix differently
func (in *interp) plainPanic(msg string) { in.runtimePanic(msg) }

type selCase struct {
	c    *chanV
	send bool
	v    value
}

// selectOn returns the chosen case (-1: default), and what was received.
func (in *interp) selectOn(l []selCase, blocking bool) (int, value, bool) {
	var rdy []int
	for i, x := range l {
		if x.send && x.c.canSend() || !x.send && x.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[in.path.choose(len(rdy))]
		if l[i].send {
			in.trySend(l[i].c, l[i].v)
			return i, nil, false
		}
		v, ok, _ := in.tryRecv(l[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, x := range l {
		if x.c == nil {
			continue
		}
		w := &waiter{sel: st, idx: i, v: x.v}
		if x.send {
			x.c.sendq = append(x.c.sendq, w)
		} else {
			x.c.recvq = append(x.c.recvq, w)
		}
	}
	in.park(func() bool { return st.fired })
	if l[st.idx].send && !st.ok {
		in.plainPanic("send on closed channel")
	}
	return st.idx, st.v, st.ok
}

func (k *compiler) concurrency(ins ssa.Instruction) func(fr *frame) {
	in := k.in
	switch ins := ins.(type) {
	case *ssa.MakeChan:
		dst, n := k.reg(ins), k.op(ins.Size)
		elem := ins.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			c := int64(in.concInt(fr.get(&n)))
			if c < 0 {
				in.runtimePanic("makechan: size out of range")
			}
			fr.regs[dst] = &chanV{cap: int(c), elem: elem}
		}
	case *ssa.Go:
		fv, args := k.callee(&ins.Call)
		// the goroutines of a harness take turns: when they start makes no difference
		fork := !strings.Contains(ins.Parent().String(), harnessPath)
		return func(fr *frame) {
			f, a := fv(fr, args)
			in.spawn(f, a, fork)
		}
	case *ssa.Send:
		c, x := k.op(ins.Chan), k.op(ins.X)
		return func(fr *frame) { in.chanSend(fr.get(&c).(*chanV), fr.get(&x)) }
	case *ssa.Select:
		dst := k.reg(ins)
		var cs, vs []opnd
		var send []bool
		var zeros []types.Type
		for _, s := range ins.States {
			cs = append(cs, k.op(s.Chan))
			if s.Dir == types.SendOnly {
				send = append(send, true)
				vs = append(vs, k.op(s.Send))
			} else {
				send = append(send, false)
				vs = append(vs, opnd{})
				zeros = append(zeros, s.Chan.Type().Underlying().(*types.Chan).Elem())
			}
		}
		blocking := ins.Blocking
		return func(fr *frame) {
			l := make([]selCase, len(cs))
			for i := range l {
				l[i] = selCase{c: fr.get(&cs[i]).(*chanV), send: send[i]}
				if send[i] {
					l[i].v = fr.get(&vs[i])
				}
			}
			i, v, ok := in.selectOn(l, blocking)
			t := tuple{uint64(i), ok}
			r := 0
			for j := range l {
				if send[j] {
					continue
				}
				if j == i {
					t = append(t, v)
				} else {
					t = append(t, zero(zeros[r]))
				}
				r++
			}
			fr.regs[dst] = t
		}
	case *ssa.UnOp: // receive
		dst, x := k.reg(ins), k.op(ins.X)
		comma := ins.CommaOk
		return func(fr *frame) {
			v, ok := in.chanRecv(fr.get(&x).(*chanV))
			if comma {
				fr.regs[dst] = tuple{v, ok}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("concurrency")
}

// --- wait groups, timers, sleeping

type wgState struct{ n int64 }

func schedIntrinsics(I map[string]func(in *interp, fr *frame, a []value) value) {
	wg := func(in *interp, p value) *wgState {
		return in.nativeState("waitgroup", p, func() any { return &wgState{} }).(*wgState)
	}
	I["(*sync.WaitGroup).Add"] = func(in *interp, fr *frame, a []value) value {
		if in.path == nil || in.initing > 0 {
			return nil
		}
		w := wg(in, a[0])
		w.n += int64(in.concInt(a[1]))
		if w.n < 0 {
			in.plainPanic("sync: negative WaitGroup counter")
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(in *interp, fr *frame, a []value) value {
		return I["(*sync.WaitGroup).Add"](in, fr, []value{a[0], ^uint64(0)})
	}
	I["(*sync.WaitGroup).Wait"] = func(in *interp, fr *frame, a []value) value {
		if in.path == nil || in.initing > 0 {
			return nil
		}
		w := wg(in, a[0])
		if w.n > 0 {
			in.park(func() bool { return w.n <= 0 })
		}
		return nil
	}
	I["time.Sleep"] = func(in *interp, fr *frame, a []value) value { in.sleep(int64(in.concInt(a[0]))); return nil }
	I["runtime.Gosched"] = func(in *interp, fr *frame, a []value) value { in.yield(); return nil }
	I["time.newTimer"] = func(in *interp, fr *frame, a []value) value {
		s := in.scheduler()
		st := zero(in.P.namedType("time", "Timer")).(structV)
		p := new(value)
		*p = st
		// newTimer's channel argument is the one NewTimer made
		if c, ok := a[4].(*chanV); ok {
			st[0] = c
		}
		st[1] = true
		s.timers = append(s.timers, &timerV{p: p, when: uint64(in.concInt(a[0])), f: a[2], arg: a[3], on: true})
		return p
	}
	find := func(in *interp, p value) *timerV {
		for _, t := range in.scheduler().timers {
			if t.p == p {
				return t
			}
		}
		return nil
	}
	I["time.stopTimer"] = func(in *interp, fr *frame, a []value) value {
		t := find(in, a[0])
		if t == nil {
			return false
		}
		was := t.on
		t.on = false
		return was
	}
	I["time.resetTimer"] = func(in *interp, fr *frame, a []value) value {
		t := find(in, a[0])
		if t == nil {
			in.unsupported("reset of an unknown timer")
		}
		was := t.on
		t.on, t.when = true, uint64(in.concInt(a[1]))
		return was
	}
	I["time.syncTimer"] = func(in *interp, fr *frame, a []value) value { return a[0] }
}
