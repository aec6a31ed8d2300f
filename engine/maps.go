package main

// Maps with concrete and symbolic keys.

import (
	"fmt"
	"go/types"
	"strings"
)

type mapEnt struct {
	k, v value
	dead bool
	hk   any // nil: symbolic key
	seq  int
}

type mapV struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int // live entries
	sym  int // live entries with symbolic keys
	seq  int
}

func newMapV() *mapV { return &mapV{idx: map[any]*mapEnt{}} }

func (m *mapV) len() int {
	if m == nil {
		return 0
	}
	return m.n
}

type strKey string

// hkey returns a hashable key for a concrete value; ok=false when symbolic.
func hkey(v value) (any, bool) {
	switch v := v.(type) {
	case uint64, bool, string, float64, *value, *mapV, *chanV, complex128:
		return v, true
	case *Term, symStr:
		return nil, false
	case iface:
		if v.t == nil {
			return iface{}, true
		}
		k, ok := hkey(v.v)
		if !ok {
			return nil, false
		}
		return iface{v.t, k}, true
	case structV:
		return hkeyList("s", v)
	case arrayV:
		return hkeyList("a", v)
	case rtypeV:
		return v, true
	}
	return v, true
}

func hkeyList(p string, l []value) (any, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range l {
		k, ok := hkey(x)
		if !ok {
			return nil, false
		}
		switch y := k.(type) {
		case *value:
			fmt.Fprintf(&sb, "|%p", y)
		case iface:
			fmt.Fprintf(&sb, "|%p:%v", y.t, y.v)
		default:
			fmt.Fprintf(&sb, "|%T:%v", k, k)
		}
	}
	return strKey(sb.String()), true
}

func (in *interp) mapFind(m *mapV, k value, kt types.Type) *mapEnt {
	if m == nil {
		return nil
	}
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.runtimePanic("hash of unhashable type " + i.t.String())
	}
	hk, conc := hkey(k)
	if conc {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.sym == 0 {
			return nil
		}
	}
	// candidates
	type cand struct {
		e *mapEnt
		t *Term
	}
	var cs []cand
	var or []*Term
	for _, e := range m.ents {
		if e.dead || (conc && e.hk != nil) {
			continue
		}
		switch r := in.equals(kt, e.k, k).(type) {
		case bool:
			if r {
				return e
			}
		case *Term:
			cs = append(cs, cand{e, r})
			or = append(or, r)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	if len(cs) > 1 && !in.decide(in.tc.Or(or...)) {
		return nil
	}
	for i, c := range cs {
		if len(cs) > 1 && i == len(cs)-1 {
			return c.e
		}
		if in.decide(c.t) {
			return c.e
		}
	}
	return nil
}

func (in *interp) mapGet(m *mapV, k value, kt types.Type) (value, bool) {
	e := in.mapFind(m, k, kt)
	if e == nil {
		return nil, false
	}
	return e.v, true
}

func (in *interp) mapSet(m *mapV, k, v value, kt types.Type) {
	if in.spec {
		panic(specFail{"map update"})
	}
	e := in.mapFind(m, k, kt)
	if in.path != nil && in.path.frame != nil {
		in.path.frame.onMap(in, m)
	}
	if e != nil {
		old := e.v
		e.v = copyVal(v)
		in.undo(func() { e.v = old })
		return
	}
	hk, conc := hkey(k)
	e = &mapEnt{k: copyVal(k), v: copyVal(v), seq: m.seq}
	m.seq++
	if conc {
		e.hk = hk
		m.idx[hk] = e
	} else {
		m.sym++
	}
	m.n++
	// drop trailing dead entries is not possible while undo may revive them
	m.ents = append(m.ents, e)
	in.undo(func() {
		m.ents = m.ents[:len(m.ents)-1]
		m.n--
		if e.hk != nil {
			delete(m.idx, e.hk)
		} else {
			m.sym--
		}
	})
}

func (in *interp) mapDelete(m *mapV, k value, kt types.Type) {
	if e := in.mapFind(m, k, kt); e != nil {
		in.mapKill(m, e)
	}
}

func (in *interp) mapKill(m *mapV, e *mapEnt) {
	if in.path != nil && in.path.frame != nil {
		in.path.frame.onMap(in, m)
	}
	e.dead = true
	m.n--
	if e.hk != nil {
		delete(m.idx, e.hk)
	} else {
		m.sym--
	}
	in.undo(func() {
		e.dead = false
		m.n++
		if e.hk != nil {
			m.idx[e.hk] = e
		} else {
			m.sym++
		}
	})
}

type mapIter struct {
	ents []*mapEnt
	rev  int // 0 in order, 1 permute
	cur  *mapEnt
}

func (in *interp) mapIter(m *mapV, permute bool) *mapIter {
	it := &mapIter{}
	if m == nil {
		return it
	}
	for _, e := range m.ents {
		if !e.dead {
			it.ents = append(it.ents, e)
		}
	}
	if permute && len(it.ents) > 1 && in.initing == 0 && in.path.calm == 0 {
		if len(it.ents) <= 4 {
			it.rev = 1
		} else if in.path.choose(2) == 1 {
			for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
				it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
			}
		}
	}
	return it
}

func (it *mapIter) next(in *interp) value {
	for {
		e := it.pick(in)
		if e == nil {
			return tuple{false, nil, nil}
		}
		if !e.dead {
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
	}
}

func (it *mapIter) pick(in *interp) *mapEnt {
	if len(it.ents) == 0 {
		it.cur = nil
		return nil
	}
	i := 0
	if it.rev == 1 && len(it.ents) > 1 {
		i = in.path.choose(len(it.ents))
	}
	e := it.ents[i]
	it.ents = append(append([]*mapEnt(nil), it.ents[:i]...), it.ents[i+1:]...)
	it.cur = e
	return e
}

func nativeEq(a, b value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == b
}

// --- frame monitor (shared-state writes)

type frameMon struct {
	cells  map[*value]bool // root cells allocated in the phase
	ranges []cellRange
	maps   map[*mapV]bool
	owned  map[*value]bool // objects taken from a pool
	hits   []string
	old    *frameMon // the previous phase
	quiet  int       // inside synchronised operations
	sorted bool
	keep   [][]value
}

type cellRange struct{ lo, hi uintptr }
