package main

// Frame monitor: while active, every write must hit memory allocated since frameBegin or owned through a pool.

import (
	"fmt"
	"sort"
	"strings"
	"unsafe"
)

func (p *path) frameBegin(in *interp) {
	p.frame = &frameMon{cells: map[*value]bool{}, maps: map[*mapV]bool{}, owned: map[*value]bool{}, old: p.frameOld}
}

func (p *path) frameEnd(in *interp) value {
	f := p.frame
	p.frame = nil
	p.frameOld = f
	if f == nil || len(f.hits) == 0 {
		return ""
	}
	sort.Strings(f.hits)
	var d []string
	for i, h := range f.hits {
		if i == 0 || h != f.hits[i-1] {
			d = append(d, h)
		}
	}
	return racePrefix + ": " + strings.Join(d, "; ")
}

func addrOf(p *value) uintptr { return uintptr(unsafe.Pointer(p)) }

func (f *frameMon) alloc(p *value) {
	f.cells[p] = true
	f.noteVal(*p)
}

func (f *frameMon) noteVal(v value) {
	switch s := v.(type) {
	case structV:
		f.allocSlice(s)
	case arrayV:
		f.allocSlice(s)
	}
}

func (f *frameMon) allocSlice(s []value) {
	s = s[:cap(s)]
	if len(s) == 0 {
		return
	}
	f.keep = append(f.keep, s) // keeps the addresses from being reused
	f.ranges = append(f.ranges, cellRange{addrOf(&s[0]), addrOf(&s[len(s)-1])})
	f.sorted = false
	for i := range s {
		switch s[i].(type) {
		case structV, arrayV:
			f.noteVal(s[i])
		}
	}
}

func (f *frameMon) mine(p *value) bool {
	if f.cells[p] {
		return true
	}
	if !f.sorted {
		sort.Slice(f.ranges, func(i, j int) bool { return f.ranges[i].lo < f.ranges[j].lo })
		f.sorted = true
	}
	a := addrOf(p)
	i := sort.Search(len(f.ranges), func(i int) bool { return f.ranges[i].lo > a })
	return i > 0 && f.ranges[i-1].hi >= a
}

func (f *frameMon) onStore(in *interp, p *value) {
	if f.mine(p) {
		return
	}
	f.hit(in, fmt.Sprintf("write to shared memory in %s", in.where()))
}

func (f *frameMon) onMap(in *interp, m *mapV) {
	if f.maps[m] {
		return
	}
	f.hit(in, fmt.Sprintf("write to a shared map in %s", in.where()))
}

func (f *frameMon) hit(in *interp, s string) {
	if f.quiet > 0 {
		return
	}
	for fr := in.top; fr != nil; fr = fr.caller {
		if exemptWriters[fr.fn.name] {
			return
		}
	}
	if len(f.hits) < 50 {
		f.hits = append(f.hits, s)
	}
}

// exemptWriters perform synchronised writes (the intrinsics for sync write through these).
var exemptWriters = map[string]bool{}

// frameTake: the object comes out of a pool and is owned by this request.
func (p *path) frameTake(in *interp, v value) {
	if p.frame != nil {
		if i, ok := v.(iface); ok {
			if q, ok := i.v.(*value); ok && q != nil {
				p.frame.alloc(q)
				p.frame.adopt(*q, p.frame.old, 0)
			}
		}
	}
}

// adopt: what an earlier request allocated and left with the pooled object belongs to the one that takes it.
func (f *frameMon) adopt(v value, old *frameMon, depth int) {
	if old == nil || depth > 12 {
		return
	}
	switch x := v.(type) {
	case *value:
		if x != nil && !f.mine(x) && old.mine(x) {
			f.alloc(x)
			f.adopt(*x, old, depth+1)
		}
	case []value:
		x = x[:cap(x)]
		if len(x) > 0 && !f.mine(&x[0]) && old.mine(&x[0]) {
			f.allocSlice(x)
			for i := range x {
				f.adopt(x[i], old, depth+1)
			}
		}
	case structV:
		for i := range x {
			f.adopt(x[i], old, depth+1)
		}
	case arrayV:
		for i := range x {
			f.adopt(x[i], old, depth+1)
		}
	case *mapV:
		if x != nil && !f.maps[x] && old.maps[x] {
			f.maps[x] = true
			for _, e := range x.ents {
				f.adopt(e.v, old, depth+1)
			}
		}
	case iface:
		f.adopt(x.v, old, depth+1)
	}
}

// sync runs a synchronised operation: its writes are ordered with those of other requests.
func (in *interp) sync(f func()) {
	if in.path == nil || in.path.frame == nil {
		f()
		return
	}
	m := in.path.frame
	m.quiet++
	defer func() { m.quiet-- }()
	f()
}

// frameGive: ownership ends when the object is handed back.
func (p *path) frameGive(in *interp, v value) {
	f := p.frame
	if f == nil {
		return
	}
	i, ok := v.(iface)
	if !ok {
		return
	}
	q, ok := i.v.(*value)
	if !ok || q == nil {
		return
	}
	if !f.mine(q) {
		f.hit(in, "an object that is not owned is handed to a pool in "+in.where())
	}
	delete(f.cells, q)
	if s, ok := (*q).(structV); ok && len(s) > 0 {
		lo := addrOf(&s[0])
		var r []cellRange
		for _, x := range f.ranges {
			if x.lo != lo {
				r = append(r, x)
			}
		}
		f.ranges = r
	}
}
