package main

import (
	"net/http"

	"github.com/meilihao/water"
)

// A model of the router tree: every group keeps its own middleware list, a route's chain is computed at the end.
type mgrp struct {
	r      *water.Router
	mw     []int
	parent *mgrp
	pat    string
}

type mend struct {
	g        *mgrp
	method   string
	pat      string
	handlers []int
}

func (g *mgrp) full() string {
	if g == nil {
		return ""
	}
	return g.parent.full() + g.pat
}

func (g *mgrp) chain() []int {
	if g == nil {
		return nil
	}
	return append(append([]int{}, g.parent.chain()...), g.mw...)
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type mtree struct {
	log     []int
	full    string
	ids     int
	befores []int
	root    *mgrp
	ends    []*mend
}

func (t *mtree) handler() (func(*water.Context), int) {
	t.ids++
	n := t.ids
	return func(c *water.Context) {
		t.log = append(t.log, n)
		t.full = c.FullPath()
	}, n
}

func (t *mtree) route(g *mgrp, method, pat string, n int) {
	var hs []interface{}
	e := &mend{g: g, method: method, pat: pat}
	for i := 0; i < n; i++ {
		h, id := t.handler()
		hs = append(hs, h)
		e.handlers = append(e.handlers, id)
	}
	reg(g.r, method, pat, hs...)
	t.ends = append(t.ends, e)
}

func (t *mtree) check(opts ...water.Option) {
	e := t.root.r.Handler(opts...)
	for _, x := range t.ends {
		t.log, t.full = nil, ""
		path := x.g.full() + x.pat // as a path it matches itself: placeholders take any text
		serve(e, newReq(x.method, path))
		want := append(append(append([]int{}, t.befores...), x.g.chain()...), x.handlers...)
		vAssert(eqInts(t.log, want), "the chain of a route is not global, then enclosing groups' middleware, then its own handlers")
		vAssert(t.full == path, "the full pattern is not the concatenation of the enclosing patterns")
	}
}

// any sequence of registrations on a growing tree
func H_C01_sequences() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	cur := t.root
	names := []string{"/a", "/b", "/c", "/d", "/e", "/f", "/g"}
	n := vB(6, 7)
	for i := 0; i < n; i++ {
		switch vInt("op", 0, 5) {
		case 0:
			h, id := t.handler()
			t.root.r.Before(h)
			t.befores = append(t.befores, id)
		case 1:
			h, id := t.handler()
			cur.r.Use(h)
			cur.mw = append(cur.mw, id)
		case 2: // a group, possibly with middleware, continued inside
			g := &mgrp{parent: cur, pat: names[i]}
			if i%2 == 0 {
				h, id := t.handler()
				g.r = cur.r.Group(names[i], h)
				g.mw = append(g.mw, id)
			} else {
				g.r = cur.r.Group(names[i])
			}
			cur = g
		case 3: // a group filled by a callback
			g := &mgrp{parent: cur, pat: names[i]}
			h, id := t.handler()
			h2, id2 := t.handler()
			g.r = cur.r.Group(names[i], h, func(r *water.Router) {
				g.r = r
				t.route(g, "GET", "/x", 1)
				r.Use(h2)
			})
			g.mw = append(g.mw, id, id2)
		case 4:
			if cur.parent == nil {
				vAssume(false)
			}
			cur = cur.parent
		case 5:
			t.route(cur, "GET", names[i], 1+i%2)
		}
	}
	t.route(cur, "POST", "/z", 1)
	t.check()
	vReach("end")
}

// the concatenation of patterns, for all patterns of literal text
func H_C01_patterns() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	h, id := t.handler()
	t.root.r.Use(h)
	t.root.mw = append(t.root.mw, id)
	p := vStrOf("p", 0, vB(2, 3), "/ab.-")
	q := vStrOf("q", 0, vB(2, 3), "/ab.-")
	l := vStrOf("l", 0, 2, "/ab.-")
	full := p + q + l
	vAssume(len(full) > 0 && full[0] == '/')
	vAssume(len(full) == 1 || full[len(full)-1] != '/')
	for i := 0; i+1 < len(full); i++ {
		vAssume(vNot(vAnd(full[i] == '/', full[i+1] == '/')))
	}
	h2, id2 := t.handler()
	g := &mgrp{parent: t.root, pat: p, r: t.root.r.Group(p, h2), mw: []int{id2}}
	g2 := &mgrp{parent: g, pat: q, r: g.r.Group(q)}
	t.route(g2, "GET", l, 1)
	h3, id3 := t.handler()
	g2.r.Use(h3)
	g2.mw = append(g2.mw, id3)
	t.check(water.WithStaticRouter(vChoose("static", 2) == 1))
	vReach("end")
}

// spaces around the patterns of groups and routes are not part of them
func H_C01_spaces() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	sp := []string{"", " ", "\t"}
	a, b := sp[vChoose("a", 3)], sp[vChoose("b", 3)]
	h, id := t.handler()
	r := t.root.r.Group(a+"/g"+b, h)
	g := &mgrp{parent: t.root, pat: "/g", r: r, mw: []int{id}}
	_ = g
	h2, id2 := t.handler()
	r.GET(b+"/x"+a, h2)
	e := t.root.r.Handler()
	serve(e, newReq("GET", "/g/x"))
	vAssert(eqInts(t.log, []int{id, id2}), "the chain of a route is not global, then enclosing groups' middleware, then its own handlers")
	vAssert(t.full == "/g/x", "the full pattern is not the concatenation of the enclosing patterns")
	vReach("end")
}

// middleware stays within its group: siblings, parents, routes of other methods, ANY and wildcards
func H_C01_isolation() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	mk := func(p *mgrp, pat string, k int) *mgrp {
		g := &mgrp{parent: p, pat: pat, r: p.r.Group(pat)}
		for i := 0; i < k; i++ {
			h, id := t.handler()
			g.r.Use(h)
			g.mw = append(g.mw, id)
		}
		return g
	}
	na, nb, nc := vChoose("na", 3), vChoose("nb", 3), vChoose("nc", 3)
	a := mk(t.root, "/a", na)
	b := mk(a, "/b", nb)
	c := mk(a, "/c", nc)
	d := mk(t.root, "/d", 1)
	t.route(b, "GET", "/1", 2)
	t.route(c, "GET", "/1", 1)
	t.route(a, "PUT", "/1", 1)
	t.route(d, "GET", "/1", 1)
	t.route(t.root, "GET", "/1", 1)
	t.route(t.root, "HEAD", "/a/b/1", 1)
	var any []int
	h, id := t.handler()
	b.r.ANY("/any", h)
	any = append(any, id)
	for _, m := range []string{"GET", "POST", "DELETE", "PUT", "PATCH"} {
		t.ends = append(t.ends, &mend{g: b, method: m, pat: "/any", handlers: any})
	}
	if vChoose("late", 2) == 1 {
		h, id := t.handler()
		b.r.Use(h)
		b.mw = append(b.mw, id)
		h2, id2 := t.handler()
		t.root.r.Use(h2)
		t.root.mw = append(t.root.mw, id2)
		h3, id3 := t.handler()
		t.root.r.Before(h3)
		t.befores = append(t.befores, id3)
	}
	t.check(water.WithStaticRouter(vChoose("static", 2) == 1))
	vReach("end")
}

// many middleware per level given in one call: order and sharing of the backing arrays
func H_C01_many() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	add := func(g *mgrp, k int) {
		var hs []interface{}
		for i := 0; i < k; i++ {
			h, id := t.handler()
			hs = append(hs, h)
			g.mw = append(g.mw, id)
		}
		g.r.Use(hs...)
	}
	k1, k2, k3 := vChoose("k1", 5), vChoose("k2", 4), vChoose("k3", 4)
	add(t.root, k1)
	a := &mgrp{parent: t.root, pat: "/a", r: t.root.r.Group("/a")}
	add(a, k2)
	b := &mgrp{parent: a, pat: "/b", r: a.r.Group("/b")}
	add(b, k3)
	for i := 0; i < 3; i++ {
		t.route(b, "GET", "/"+string(rune('0'+i)), 1+i)
		t.route(a, "GET", "/"+string(rune('0'+i)), 2)
	}
	add(a, 1)
	nb := vChoose("nb", 3)
	for i := 0; i < nb; i++ {
		h, id := t.handler()
		t.root.r.Before(h)
		t.befores = append(t.befores, id)
	}
	t.check()
	vReach("end")
}

// building again after more registrations: the new application has them all, the one built before does not change
func H_C01_again() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	use := func(g *mgrp) {
		h, id := t.handler()
		g.r.Use(h)
		g.mw = append(g.mw, id)
	}
	a := &mgrp{parent: t.root, pat: "/a", r: t.root.r.Group("/a")}
	n := vChoose("n", 3)
	for i := 0; i < n; i++ {
		use([]*mgrp{t.root, a}[vChoose("g", 2)])
	}
	t.route(a, "GET", "/x", 1)
	t.route(t.root, "GET", "/y", 2)
	opt := water.WithStaticRouter(vChoose("static", 2) == 1)
	old := t.root.r.Handler(opt)
	var first []int
	if vChoose("use", 2) == 1 {
		t.log = nil
		serve(old, newReq("GET", "/a/x"))
		first = t.log
	}
	for i := 0; i < 2; i++ {
		switch vChoose("op", 6) {
		case 0:
			use(t.root)
		case 1:
			use(a)
		case 2:
			h, id := t.handler()
			t.root.r.Before(h)
			t.befores = append(t.befores, id)
		case 3:
			t.route(a, "GET", "/"+string(rune('p'+i)), 1)
		case 4:
			g := &mgrp{parent: a, pat: "/g" + string(rune('0'+i)), r: a.r.Group("/g" + string(rune('0'+i)))}
			use(g)
			t.route(g, "GET", "/x", 1)
		}
	}
	t.check(opt)
	if first != nil {
		t.log = nil
		serve(old, newReq("GET", "/a/x"))
		vAssert(eqInts(t.log, first), "an application changes when more is registered after it was built")
	}
	vReach("end")
}

var _ = http.MethodGet

// groups of the same pattern are groups of their own
func H_C01_same() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	gs := []*mgrp{t.root}
	for i := 0; i < 3; i++ {
		up := gs[vChoose("up", 2)*(len(gs)-1)]
		pat := []string{"/g", "", "/<x>"}[vChoose("pat", 3)]
		g := &mgrp{parent: up, pat: pat}
		switch vChoose("mw", 3) {
		case 0:
			g.r = up.r.Group(pat)
		case 1:
			h, id := t.handler()
			g.r = up.r.Group(pat, h)
			g.mw = append(g.mw, id)
		case 2:
			h, id := t.handler()
			g.r = up.r.Group(pat, func(r *water.Router) { r.Use(h) })
			g.mw = append(g.mw, id)
		}
		t.route(g, "GET", "/"+num(i), 1)
		gs = append(gs, g)
	}
	t.check(water.WithStaticRouter(vChoose("static", 2) == 1))
	vReach("end")
}
