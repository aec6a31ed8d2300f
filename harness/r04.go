package main

import "github.com/meilihao/water"

var allMethods = []string{"GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS"}

type counter struct {
	log []string
}

func (c *counter) h(s string) func(*water.Context) {
	return func(ctx *water.Context) {
		c.log = append(c.log, s)
		ctx.WriteHeader(299)
	}
}

func reg(r *water.Router, m, p string, h ...interface{}) {
	switch m {
	case "GET":
		r.GET(p, h...)
	case "POST":
		r.POST(p, h...)
	case "DELETE":
		r.DELETE(p, h...)
	case "PUT":
		r.PUT(p, h...)
	case "PATCH":
		r.PATCH(p, h...)
	case "HEAD":
		r.HEAD(p, h...)
	case "OPTIONS":
		r.OPTIONS(p, h...)
	default:
		r.ANY(p, h...)
	}
}

// one route of every method on its own and any-routes beside it; every method a request may name
func H_R04_methods() {
	vNoise()
	c := &counter{}
	r := water.NewRouter()
	for _, m := range allMethods {
		reg(r, m, "/"+m, c.h(m))
		reg(r, m, "/same", c.h("same"+m))
	}
	reg(r, "", "/any", c.h("any"))
	reg(r, "", "/x/<id>", c.h("anyx"))
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	mi := vChoose("method", len(allMethods))
	m := allMethods[mi]
	pi := vChoose("path", len(allMethods)+3)
	path := "/any"
	any := m != "HEAD" && m != "OPTIONS"
	want := ""
	switch {
	case pi < len(allMethods):
		path = "/" + allMethods[pi]
		if pi == mi {
			want = m
		}
	case pi == len(allMethods):
		path, want = "/same", "same"+m
	case pi == len(allMethods)+1:
		if any {
			want = "any"
		}
	default:
		path = "/x/" + vStr("id", 1, 2)
		vAssume(vNot(vOr(path[3] == '/', path[len(path)-1] == '/')))
		if any {
			want = "anyx"
		}
	}
	w := serve(e, newReq(m, path))
	if want == "" {
		vReach("other method")
		vAssert(len(c.log) == 0, "a route of one method served another method")
		vAssert(w.status() == 404, "no route of the method: not 404")
	} else {
		vReach("own method")
		vAssert(len(c.log) == 1 && c.log[0] == want, "the route of the request's method did not run")
		vAssert(w.status() == 299, "the status is not the handler's")
	}
}

// an excluded method is skipped by ANY, all others are served
func H_R04_exclude() {
	saved := water.MethodAnyExclude
	var ex []string
	mask := vChoose("mask", 1<<uint(len(allMethods)))
	for i, m := range allMethods {
		if mask>>uint(i)&1 == 1 {
			ex = append(ex, m)
		}
	}
	vAssume(mask != 1<<uint(len(allMethods))-1)
	water.MethodAnyExclude = ex
	c := &counter{}
	r := water.NewRouter()
	r.ANY("/p", c.h("any"))
	e := r.Handler()
	water.MethodAnyExclude = saved
	for i, m := range allMethods {
		c.log = nil
		w := serve(e, newReq(m, "/p"))
		if mask>>uint(i)&1 == 1 {
			vAssert(len(c.log) == 0 && w.status() == 404, "an excluded method is served")
		} else {
			vAssert(len(c.log) == 1 && w.status() == 299, "a method that is not excluded is not served")
		}
	}
	vReach("end")
}

// what does not reach handlers: old protocols, '*', CONNECT, unknown methods (any text)
func H_R04_refused() {
	c := &counter{}
	r := water.NewRouter()
	r.Before(c.h("global"))
	r.Use(c.h("use"))
	for _, m := range allMethods {
		reg(r, m, "/", c.h(m))
		reg(r, m, "/*", c.h("all"+m))
	}
	e := r.Handler(water.WithNoFoundHandlers(c.h("nf")), water.WithStaticRouter(vChoose("static", 2) == 1))
	var m string
	if k := vChoose("kind", len(allMethods)+3); k < len(allMethods) {
		m = allMethods[k]
	} else if k == len(allMethods) {
		m = "CONNECT"
	} else if k == len(allMethods)+1 {
		m = vStr("method", 0, vB(3, 4))
	} else {
		b := []byte(allMethods[vChoose("near", len(allMethods))])
		b[vChoose("pos", len(b))] = vByte("c")
		m = string(b)
	}
	req := newReq(m, "/")
	if vChoose("star", 2) == 1 {
		req.RequestURI = vStr("uri", 1, 2)
	}
	req.ProtoMajor, req.ProtoMinor = vInt("major", 0, 3), vInt("minor", 0, 11)
	w := serve(e, req)
	old := vOr(req.ProtoMajor < 1, vAnd(req.ProtoMajor == 1, req.ProtoMinor < 1))
	known := false
	for _, x := range allMethods {
		if x == m {
			known = true
		}
	}
	switch {
	case old || req.RequestURI == "*" || m == "CONNECT":
		vReach("406")
		vAssert(w.status() == 406 && len(w.statuses) == 1, "not answered 406")
		vAssert(len(c.log) == 0, "a refused request reached a handler")
	case !known:
		vReach("405")
		vAssert(w.status() == 405 && len(w.statuses) == 1, "not answered 405")
		vAssert(len(c.log) == 0, "a refused request reached a handler")
	default:
		vReach("served")
		vAssert(len(c.log) > 0, "a supported request did not reach its handlers")
		vAssert(w.status() == 299, "the status is not the handler's")
	}
}

// routes of several methods on the same and on nested patterns never mix, nor do their middleware and parameters
func H_R04_mixed() {
	vNoise()
	c := &counter{}
	r := water.NewRouter()
	k := vChoose("first", len(allMethods))
	l := vChoose("second", len(allMethods))
	vAssume(k != l)
	m1, m2 := allMethods[k], allMethods[l]
	reg(r, m1, "/a/<x>", c.h("1x"))
	reg(r, m2, "/a/b", c.h("2b"))
	reg(r, m1, "/a/b/c", c.h("1c"))
	reg(r, m2, "/a/*", c.h("2all"))
	reg(r, m1, "/", c.h("1root"))
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	m := allMethods[vChoose("method", len(allMethods))]
	s := vStr("s", 1, 1)
	tail := vChoose("tail", 2) == 1
	path := "/a/" + s
	if tail {
		path += "/c"
	}
	vAssume(s != "/")
	serve(e, newReq(m, path))
	want := ""
	if m == m1 {
		if !tail {
			want = "1x"
		} else if s == "b" {
			want = "1c"
		}
	} else if m == m2 {
		if s == "b" && !tail {
			want = "2b"
		} else {
			want = "2all"
		}
	}
	if want == "" {
		vReach("none")
		vAssert(len(c.log) == 0, "a route of one method served another method")
	} else {
		vReach("some")
		vAssert(len(c.log) == 1 && c.log[0] == want, "the wrong route served the request")
	}
}

// literal routes of two methods in the static index: each serves its own method only
func crossMethods(judge func(with, without *counter, m, path, m1, m2 string)) {
	m1, m2 := allMethods[vChoose("first", len(allMethods))], allMethods[vChoose("second", len(allMethods))]
	mk := func(static bool) (*water.Engine, *counter) {
		c := &counter{}
		r := water.NewRouter()
		reg(r, m1, "/a", c.h("1"))
		reg(r, m2, "/b", c.h("2"))
		reg(r, m2, "/c/d", c.h("3"))
		reg(r, m1, "/c/<x>", c.h("4"))
		return r.Handler(water.WithStaticRouter(static)), c
	}
	e1, with := mk(true)
	e2, without := mk(false)
	m := allMethods[vChoose("method", len(allMethods))]
	path := []string{"/a", "/b", "/c/d", "/c/e"}[vChoose("path", 4)]
	serve(e1, newReq(m, path))
	serve(e2, newReq(m, path))
	judge(with, without, m, path, m1, m2)
	vReach("end")
}

func H_R04_cross() {
	crossMethods(func(with, without *counter, m, path, m1, m2 string) {
		want := ""
		switch {
		case path == "/a" && m == m1:
			want = "1"
		case path == "/b" && m == m2:
			want = "2"
		case path == "/c/d" && m == m2:
			want = "3"
		case path[:2] == "/c" && m == m1:
			want = "4"
		}
		for _, c := range []*counter{with, without} {
			if want == "" {
				vAssert(len(c.log) == 0, "a route of one method served another method")
			} else {
				vAssert(len(c.log) == 1 && c.log[0] == want, "the wrong route served the request")
			}
		}
	})
}

// ANY with patterns of every kind, at the root or in a group, next to routes of single methods: it is the same as
// registering each method that is not excluded
func H_R04_any() {
	pats := [][3]string{{"/a", "/a", "/a/b"}, {"/<x>", "/q", "/q/b"}, {"/*", "/q/r", ""}, {"/a/<*>", "/a/q/r", "/b/q"}, {"/<n ~ [0-9]+>", "/7", "/x"}, {"/:y/b", "/q/b", "/q/c"}, {"/a/*f", "/a/q", "/a"}, {"/", "/", "/x"}}
	k := vChoose("pat", len(pats))
	p := pats[k]
	c := &counter{}
	r := water.NewRouter()
	pre := ""
	at := r
	switch vChoose("at", 3) {
	case 1:
		pre = "/g"
		at = r.Group("/g")
	case 2:
		pre = "/g/h"
		at = r.Group("/g").Group("/h")
	}
	if p[0] == "/" && pre != "" {
		return
	}
	own := vChoose("own", 3) // HEAD and OPTIONS are not in ANY unless told so
	at.ANY(p[0], c.h("any"))
	if own > 0 {
		at.HEAD(p[0], c.h("head"))
	}
	if own > 1 {
		at.OPTIONS(p[0], c.h("options"))
	}
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	m := allMethods[vChoose("m", len(allMethods))]
	hits := vChoose("hit", 2)
	path := pre + p[1+hits]
	if p[1+hits] == "" {
		return
	}
	want := "any"
	switch m {
	case "HEAD":
		want = []string{"", "head", "head"}[own]
	case "OPTIONS":
		want = []string{"", "", "options"}[own]
	}
	if hits == 1 {
		want = ""
	}
	w := serve(e, newReq(m, path))
	if want == "" {
		vAssert(len(c.log) == 0 && w.status() == 404, "a route of one method served another method")
	} else {
		vAssert(len(c.log) == 1 && c.log[0] == want && w.status() == 299, "the route of the request's method did not run")
	}
	vReach("end")
}
