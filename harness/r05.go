package main

import (
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

// every invalid registration panics before an application exists; every valid one is kept

type r05h struct{ n *int }

func (h r05h) ServeHTTP(*water.Context) { *h.n++ }

// canonical: what a pattern denotes, by the documented rules (':x' is '<x>')
func canonical(p string) string {
	l := strings.Split(p, "/")
	for i, s := range l {
		if strings.HasPrefix(s, ":") {
			l[i] = "<" + s[1:] + ">"
		}
	}
	return strings.Join(l, "/")
}

// any two (three) patterns in any spelling, in one method or two, directly or through groups
func H_R05_duplicates() {
	pool := []string{"/a", "/a/b", "/:id", "/<id>", "/<name>", "/a/:id", "/a/<id>", "/a/*", "/a/*f", "/a/<id ~ ^([0-9]+)$>", "/", "/a/:x/c", "/a/<x>/c"}
	i, j := vChoose("p", len(pool)), vChoose("q", len(pool))
	same := vChoose("samemethod", 2) == 1
	how := vChoose("how", 4)
	static := vChoose("static", 2) == 1
	ran := ""
	h := func(s string) func(*water.Context) { return func(*water.Context) { ran += s } }
	more := vChoose("more", 4)
	r := water.NewRouter()
	put := func(m, p, s string, group bool) {
		if k := strings.IndexByte(p[1:], '/'); group && k > 0 {
			g := r.Group(p[:k+1])
			reg(g, m, p[k+1:], h(s))
			return
		}
		if more&1 == 1 && s == "2" { // more handlers are no other route
			reg(r, m, p, func(*water.Context) {}, h(s))
			return
		}
		reg(r, m, p, h(s))
	}
	m2 := "POST"
	if same {
		m2 = "GET"
	}
	put("GET", "/zz", "z", false)
	put("GET", pool[i], "1", how&1 == 1)
	if more >= 2 {
		put("PUT", "/y", "y", false)
		put("GET", "/y", "y", false)
	}
	put(m2, pool[j], "2", how&2 == 2)
	if more == 1 {
		put("GET", "/y/z", "y", false)
	}
	var e *water.Engine
	_, panicked := catch(func() { e = r.Handler(water.WithStaticRouter(static)) })
	if same && canonical(pool[i]) == canonical(pool[j]) {
		vReach("refused")
		vAssert(panicked, "two routes that denote the same pattern were accepted")
		return
	}
	vReach("kept")
	vAssert(!panicked, "routes that denote different patterns were refused")
	// literal patterns serve their own path
	if !strings.ContainsAny(pool[i], ":<*") {
		serve(e, newReq("GET", pool[i]))
		vAssert(ran == "1", "a registered literal route is not the one served for its own path")
		ran = ""
	}
	if !strings.ContainsAny(pool[j], ":<*") {
		serve(e, newReq(m2, pool[j]))
		vAssert(ran == "2", "a registered literal route is not the one served for its own path")
	}
}

// the full pattern, any text: accepted exactly when it starts with '/' and does not end with '/'
func H_R05_pattern() {
	alpha := "/ab.-Z~_"
	n := vB(3, 5)
	p := vStrOf("pattern", 0, n, alpha)
	split := vChoose("split", 3) // registered directly or in a group
	ran := 0
	r := water.NewRouter()
	h := func(*water.Context) { ran++ }
	switch {
	case split == 0:
		r.GET(p, h)
	case split == 1:
		k := vChoose("cut", n+1)
		vAssume(k <= len(p))
		g := r.Group(p[:k])
		g.GET(p[k:], h)
	default:
		k := vChoose("cut", n+1)
		vAssume(k <= len(p))
		r.Group(p[:k], func(g *water.Router) {
			g.Group("", func(g *water.Router) { g.GET(p[k:], h) })
		})
	}
	var e *water.Engine
	_, panicked := catch(func() { e = r.Handler() })
	valid := p == "/" || len(p) > 0 && p[0] == '/' && p[len(p)-1] != '/'
	if valid {
		vAssume(!strings.Contains(p, "//"))
		vReach("valid")
		vAssert(!panicked, "a well-formed pattern was refused")
		serve(e, newReq("GET", p))
		vAssert(ran == 1, "a registered literal route is not served for its own path")
	} else {
		vReach("invalid")
		vAssert(panicked, "a malformed pattern was accepted")
	}
}

// handlers: none, nil, unsupported types; supported ones in every position
func H_R05_handlers() {
	n := vChoose("n", 4)
	ran := 0
	bad, isNil := false, false
	var hs []interface{}
	for i := 0; i < n; i++ {
		switch vChoose("h", 9) {
		case 0:
			hs = append(hs, func(*water.Context) { ran++ })
		case 1:
			hs = append(hs, r05h{&ran})
		case 2:
			hs = append(hs, http.HandlerFunc(func(http.ResponseWriter, *http.Request) { ran++ }))
		case 3:
			hs = append(hs, func(http.ResponseWriter, *http.Request) { ran++ })
		case 4:
			hs = append(hs, water.HandlerFunc(func(*water.Context) { ran++ }))
		case 5:
			hs, bad, isNil = append(hs, nil), true, true
		case 6:
			hs, bad = append(hs, 7), true
		case 7:
			hs, bad = append(hs, func() {}), true
		case 8:
			hs, bad = append(hs, "x"), true
		}
	}
	_ = isNil
	where := vChoose("where", 8) // route handlers, middleware of the root, of a group, ...
	var e *water.Engine
	want := n
	before := func(r *water.Router) { // other routes are no excuse
		r.PUT("/p", func(*water.Context) {})
		r.GET("/q", func(*water.Context) {})
	}
	_, panicked := catch(func() {
		r := water.NewRouter()
		switch where {
		case 0:
			r.GET("/p", hs...)
		case 1:
			r.Use(hs...)
			r.GET("/p", func(*water.Context) { ran++ })
			want++
		case 2:
			g := r.Group("/p")
			g.Use(hs...)
			g.POST("", func(*water.Context) { ran++ })
			g.GET("", func(*water.Context) { ran++ })
			want++
		case 3:
			before(r)
			r.Group("/p").GET("", hs...)
		case 4:
			before(r)
			r.Group("", func(g *water.Router) { g.Group("/p", func(g *water.Router) { g.ANY("/", func(*water.Context) {}) }) })
			r = water.NewRouter()
			r.Group("").Group("/p").Group("").ANY("", hs...)
			r.GET("/q", func(*water.Context) {})
		case 5:
			r.Before(hs...)
			r.GET("/p", func(*water.Context) { ran++ })
			want++
		case 6:
			r.Group("/p", func(g *water.Router) { g.OPTIONS("", hs...) }, func(g *water.Router) { g.GET("", func(*water.Context) { ran += n }) })
		case 7:
			r.GET("/q", func(*water.Context) {})
			e = r.Handler(water.WithNoFoundHandlers(hs...))
			return
		}
		e = r.Handler()
	})
	if bad || want == 0 {
		vReach("refused")
		vAssert(panicked, "a nil or unsupported handler or a route without handlers was accepted")
		return
	}
	vReach("kept")
	vAssert(!panicked, "supported handlers were refused")
	serve(e, newReq("GET", "/p"))
	vAssert(ran == want, "not every handler of a kept route ran")
}

// any mix of routes of several methods is kept whole: each one is served for its own path
func H_R05_kept() {
	pool := []string{"/", "/a", "/b", "/a/b", "/a/b/c", "/ab", "/a.b", "/aa/b", "/A", "/a/B"}
	r := water.NewRouter()
	type rt struct{ m, p string }
	var l []rt
	ran := -1
	n := vB(3, 4)
	for i := 0; i < n; i++ {
		i := i
		x := rt{allMethods[vChoose("m", 2)], pool[vChoose("p", len(pool))]}
		for _, o := range l {
			vAssume(o != x)
		}
		l = append(l, x)
		reg(r, x.m, x.p, func(*water.Context) { ran = i })
	}
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	for i, x := range l {
		ran = -1
		serve(e, newReq(x.m, x.p))
		vAssert(ran == i, "a registered route is not the one served for its own path")
		if x.p != "/" {
			ran = -1
			serve(e, newReq(x.m, x.p+"/"))
			vAssert(ran == i, "one trailing slash of the path matters")
		}
	}
	vReach("end")
}

// malformed segments are refused when the application is built
func H_R05_segments() {
	pool := []struct {
		p   string
		bad bool
	}{
		{"/<id", true}, {"/id>", true}, {"/x<id>", true}, {"/<id>x", true}, {"/<id ~ (a>", true}, {"/<a,b ~ (x)>", true}, {"/<a ~ (x)(y)>", true},
		{"/<id:int>", false}, {"/<id ~ ^(.+)$>", false}, {"/<a,b ~ (x)(y)>", false}, {"/<id:int ~ ^([0-9]+)$>", false},
		{"/<id ~ ^(.>b)$>", false}, {"/<id ~ ^([^<>]+)$>", false}, {"/<id ~ (?P<n>x+)>", false}, {"/<id ~ a~b|c:d>", false}, {"/< id , b ~ (x):(y) >", false},
		{"/<id ~ a()(b)>", true}, {"/<id ~ [z-a]>", true},
	}
	k := vChoose("p", len(pool))
	pre := []string{"", "/a", "/<q>", "/*"}[vChoose("pre", 4)]
	post := []string{"", "/b", "/*"}[vChoose("post", 3)]
	r := water.NewRouter()
	r.GET("/first", func(*water.Context) {})
	r.GET(pre+pool[k].p+post, func(*water.Context) {})
	_, panicked := catch(func() { r.Handler() })
	if pool[k].bad {
		vReach("refused")
		vAssert(panicked, "a malformed segment was accepted")
	} else {
		vReach("kept")
		vAssert(!panicked, "a well-formed segment was refused")
	}
}

// groups and routers without routes are no routes
func H_R05_empty() {
	r := water.NewRouter()
	ran := 0
	if vChoose("use", 2) == 1 {
		r.Use(func(*water.Context) {})
	}
	if vChoose("group", 2) == 1 {
		g := r.Group("/g")
		if vChoose("sub", 2) == 1 {
			g.Group("/h")
		}
	}
	has := vChoose("route", 2) == 1
	if has {
		r.GET("/p", func(*water.Context) { ran++ })
	}
	var e *water.Engine
	_, panicked := catch(func() { e = r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1)) })
	vAssert(!panicked, "a router without routes was refused")
	w := serve(e, newReq("GET", "/p"))
	if has {
		vAssert(ran == 1, "the route was not served")
	} else {
		vAssert(ran == 0 && w.status() == 404, "not answered 404")
	}
	vReach("end")
}

// only the root router builds applications and takes global middleware
func H_R05_root() {
	r := water.NewRouter()
	g := r.Group("/g")
	g.GET("/x", func(*water.Context) {})
	_, p := catch(func() { g.Handler() })
	vAssert(p, "a sub router built an application")
	if vChoose("deep", 2) == 1 {
		g = g.Group("/h")
	}
	_, p = catch(func() { g.Before(func(*water.Context) {}) })
	vAssert(p, "a sub router took global middleware")
	_, p = catch(func() { g.Classic() })
	vAssert(p, "a sub router took the classic middleware")
	_, p = catch(func() { g.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(vDir())}) })
	vAssert(p, "a sub router took a static file system")
	_, p = catch(func() { g.Static("/s", vDir()) })
	vAssert(p, "a sub router took a static directory")
	_, p = catch(func() { g.StaticFile("/f", vDir()+"/f") })
	vAssert(p, "a sub router took a static file")
	// the refused calls left nothing behind
	r.GET("/y", func(*water.Context) {})
	var e *water.Engine
	_, p = catch(func() { e = r.Handler() })
	vAssert(!p, "a router is refused after refused calls")
	for _, path := range []string{"/g/s/x", "/g/h/s/x", "/s/x", "/g/f", "/g/h/f", "/f"} {
		vAssert(serve(e, newReq("GET", path)).status() == 404, "a refused call registered a route")
	}
	vReach("end")
}

// two patterns of symbolic text: refused exactly when they denote the same pattern
func H_R05_text() {
	seg := func(name string) (written, canon string) {
		s := vStrOf(name, 1, 2, "ab:.")
		vAssume(s[0] != ':')
		switch vChoose("kind", 3) {
		case 1:
			vAssume(!strings.Contains(s, ":"))
			return ":" + s, "<" + s + ">"
		case 2:
			vAssume(!strings.Contains(s, ":"))
			return "<" + s + ">", "<" + s + ">"
		}
		return s, s
	}
	mk := func(name string) (string, string) {
		w, c := "", ""
		for i, n := 0, 1+vChoose("n", 2); i < n; i++ {
			x, y := seg(name)
			w, c = w+"/"+x, c+"/"+y
		}
		return w, c
	}
	p, cp := mk("p")
	q, cq := mk("q")
	ran := ""
	r := water.NewRouter()
	r.GET(p, func(*water.Context) { ran += "1" })
	if vChoose("between", 2) == 1 {
		r.GET("/zz", func(*water.Context) { ran += "z" })
	}
	r.GET(q, func(*water.Context) { ran += "2" })
	var e *water.Engine
	_, panicked := catch(func() { e = r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1)) })
	if cp == cq {
		vReach("refused")
		vAssert(panicked, "two routes that denote the same pattern were accepted")
		return
	}
	vReach("kept")
	vAssert(!panicked, "routes that denote different patterns were refused")
	if !strings.ContainsAny(cq, "<") {
		serve(e, newReq("GET", q))
		vAssert(ran == "2", "a registered literal route is not the one served for its own path")
		ran = ""
	}
	if !strings.ContainsAny(cp, "<") {
		serve(e, newReq("GET", p))
		vAssert(ran == "1", "a registered literal route is not the one served for its own path")
	}
}

// wildcards do not change what a well-formed pattern is
func H_R05_shape() {
	pool := []string{"a", "<x>", ":x", "*", "*x", "<x ~ ^([0-9]+)$>", "<x:int>"}
	p := []string{"", "/"}[vChoose("lead", 2)]
	valid := p == "/"
	for i, n := 0, 1+vChoose("n", vB(2, 3)); i < n; i++ {
		if i > 0 {
			p += "/"
		}
		p += pool[vChoose("seg", len(pool))]
	}
	if vChoose("trail", 2) == 1 {
		p, valid = p+"/", false
	}
	h := func(*water.Context) {}
	r := water.NewRouter()
	switch vChoose("how", 3) {
	case 0:
		reg(r, allMethods[vChoose("m", len(allMethods))], p, h)
	case 1:
		g := r.Group(p)
		g.POST("", h)
	case 2:
		g := r.Group("")
		g.Use(h)
		g.GET(p, h)
	}
	_, panicked := catch(func() { r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1)) })
	if valid {
		vReach("valid")
		vAssert(!panicked, "a well-formed pattern was refused")
	} else {
		vReach("invalid")
		vAssert(panicked, "a malformed pattern was accepted")
	}
}

// routes registered for any method conflict with those of each method they stand for, in either order
func H_R05_any() {
	pool := []string{"/a", "/:x", "/<y>", "/a/*"}
	i, j := vChoose("p", len(pool)), vChoose("q", len(pool))
	m := allMethods[vChoose("method", len(allMethods)+1)%len(allMethods)]
	two := vChoose("two", 2) == 1 // both for any method
	first := vChoose("first", 2) == 1
	more := vChoose("more", 2) == 1
	group := vChoose("group", 2) == 1
	r := water.NewRouter()
	h := func(*water.Context) {}
	in := r
	if group {
		in = r.Group("/g")
	}
	put := func() {
		if two {
			in.ANY(pool[j], h)
		} else if more {
			reg(in, m, pool[j], h, h)
		} else {
			reg(in, m, pool[j], h)
		}
	}
	if first {
		put()
	}
	in.ANY(pool[i], h)
	if !first {
		put()
	}
	_, panicked := catch(func() { r.Handler() })
	excluded := m == "HEAD" || m == "OPTIONS"
	if canonical(pool[i]) == canonical(pool[j]) && (two || !excluded) {
		vReach("refused")
		vAssert(panicked, "two routes that denote the same pattern were accepted")
		return
	}
	vReach("kept")
	vAssert(!panicked, "routes that denote different patterns were refused")
}
