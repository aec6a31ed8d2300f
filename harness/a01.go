package main

import (
	"io"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

// several applications in one process: what one answers depends on its own routes, middleware and options alone

const msgApps = "an application is influenced by another one"

// aApp is an application with its own table, options and middleware; what runs is recorded in ran
type aApp struct {
	rs   []mroute
	e    *water.Engine
	pre  string // its own global middleware
	nf   string // its own not-found handler, if any
	ran  string
	full string
	p    water.Params
}

func (a *aApp) note(s string) func(*water.Context) {
	return func(c *water.Context) {
		a.ran += s
		a.full, a.p = c.FullPath(), c.Params
	}
}

func (a *aApp) router() *water.Router {
	r := water.NewRouter()
	for _, m := range a.pre {
		r.Before(a.note(string(m)))
	}
	for i := range a.rs {
		f := a.note(string(rune('0' + i)))
		r.GET(a.rs[i].pattern(), func(c *water.Context) { f(c); c.WriteHeader(299) })
	}
	return r
}

func (a *aApp) build(static bool) {
	opts := []water.Option{water.WithStaticRouter(static)}
	if a.nf != "" {
		f := a.note(a.nf)
		opts = append(opts, water.WithNoFoundHandlers(func(c *water.Context) { f(c); c.WriteHeader(298) }))
	}
	a.e = a.router().Handler(opts...)
}

// check serves a request and judges it by the application's own routes
func (a *aApp) check(path string) {
	a.ran, a.full, a.p = "", "", nil
	want, bs := refRoute(a.rs, path)
	w := serve(a.e, newReq("GET", path))
	switch {
	case want >= 0:
		vAssert(w.status() == 299 && a.ran == a.pre+string(rune('0'+want)), msgApps)
		vAssert(a.full == a.rs[want].pattern(), msgApps)
		vAssert(len(a.p) == len(bs), msgApps)
		for _, b := range bs {
			vAssert(a.p[b.k] == b.v, msgApps)
		}
	case a.nf != "":
		vAssert(w.status() == 298 && a.ran == a.pre+a.nf, msgApps)
	default:
		vAssert(w.status() == 404 && a.ran == "", msgApps)
	}
	post := serve(a.e, newReq("POST", path))
	if a.nf != "" {
		vAssert(post.status() == 298, msgApps)
	} else {
		vAssert(post.status() == 404, msgApps)
	}
}

var a01tables = [][]mroute{
	{{lit("a")}, {hold("x")}, {hold("x"), lit("b")}},
	{{lit("a"), lit("b")}, {hold("y")}, {all("f")}},
	{{reDigits("n")}, {lit("a")}, {lit("b"), hold("n")}},
	{{reAlt("k"), lit("b")}, {lit("b")}},
}

func a01path(name string) string {
	switch vChoose(name+"shape", 3) {
	case 0:
		return "/" + vStr(name, 1, 1)
	case 1:
		return "/" + vStr(name, 1, 1) + "/b"
	}
	return "/" + []string{"a", "b", "7"}[vChoose(name+"first", 3)] + "/" + vStr(name, 1, 1)
}

// two applications with tables that overlap, built and used in any order
func H_A01_pair() {
	t := [][2]int{{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 2}, {1, 3}}[vChoose("tables", vB(4, 6))]
	a := &aApp{rs: a01tables[t[0]], pre: "m"}
	b := &aApp{rs: a01tables[t[1]]}
	if vChoose("nfA", 2) == 1 {
		a.nf = "N"
	}
	if vChoose("nfB", 2) == 1 {
		b.nf, b.pre = "M", "kl"
	}
	sa := vChoose("staticA", 2) == 1
	p, q := a01path("p"), a01path("q")
	switch vChoose("order", 3) {
	case 0: // B is built and used between A's requests
		a.build(sa)
		a.check(p)
		b.build(!sa)
		b.check(q)
		a.check(p)
	case 1:
		a.build(sa)
		b.build(!sa)
		b.check(q)
		a.check(p)
		b.check(p)
	case 2: // A is built although B is in use
		b.build(!sa)
		b.check(p)
		a.build(sa)
		a.check(p)
		b.check(q)
	}
	vReach("end")
}

// one router built twice, with other options and more routes the second time: the first application stays as it was
func H_A01_rebuild() {
	t := vChoose("table", len(a01tables))
	a := &aApp{rs: a01tables[t]}
	n := 1 + vChoose("n", len(a.rs)-1) // the first application has only these
	full := a.rs
	a.rs = full[:n]
	pre := vChoose("pre", 2)
	if pre == 1 {
		a.pre = "m"
	}
	r := a.router()
	opt := func(nf int) []water.Option {
		if nf == 0 {
			return nil
		}
		f := a.note("N")
		return []water.Option{water.WithNoFoundHandlers(func(c *water.Context) { f(c); c.WriteHeader(298) }), water.WithStaticRouter(true)}
	}
	nf1, nf2 := vChoose("nf1", 2), vChoose("nf2", 2)
	if nf1 == 1 {
		a.nf = "N"
	}
	a.e = r.Handler(opt(nf1)...)
	p := a01path("p")
	if vChoose("early", 2) == 1 {
		a.check(p)
	}
	b := &aApp{rs: full[:n], pre: a.pre}
	add := vChoose("add", 2) == 1
	if add {
		b.rs = full
		for i := n; i < len(full); i++ {
			f := a.note(string(rune('0' + i)))
			r.GET(full[i].pattern(), func(c *water.Context) { f(c); c.WriteHeader(299) })
		}
	}
	e2 := r.Handler(opt(nf2)...)
	a.check(p)
	a.e, a.rs, a.nf = e2, b.rs, ""
	if nf2 == 1 {
		a.nf = "N"
	}
	a.check(p)
	vReach("end")
}

// middleware, handlers, option values and groups' functions shared between applications
func H_A01_shared() {
	log := ""
	step := func(s string) func(*water.Context) { return func(*water.Context) { log += s } }
	nf := water.WithNoFoundHandlers(step("N"), func(c *water.Context) { log += "n"; c.WriteHeader(404) })
	mws := append(make([]interface{}, 0, 8), step("1"), step("2"))
	hs := append(make([]interface{}, 0, 8), step("3"), func(c *water.Context) { log += "4"; c.WriteHeader(200) })
	plug := func(own string) func(*water.Router) {
		return func(r *water.Router) {
			r.Use(step(own))
			r.GET("/s", hs...)
		}
	}
	mk := func(own string, before int, use int) *water.Engine {
		r := water.NewRouter()
		if before > 0 {
			r.Before(mws[:before]...)
		}
		r.Before(step(own))
		if use > 0 {
			r.Use(mws[:use]...)
			r.Use(step(own))
		}
		r.GET("/<x>", hs...)
		r.Group("/g", plug(own))
		return r.Handler(nf)
	}
	b1, b2, u1, u2 := vChoose("b1", 3), vChoose("b2", 3), vChoose("u1", 3), vChoose("u2", 3)
	e1 := mk("A", b1, u1)
	e2 := mk("B", b2, u2)
	want := func(own string, before, use int, kind int) string {
		s := "12"[:before] + own
		if kind == 0 {
			return s + "Nn"
		}
		if use > 0 {
			s += "12"[:use] + own
		}
		if kind == 2 {
			s += own
		}
		return s + "34"
	}
	seg := vStr("seg", 1, 1)
	vAssume(seg[0] != '/')
	kind := vChoose("kind", 3)
	path := []string{"/" + seg + "/" + seg, "/" + seg, "/g/s"}[kind]
	if kind == 0 {
		vAssume(vNot(vAnd(seg[0] == 'g', seg[0] == 's')))
	}
	order := vChoose("order", 2)
	for i := 0; i < 3; i++ {
		log = ""
		if i%2 == order {
			serve(e1, newReq("GET", path))
			vAssert(log == want("A", b1, u1, kind), msgApps)
		} else {
			serve(e2, newReq("GET", path))
			vAssert(log == want("B", b2, u2, kind), msgApps)
		}
	}
	vReach("end")
}

// one application inside another: mounted below a prefix, or asked by a handler; each answers as it does alone
func H_A01_nested() {
	inner := func() *water.Engine {
		r := water.NewRouter()
		r.Use(func(c *water.Context) {
			vAssert(c.Environ["k"] == nil && len(c.Environ) == 0, msgApps)
			c.Set("k", "inner")
			c.Next()
		})
		r.GET("/b/<y>", func(c *water.Context) {
			c.SetHeader("X-In", c.Params["y"]+c.Params["x"]+c.Query("q"))
			c.String(201, c.FullPath()+"|"+c.Params["y"]+"|"+c.Environ.GetString("k"))
		})
		reg(r, "POST", "/b/<y>", func(c *water.Context) {
			b, err := c.BodyString()
			vAssert(err == nil, msgApps)
			c.String(202, b)
		})
		if vChoose("nf", 2) == 1 {
			return r.Handler(water.WithNoFoundHandlers(func(c *water.Context) { c.String(404, "none") }))
		}
		return r.Handler()
	}()
	m := []string{"GET", "POST", "PUT"}[vChoose("m", 3)]
	path := []string{"/b/" + vStr("s", 1, vB(1, 2)), "/b", "/b/x/y"}[vChoose("path", 3)]
	mkReq := func() *http.Request {
		q := newReq(m, path)
		q.URL.RawQuery = "q=1"
		if m == "POST" {
			q.Body = io.NopCloser(strings.NewReader("data"))
		}
		return q
	}
	alone := serve(inner, mkReq())
	how := vChoose("how", 3)
	r := water.NewRouter()
	var got *rec
	after := ""
	h := func(c *water.Context) {
		c.Set("k", "outer")
		x, full := c.Params["x"], c.FullPath()
		switch how {
		case 0: // the response goes out through the outer context
			inner.ServeHTTP(c, c.Request)
			vAssert(c.Written() && c.Status() == alone.status(), msgApps)
		case 1: // or elsewhere
			got = serve(inner, mkReq())
		}
		vAssert(c.Params["x"] == x && c.FullPath() == full && c.Environ.GetString("k") == "outer", msgApps)
		after = "after"
	}
	for _, mm := range []string{"GET", "POST", "PUT"} {
		if how == 2 { // as the handler itself
			reg(r, mm, "/<x>", inner)
			reg(r, mm, "/<x>/<*>", inner)
		} else {
			reg(r, mm, "/<x>", h)
			reg(r, mm, "/<x>/<*>", h)
		}
	}
	outer := r.Handler()
	w := serve(outer, mkReq())
	if how == 1 {
		vAssert(after != "", msgApps)
		w = got
	}
	vAssert(w.status() == alone.status() && string(w.body) == string(alone.body) && len(w.statuses) == len(alone.statuses), msgApps)
	vAssert(eqStrs(w.sent["X-In"], alone.sent["X-In"]) && eqStrs(w.sent["Content-Type"], alone.sent["Content-Type"]), msgApps)
	again := serve(inner, mkReq())
	vAssert(again.status() == alone.status() && string(again.body) == string(alone.body), msgApps)
	vReach("end")
}

// the settings a middleware was made with stay its own
func H_A01_settings() {
	orig := vStrOf("o", 1, 2, "ab")
	conf := func(k int) water.CORSConfig {
		switch k {
		case 0:
			return water.CORSConfig{}
		case 1:
			return water.CORSConfig{AllowOrigins: []string{"ab"}, AllowMethods: []string{"PUT"}, AllowCredentials: true}
		}
		return water.CORSConfig{AllowOrigins: []string{"b", "a"}, AllowHeaders: []string{"X-H"}, ExposeHeaders: []string{"X-E"}, MaxAge: 5}
	}
	mk := func(k int) *water.Engine {
		r := water.NewRouter()
		r.Use(water.CORS(conf(k)))
		r.GET("/", func(c *water.Context) { c.WriteHeader(200) })
		r.OPTIONS("/", func(c *water.Context) { c.WriteHeader(200) })
		return r.Handler()
	}
	check := func(e *water.Engine, k int) {
		pre := vChoose("pre", 2) == 1
		q := newReq([]string{"GET", "OPTIONS"}[map[bool]int{true: 1}[pre]], "/")
		q.Header["Origin"] = []string{orig}
		w := serve(e, q)
		allow := ""
		switch {
		case k == 0:
			allow = "*"
		case k == 1 && orig == "ab", k == 2 && len(orig) == 1:
			allow = orig
		}
		vAssert(w.sent.Get("Access-Control-Allow-Origin") == allow, msgApps)
		vAssert((w.sent.Get("Access-Control-Allow-Credentials") != "") == (k == 1), msgApps)
		if pre {
			ms := w.sent.Get("Access-Control-Allow-Methods")
			vAssert(strings.Contains(ms, "PUT") && (strings.Contains(ms, "DELETE") == (k != 1)), msgApps)
			vAssert((w.sent.Get("Access-Control-Allow-Headers") == "X-H") == (k == 2), msgApps)
			vAssert((w.sent.Get("Access-Control-Max-Age") == "5") == (k == 2), msgApps)
		} else {
			vAssert((w.sent.Get("Access-Control-Expose-Headers") == "X-E") == (k == 2), msgApps)
		}
	}
	k1, k2 := vChoose("k1", 3), vChoose("k2", 3)
	e1 := mk(k1)
	if vChoose("use", 2) == 1 {
		check(e1, k1)
	}
	e2 := mk(k2)
	check(e1, k1)
	check(e2, k2)
	check(e1, k1)
	vReach("end")
}
