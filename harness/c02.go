package main

import (
	"net/http"

	"github.com/meilihao/water"
)

// every configuration of middleware and not-found handlers, every path
func H_C02_notfound() {
	vNoise()
	log := ""
	rec := func(s string) func(*water.Context) { return func(c *water.Context) { log += s } }
	r := water.NewRouter()
	ng := vChoose("befores", 3)
	want404, wantA, wantG := "", "", ""
	for i := 0; i < ng; i++ {
		n := string(rune('0' + i))
		r.Before(rec(n))
		want404 += n
		wantA += n
		wantG += n
	}
	r.Use(rec("u"))
	r.GET("/a", rec("a"))
	r.Group("/g", rec("m"), func(g *water.Router) { g.GET("/<x>", rec("x")) })
	r.POST("/p", rec("p"))
	wantA += "ua"
	wantG += "umx"
	nn := vChoose("nf", 3)
	opts := []water.Option{water.WithStaticRouter(vChoose("static", 2) == 1)}
	wr := -1 // the not-found handler that writes
	if nn > 0 {
		wr = vChoose("writer", nn+1) - 1
		var hs []interface{}
		for i := 0; i < nn; i++ {
			i := i
			n := string(rune('n' + i))
			if i == 1 {
				hs = append(hs, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
					log += n
					if wr == i {
						w.WriteHeader(404 + i)
					}
				}))
			} else {
				hs = append(hs, func(c *water.Context) {
					log += n
					vAssert(c.FullPath() == "", "an unmatched request reports a matched route")
					if wr == i {
						c.WriteHeader(404 + i)
					}
				})
			}
			if wr < 0 || i <= wr {
				want404 += n
			}
		}
		opts = append(opts, water.WithNoFoundHandlers(hs...))
	} else {
		want404 = ""
	}
	e := r.Handler(opts...)
	path := "/" + vStr("s", 0, 1)
	if vChoose("two", 2) == 1 {
		path += "/" + vStr("t", 0, 1)
	}
	for i := 1; i < len(path); i++ {
		_ = i
	}
	segs := pathSegs(path)
	w := serve(e, newReq("GET", path))
	switch {
	case len(segs) == 1 && segs[0] == "a":
		vReach("a")
		vAssert(log == wantA, "a matched request does not run its chain alone")
	case len(segs) == 2 && segs[0] == "g":
		vReach("g")
		vAssert(log == wantG, "a matched request does not run its chain alone")
	default:
		vReach("nf")
		vAssert(log == want404, "an unmatched request does not run exactly the global middleware and the not-found handlers")
		if nn == 0 {
			vAssert(len(w.statuses) == 1 && w.status() == 404, "an unmatched request is not answered 404")
			vAssert(len(w.body) == 0, "the default not-found answer has a body")
		} else if wr >= 0 {
			vAssert(len(w.statuses) == 1 && w.status() == 404+wr, "the not-found handlers' status is lost")
		} else {
			vAssert(len(w.statuses) == 0, "a status was committed although no handler wrote one")
		}
	}
}

// methods without any route, applications without routes, not-found handlers shared by all methods
func H_C02_methods() {
	vNoise()
	log := ""
	rec := func(s string) func(*water.Context) { return func(c *water.Context) { log += s } }
	r := water.NewRouter()
	r.Before(rec("b"))
	r.Use(rec("u"))
	have := vChoose("routes", 3)
	if have > 0 {
		r.POST("/a", rec("a"))
	}
	if have > 1 {
		r.ANY("/any", rec("y"))
	}
	nf := vChoose("nf", 2) == 1
	opts := []water.Option{water.WithStaticRouter(vChoose("static", 2) == 1)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(rec("n")))
	}
	e := r.Handler(opts...)
	m := allMethods[vChoose("m", len(allMethods))]
	b := []byte([]string{"/a", "/any", "/"}[vChoose("p", 3)])
	if len(b) > 1 {
		b[1] = vByte("c")
	}
	path := string(b)
	w := serve(e, newReq(m, path))
	want := ""
	switch {
	case have > 0 && m == "POST" && (path == "/a" || path == "/a/"):
		want = "bua"
	case have > 1 && m != "HEAD" && m != "OPTIONS" && path == "/any":
		want = "buy"
	case nf:
		want = "bn"
	}
	vAssert(log == want, "an unmatched request does not run exactly the global middleware and the not-found handlers")
	if want == "" {
		vAssert(len(w.statuses) == 1 && w.status() == 404, "an unmatched request is not answered 404")
	}
	vReach("end")
}

// the not-found chain stays the same when the option is applied to several applications or built twice
func H_C02_shared() {
	log := ""
	rec := func(s string) func(*water.Context) { return func(c *water.Context) { log += s } }
	nf := water.WithNoFoundHandlers(rec("n"), rec("m"))
	mk := func(g string, k int) *water.Engine {
		r := water.NewRouter()
		for i := 0; i < k; i++ {
			r.Before(rec(g))
		}
		r.GET("/a", rec("a"))
		return r.Handler(nf)
	}
	k1, k2 := vChoose("k1", 3), vChoose("k2", 3)
	e1, e2 := mk("x", k1), mk("y", k2)
	p := "/" + vStr("s", 1, 2)
	vAssume(p != "/a" && p != "/a/")
	for i := 0; i < 2; i++ {
		log = ""
		serve(e1, newReq("GET", p))
		vAssert(log == "xx"[:k1]+"nm", "an unmatched request does not run exactly the global middleware and the not-found handlers")
		log = ""
		serve(e2, newReq("GET", p))
		vAssert(log == "yy"[:k2]+"nm", "an unmatched request does not run exactly the global middleware and the not-found handlers")
	}
	vReach("end")
}
