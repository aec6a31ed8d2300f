package main

import "github.com/meilihao/water"

type answer struct {
	hit, runs int
	full      string
	params    water.Params
	status    int
	nstatus   int
}

func (a *app) answer(method, path string) answer {
	a.hit, a.runs, a.params, a.full = -1, 0, nil, ""
	w := serve(a.e, newReq(method, path))
	return answer{a.hit, a.runs, a.full, a.params, w.status(), len(w.statuses)}
}

func sameAnswer(x, y answer) {
	vAssert(x.hit == y.hit && x.runs == y.runs, "the static index changes which handlers run")
	vAssert(x.status == y.status && x.nstatus == y.nstatus, "the static index changes the status")
	vAssert(x.full == y.full, "the static index changes the reported route")
	vAssert(len(x.params) == len(y.params), "the static index changes the parameters")
	for k, v := range x.params {
		w, ok := y.params[k]
		vAssert(ok && v == w, "the static index changes the parameters")
	}
}

var r03tables = [][]mroute{
	{{lit("a")}, {lit("a"), lit("b")}, {hold("x")}, {hold("x"), lit("b")}},
	{{}, {lit("a")}, {all("f")}},
	{{lit("a"), lit("b")}, {lit("a"), hold("x")}, {lit("a")}, {all("")}},
	{{hold("x"), lit("b")}, {lit("b"), lit("b")}, {reDigits("n")}, {lit("b")}},
	{{lit("a"), reDigits("n"), lit("c")}, {lit("a"), lit("1"), lit("c")}, {lit("a"), lit("1")}},
	{{}, {hold("x")}, {lit("a"), all("r")}},
}

// every table, every history of up to two requests
func H_R03_histories() {
	rs := r03tables[vChoose("table", len(r03tables))]
	idx, plain := buildApp(rs, water.WithStaticRouter(true)), buildApp(rs)
	n := 2
	for i := 0; i < n; i++ {
		path := "/"
		switch vChoose("shape", 3) {
		case 0:
			path += vStr("s", 0, vB(2, 3))
		case 1:
			path += vStr("s", 0, 1) + "/" + vStr("t", 0, 1)
		case 2:
			path += "a/" + vStr("s", 0, 1) + "/" + vStrOf("t", 0, 1, "c/")
		}
		sameAnswer(idx.answer("GET", path), plain.answer("GET", path))
	}
	vReach("end")
}

// methods have separate indexes; not-found handlers and middleware are the same either way
func H_R03_methods() {
	type ap struct {
		e   *water.Engine
		log string
	}
	nf := vChoose("nf", 2) == 1
	mk := func(static bool) *ap {
		a := &ap{}
		rec := func(s string) func(*water.Context) { return func(c *water.Context) { a.log += s + c.FullPath() + ";" } }
		r := water.NewRouter()
		r.Before(rec("g"))
		r.Use(rec("u"))
		r.GET("/a", rec("ga"))
		r.POST("/a/b", rec("pb"))
		r.Group("/g", func(g *water.Router) {
			g.Use(rec("m"))
			g.GET("/a", rec("gga"))
			g.PUT("/<x>", rec("px"))
		})
		r.ANY("/any", rec("any"))
		r.HEAD("/<h>", rec("hh"))
		opts := []water.Option{water.WithStaticRouter(static)}
		if nf {
			opts = append(opts, water.WithNoFoundHandlers(rec("nf")))
		}
		a.e = r.Handler(opts...)
		return a
	}
	x, y := mk(true), mk(false)
	methods := []string{"GET", "POST", "PUT", "HEAD", "OPTIONS"}
	paths := []string{"/a", "/a/b", "/g/a", "/any", "/a/", "/g", "/g/c"}
	for i := 0; i < 2; i++ {
		m := methods[vChoose("m", len(methods))]
		var p string
		if i == 0 {
			p = paths[vChoose("p", len(paths))]
		} else {
			p = []string{"/a", "/g/a", "/any", "/g/a/"}[vChoose("p2", 4)]
			b := []byte(p)
			b[len(b)-1] = vByte("last")
			p = string(b)
		}
		w, v := serve(x.e, newReq(m, p)), serve(y.e, newReq(m, p))
		vAssert(x.log == y.log, "the static index changes which handlers run or the reported route")
		vAssert(w.status() == v.status() && len(w.statuses) == len(v.statuses), "the static index changes the status")
		x.log, y.log = "", ""
	}
	vReach("end")
}

// gin-style and deep literal patterns, long paths
func H_R03_spelling() {
	vNoise()
	mk := func(static bool) *app {
		a := &app{hit: -1}
		r := water.NewRouter()
		for i, p := range []string{"/a/:id", "/a/b", "/:x/b", "/a/b/c/d/e", "/static/*", "/Static", "/a/b/", "/héé"} {
			if p == "/a/b/" {
				continue
			}
			i := i
			r.GET(p, func(c *water.Context) {
				a.hit, a.params, a.full = i, c.Params, c.FullPath()
				a.runs++
			})
		}
		a.e = r.Handler(water.WithStaticRouter(static))
		return a
	}
	x, y := mk(true), mk(false)
	b := []byte([]string{"/a/b", "/a/b/c/d/e", "/Static", "/static/x", "/a/b/", "/héé", "//a/b", "/a/b//"}[vChoose("p", 8)])
	b[vChoose("pos", len(b))] = vByte("c")
	p := string(b)
	sameAnswer(x.answer("GET", p), y.answer("GET", p))
	sameAnswer(x.answer("GET", "/a/b"), y.answer("GET", "/a/b"))
	vReach("end")
}

// a path that spells a pattern is a path like any other
func H_R03_patterns() {
	pool := []seg{lit("a"), hold("x"), ginHold("x"), reDigits("n"), all(""), all("f")}
	n := 1 + vChoose("n", vB(3, 4))
	var r mroute
	for i := 0; i < n; i++ {
		r = append(r, pool[vChoose("seg", len(pool))])
	}
	for i := range r {
		for j := 0; j < i; j++ {
			vAssume(r[i].kind == kLit || r[i].text != r[j].text)
			vAssume(len(r[i].names) == 0 || len(r[j].names) == 0 || r[i].names[0] != r[j].names[0] || r[i].names[0] == "")
		}
	}
	rs := []mroute{r, {lit("b"), all("t")}}
	idx, plain := buildApp(rs, water.WithStaticRouter(true)), buildApp(rs)
	path := r.pattern()
	if vChoose("canonical", 2) == 1 {
		path = ""
		for _, x := range r {
			if x.kind == kHold {
				path += "/<" + x.names[0] + ">"
			} else {
				path += "/" + x.text
			}
		}
	}
	b := []byte(path)
	b[1+vChoose("pos", len(b)-1)] = vByte("byte")
	sameAnswer(idx.answer("GET", string(b)), plain.answer("GET", string(b)))
	vReach("end")
}

// literal routes of any two methods, a request of any method
func H_R03_cross() {
	crossMethods(func(with, without *counter, m, path, m1, m2 string) {
		vAssert(eqStrs(with.log, without.log), "the static index changes which handlers run")
	})
}

// what a handler or a middleware does with the request is the same on either way: params read, added and listed,
// environment, route name, redirects
func H_R03_handlers() {
	kind := vChoose("kind", 6)
	early := vChoose("early", 2) == 1
	name, val := vStr("name", 0, 1), vStr("val", 0, 1)
	mk := func(static bool) (*water.Engine, *string) {
		log := ""
		do := func(c *water.Context) {
			switch kind {
			case 0:
				c.Params[name] = val
				log += "w" + c.Param(name)
			case 1:
				log += "r" + c.Param(name)
			case 2:
				for k, v := range c.Params {
					log += "l" + k + "=" + v
				}
			case 3:
				c.Environ.Set(name, val)
				log += "e" + c.Environ.GetString(name)
			case 4:
				log += "f" + c.FullPath()
			case 5:
				delete(c.Params, name)
				log += "d" + num(len(c.Params))
			}
		}
		r := water.NewRouter()
		r.Use(water.Recovery())
		if early {
			r.Use(do)
		}
		h := func(c *water.Context) {
			if !early {
				do(c)
			}
			c.String(200, log)
		}
		r.GET("/a", h)
		r.GET("/a/b", h)
		r.GET("/<x>", h)
		return r.Handler(water.WithStaticRouter(static)), &log
	}
	x, xl := mk(true)
	y, yl := mk(false)
	for i := 0; i < 2; i++ {
		p := "/" + vStrOf("p", 1, 1, "ab")
		if vChoose("deep", 2) == 1 {
			p += "/b"
		}
		w, v := serve(x, newReq("GET", p)), serve(y, newReq("GET", p))
		vAssert(*xl == *yl, "the static index changes what a handler sees of the request")
		vAssert(w.status() == v.status() && (w.status() == 500 || string(w.body) == string(v.body)), "the static index changes the response")
	}
	vReach("end")
}
