package main

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// The same guarantees at sizes well beyond the other harnesses': many routes, segments, handlers, values, long texts.
// Shapes are concrete, the positions that matter and the bytes at them are symbolic.

func num(i int) string { return strconv.Itoa(i) }

// bigTable: 49 routes of all kinds, with shared prefixes of up to seven segments
func bigTable() []mroute {
	var rs []mroute
	for i := 0; i < 12; i++ {
		rs = append(rs, mroute{lit("r" + num(i))})
	}
	for i := 0; i < 8; i++ {
		rs = append(rs, mroute{lit("api"), lit("v" + num(i)), hold("id")})
	}
	for i := 0; i < 6; i++ {
		rs = append(rs, mroute{lit("api"), lit("v1"), hold("id"), lit("k" + num(i))})
	}
	api, v1, v2, id := lit("api"), lit("v1"), lit("v2"), hold("id")
	rs = append(rs,
		mroute{api, v1, reDigits("n")}, mroute{api, v1, id, lit("k2"), hold("sub")}, mroute{api, v1, id, lit("k2"), reDigits("n"), lit("end")},
		mroute{api, v1, id, lit("k2"), hold("sub"), lit("end"), hold("x")}, mroute{api, v2, all("")}, mroute{api, v2, id, lit("y")},
		mroute{api, hold("ver"), id, lit("k9")}, mroute{api, hold("ver"), all("rest")}, mroute{hold("top"), v1, lit("a")}, mroute{hold("top"), v1, hold("b"), lit("c"), hold("d"), lit("e"), hold("f")},
		mroute{lit("f"), all("")}, mroute{lit("f"), lit("a"), lit("b"), lit("c"), lit("d"), lit("e"), lit("f")}, mroute{lit("f"), lit("a"), lit("b"), lit("c"), lit("d"), hold("e"), all("g")},
	)
	for i := 0; i < 6; i++ {
		rs = append(rs, mroute{lit("deep"), lit("d" + num(i)), hold("a"), lit("x"), hold("b"), lit("z" + num(i))})
	}
	for i := 0; i < 4; i++ {
		rs = append(rs, mroute{lit("p" + num(i)), all("w" + num(i))})
	}
	return rs
}

func bigPath() string {
	one := func() string { return vStrOf("s", 1, 2, "1ak") }
	p := ""
	switch vChoose("path", 8) {
	case 0:
		p = "/" + []string{"r1", "r11", "p3", "zz", "deep", "api"}[vChoose("r", 6)]
		if vChoose("more", 2) == 1 {
			p += one()
		}
	case 1:
		p = "/api/" + []string{"v1", "v7", "v8", "v2"}[vChoose("v", 4)] + "/" + one()
	case 2:
		p = "/api/" + []string{"v1", "v3", "v2"}[vChoose("v", 3)] + "/" + one() + "/" + []string{"k2", "k9", "y", "k5"}[vChoose("k", 4)]
	case 3:
		p = "/api/v1/7/k2/" + one()
		for i, n := 0, vChoose("n", 4); i < n; i++ {
			p += []string{"/end", "/e", "/end"}[i]
		}
	case 4:
		p = "/" + []string{"t", "api", "f", "r3", "deep"}[vChoose("t", 5)] + "/v1/" + one() + "/c/" + one() + "/e/f"
	case 5:
		p = "/f/a/b/c/d"
		for i, n := 0, vChoose("n", 4); i < n; i++ {
			p += "/" + []string{"e", "f", one()}[i]
		}
	case 6:
		p = "/deep/d" + num(vChoose("d", 7)) + "/" + one() + "/x/q/z" + num(vChoose("z", 7))
	case 7:
		p = "/p" + num(vChoose("p", 5))
		for i := 0; i < 9; i++ {
			p += "/" + num(i)
		}
	}
	if vChoose("slash", 2) == 1 {
		p += "/"
	}
	return p
}

// a large application: 49 routes, up to ten segments
func H_R01_scale() {
	checkRoute(bigTable(), bigPath())
}

// one level of 150 literal routes, 40 regular expressions, placeholders and catch-alls, any of which may fail later
func H_R01_wide() {
	var rs []mroute
	for i := 0; i < 150; i++ {
		rs = append(rs, mroute{lit("s" + num(i)), lit("x")})
	}
	for i := 0; i < 40; i++ {
		i := i
		rs = append(rs, mroute{seg{text: "<r" + num(i) + " ~ ^s" + num(i) + "$>", kind: kRe, names: []string{"r" + num(i)}, re: func(t string) []string {
			if t == "s"+num(i) {
				return []string{t}
			}
			return nil
		}}, lit("y")})
	}
	for i := 0; i < 20; i++ {
		rs = append(rs, mroute{hold("h" + num(i)), lit("z" + num(i))})
	}
	for i := 0; i < 20; i++ {
		rs = append(rs, mroute{all("a" + num(i)), lit("w" + num(i))})
	}
	p := "/s" + []string{"0", "1", "15", "16", "31", "38", "39", "40", "63", "64", "127", "128", "148", "149", "150"}[vChoose("i", 15)]
	switch vChoose("second", 5) {
	case 0:
		p += "/" + vStr("s", 1, 1)
	case 1:
		p += "/z" + num(vConcInt(vInt("z", 0, 20)))
	case 2:
		p += "/w" + num(vConcInt(vInt("w", 0, 20)))
	case 3:
		p += vStr("c", 1, 1) + "/x"
	}
	checkRoute(rs, p)
}

// the parameters of a route of a large application
func H_R02_scale() {
	rs := bigTable()
	path := bigPath()
	a := buildApp(rs, water.WithStaticRouter(vChoose("static", 2) == 1))
	want, bs := refRoute(rs, path)
	a.get(path)
	if want < 0 || a.hit != want {
		return
	}
	vReach("matched")
	checkParams(a.params, bs, "")
}

// twelve parameters in one route
func H_R02_params() {
	p, path := "", ""
	var want []binding_
	k := vChoose("sym", 12)
	for i := 0; i < 12; i++ {
		v := "v" + num(i)
		if i == k {
			v = vStr("v", 1, 2)
			for j := 0; j < len(v); j++ {
				vAssume(v[j] != '/')
			}
		}
		if i%3 == 0 {
			p += "/:a" + num(i)
		} else {
			p += "/<a" + num(i) + ">"
		}
		path += "/" + v
		want = append(want, binding_{"a" + num(i), v})
	}
	tail := vChoose("tail", 2) == 1
	if tail {
		p, path = p+"/*rest", path+"/x/y/z"
		want = append(want, binding_{"rest", "x/y/z"})
	}
	r := water.NewRouter()
	ran := 0
	r.GET(p, func(c *water.Context) {
		ran++
		checkParams(c.Params, want, "")
	})
	serve(r.Handler(), newReq("GET", path))
	vAssert(ran == 1, "no handler ran although a route matches the path")
	vReach("end")
}

// many catch-alls in one route, named or not
func H_R02_globs() {
	n := []int{9, 10, 11, 12, 17}[vChoose("n", 5)]
	named := vChoose("named", 3)
	k := vConcInt(vInt("k", 0, n-1))
	var r mroute
	path := ""
	for i := 0; i < n; i++ {
		nm := ""
		if named == 1 && i == k || named == 2 && i != k {
			nm = "g" + num(i)
		}
		r = append(r, all(nm))
		s := "v" + num(i)
		if i == k {
			s = vStr("v", 1, 1)
			vAssume(s != "/")
		}
		path += "/" + s
	}
	if vChoose("more", 2) == 1 {
		path += "/more/and/more"
	}
	a := buildApp([]mroute{r})
	want, bs := refRoute([]mroute{r}, path)
	a.get(path)
	vAssert(want == 0 && a.hit == 0, "no handler ran although a route matches the path")
	checkParams(a.params, bs, "")
	vReach("end")
}

// the static index of a large application
func H_R03_scale() {
	rs := bigTable()
	path := bigPath()
	x, y := buildApp(rs), buildApp(rs, water.WithStaticRouter(true))
	w1, w2 := x.get(path), y.get(path)
	vAssert(x.hit == y.hit && x.runs == y.runs && w1.status() == w2.status() && x.full == y.full, "the static-route index changes the route served")
	vAssert(len(x.params) == len(y.params), "the static-route index changes the parameters")
	for _, b := range []string{"id", "n", "sub", "x", "ver", "rest", "top", "*0", "g", "w3"} {
		vAssert(x.params[b] == y.params[b], "the static-route index changes the parameters")
	}
	vReach("end")
}

// one duplicate anywhere in a large application
func H_R05_scale() {
	rs := bigTable()
	i, j := vConcInt(vInt("i", 0, len(rs)-1)), vChoose("at", 4)*len(rs)/3
	same := vChoose("same", 2) == 1
	r := water.NewRouter()
	h := func(*water.Context) {}
	for k, n := 0, vChoose("more", 2)*300; k < n; k++ { // many others, first
		r.GET("/more/"+num(k), h)
	}
	grp := r.Group("/api")
	for k := 0; k <= len(rs); k++ {
		if k == j {
			m := "POST"
			if same {
				m = "GET"
			}
			reg(r, m, rs[i].pattern(), h)
		}
		if k < len(rs) {
			if p := rs[k].pattern(); k%2 == 1 && strings.HasPrefix(p, "/api/") {
				grp.GET(p[4:], h)
			} else {
				r.GET(p, h)
			}
		}
	}
	_, panicked := catch(func() { r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1)) })
	if same {
		vAssert(panicked, "two routes that denote the same pattern were accepted")
	} else {
		vAssert(!panicked, "routes that denote different patterns were refused")
	}
	vReach("end")
}

// both spellings in long patterns
func H_R06_scale() {
	n := []int{7, 8, 9, 12, 16, 20, 33}[vChoose("n", 7)]
	k := vConcInt(vInt("k", 0, n-1))
	gin := vChoose("gin", 2) == 1
	var p, q, full, path string
	for i := 0; i < n; i++ {
		nm := "p" + num(i)
		p += "/<" + nm + ">"
		full += "/" + nm
		if (i == k) == gin {
			q += "/:" + nm
		} else {
			q += "/<" + nm + ">"
		}
		path += "/" + num(i)
	}
	var p1, p2 water.Params
	var f1, f2 string
	r1, r2 := water.NewRouter(), water.NewRouter()
	r1.GET(p, func(c *water.Context) { p1, f1 = c.Params, c.FullPath() })
	if vChoose("group", 2) == 1 {
		i := strings.LastIndexByte(q, '/')
		r2.Group(q[:i]).GET(q[i:], func(c *water.Context) { p2, f2 = c.Params, c.FullPath() })
	} else {
		r2.GET(q, func(c *water.Context) { p2, f2 = c.Params, c.FullPath() })
	}
	path += vStr("tail", 0, 1)
	vAssume(path[len(path)-1] != '/')
	serve(r1.Handler(), newReq("GET", path))
	serve(r2.Handler(), newReq("GET", path))
	vAssert(len(p1) == n && len(p2) == n, "the two spellings bind different parameters")
	for i := 0; i < n; i++ {
		vAssert(p1["p"+num(i)] == p2["p"+num(i)], "the two spellings bind different parameters")
	}
	vAssert(f1 == p && f2 == q, "the reported route is not the pattern as written")
	vReach("end")
}

// chains of hundreds of handlers, one of which writes or continues
func H_X01_scale() {
	n := []int{63, 64, 65, 127, 128, 129, 255, 257, 300}[vChoose("n", 9)]
	at := []int{0, 1, n / 2, n - 2, n - 1}[vChoose("at", 5)]
	split := []int{0, n / 2, n}[vChoose("split", 3)]
	op := vChoose("op", 3)
	ran, back := 0, false
	r := water.NewRouter()
	own := []interface{}{}
	for i := 0; i < n; i++ {
		i := i
		h := func(c *water.Context) {
			vAssert(ran == i, "handlers do not start in chain order")
			ran++
			if i == at && op == 1 {
				c.WriteHeader(201)
			}
			if i == at && op == 2 {
				c.Next()
				vAssert(ran == n, "a continue returns before all later handlers ran although nothing was written")
				back = true
			}
		}
		if i < split {
			r.Use(h)
		} else {
			own = append(own, h)
		}
	}
	if split == n {
		own = append(own, func(c *water.Context) { ran++ })
		n++
	}
	r.GET("/", own...)
	serve(r.Handler(), newReq("GET", "/"))
	if op == 1 {
		vAssert(ran == at+1, "a handler is started without a continue although the response is written")
	} else {
		vAssert(ran == n && back == (op == 2), "nobody wrote but a handler did not run")
	}
	vReach("end")
}

// six nested groups with middleware at any levels
func H_C01_scale() {
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	g := t.root
	for i := 0; i < 6; i++ {
		n := &mgrp{parent: g, pat: "/g" + num(i), r: g.r.Group("/g" + num(i))}
		for j, k := 0, vChoose("mw", 2)*3; j < k; j++ {
			h, id := t.handler()
			n.r.Use(h)
			n.mw = append(n.mw, id)
		}
		t.route(n, "GET", "/x", 1)
		t.route(n, "POST", "/<y>", 2)
		g = n
	}
	for i := 0; i < 9; i++ {
		t.route(g, "GET", "/e"+num(i), 1+i)
	}
	h, id := t.handler()
	t.root.r.Use(h)
	t.root.mw = append(t.root.mw, id)
	if vChoose("before", 2) == 1 {
		h, id := t.handler()
		t.root.r.Before(h)
		t.befores = append(t.befores, id)
	}
	t.check()
	vReach("end")
}

// a long not-found chain behind much middleware
func H_C02_scale() {
	n, stop := vChoose("n", 13), vChoose("stop", 13)
	log := 0
	r := water.NewRouter()
	mk := func(i int) func(*water.Context) {
		return func(c *water.Context) {
			vAssert(log == i, "the not-found chain is not run in order")
			log++
			if i == stop {
				c.String(418, "stop")
			}
		}
	}
	g := []int{4, 1, 9, 17, 40}[vChoose("global", 5)]
	for i := 0; i < g; i++ {
		r.Before(mk(i))
	}
	r.Use(func(*water.Context) { vFail("route middleware runs for an unmatched request") })
	r.GET("/a", func(*water.Context) {})
	var opts []water.Option
	var nf []interface{}
	for i := 0; i < n; i++ {
		nf = append(nf, mk(g+i))
	}
	if n > 0 {
		opts = append(opts, water.WithNoFoundHandlers(nf...))
	}
	w := serve(r.Handler(opts...), newReq("GET", "/none"))
	if n == 0 {
		return // C02's other harnesses
	}
	want := g + n
	if stop < want {
		want = stop + 1
		vAssert(w.status() == 418, "the response of the not-found chain is not delivered")
	}
	vAssert(log == want, "the not-found chain is not run exactly")
	vReach("end")
}

// bodies larger than every buffer on the way
func H_X03_scale() {
	n := []int{500, 513, 4096, 33000, 70000, 1<<20 + 5}[vChoose("n", vB(5, 6))]
	body := strings.Repeat("x", n) + vStr("tail", 1, 1)
	code := vInt("code", 200, 599)
	vAssume(code != 204 && code != 304)
	how := vChoose("how", 4)
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		switch how {
		case 0:
			c.String(code, body)
		case 1:
			c.Data(code, "a/b", []byte(body))
		case 2:
			c.Stream("a/b", strings.NewReader(body))
		case 3:
			c.Stream("a/b", &oddBody{s: body, step: 700, early: true, err: io.EOF})
		}
	})
	if how >= 2 {
		code = 200
	}
	vAssert(len(w.statuses) == 1 && w.statuses[0] == code, "not the requested status is delivered")
	vAssert(len(w.body) == len(body) && string(w.body) == body, "not the requested body is delivered")
	vReach("end")
}

// long histories: five requests of any kind on one application
func H_X04_scale() {
	r := water.NewRouter()
	var got string
	seen := func(c *water.Context) {
		got += fmt.Sprint(len(c.Params), len(c.Environ), c.Params["x"], c.Params["y"], c.FullPath(), c.Status(), c.Written())
	}
	r.GET("/a/<x>/<y>", func(c *water.Context) { seen(c); c.Set("k", 1); c.String(201, c.Params["x"]+c.Params["y"]) })
	r.GET("/b", func(c *water.Context) { seen(c); c.Set("k", 2) }, func(c *water.Context) { c.Abort(403) })
	r.GET("/c/*", func(c *water.Context) { seen(c); panic("x") })
	r.POST("/a/<y>", func(c *water.Context) { seen(c); got += c.Query("q"); c.Set("z", 3); c.WriteHeader(202) })
	e := r.Handler(water.WithNoFoundHandlers(func(c *water.Context) { seen(c); c.Set("k", 9); c.WriteHeader(404) }), water.WithStaticRouter(vChoose("static", 2) == 1))
	for i := 0; i < 5; i++ {
		got = ""
		switch vChoose("req", 5) {
		case 0:
			w := newRec()
			e.ServeHTTP(w, newReq("GET", "/a/1/2"))
			vAssert(got == fmt.Sprint(2, 0, "1", "2", "/a/<x>/<y>", 0, false) && w.statuses[0] == 201 && string(w.body) == "12", "a request observes state of an earlier one")
		case 1:
			w := newRec()
			e.ServeHTTP(w, newReq("GET", "/b"))
			vAssert(got == fmt.Sprint(0, 0, "", "", "/b", 0, false) && w.statuses[0] == 403, "a request observes state of an earlier one")
		case 2:
			catch(func() { serve(e, newReq("GET", "/c/1")) })
			vAssert(got == fmt.Sprint(1, 0, "", "", "/c/*", 0, false), "a request observes state of an earlier one")
		case 3:
			q := newReq("POST", "/a/3")
			q.URL.RawQuery = "q=v"
			w := newRec()
			e.ServeHTTP(w, q)
			vAssert(got == fmt.Sprint(1, 0, "", "3", "/a/<y>", 0, false)+"v" && w.statuses[0] == 202, "a request observes state of an earlier one")
		case 4:
			w := newRec()
			e.ServeHTTP(w, newReq("GET", "/none"))
			vAssert(got == fmt.Sprint(0, 0, "", "", "", 0, false) && w.statuses[0] == 404, "a request observes state of an earlier one")
		}
	}
	vReach("end")
}

// a panic anywhere in a long chain
func H_X05_scale() {
	n, at := 1+vChoose("n", 20), vChoose("at", 20)
	if at >= n {
		return
	}
	nexts := vChoose("nexts", 2) == 1
	ran := 0
	r := water.NewRouter()
	r.Use(water.Recovery())
	var hs []interface{}
	for i := 0; i < n; i++ {
		i := i
		hs = append(hs, func(c *water.Context) {
			ran++
			if i == at {
				panic("boom")
			}
			if nexts {
				c.Next()
			}
		})
	}
	r.GET("/", hs...)
	e := r.Handler()
	for k := 0; k < 2; k++ {
		ran = 0
		w := newRec()
		_, p := catch(func() { e.ServeHTTP(w, newReq("GET", "/")) })
		vAssert(!p, "a panic escapes the recovery middleware")
		vAssert(len(w.statuses) == 1 && w.statuses[0] == 500 && ran == at+1, "a panicking handler is not answered 500, or a later handler runs")
	}
	vReach("end")
}

// many keys in one environment
func H_X06_scale() {
	n := 20
	k := vConcInt(vInt("k", 0, n-1))
	inHandler(newReq("GET", "/"), func(c *water.Context) {
		for i := 0; i < n; i++ {
			c.Set("key"+num(i), i)
		}
		_, p := catch(func() { c.Set("key"+num(k), 99) })
		vAssert(p, "setting a key does not panic exactly when it exists")
		_, p = catch(func() { c.Environ.Set("key"+num(k), 99) })
		vAssert(p, "setting a key does not panic exactly when it exists")
		for i := 0; i < n; i++ {
			vAssert(c.Environ.GetInt("key"+num(i)) == i, "a key does not hold the value of its set")
		}
		vAssert(len(c.Environ) == n && !c.Environ.Has("key"+num(n)), "the environment holds other keys than the ones set")
	})
	vReach("end")
}

// bodies larger than the buffers, read by every accessor
func H_X10_scale() {
	n := []int{511, 512, 4097, 70000, 1<<20 + 5}[vChoose("n", 5)]
	s := strings.Repeat("y", n) + vStr("tail", 1, 1)
	big := n > 1<<20
	fails := !big && vChoose("fails", 2) == 1
	b := &oddBody{s: s, step: 200000, err: io.EOF}
	if !big {
		b.step = []int{512, 100000}[vChoose("step", 2)]
	}
	if fails {
		b.err = io.ErrUnexpectedEOF
	}
	str := vChoose("str", 2) == 1
	q := newReq("POST", "/")
	q.ContentLength = int64(len(s))
	if !big {
		q.ContentLength += int64(vChoose("cl", 2) * 5)
	}
	q.Body = b
	inHandler(q, func(c *water.Context) {
		var got string
		var err error
		if str {
			got, err = c.BodyString()
		} else {
			var l []byte
			l, err = c.BodyBytes()
			got = string(l)
		}
		if fails {
			vAssert(err == b.err, "a failing body is not reported")
		} else {
			vAssert(err == nil && got == s, "the body read is not the body sent")
		}
	})
	vReach("end")
}

// a file larger than the copy buffer: whole and in ranges anywhere
func H_D01_scale() {
	n := []int{600, 33000, 70000}[vChoose("n", 3)]
	content := strings.Repeat("0123456789", n/10) + vStr("tail", 1, 1)
	dir := vDir()
	vPutAt(dir+"/f.bin", content, 1600000000)
	q := newReq("GET", "/")
	want, st := content, 200
	switch vChoose("range", 4) {
	case 1:
		q.Header["Range"] = []string{"bytes=" + num(n-5) + "-"}
		want, st = content[n-5:], 206
	case 2:
		q.Header["Range"] = []string{"bytes=-3"}
		want, st = content[n-2:], 206
	case 3:
		q.Header["Range"] = []string{"bytes=7-" + num(n-7)}
		want, st = content[7:n-6], 206
	}
	how := vChoose("how", 4)
	w := inHandler(q, func(c *water.Context) {
		switch how {
		case 0:
			c.Download(dir + "/f.bin")
		case 1:
			c.File(dir + "/f.bin")
		case 2:
			c.ServeFile(dir + "/f.bin")
		case 3:
			c.Attachment("f.bin", time.Unix(1600000000, 0), strings.NewReader(content))
		}
	})
	vAssert(len(w.statuses) == 1 && w.statuses[0] == st && len(w.body) == len(want) && string(w.body) == want, "not the bytes of the file are delivered")
	vReach("end")
}

// many values, many keys, long values
func H_Q01_scale() {
	form := url.Values{}
	var want []string
	n := vChoose("n", 3)*9 + 1
	for i := 0; i < n; i++ {
		v := strings.Repeat("ab ", 30*(i%3)) + num(i)
		form["k"] = append(form["k"], " "+v+"\t")
		want = append(want, v)
	}
	long := strings.Repeat("z", []int{63, 255, 4000}[vChoose("long", 3)])
	tail := vStr("tail", 1, 2)
	for i := 0; i < 20; i++ {
		form["k"+num(i)] = []string{num(i)}
	}
	form["long"] = []string{long + tail + "!"}
	q := newReq("GET", "/")
	q.Form, q.PostForm = form, url.Values{}
	inHandler(q, func(c *water.Context) {
		vAssert(c.Query("k") == want[0] && eqStrs(c.QueryArray("k"), want) && eqStrs(c.DefaultQueryArray("k", nil), want), "the array accessor does not return the trimmed values in order")
		for i := 0; i < 20; i++ {
			vAssert(c.Query("k"+num(i)) == num(i) && c.DefaultQuery("k"+num(i), "d") == num(i), "a query value is that of another key")
		}
		vAssert(c.Query("long") == long+tail+"!" && c.DefaultQuery("none", long) == long, "a query value is not the trimmed first value of its key")
	})
	vReach("end")
}

// many map entries, long names
func H_Q02_scale() {
	form := url.Values{}
	long := strings.Repeat("n", 70)
	for i := 0; i < 12; i++ {
		form["k["+num(i)+"]"] = []string{" " + num(i)}
		form["kk["+num(i)+"]"] = []string{"other"}
	}
	sub := long + vStrOf("sub", 1, 1, "ab[x")
	form["k["+sub+"]"] = []string{"long"}
	q := newReq("GET", "/")
	q.Form, q.PostForm = form, url.Values{}
	inHandler(q, func(c *water.Context) {
		for _, m := range []map[string]string{c.QueryMap("k"), c.DefaultQueryMap("k", nil)} {
			vAssert(len(m) == 13 && m[sub] == "long", "a map accessor returns a missing or additional entry")
			for i := 0; i < 12; i++ {
				vAssert(m[num(i)] == num(i), "a map entry is not the trimmed first value of its parameter")
			}
		}
	})
	vReach("end")
}

// long forwarded lists
func H_Q04_scale() {
	n := 1 + vChoose("n", 12)
	rot := vChoose("rot", 5)
	var l []string
	s := ""
	for i := 0; i < n; i++ {
		a := []string{"2001:db8:85a3:8d3:1319:8a2e:370:7348", "198.51.100." + num(i), "unknown", "[::1]:8080", "_hidden"}[(i+rot)%5]
		if i > 0 {
			s += []string{",", ", ", " ,\t"}[i%3]
		}
		l, s = append(l, a), s+a
	}
	q := newReq("GET", "/")
	q.Header["X-Forwarded-For"] = []string{s}
	real := vChoose("real", 2) == 1
	if real {
		q.Header["X-Real-Ip"] = []string{"2001:db8:85a3:8d3:1319:8a2e:370:1"}
	}
	inHandler(q, func(c *water.Context) {
		vAssert(eqStrs(c.Proxy(), l), "the proxy list is not the list of forwarded elements")
		want := l[0]
		if real {
			want = "2001:db8:85a3:8d3:1319:8a2e:370:1"
		}
		vAssert(c.RealIp() == want, "the client address is not X-Real-IP, the first forwarded hop or the peer, in this order")
	})
	vReach("end")
}

// many cookies, long names and values
func H_Q06_scale() {
	n := 12
	long := strings.Repeat("v", []int{1, 60, 400, 4200, 9000}[vChoose("long", 5)]) + vStrOf("tail", 1, 1, "az09-=% ,")
	k := vConcInt(vInt("k", 0, n-1))
	name := func(i int) string { return strings.Repeat("n", 1+5*i) + num(i) }
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		for i := 0; i < n; i++ {
			v := num(i)
			if i == k {
				v = long
			}
			c.SetCookie(name(i), v, 60+i, "/p/"+strings.Repeat("q", i*7), "d"+num(i)+".example.org", i%2 == 0, i%3 == 0)
		}
	})
	got := sentCookies(w)
	vAssert(len(got) == n, "setting a cookie loses another one")
	q := newReq("GET", "/")
	for i, c := range got {
		v := num(i)
		if i == k {
			v = long
		}
		vAssert(c.Name == name(i) && c.Value == v, "a client does not receive the cookie as set")
		vAssert(c.MaxAge == 60+i && c.Path == "/p/"+strings.Repeat("q", i*7) && c.Domain == "d"+num(i)+".example.org" && c.Secure == (i%2 == 0) && c.HttpOnly == (i%3 == 0), "a cookie does not have the attributes given")
		q.AddCookie(&http.Cookie{Name: c.Name, Value: c.Value})
	}
	inHandler(q, func(c *water.Context) {
		for i := 0; i < n; i++ {
			v := num(i)
			if i == k {
				v = long
			}
			vAssert(c.Cookie(name(i)) == v, "a cookie is not read back as set")
		}
		vAssert(c.Cookie("n") == "", "a cookie that was not sent is read")
	})
	vReach("end")
}

// long names with odd characters anywhere
func H_P01_scale() {
	n := []int{10, 62, 130, 300}[vChoose("n", 4)]
	at := []int{0, 5, n - 1}[vChoose("at", 3)]
	odd := []string{vStr("b", 1, 1), "é", "日本", "\"; x=\"", "\r\n", "a b", "%41", "'", "\\"}[vChoose("odd", 9)]
	s := strings.Repeat("name.", n)[:n]
	dispose(s[:at] + odd + s[at:])
	vReach("end")
}

// many origins and long lists
func H_S01_scale() {
	vNoise()
	var conf water.CORSConfig
	n := 12
	for i := 0; i < n; i++ {
		conf.AllowOrigins = append(conf.AllowOrigins, "https://host"+num(i)+".example.org:8443")
		conf.AllowMethods = append(conf.AllowMethods, "M"+num(i))
		conf.AllowHeaders = append(conf.AllowHeaders, "X-Allowed-Header-"+num(i))
		conf.ExposeHeaders = append(conf.ExposeHeaders, "X-Exposed-Header-"+num(i))
	}
	k := vConcInt(vInt("k", 0, n-1))
	conf.MaxAge = []int{0, 86400, 1<<31 - 1, 1<<31 + 5, 1 << 62, -1 << 31, -1 << 62}[vChoose("age", 7)]
	b := []byte(conf.AllowOrigins[k])
	at := []int{0, 12, len(b) - 1}[vChoose("at", 3)]
	was := b[at]
	b[at] = vByte("byte")
	if vChoose("more", 2) == 1 {
		b = append(b, '0')
	}
	m := []string{"GET", "OPTIONS"}[vChoose("m", 2)]
	r := water.NewRouter()
	r.Use(water.CORS(conf))
	reg(r, m, "/x", func(c *water.Context) {})
	q := newReq(m, "/x")
	q.Header["Origin"] = []string{string(b)}
	q.Header["Access-Control-Request-Method"] = []string{"M3"}
	w := newRec()
	r.Handler().ServeHTTP(w, q)
	ok := false
	for _, o := range conf.AllowOrigins {
		if o == string(b) {
			ok = true
		}
	}
	_ = was
	if ok {
		vAssert(eqStrs(w.hdr["Access-Control-Allow-Origin"], []string{string(b)}), "a configured origin is not allowed")
		vReach("allowed")
		if m == "OPTIONS" {
			ma := []string{}
			if conf.MaxAge > 0 {
				ma = append(ma, num(conf.MaxAge))
			}
			vAssert(eqStrs(w.hdr["Access-Control-Max-Age"], ma), "the max age is not the configured one")
			vAssert(eqStrs(elems(w.hdr["Access-Control-Allow-Methods"]), conf.AllowMethods), "the allowed methods are not the configured ones")
			vAssert(eqStrs(elems(w.hdr["Access-Control-Allow-Headers"]), conf.AllowHeaders), "the allowed headers are not the configured or requested ones")
		} else {
			vAssert(eqStrs(elems(w.hdr["Access-Control-Expose-Headers"]), conf.ExposeHeaders), "the exposed headers are not the configured ones")
		}
	} else {
		vAssert(w.hdr.Get("Access-Control-Allow-Origin") == "", "an origin is allowed that is not configured")
		vReach("refused")
	}
}

// deep and long names
func H_T01_scale() {
	deep := "d0/d1/d2/d3/d4/d5/d6/d7/" + strings.Repeat("n", []int{5, 64, 120}[vChoose("n", 3)]) + ".txt"
	fs := &spyFS{files: map[string]*spyNode{}}
	for _, p := range []string{"", "/"} {
		fs.files[p+deep] = &spyNode{name: "n.txt", data: strings.Repeat("0123456789", 3500) + "!"}
		fs.files[p+"d0/d1/d2/d3"] = &spyNode{name: "d3", dir: true}
	}
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/very/deep/static/prefix", FileSystem: fs})
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	b := []byte(deep)
	at := []int{0, 9, len(b) - 1}[vChoose("at", 3)]
	b[at] = vByte("byte")
	vAssume(b[at] != '/')
	w := serve(e, newReq("GET", "/very/deep/static/prefix/"+string(b)))
	vAssert(len(fs.opens) > 0, "a static file is not looked for")
	for _, o := range fs.opens {
		vAssert(cut(o) == string(b), "something else than the rest of the path is opened")
	}
	if string(b) == deep {
		vAssert(w.status() == 200 && len(w.body) == 35001 && w.body[35000] == '!', "the file is not delivered")
		vReach("file")
	} else {
		vAssert(w.status() == 404, "a missing file is not answered 404")
	}
	fs.allClosed()
	vReach("end")
}

type scaleL4 struct {
	A4 string `form:"a4" uri:"a4" header:"a4"`
	B4 int    `form:"b4" uri:"b4" header:"b4"`
}
type scaleL3 struct {
	A3 string `form:"a3" uri:"a3" header:"a3"`
	L4 scaleL4
	P4 *scaleL4
}
type scaleL2 struct {
	A2 string `form:"a2" uri:"a2" header:"a2"`
	scaleL3
}
type scaleBig struct {
	F0, N0 string `form:"f0" uri:"f0" header:"f0"`
	F1     string `form:"f1" uri:"f1" header:"f1"`
	F2     int    `form:"f2" uri:"f2" header:"f2"`
	F3     bool   `form:"f3" uri:"f3" header:"f3"`
	F4     string `form:"f4" uri:"f4" header:"f4"`
	F5     uint8  `form:"f5" uri:"f5" header:"f5"`
	F6     string `form:"f6" uri:"f6" header:"f6"`
	F7     string `form:"f7" uri:"f7" header:"f7"`
	F8     string `form:"f8" uri:"f8" header:"f8"`
	F9     string `form:"f9" uri:"f9" header:"f9"`
	F10    string `form:"f10" uri:"f10" header:"f10"`
	F11    string `form:"f11" uri:"f11" header:"f11"`
	L2     scaleL2
	Z      string `form:"z" uri:"z" header:"z"`
}

// structures of many fields, four levels deep, many keys at once
func H_B03_scale() {
	how := []int{0, 1, 2, 3, 4, 9}[vChoose("how", 6)]
	v := vStr("v", 1, 1)
	vAssume(how < 9 || v != "")
	t := scaleBig{F1: "o1", F6: "o6", F11: "o11", Z: "oz"}
	t.L2.L4.A4 = "o4"
	m := map[string][]string{}
	all := vChoose("all", 2) == 1
	for _, k := range []string{"f1", "f4", "f6", "f7", "f8", "f9", "f10", "f11", "z", "a2", "a3", "a4"} {
		if all || k == "f10" || k == "a4" {
			m[k] = []string{k + v}
		}
	}
	if all {
		m["f2"], m["f3"], m["f5"], m["b4"] = []string{"12345"}, []string{"true"}, []string{"255"}, []string{"-7"}
	}
	m["other"] = []string{"x"}
	vAssert(bindVia(how, &t, m) == nil, "binding fails")
	const msg = "a field does not hold the value of its own key"
	vAssert(t.F10 == "f10"+v && t.L2.L4.A4 == "a4"+v, msg)
	if all {
		vAssert(t.F1 == "f1"+v && t.F4 == "f4"+v && t.F6 == "f6"+v && t.F7 == "f7"+v && t.F8 == "f8"+v && t.F9 == "f9"+v && t.F11 == "f11"+v && t.Z == "z"+v, msg)
		vAssert(t.F2 == 12345 && t.F3 && t.F5 == 255 && t.L2.L4.B4 == -7 && t.L2.A2 == "a2"+v && t.L2.A3 == "a3"+v, msg)
		vAssert(t.L2.P4 != nil && t.L2.P4.A4 == "a4"+v && t.L2.P4.B4 == -7, msg)
	} else {
		vAssert(t.F1 == "o1" && t.F6 == "o6" && t.F11 == "o11" && t.Z == "oz" && t.F2 == 0 && !t.F3 && t.L2.A2 == "" && t.L2.A3 == "" && t.F9 == "", "a field that no supplied key names was changed")
	}
	vReach("end")
}

// long lists and maps of many keys
func H_B04_scale() {
	how := vChoose("how", bSources)
	n := []int{9, 17, 40}[vChoose("n", 3)]
	k := vConcInt(vInt("k", 0, n-1))
	var vals []string
	for i := 0; i < n; i++ {
		vals = append(vals, num(i))
	}
	if how < 9 {
		vals[k] = vStr("v", 1, 1)
	}
	given := append([]string{}, vals...)
	var t struct {
		L []string `form:"k" uri:"k" header:"k"`
		S string   `form:"k" uri:"k" header:"k"`
		I []int    `form:"i" uri:"i" header:"i"`
	}
	ints := make([]string, n)
	for i := range ints {
		ints[i] = num(i * 1000)
	}
	vAssert(bindVia(how, &t, map[string][]string{"k": vals, "i": ints}) == nil, "binding fails")
	vAssert(eqStrs(t.L, given) && t.S == given[0] && len(t.I) == n, "a list field does not hold all values of its key in order")
	for i := range t.I {
		vAssert(t.I[i] == i*1000, "a list field does not hold all values of its key in order")
	}
	if how == 7 || how == 8 { // these two bind to structures only
		vReach("end")
		return
	}
	m := map[string][]string{}
	for i := 0; i < 10; i++ {
		m["K"+num(i)] = []string{"a" + num(i), "b" + num(i)}
	}
	u, s := map[string][]string{}, map[string]string{} // the older entry points need maps that exist
	vAssert(bindVia(how, &u, m) == nil && bindVia(how, &s, m) == nil, "binding fails")
	vAssert(len(u) == 10 && len(s) == 10, "a map does not hold every key with the values sent")
	for i := 0; i < 10; i++ {
		vAssert(eqStrs(u["K"+num(i)], []string{"a" + num(i), "b" + num(i)}) && s["K"+num(i)] == "b"+num(i), "a map does not hold every key with the values sent")
	}
	vReach("end")
}

// one invalid element anywhere in a long list, or one missing field in a long form
func H_B06_scale() {
	n := 20
	bad := vConcInt(vInt("bad", -1, n-1))
	doc := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			doc += ","
		}
		if i == bad {
			doc += []string{"{}", "{\"v\":\"\"}"}[vChoose("how", 2)]
		} else {
			doc += "{\"v\":\"x\"}"
		}
	}
	doc += "]"
	q := newReq("POST", "/")
	q.Header["Content-Type"] = []string{"application/json"}
	q.Body = &bRC{strings.NewReader(doc), 0}
	inHandler(q, func(c *water.Context) {
		var t []bReq
		var err error
		switch vChoose("via", 2) {
		case 0:
			err = c.Bind(&t)
		case 1:
			err = c.BindWith(&t, binding.JSON)
		}
		vAssert((err == nil) == (bad < 0), "a list with an invalid element is bound, or one without is refused")
		vAssert(len(t) == n, "the list is not decoded completely")
	})
	vReach("end")
}

// many files in one field
func H_B08_scale() {
	n := 12
	var fs []*multipart.FileHeader
	for i := 0; i < n; i++ {
		fs = append(fs, &multipart.FileHeader{Filename: "f" + num(i), Size: int64(i)})
	}
	f := &multipart.Form{Value: map[string][]string{}, File: map[string][]*multipart.FileHeader{"l": fs, "one": fs[5:]}}
	q := newReq("POST", "/")
	q.MultipartForm = f
	var t struct {
		L []*multipart.FileHeader `form:"l"`
		O *multipart.FileHeader   `form:"one"`
	}
	var err error
	if vChoose("legacy", 2) == 1 {
		err = binding.FormMultipart.Bind2(q, &t)
	} else {
		err = binding.FormMultipart.Bind(q, &t)
	}
	vAssert(err == nil && sameFiles(t.L, fs) && t.O != nil && t.O.Filename == "f5", "a list field does not hold all files of its key in order")
	vReach("end")
}

// an upload larger than the copy buffer
func H_U01_scale() {
	n := []int{511, 32769, 70000}[vChoose("n", 3)]
	content := strings.Repeat("z", n) + vStr("tail", 1, 1)
	for i := n; i < len(content); i++ {
		vAssume(vAnd(content[i] != '-', content[i] != '\r', content[i] != '\n'))
	}
	dir := vDir()
	dst := dir + "/out"
	old := vChoose("old", 2) == 1
	if old {
		vPutAt(dst, strings.Repeat("o", 80000), 1000)
	}
	q := multiReq(part("f", "n", content) + "--XX--\r\n")
	q.URL.Path = "/"
	disk := vChoose("disk", 2) == 1
	opts := []water.Option{}
	if disk {
		opts = append(opts, water.WithMaxMultipartMemory(1))
	}
	inHandler(q, func(c *water.Context) {
		_, h, err := c.FormFile("f")
		vAssert(err == nil, "the upload is not found")
		vAssert(c.SaveUploadedFile(h, dst) == nil, "saving an upload fails")
	}, opts...)
	got, _, ok := vGet(dst)
	vAssert(ok && len(got) == len(content) && got == content, "the saved file is not exactly the uploaded bytes")
	vReach("end")
}

// the listings of a large application
func H_L01_scale() {
	rs := bigTable()
	nb, own := vChoose("nb", 3), 1+vChoose("own", 12)
	r := water.NewRouter()
	for i := 0; i < nb; i++ {
		r.Use(func(*water.Context) {})
	}
	var all []string
	for i := range rs {
		n := 1
		if i%7 == 3 {
			n = own
		}
		var hs []interface{}
		for j := 0; j < n; j++ {
			hs = append(hs, func(*water.Context) {})
		}
		r.GET(rs[i].pattern(), hs...)
		all = append(all, fmt.Sprintf("[%-7s : %d] %s", "GET", nb+n, rs[i].pattern()))
	}
	e := r.Handler()
	got := vCapture(func() { e.PrintRawAllRoutes() })
	vAssert(got == strings.Join(all, "\n")+"\n", "the listing does not show every route once with the length of its chain, in the order of registration")
	got = vCapture(func() { e.PrintRawRoutes("GET") })
	l := listing(got)
	for i := range rs {
		n := 1
		if i%7 == 3 {
			n = own
		}
		vAssert(l[fmt.Sprintf("[%3d] %s", nb+n, rs[i].pattern())] == 1, "the listing of a method does not show each of its routes once with the length of its chain")
	}
	vAssert(strings.Count(got, "\n") == len(rs), "the listing of a method shows more than its routes")
	ends := 0
	for _, x := range strings.Split(vCapture(func() { e.PrintRouterTree("GET") }), "\n") {
		if strings.HasSuffix(x, "]") && strings.Contains(x, " [") {
			ends++
		}
	}
	vAssert(ends == len(rs), "the tree listing does not show every route")
	vReach("end")
}

var _ = bytes.NewReader
