package main

import (
	"os"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// what an application remembers of earlier requests must not show: every answer of a history against the model

func histTables() [][]mroute {
	return [][]mroute{
		{{lit("a"), hold("x")}, {hold("y"), lit("b")}, {all("")}},
		{{reDigits("n"), lit("x")}, {hold("k"), lit("x"), hold("m")}, {lit("a"), all("f")}, {hold("k")}},
		{{lit("a"), reAlt("k")}, {lit("a"), hold("z")}, {hold("y"), all("r")}},
		{{lit("a")}, {lit("a"), lit("b"), hold("x")}, {hold("y"), hold("_")}, {all("w")}},
	}
}

func histPath(last bool) string {
	p := "/" + []string{"a", "", "b"}[vChoose("first", 3)]
	if p == "/" {
		p += vStr("s", 1, 1)
	}
	switch vChoose("more", 4) {
	case 1:
		p += "/" + []string{"b", "x", "7"}[vChoose("second", 3)]
	case 2:
		if last {
			p += "/" + vStr("t", 1, vB(1, 2))
		} else {
			p += "/" + vStr("t", 1, 1)
		}
	case 3:
		p += "/x/" + []string{"c", "b/d"}[vChoose("third", 2)]
	}
	return p
}

func history(static bool, check func(a *app, rs []mroute, path string)) {
	ts := histTables()
	rs := ts[vChoose("table", len(ts))]
	a := buildApp(rs, water.WithStaticRouter(static))
	n := vB(2, 2)
	for i := 0; i < n; i++ {
		check(a, rs, histPath(i == n-1))
	}
	vReach("end")
}

// a request after another one on the same application is served as if it came first
func H_R01_history() {
	history(vChoose("static", 2) == 1, func(a *app, rs []mroute, path string) {
		want, _ := refRoute(rs, path)
		w := a.get(path)
		if want < 0 {
			vAssert(a.runs == 0, "a handler ran although no route matches the path")
			vAssert(w.status() == 404, "an unmatched path is not answered 404")
			return
		}
		vAssert(a.runs == 1 && a.hit == want, "the request was not served by the highest-priority matching route")
		vAssert(w.status() == 299, "the status is not the one of the matched route")
	})
}

// the parameters of a request after another one, which the handler of the earlier one changed
func H_R02_history() {
	history(false, func(a *app, rs []mroute, path string) {
		want, bs := refRoute(rs, path)
		a.get(path)
		vAssume(a.hit == want) // which route is R01
		if want < 0 {
			return
		}
		checkParams(a.params, bs, "")
		for k := range a.params {
			a.params[k] = "dirty"
		}
		if a.params != nil {
			a.params["left"] = "dirty"
		}
	})
}

// the route reported for a request after another one
func H_R06_history() {
	history(false, func(a *app, rs []mroute, path string) {
		want, _ := refRoute(rs, path)
		a.get(path)
		vAssume(a.hit == want)
		if want < 0 {
			return
		}
		vAssert(a.full == rs[want].pattern(), "the reported route is not the pattern as it was written")
	})
}

// the same path asked for with several methods, in any order
func H_R04_history() {
	r := water.NewRouter()
	hit := ""
	ms := []string{"GET", "POST", "HEAD", "PUT"}
	for i, m := range ms[:3] {
		m := m
		if vChoose("own"+strconv.Itoa(i), 2) == 1 {
			reg(r, m, []string{"/a", "/<x>"}[i%2], func(c *water.Context) { hit += m; c.WriteHeader(200) })
		} else {
			reg(r, m, "/b", func(c *water.Context) { hit += "b" + m; c.WriteHeader(200) })
		}
	}
	own := map[string]string{}
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	path := []string{"/a", "/b"}[vChoose("p", 2)]
	for i := 0; i < vB(3, 4); i++ {
		m := ms[vChoose("m", 4)]
		hit = ""
		serve(e, newReq(m, path))
		vAssert(hit == "" || hit == m || hit == "b"+m, "a handler of another method ran")
		if before, ok := own[m]; ok {
			vAssert(before == hit, "the same request is served differently the second time")
		}
		own[m] = hit
	}
	vReach("end")
}

// matched and unmatched requests in any order
func H_C02_history() {
	log := ""
	rec := func(s string) func(*water.Context) { return func(c *water.Context) { log += s } }
	r := water.NewRouter()
	r.Before(rec("g"))
	r.Use(rec("u"))
	r.GET("/a", rec("a"))
	r.GET("/p/<x>", rec("p"))
	r.POST("/q", rec("q"))
	nf := vChoose("nf", 2) == 1
	opts := []water.Option{water.WithStaticRouter(vChoose("static", 2) == 1)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(rec("n"), func(c *water.Context) {
			log += "m"
			c.WriteHeader(404)
		}, rec("never")))
	}
	e := r.Handler(opts...)
	for i := 0; i < vB(3, 4); i++ {
		log = ""
		m := []string{"GET", "POST", "PUT"}[vChoose("m", 3)]
		var path string
		switch vChoose("p", 4) {
		case 0:
			path = "/" + vStr("s", 1, 1)
		case 1:
			path = "/p/" + vStr("t", 1, 1)
		case 2:
			path = "/q"
		case 3:
			path = "/none/at/all"
		}
		w := serve(e, newReq(m, path))
		segs := pathSegs(path)
		want := ""
		switch {
		case m == "GET" && len(segs) == 1 && segs[0] == "a":
			want = "gua"
		case m == "GET" && len(segs) == 2 && segs[0] == "p":
			want = "gup"
		case m == "POST" && len(segs) == 1 && segs[0] == "q":
			want = "guq"
		default:
			if nf {
				want = "gnm"
			}
			vAssert(len(w.statuses) == 1 && w.status() == 404 && len(w.body) == 0, "an unmatched request is not answered 404")
		}
		vAssert(log == want, "an unmatched request does not run exactly the global middleware and the not-found handlers")
	}
	vReach("end")
}

// a file that changes between two requests for it: each answer is that of its state then
func H_T02_history() {
	n := &spyNode{name: "n.txt"}
	fs := &spyFS{files: map[string]*spyNode{}}
	opt := &water.StaticOptions{Prefix: "/s", FileSystem: fs, ETag: water.ETagType(vChoose("etag", 3)), IndexFile: "i.txt"}
	r := water.NewRouter()
	r.StaticAdvance(opt)
	e := r.Handler()
	tag := ""
	tags := map[string]string{}
	slash := ""
	for i := 0; i < vB(2, 3); i++ {
		kind := vChoose("kind", 4)
		content := ""
		mod := int64(1600000000)
		fs.files = map[string]*spyNode{}
		put := func(k string, n *spyNode) { fs.files[k], fs.files["/"+k] = n, n }
		if kind > 0 {
			content = vStr("content", 1, 1)
			if i > 0 && vChoose("longer", 2) == 1 {
				content += "+"
			}
			mod += int64(vChoose("mod", 2))
		}
		switch kind {
		case 1:
			*n = spyNode{name: "n.txt", data: content, mod: mod}
			put("n.txt", n)
		case 2: // a directory of this name, with an index
			put("n.txt", &spyNode{name: "n.txt", dir: true})
			put("n.txt/", &spyNode{name: "n.txt", dir: true})
			put("n.txt/i.txt", &spyNode{name: "i.txt", data: content, mod: mod})
		case 3:
			put("n.txt", &spyNode{name: "n.txt", statErr: true})
		}
		slash = []string{"", "/"}[vChoose("slash", 2)]
		if slash == "/" && kind == 1 {
			put("n.txt/", n)
		}
		m := []string{"GET", "HEAD"}[vChoose("m", 2)]
		q := newReq(m, "/s/n.txt"+slash)
		sent := false
		if tag != "" && vChoose("cond", 2) == 1 {
			q.Header["If-None-Match"] = []string{tag}
			sent = true
		}
		w := serve(e, q)
		fs.allClosed()
		vAssert(len(w.statuses) == 1, "not exactly one status is committed")
		st := w.statuses[0]
		switch {
		case kind == 0 || kind == 3:
			vAssert(st == 404 && len(w.body) == 0, "a missing or unreadable file is not answered 404")
		case kind == 2 && slash == "":
			vAssert(st == 302 && w.sent.Get("Location") == "/s/n.txt/", "a directory is redirected elsewhere than to itself with a slash")
		case sent && st == 304:
			vAssert(len(w.body) == 0, "an answer that nothing was modified has a body")
			name := []string{"n.txt", "i.txt"}[kind-1]
			if opt.ETag == 1 {
				name = ""
			}
			vAssert(tags[tag] == strconv.Itoa(int(mod))+","+strconv.Itoa(len(content))+name, "another version is answered not-modified")
		default:
			vAssert(st == 200, "a file is not delivered")
			vAssert(m == "HEAD" || string(w.body) == content, "not the content of the file is delivered")
			if opt.ETag == 0 {
				vAssert(w.sent.Get("Etag") == "", "a tag is sent although tags are disabled")
			} else {
				vAssert(w.sent.Get("Etag") != "", "the tag is missing")
				vAssert(!sent || w.sent.Get("Etag") != tag, "a matching tag is not answered 304 without a body")
				tag = w.sent.Get("Etag")
				name := []string{"n.txt", "i.txt"}[kind-1]
				if opt.ETag == 1 {
					name = ""
				}
				v := strconv.Itoa(int(mod)) + "," + strconv.Itoa(len(content)) + name
				was, ok := tags[tag]
				vAssert(!ok || was == v, "two versions of a file have the same tag")
				tags[tag] = v
			}
		}
	}
	vReach("end")
}

// two files of a host directory, one after the other, changing in between
func H_T02_changing() {
	d := vDir()
	r := water.NewRouter()
	r.Static("/s", d)
	r.StaticFile("/one", d+"/a.txt")
	e := r.Handler()
	for i := 0; i < 2; i++ {
		a, b := vStr("a", 0, 2), vStr("b", 1, 1)
		has := vChoose("has", 2) == 1
		if has {
			vPutAt(d+"/a.txt", a, 1600000000)
		} else if i > 0 {
			os.Remove(d + "/a.txt")
		}
		vPutAt(d+"/b.txt", b, 1600000000)
		if i > 0 {
			vLink(d+"/b.txt", d+"/l.txt")
		}
		p := []string{"/s/a.txt", "/s/b.txt", "/one", "/s/l.txt"}[vChoose("p", 3+i)]
		w := serve(e, newReq("GET", p))
		if p == "/s/b.txt" || p == "/s/l.txt" {
			vAssert(w.status() == 200 && string(w.body) == b, "not the content of the file is delivered")
		} else if has {
			vAssert(w.status() == 200 && string(w.body) == a, "not the content of the file is delivered")
		} else {
			vAssert(w.status() == 404, "a missing file or directory is not answered 404")
		}
	}
	vReach("end")
}

// a file served or downloaded twice that changes in between
func H_D01_history() {
	d := vDir()
	how := vChoose("how", 3)
	var err error
	r := water.NewRouter()
	name := ""
	r.GET("/", func(c *water.Context) {
		switch how {
		case 0:
			err = c.Download(d + name)
		case 1:
			c.File(d + name)
		case 2:
			c.ServeFile(d + name)
		}
	})
	e := r.Handler()
	for i := 0; i < 2; i++ {
		content := vStr("content", 1, 2)
		has := vChoose("has", 2) == 1
		name = []string{"/f.bin", "/g.bin"}[vChoose("name", 2)]
		if has {
			vPutAt(d+"/f.bin", content, 1600000000)
		} else if i > 0 {
			os.Remove(d + "/f.bin")
		}
		vPutAt(d+"/g.bin", "g"+content, 1600000000+int64(i))
		q := newReq("GET", "/")
		if i > 0 && vChoose("since", 2) == 1 {
			q.Header["If-None-Match"] = []string{"\"x\""}
		}
		w := serve(e, q)
		switch {
		case name == "/g.bin":
			vAssert(err == nil && w.status() == 200 && string(w.body) == "g"+content, "not the bytes of the file are delivered")
		case has:
			vAssert(err == nil && w.status() == 200 && string(w.body) == content, "not the bytes of the file are delivered")
		case how == 0:
			vAssert(err != nil && len(w.statuses) == 0, "downloading something that is no file is not an error")
		default:
			vAssert(w.status() == 404, "a missing file is not answered 404")
		}
	}
	vReach("end")
}

// configurations whose lists share memory with something else of the application's
func H_S01_alias() {
	backing := []string{"GET", "POST", "PUT", "keep"}
	list := []string{"https://a.b", "https://c.d", "https://e.f", "keep"}
	hs := []string{"X-A", "X-B", "keep"}
	n, m, k := 1+vChoose("methods", 3), 1+vChoose("origins", 3), 1+vChoose("headers", 2)
	conf := water.CORSConfig{AllowOrigins: list[:m], AllowMethods: backing[:n], AllowHeaders: hs[:k], ExposeHeaders: hs[:k], AllowCredentials: true, MaxAge: 5}
	mk := func(c water.CORSConfig) *water.Engine {
		r := water.NewRouter()
		r.Use(water.CORS(c))
		r.ANY("/", func(c *water.Context) { c.WriteHeader(299) })
		reg(r, "OPTIONS", "/", func(c *water.Context) {})
		return r.Handler()
	}
	e := mk(conf)
	e2 := e
	other := vChoose("other", 2) == 1
	if other { // another policy built from the same lists
		c2 := conf
		c2.AllowOrigins = list[:3]
		c2.AllowMethods = backing[:3]
		e2 = mk(c2)
	}
	for i := 0; i < 2; i++ {
		ask := func(e *water.Engine, m, n, k int) {
			o := list[vChoose("o", 3)]
			q := newReq("OPTIONS", "/")
			q.Header["Origin"] = []string{o}
			q.Header["Access-Control-Request-Method"] = []string{"PUT"}
			h := serve(e, q).sent
			want := ""
			for _, x := range []string{"https://a.b", "https://c.d", "https://e.f"}[:m] {
				if x == o {
					want = o
				}
			}
			vAssert(h.Get("Access-Control-Allow-Origin") == want, "an origin is allowed that is not configured, or a configured one is not")
			vAssert(eqStrs(elems(h["Access-Control-Allow-Methods"]), []string{"GET", "POST", "PUT"}[:n]), "the allowed methods are not the configured ones")
			vAssert(eqStrs(elems(h["Access-Control-Allow-Headers"]), []string{"X-A", "X-B"}[:k]), "the allowed headers are not the configured or requested ones")
		}
		ask(e, m, n, k)
		if other {
			ask(e2, 3, 3, k)
		}
	}
	vAssert(eqStrs(backing, []string{"GET", "POST", "PUT", "keep"}) && eqStrs(hs, []string{"X-A", "X-B", "keep"}) && eqStrs(list, []string{"https://a.b", "https://c.d", "https://e.f", "keep"}), "building a policy changes the lists it was given")
	vReach("end")
}

// grants to one client after those to another
func H_S01_history() {
	star := vChoose("star", 2) == 1
	conf := water.CORSConfig{AllowOrigins: []string{"https://a.b", "https://c.d"}, ExposeHeaders: []string{"X-E"}, MaxAge: 7, AllowCredentials: vChoose("cred", 2) == 1}
	if star {
		conf.AllowOrigins = nil
	}
	r := water.NewRouter()
	r.Use(water.CORS(conf))
	r.ANY("/", func(c *water.Context) { c.WriteHeader(299) })
	reg(r, "OPTIONS", "/", func(c *water.Context) {})
	e := r.Handler()
	for i := 0; i < vB(2, 3); i++ {
		o := []string{"https://a.b", "https://c.d", "https://x.y", ""}[vChoose("o", 4)]
		ask := []string{"", "X-One", "X-Two,x-three"}[vChoose("ask", 3)]
		pre := vChoose("pre", 2) == 1
		q := newReq("GET", "/")
		if pre {
			q.Method = "OPTIONS"
		}
		has(q.Header, "Origin", o, o != "")
		has(q.Header, "Access-Control-Request-Headers", ask, ask != "")
		has(q.Header, "Access-Control-Request-Method", "DELETE", pre)
		h := serve(e, q).sent
		want := o
		if o == "https://x.y" {
			want = ""
		}
		if star {
			want = "*"
		}
		vAssert(h.Get("Access-Control-Allow-Origin") == want, "an origin is allowed that is not configured, or a configured one is not")
		vAssert(varies(h["Vary"], "Origin"), "the response does not vary on the origin")
		if pre {
			var l []string
			if ask != "" {
				l = strings.Split(ask, ",")
			}
			vAssert(eqStrs(elems(h["Access-Control-Allow-Headers"]), l), "the allowed headers are not the configured or requested ones")
		} else {
			vAssert(len(h["Access-Control-Allow-Headers"]) == 0 && eqStrs(elems(h["Access-Control-Expose-Headers"]), []string{"X-E"}), "the exposed headers are not the configured ones")
		}
	}
	vReach("end")
}

// very many requests of different paths, then the first ones again
func H_X04_many() {
	n := vB(1100, 2200)
	static := vChoose("static", 2) == 1
	r := water.NewRouter()
	got := ""
	r.GET("/p/<x>", func(c *water.Context) { got = "p" + c.Param("x") + c.FullPath() })
	r.GET("/p/<n ~ ^([0-9]+)$>/d", func(c *water.Context) { got = "d" + c.Param("n") + c.FullPath() })
	r.GET("/s", func(c *water.Context) { got = "s" + c.FullPath() })
	r.GET("/<y>/z", func(c *water.Context) { got = "z" + c.Param("y") + c.FullPath() })
	e := r.Handler(water.WithStaticRouter(static))
	ask := func(p, want string) {
		got = ""
		w := serve(e, newPlainReq("GET", p))
		vAssert(got == want, "a request is answered differently after many others")
		vAssert((w.status() == 404) == (want == ""), "a request is answered differently after many others")
	}
	one := func(i int) {
		s := strconv.Itoa(i)
		switch i % 4 {
		case 0:
			ask("/p/"+s, "p"+s+"/p/<x>")
		case 1:
			ask("/p/"+s+"/d", "d"+s+"/p/<n ~ ^([0-9]+)$>/d")
		case 2:
			ask("/"+s+"/z", "z"+s+"/<y>/z")
		case 3:
			ask("/none/"+s, "")
		}
	}
	for i := 0; i < n; i++ {
		one(i)
	}
	for _, i := range []int{0, 1, 2, 3, 75, 76, n - 512, n - 513, n - 2, n - 1} {
		one(i)
	}
	ask("/s", "s/s")
	s := vStr("s", 1, 1)
	if s == "/" {
		return
	}
	ask("/p/"+s, "p"+s+"/p/<x>")
	vReach("end")
}

// the same paths asked for with one method after another
func H_R01_methods() {
	ms := []string{"GET", "POST", "HEAD"}
	tables := [][]mroute{
		{{lit("a")}, {lit("a"), hold("x")}, {all("")}},
		{{lit("a")}, {hold("x")}, {lit("a"), lit("b")}},
		{{hold("y")}, {lit("a")}, {hold("y"), lit("b")}},
	}
	static := vChoose("static", 2) == 1
	hit, runs, full := "", 0, ""
	pats := map[string]string{}
	r := water.NewRouter()
	rot := vChoose("rot", 3)
	rss := make([][]mroute, 3)
	for i, m := range ms {
		rss[i] = tables[(i+rot)%3]
		if i == 2 {
			rss[i] = rss[i][:2]
		}
		for j := range rss[i] {
			id := m + strconv.Itoa(j)
			pats[id] = rss[i][j].pattern()
			reg(r, m, pats[id], func(c *water.Context) { hit, full, runs = id, c.FullPath(), runs+1; c.WriteHeader(299) })
		}
	}
	e := r.Handler(water.WithStaticRouter(static))
	n := vB(2, 3)
	path := ""
	for i := 0; i < n; i++ {
		if i == 0 || vChoose("other", 2) == 1 {
			path = "/" + vStr("s", 0, 1)
			if vChoose("deep", 2) == 1 {
				path = "/a/" + vStr("t", 1, 1)
			}
		}
		k := vChoose("m", 3)
		hit, runs, full = "", 0, ""
		w := serve(e, newReq(ms[k], path))
		want, _ := refRoute(rss[k], path)
		if want < 0 {
			vAssert(runs == 0, "a handler ran although no route matches the path")
			vAssert(w.status() == 404, "an unmatched path is not answered 404")
			continue
		}
		vAssert(runs == 1 && w.status() == 299, "no handler ran although a route matches the path")
		vAssert(hit == ms[k]+strconv.Itoa(want) && full == pats[hit], "the request was not served by the highest-priority matching route")
	}
	vReach("end")
}

// clients behind one proxy, one after the other
func H_Q04_history() {
	e := newPlainApp(func(c *water.Context) string { return c.RealIp() + "|" + strings.Join(c.Proxy(), ",") })
	for i := 0; i < vB(2, 3); i++ {
		q := newReq("GET", "/")
		q.RemoteAddr = []string{"9.9.9.9:1", "8.8.8.8:1"}[vChoose("peer", 2)]
		want := q.RemoteAddr[:7]
		var l []string
		if vChoose("xff", 2) == 1 {
			want = vStrOf("hop", 1, 2, "123")
			l = []string{want, "7"}
			q.Header["X-Forwarded-For"] = []string{want + ", 7"}
		}
		if vChoose("real", 2) == 1 {
			want = vStrOf("real", 1, 2, "123")
			q.Header["X-Real-Ip"] = []string{want}
		}
		w := serve(e, q)
		vAssert(string(w.body) == want+"|"+strings.Join(l, ","), "the client address is not X-Real-IP, the first forwarded hop or the peer, in this order")
	}
	vReach("end")
}

func newPlainApp(f func(c *water.Context) string) *water.Engine {
	r := water.NewRouter()
	r.GET("/", func(c *water.Context) { c.String(200, f(c)) })
	return r.Handler()
}

// a request of another origin, or a preflight, handled while one is in progress
func meanwhileCors() {
	conf := water.CORSConfig{AllowOrigins: []string{"ab", "ba"}, ExposeHeaders: []string{"X-E"}, MaxAge: 7, AllowCredentials: vChoose("cred", 2) == 1}
	if vChoose("star", 2) == 1 {
		conf.AllowOrigins = append(conf.AllowOrigins, "*")
	}
	mk := func() func(e *water.Engine) *rec {
		o := vStrOf("o", 0, 2, "ab")
		m := []string{"GET", "OPTIONS"}[vChoose("pre", 2)]
		h := []string{"", "X-One", "X-Two,x-three"}[vChoose("ask", 3)]
		return func(e *water.Engine) *rec {
			q := newPlainReq(m, "/")
			has(q.Header, "Origin", o, o != "")
			has(q.Header, "Access-Control-Request-Headers", h, h != "")
			has(q.Header, "Access-Control-Request-Method", "DELETE", q.Method == "OPTIONS")
			return serve(e, q)
		}
	}
	outer, inner := mk(), mk()
	app := func(during func(e *water.Engine)) *water.Engine {
		var e *water.Engine
		depth := 0
		r := water.NewRouter()
		run := func(c *water.Context) {
			depth++
			if depth == 1 && during != nil {
				during(e)
			}
			depth--
		}
		r.Use(func(c *water.Context) { c.Next(); run(c) }) // after a preflight
		r.Use(water.CORS(conf))
		h := func(c *water.Context) { run(c); c.String(200, "x") }
		r.GET("/", h)
		reg(r, "OPTIONS", "/", h)
		e = r.Handler()
		return e
	}
	same := func(a, b *rec) {
		vAssert(a.status() == b.status() && string(a.body) == string(b.body), "a request is disturbed by another one served meanwhile")
		for _, h := range []map[string][]string{a.hdr, b.hdr} {
			for k := range h {
				vAssert(eqStrs(a.hdr[k], b.hdr[k]) && eqStrs(a.sent[k], b.sent[k]), "a request is disturbed by another one served meanwhile")
			}
		}
	}
	var in *rec
	w := outer(app(func(e *water.Engine) { in = inner(e) }))
	same(w, outer(app(nil)))
	same(in, inner(app(nil)))
	vReach("end")
}

func H_X04_cors()      { meanwhileCors() }
func H_S01_meanwhile() { meanwhileCors() }

// chains of any length up to some hundreds, shared between the router, a group and the route
func H_C01_long() {
	n := []int{15, 31, 62, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300}[vChoose("n", 16)]
	share := vChoose("share", 6)
	t := &mtree{}
	t.root = &mgrp{r: water.NewRouter()}
	g := &mgrp{parent: t.root, pat: "/g", r: t.root.r.Group("/g")}
	use := func(m *mgrp, k int) {
		for i := 0; i < k; i++ {
			h, id := t.handler()
			m.r.Use(h)
			m.mw = append(m.mw, id)
		}
	}
	switch share {
	case 0:
		t.route(g, "GET", "/x", n)
	case 1:
		use(t.root, n-1)
		t.route(g, "GET", "/x", 1)
	case 2:
		use(g, n-2)
		t.route(g, "GET", "/<x>", 2)
	case 3:
		use(t.root, n/3)
		use(g, n/3)
		t.route(g, "POST", "/*", n-n/3-n/3)
	case 4, 5: // handed over with the group's function, or used inside it
		c := &mgrp{parent: t.root, pat: "/c"}
		var is []interface{}
		for i := 0; i < n-2 && share == 4; i++ {
			h, id := t.handler()
			is = append(is, h)
			c.mw = append(c.mw, id)
		}
		is = append(is, func(r *water.Router) {
			c.r = r
			if share == 5 {
				use(c, n/2)
				t.route(c, "GET", "/early", 1)
				use(c, n-2-n/2)
			}
			t.route(c, "GET", "/x", 2)
		})
		t.root.r.Group("/c", is...)
	}
	t.check()
	vReach("end")
}
