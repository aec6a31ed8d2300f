package main

import (
	"strings"

	"github.com/meilihao/water"
)

func waterStyle(rs []mroute) []mroute {
	var o []mroute
	for _, r := range rs {
		var n mroute
		for _, s := range r {
			if s.kind == kHold {
				s.text = "<" + s.names[0] + ">"
			}
			n = append(n, s)
		}
		o = append(o, n)
	}
	return o
}

// the same table in both spellings (each segment chosen on its own), every path
func H_R06_styles() {
	a, b := lit("a"), lit("b")
	tables := [][]mroute{
		{{hold("x")}, {hold("x"), b}, {a, hold("y")}},
		{{a, hold("x"), hold("y")}, {a, b, hold("z")}, {hold("q")}},
		{{hold("x"), reDigits("n")}, {hold("y"), all("f")}, {a, hold("z"), b}},
		{{a, hold("id")}, {a, hold("name")}, {hold("v"), hold("w")}},
		{{hold("_"), b}, {hold("x"), hold("_")}, {a}},
	}
	rs := tables[vChoose("table", len(tables))]
	var mixed []mroute
	for _, r := range rs {
		var n mroute
		for _, s := range r {
			if s.kind == kHold && vChoose("gin", 2) == 1 {
				s = ginHold(s.names[0])
			}
			n = append(n, s)
		}
		mixed = append(mixed, n)
	}
	static := vChoose("static", 2) == 1
	x, y := buildApp(rs, water.WithStaticRouter(static)), buildApp(mixed, water.WithStaticRouter(static))
	path := "/" + vStr("s1", 0, vB(1, 2))
	for i, n := 0, vChoose("more", 3); i < n; i++ {
		path += "/" + vStr("s", 0, 1)
	}
	p, q := x.answer("GET", path), y.answer("GET", path)
	vAssert(p.hit == q.hit && p.runs == q.runs && p.status == q.status, "the two spellings route a path differently")
	vAssert(len(p.params) == len(q.params), "the two spellings bind different parameters")
	for k, v := range p.params {
		w, ok := q.params[k]
		vAssert(ok && v == w, "the two spellings bind different parameters")
	}
	if p.hit >= 0 {
		vReach("matched")
		vAssert(p.full == rs[p.hit].pattern(), "the reported route is not the pattern as written")
		vAssert(q.full == mixed[q.hit].pattern(), "the reported route is not the pattern as written")
	}
}

// the reported route is that of the handlers that run: in every method and table, empty for not-found handlers
func H_R06_fullpath() {
	pats := []string{"/", "/a", "/:x", "/a/<y>", "/a/:z/c", "/b/*", "/b/*f/c", "/<n ~ ^([0-9]+)$>/q"}
	var got []string
	r := water.NewRouter()
	r.Before(func(c *water.Context) { got = append(got, c.FullPath()) })
	r.Use(func(c *water.Context) { got = append(got, c.FullPath()) })
	own := ""
	split := vChoose("group", 2) == 1
	for _, p := range pats {
		p := p
		h := func(c *water.Context) {
			own = p
			got = append(got, c.FullPath())
		}
		if k := strings.LastIndexByte(p, '/'); split && k > 0 {
			r.Group(p[:k]).GET(p[k:], h)
		} else {
			r.GET(p, h)
		}
		r.POST(p, func(c *water.Context) { own, got = "POST", append(got, c.FullPath()) })
	}
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1), water.WithNoFoundHandlers(func(c *water.Context) {
		got = append(got, c.FullPath())
	}))
	for i := 0; i < 2; i++ { // also after another request
		own, got = "", nil
		path := "/" + vStr("s1", 0, 1)
		if vChoose("two", 2) == 1 {
			path += "/" + vStr("s2", 0, 1)
			if i == 0 && vChoose("three", 2) == 1 {
				path += "/c"
			}
		}
		serve(e, newReq("GET", path))
		vAssert(len(got) >= 2, "the middleware did not run")
		for _, g := range got {
			vAssert(g == own, "the reported route is not the one whose handlers run")
		}
	}
	vReach("end")
}

// names of placeholders: any text in either spelling
func H_R06_names() {
	vNoise()
	n := ""
	if vChoose("odd", 2) == 1 { // any character that does not mean something else
		n = []string{"", "a"}[vChoose("lead", 2)] + vStr("odd", 1, 1) + []string{"", "a"}[vChoose("trail", 2)]
		for i := 0; i < len(n); i++ {
			vAssume(vAnd(n[i] < 0x80, vOr(i > 0, n[i] != '*'), vNot(vIn(n[i], "/<>:~ \t\n\v\f\r"))))
		}
	} else {
		n = vStrOf("name", 1, vB(3, 4), "abZ_9-.é\xff")
	}
	vAssume(n != "_")
	var p1, p2 water.Params
	var f1, f2 string
	r1, r2 := water.NewRouter(), water.NewRouter()
	deep := vChoose("deep", 2) == 1
	t := ""
	if deep {
		t = "/t"
	}
	lead := []string{"", " "}[vChoose("space", 2)] // spaces around a name do not belong to it
	r1.GET("/u/:"+lead+n+t, func(c *water.Context) { p1, f1 = c.Params, c.FullPath() })
	r2.GET("/u/<"+lead+n+">"+t, func(c *water.Context) { p2, f2 = c.Params, c.FullPath() })
	v := vStr("v", 1, 1)
	vAssume(v != "/")
	serve(r1.Handler(), newReq("GET", "/u/"+v+t))
	serve(r2.Handler(), newReq("GET", "/u/"+v+t))
	vAssert(len(p1) == 1 && p1[n] == v, "':name' does not bind its parameter")
	vAssert(len(p2) == 1 && p2[n] == v, "'<name>' does not bind its parameter")
	vAssert(f1 == "/u/:"+lead+n+t && f2 == "/u/<"+lead+n+">"+t, "the reported route is not the pattern as written")
	vReach("end")
}
