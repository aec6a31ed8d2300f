package main

import (
	"net/url"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// overlap runs several requests at once: run(i, yield) is one of them, in a goroutine of its own, and at every
// yield any of them may go on. The order is a decision, so that each possible interleaving at the yields is one
// path; the same order is then enforced on the compiled code.
func overlap(n int, run func(i int, yield func())) {
	resume := make([]chan bool, n)
	ended := make(chan bool)
	fails := make([]interface{}, n)
	for i := range resume {
		resume[i] = make(chan bool, 1)
	}
	started := make([]bool, n)
	var alive []int
	for i := 0; i < n; i++ {
		alive = append(alive, i)
	}
	for len(alive) > 0 {
		k := vChoose("who", len(alive))
		i := alive[k]
		resume[i] <- true
		if !started[i] {
			started[i] = true
			go func() {
				ok := false
				defer func() {
					if !ok {
						fails[i] = recover()
					}
					ended <- true
				}()
				<-resume[i]
				run(i, func() {
					ended <- false
					<-resume[i]
				})
				ok = true
			}()
		}
		if <-ended {
			alive = append(append([]int{}, alive[:k]...), alive[k+1:]...)
		}
	}
	for _, f := range fails {
		if f != nil {
			panic(f)
		}
	}
}

// ovApp: what a request does, and in which moments another one may get between, is told by its headers
type ovApp struct {
	e     *water.Engine
	yield []func()
	log   []string
}

func newOvApp(n int, ms []string, static, nf bool) *ovApp {
	a := &ovApp{yield: make([]func(), n), log: make([]string, n)}
	id := func(c *water.Context) int { return int(c.Request.Header["Id"][0][0] - '0') }
	pause := func(c *water.Context) { a.yield[id(c)]() }
	see := func(c *water.Context) {
		s := c.FullPath() + "," + b01(c.Written()) + strconv.Itoa(c.Status()) + ","
		for _, k := range []string{"x", "y", "*0"} {
			if v, ok := c.Params[k]; ok {
				s += k + "=" + v + ";"
			}
		}
		if v, ok := c.GetMaybe("e"); ok {
			s += "e=" + v.(string)
		}
		a.log[id(c)] += s + "|"
	}
	r := water.NewRouter()
	r.Use(water.Recovery())
	r.Use(func(c *water.Context) {
		c.Set("e", c.Request.Header["Id"][0])
		c.Next()
		pause(c)
		see(c)
	})
	h := func(c *water.Context) {
		see(c)
		pause(c)
		see(c)
		switch c.Request.Header["Act"][0] {
		case "string":
			c.String(201, c.Params["x"])
		case "query":
			a.log[id(c)] += "q=" + c.Query("q") + ";"
			pause(c)
			a.log[id(c)] += "q=" + c.Query("q") + ";" + c.DefaultQuery("d", "none")
			c.JSON(200, []string{c.Query("q")})
		case "panic":
			pause(c)
			panic("boom")
		case "cookie":
			c.SetCookie("n", c.Request.Header["Id"][0], 3, "/")
			pause(c)
			a.log[id(c)] += "c=" + c.Cookie("n") + ";"
			c.Found("/to/" + c.Params["x"])
		case "body":
			b, err := c.BodyString()
			pause(c)
			a.log[id(c)] += "b=" + b + b01(err == nil)
			c.Data(202, "a/b", []byte(b))
		case "bind":
			t := struct {
				I int    `form:"i"`
				S string `form:"s"`
			}{}
			err := c.Bind(&t)
			pause(c)
			a.log[id(c)] += "t=" + strconv.Itoa(t.I) + t.S + b01(err == nil)
			c.XML(203, t.S)
		case "late":
			c.WriteHeader(204)
			pause(c)
			panic("late")
		}
	}
	for _, m := range ms {
		reg(r, m, "/s", h)
		reg(r, m, "/p/<x>", h)
		reg(r, m, "/g/<y:[a-c]+>/*", h)
	}
	opts := []water.Option{water.WithStaticRouter(static)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(func(c *water.Context) { c.Set("e", "nf"); pause(c); see(c); c.WriteHeader(404) }))
	}
	vCalm(func() { a.e = r.Handler(opts...) })
	return a
}

// one request: its answer, and all its handlers saw
func (a *ovApp) one(i int, act, path, query, body string, yield func()) string {
	a.yield[i] = yield
	m := "GET"
	ct := ""
	if act == "body" || act == "bind" {
		m = "POST"
		ct = "application/x-www-form-urlencoded"
	}
	q := raceReq(m, path, query, ct, body)
	q.URL = &url.URL{Path: path, RawQuery: query}
	q.Header["Id"] = []string{string(rune('0' + i))}
	q.Header["Act"] = []string{act}
	w := newRec()
	w.plain = true
	a.e.ServeHTTP(w, q)
	s := ""
	for _, x := range w.statuses {
		s += strconv.Itoa(x) + ","
	}
	for _, k := range []string{"Content-Type", "Location", "Set-Cookie", "Allow"} {
		s += strings.Join(w.hdr[k], "&") + ";"
	}
	b := string(w.body)
	if k := strings.Index(b, "\n"); k >= 0 && act != "body" { // what follows is the stack of the goroutine
		b = b[:k]
	}
	return s + b + "#" + a.log[i]
}

// requests that are in their handlers at the same time are answered as each would be alone
func H_X08_overlap() {
	acts := []string{"string", "query", "panic", "cookie", "body", "bind", "late"} // the fifth and sixth are posted
	n := 2
	var act, path, query, body []string
	ps := []string{"/p/", "/s", "/g/ab/r", "/none"}
	k := vChoose("p0", len(ps))
	static, nf := true, vChoose("nf", vB(1, 2)) == 0
	if k == 1 || vB(0, 1) == 1 {
		static = vChoose("static", 2) == 1
	}
	ms := []string{"GET"}
	j := vChoose("act", len(acts))
	if j == 0 && k == 0 {
		ps[0] += string([]byte{vByte("x")})
	} else {
		ps[0] += "some"
	}
	for i := 0; i < n; i++ {
		if i == 1 {
			j = (j + vChoose("act2", len(acts))) % len(acts)
			k = []int{k, (k + 1) % 4, 3}[vChoose("p1", vB(2, 3))]
			ps[0] = "/p/other"
		}
		act = append(act, acts[j])
		if j == 4 || j == 5 {
			ms = []string{"GET", "POST"}
		}
		path = append(path, ps[k])
		query = append(query, "q=v"+strconv.Itoa(i))
		body = append(body, "i="+strconv.Itoa(i+7)+"&s=w"+strconv.Itoa(i))
	}
	want, got := make([]string, n), make([]string, n)
	for i := range want {
		want[i] = newOvApp(n, ms, static, nf).one(i, act[i], path[i], query[i], body[i], func() {})
	}
	a := newOvApp(n, ms, static, nf)
	overlap(n, func(i int, yield func()) { got[i] = a.one(i, act[i], path[i], query[i], body[i], yield) })
	for i := range want {
		vAssert(got[i] == want[i], "a request is answered differently while another one is in progress")
	}
	vReach("end")
}

// requests take turns in any order, then a third one follows: what was in use is not handed out twice
func H_X08_turns() {
	n := vB(3, 4)
	a := newOvApp(n, []string{"GET"}, true, true)
	k := vChoose("first", 9)
	act := []string{[]string{"string", "panic", "late"}[k%3], "string", "string", "query"}
	path := []string{[]string{"/p/zero", "/none", "/s"}[(k+k/3)%3], "/p/one", "/p/two", "/none"}
	want, got := make([]string, n), make([]string, n)
	for i := range want {
		want[i] = newOvApp(n, []string{"GET"}, true, true).one(i, act[i], path[i], "q=v", "", func() {})
	}
	turn := func(i int, yield func()) { got[i] = a.one(i, act[i], path[i], "q=v", "", yield) }
	overlap(n, turn)
	for i := range want {
		vAssert(got[i] == want[i], "a request is answered differently while another one is in progress")
	}
	vReach("end")
}
