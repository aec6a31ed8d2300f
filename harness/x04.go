package main

import (
	"bytes"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// an application whose handlers show everything a request can observe of its context
type obsApp struct {
	e   *water.Engine
	log string
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func newObsApp(static, nf bool) *obsApp {
	a := &obsApp{}
	see := func(tag string) func(*water.Context) {
		return func(c *water.Context) {
			a.log += tag + "(" + c.FullPath() + "," + b01(c.Written()) + b01(c.Status() != 0) + b01(c.Environ == nil) + ","
			vAssert(len(c.Params) <= 3, "more parameters than any route has")
			for _, k := range []string{"x", "y", "*0"} {
				if v, ok := c.Params[k]; ok {
					a.log += k + "=" + v + ";"
				}
			}
			for _, k := range []string{"e", "f"} {
				if _, ok := c.GetMaybe(k); ok {
					a.log += k + "!"
				}
			}
			a.log += b01(c.Request.Form == nil) + ")"
			if c.Params != nil { // a request may do with its parameters what it likes
				c.Params["x"] = "dirty"
				delete(c.Params, "*0")
			}
		}
	}
	r := water.NewRouter()
	r.Use(see("u"))
	r.GET("/s", see("s"))
	r.GET("/s/w", see("w"), func(c *water.Context) { c.String(201, "w") })
	r.GET("/p/<x>", see("p"), func(c *water.Context) {
		c.Set("e", 1)
		c.WriteHeader(202)
	}, see("not reached"))
	r.GET("/q/<x>/<y>", see("q"), func(c *water.Context) { a.log += "form:" + c.Query("k") + ";" + c.DefaultQuery("m", "d") })
	r.GET("/boom/<y>", see("b"), func(c *water.Context) { c.Set("f", 1); panic("boom") })
	r.GET("/late", see("l"), func(c *water.Context) { c.WriteHeader(203); panic("late") })
	r.POST("/f", see("f"), func(c *water.Context) { a.log += "form:" + c.Query("k") + ";" })
	r.GET("/a/*", see("a"), func(c *water.Context) { c.Next(); c.Next() }, see("a2"))
	opts := []water.Option{water.WithStaticRouter(static)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(see("n"), func(c *water.Context) { c.Set("e", 2); c.WriteHeader(404) }))
	}
	a.e = r.Handler(opts...)
	return a
}

const nReqs = 11

func obsReq(k int, s string) *http.Request {
	switch k {
	case 0:
		return newReq("GET", "/s")
	case 1:
		return newReq("GET", "/s/w")
	case 2:
		return newReq("GET", "/p/"+s)
	case 3:
		q := newReq("GET", "/q/"+s+"/z")
		q.URL.RawQuery = "k=" + url.QueryEscape(s)
		return q
	case 4:
		return newReq("GET", "/boom/"+s)
	case 5:
		return newReq("GET", "/late")
	case 6:
		q := newReq("POST", "/f")
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = io.NopCloser(bytes.NewReader([]byte("k=v")))
		return q
	case 7:
		return newReq("GET", "/none"+s)
	case 8:
		return newReq("BREW", "/s")
	case 9:
		q := newReq("GET", "/q/1/2")
		q.URL.RawQuery = "k=%zz" // parsing the form panics
		return q
	}
	return newReq("GET", "/a/"+s)
}

type outcome struct {
	log    string
	status []int
	body   string
	panics bool
}

func (a *obsApp) do(k int, s string) outcome {
	a.log = ""
	w := newRec()
	_, p := catch(func() { a.e.ServeHTTP(w, obsReq(k, s)) })
	return outcome{a.log, w.statuses, string(w.body), p}
}

func sameOutcome(a, b outcome) {
	vAssert(a.log == b.log, "a request observes state of an earlier request")
	vAssert(a.panics == b.panics, "a request fails differently after an earlier request")
	vAssert(len(a.status) == len(b.status) && (len(a.status) == 0 || a.status[0] == b.status[0]), "a request is answered differently after an earlier request")
	vAssert(a.body == b.body, "a request is answered differently after an earlier request")
}

// every history of requests against the same last request alone
func H_X04_histories() {
	static := vChoose("static", 2) == 1
	nf := static
	if vB(0, 1) == 1 {
		nf = vChoose("nf", 2) == 1
	}
	used, fresh := newObsApp(static, nf), newObsApp(static, nf)
	n := vB(1, 2)
	for i := 0; i < n; i++ {
		used.do(vChoose("h", nReqs), vStrOf("hs", 0, 1, "x/"))
	}
	k, s := vChoose("k", nReqs), vStr("s", 0, 1)
	sameOutcome(used.do(k, s), fresh.do(k, s))
	vReach("end")
}

// any paths at all
func H_X04_paths() {
	static := vChoose("static", 2) == 1
	mk := func() *app {
		return buildApp([]mroute{{lit("a"), hold("x")}, {lit("a"), lit("b"), all("r")}, {reDigits("n"), hold("y")}, {lit("c")}, {hold("z")}}, water.WithStaticRouter(static))
	}
	used, fresh := mk(), mk()
	p := "/" + vStr("p", 0, vB(3, 4))
	q := "/" + vStr("q", 0, vB(3, 4))
	used.answer("GET", p)
	x, y := used.answer("GET", q), fresh.answer("GET", q)
	vAssert(x.hit == y.hit && x.runs == y.runs && x.full == y.full && x.status == y.status && x.nstatus == y.nstatus, "a request is answered differently after an earlier request")
	vAssert(len(x.params) == len(y.params), "a request sees other parameters after an earlier request")
	for k, v := range x.params {
		w, ok := y.params[k]
		vAssert(ok && v == w, "a request sees other parameters after an earlier request")
	}
	vReach("end")
}

// a request handled while another one is in progress (the first one's context is in use)
func H_X04_nested() {
	var e *water.Engine
	r := water.NewRouter()
	inner := ""
	depth := 0
	ip := "/" + vStr("inner", 0, 2)
	ik := vChoose("kind", 2)
	r.GET("/o/<x>", func(c *water.Context) {
		if depth > 0 {
			vAssume(false)
		}
		depth++
		c.Set("k", "outer")
		q := newReq("GET", ip)
		if ik == 1 {
			q = newReq("GET", "/w/"+ip[1:])
		}
		catch(func() { serve(e, q) })
		vAssert(c.Param("x") == "1" && c.Get("k") == "outer" && !c.Written() && c.FullPath() == "/o/<x>", "a request is disturbed by another one served meanwhile")
		vAssert(c.Request.URL.Path == "/o/1", "a request is disturbed by another one served meanwhile")
	}, func(c *water.Context) { c.String(207, "o") })
	r.GET("/<x>", func(c *water.Context) {
		inner += "i"
		vAssert(len(c.Environ) == 0, "a request observes state of an earlier request")
		c.Set("k", "inner")
	})
	r.GET("/w/<x>", func(c *water.Context) { inner += "w"; c.WriteHeader(208); panic("x") })
	e = r.Handler()
	w := serve(e, newReq("GET", "/o/1"))
	vAssert(w.status() == 207 && string(w.body) == "o", "a request is disturbed by another one served meanwhile")
	vReach("end")
}

// mixApp: a handler that does one of many things a handler may do, named by a header, with texts of the request
type mixApp struct {
	e   *water.Engine
	log string
}

type failingText struct{ n int }

func (r *failingText) Read(b []byte) (int, error) {
	if r.n++; r.n == 1 {
		return copy(b, "part"), nil
	}
	return 0, errBody
}

const nMix = 22

func newMixApp(dir string) *mixApp {
	a := &mixApp{}
	say := func(l ...string) { a.log += strings.Join(l, ",") + ";" }
	ok := func(err error) { say(b01(err == nil)) }
	r := water.NewRouter()
	h := func(c *water.Context) {
		s := c.GetHeader("Text")
		switch c.GetHeader("Do")[0] - 'a' {
		case 0:
			c.String(201, s+"aa")
		case 1:
			ok(c.JSON(200, []string{s}))
		case 2:
			ok(c.JSON(200, []interface{}{s, make(chan int)}))
		case 3:
			ok(c.XML(200, jdoc{A: s}))
		case 4:
			ok(c.XML(200, []interface{}{s, make(chan int)}))
		case 5:
			ok(c.Stream("a/b", struct{ io.Reader }{strings.NewReader(s)}))
		case 6:
			ok(c.Stream("a/b", &failingText{}))
		case 7:
			c.HTMLRaw(202, s)
			c.SetCookie("late", s)
		case 8:
			c.Write([]byte(s))
			_, err := c.Write([]byte("2"))
			ok(err)
		case 9:
			v, err := c.BodyString()
			say(v)
			ok(err)
			w, err := c.BodyBytes()
			say(string(w))
			ok(err)
		case 10:
			say(c.Query("k"), c.DefaultQuery("z", "d"), num(len(c.QueryArray("k"))), c.DefaultQueryMap("m", map[string]string{"x": "dm"})["x"])
		case 11:
			var t struct {
				K string `form:"k" json:"k"`
				M string `form:"m" json:"m"`
			}
			ok(c.Bind(&t))
			say(t.K, t.M)
		case 12:
			c.SetCookie("n", s, 5, "/p", "d", true, true)
			c.SetHeader("X-A", s)
			c.Abort(403)
		case 13:
			c.Attachment(s, time.Unix(5, 0), strings.NewReader(s))
		case 14:
			c.NoCache()
			c.Found("/to/" + s)
		case 15:
			_, set := c.GetMaybe("e")
			say(b01(set))
			c.Set("e", s)
			panic(s)
		case 16:
			f, fh, err := c.FormFile("f")
			ok(err)
			if err == nil {
				b, _ := io.ReadAll(f)
				say(fh.Filename, string(b))
				f.Close()
				ok(c.SaveUploadedFile(fh, dir+"/up"))
				v, _, _ := vGet(dir + "/up")
				say(v)
			}
		case 17:
			ok(c.Download(dir + "/none"))
			ok(c.Download(dir + "/f"))
		case 18:
			say(c.FullPath(), c.Param("x"), num(len(c.Params)), c.UserAgent(), c.RealIp(), c.ContentType(), c.Cookie("n"), c.Protocol())
			c.Params["y"] = s
			c.Environ["e"] = s
		case 19:
			c.File(dir + "/none")
		case 20:
			say(b01(c.Written()), num(c.Status()), num(len(c.Environ)))
			c.WriteHeader(204)
			c.Next()
		case 21:
			say(c.QueryMap("m")["a"])
			c.HTML(203, "t", s)
		}
	}
	for _, m := range []string{"GET", "POST"} {
		reg(r, m, "/d/<x>", h, func(c *water.Context) { say("second", num(c.Status())) })
	}
	a.e = r.Handler()
	return a
}

// mixed: kinds of requests with the same texts
func (a *mixApp) do(k int, s string, bad bool) outcome {
	a.log = ""
	m, ct, body := "POST", "", s
	switch k {
	case 10:
		ct, body = "application/x-www-form-urlencoded", "k="+s+"&z=1&m%5Bx%5D="+s
	case 11:
		ct, body = "application/json", "{\"k\":\""+s+"\",\"m\":\"x\"}"
	case 16:
		ct, body = "multipart/form-data; boundary=XX", part("f", s+".txt", s)+"--XX--\r\n"
	case 18, 20, 21:
		m = "GET"
	}
	if bad && len(body) > 2 { // what arrives ends early
		body = body[:len(body)-2]
	}
	q := newReq(m, "/d/"+s)
	q.URL.RawQuery = "m[a]=" + s
	q.Header["Do"] = []string{string([]byte{byte('a' + k)})}
	q.Header["Text"] = []string{s}
	q.Header["Content-Type"] = []string{ct}
	q.Header["User-Agent"] = []string{s}
	q.Header["X-Real-Ip"] = []string{s}
	q.Header["Cookie"] = []string{"n=" + s}
	if m == "POST" {
		q.Body = &bodyRC{Reader: bytes.NewReader([]byte(body))}
	}
	w := &failRec{newRec(), 1 << 20}
	if bad {
		w.left = 1
	}
	v, p := catch(func() { a.e.ServeHTTP(w, q) })
	o := outcome{a.log, w.statuses, string(w.body), p}
	for _, k := range []string{"Content-Type", "Location", "Set-Cookie", "X-A", "Content-Disposition", "Cache-Control", "Expires"} {
		o.log += "|" + strings.Join(w.hdr[k], "+")
	}
	if t, ok := v.(string); ok {
		o.log += t
	}
	return o
}

// whatever a request does and however it ends, the next one is answered as if it were the first
func H_X04_mixed() {
	dir := vDir()
	vPutAt(dir+"/f", "content", 1000)
	i, k := vChoose("i", nMix), vChoose("k", nMix)
	used, fresh := newMixApp(dir), newMixApp(dir)
	s := "two" + vStrOf("s", 1, 1, "ab0")
	bad := vChoose("bad", 2) == 1
	var got, want outcome
	vCalm(func() {
		used.do(i, "one7", bad)
		got, want = used.do(k, s, false), fresh.do(k, s, false)
	})
	sameOutcome(got, want)
	vAssert(!strings.Contains(got.log+got.body, "one"), "a request observes state of an earlier request")
	vReach("end")
}
