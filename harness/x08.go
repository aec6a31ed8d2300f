package main

import (
	"bytes"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/meilihao/water"
)

// concurrently: symbolically, one run of f during which every write to memory that f did not allocate (or take from
// a pool) is recorded; natively, many runs of f at once under the race detector.
func concurrently(f func()) {
	if vSym() {
		vFrameBegin() // the first request warms up what is pooled, the second is the one among many
		vCalm(f)
		first := vFrameEnd()
		vFrameBegin()
		vCalm(f)
		if hit := vFrameEnd(); first != "" || hit != "" {
			if first == "" {
				first = hit
			}
			vFail(first)
		}
		return
	}
	if !vRace {
		f()
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 60; j++ {
				f()
			}
		}()
	}
	wg.Wait()
}

func raceReq(m, path, query, ct, body string) *http.Request {
	q := newReq(m, path)
	q.URL = &url.URL{Path: path, RawQuery: query}
	if ct != "" {
		q.Header["Content-Type"] = []string{ct}
	}
	q.Header["Cookie"] = []string{"n=v"}
	q.Header["X-Forwarded-For"] = []string{"1.2.3.4, 5.6.7.8"}
	q.Body = &bodyRC{Reader: bytes.NewReader([]byte(body))}
	return q
}

// what handlers do with a request: each reads and writes only its own context
func raceActs(k int) func(*water.Context) {
	switch k {
	case 0:
		return func(c *water.Context) { c.String(200, "x") }
	case 1:
		return func(c *water.Context) {
			for _, v := range c.Params {
				c.Set("p"+v, v)
			}
			c.GetMaybe("k")
			for _, k := range []string{"Vary", "Access-Control-Allow-Origin", "Access-Control-Allow-Methods", "X-A", "Set-Cookie", "Allow"} {
				c.Header().Add(k, "a")
			}
			c.SetHeader("X-A", c.FullPath()+c.RealIp()+c.HandlerName()+c.UserAgent()+c.ContentType()+c.Protocol())
			c.Next()
			c.JSON(201, []string{"a"})
		}
	case 2:
		return func(c *water.Context) {
			c.Query("q")
			c.QueryMap("m")
			c.QueryArray("a")
			c.DefaultQueryInt("i", "3")
			c.DefaultQueryArray("d", nil)
			c.DefaultQueryMap("m", nil)
			c.QueryBool("q")
			c.XML(200, "x")
		}
	case 3:
		return func(c *water.Context) {
			c.SetCookie("n", "v", 3, "/")
			c.Cookie("n")
			c.CookieInt("n")
			c.CookieEscape("n")
			c.IsAjax()
			c.IsWebsocket()
			c.Proxy()
			c.NoCache()
			c.Found("/x")
		}
	case 4:
		return func(c *water.Context) {
			t := bNums{}
			c.Bind(&t)
			c.Data(200, "a/b", []byte("x"))
		}
	case 5:
		return func(c *water.Context) { panic("boom") }
	case 6:
		return func(c *water.Context) { c.Abort(403) }
	case 7:
		return func(c *water.Context) { c.Write([]byte("x")); panic("late") }
	case 8:
		return func(c *water.Context) {
			c.BodyBytes()
			c.Stream("a/b", struct{ io.Reader }{strings.NewReader("x")})
			c.Status()
			c.Written()
		}
	}
	return func(c *water.Context) {}
}

const nRaceActs = 10

func raceApp(static, nf bool, a, b int, mws []interface{}) *water.Engine {
	r := water.NewRouter()
	for _, m := range mws {
		r.Use(m)
	}
	x, y := raceActs(a), raceActs(b)
	for _, m := range []string{"GET", "POST", "OPTIONS", "HEAD"} {
		reg(r, m, "/", x, y)
		reg(r, m, "/s", x)
		reg(r, m, "/p/<x>", x, y)
		reg(r, m, "/r/<x:[a-c]+>/<y>", y)
		reg(r, m, "/a/*", x, y)
	}
	r.Group("/g", func(r *water.Router) {
		r.Use(x)
		r.GET("/<z>", y)
	})
	opts := []water.Option{water.WithStaticRouter(static)}
	if nf {
		opts = append(opts, water.WithNoFoundHandlers(x, y))
	}
	return r.Handler(opts...)
}

// every method, every path up to a length around the routes, every switch of the engine
func H_X08_routing() {
	static, nf := vChoose("static", 2) == 1, vChoose("nf", 2) == 1
	m := []string{"GET", "POST", "BREW", "CONNECT", "DELETE"}[vChoose("m", 5)]
	heads := []string{"/", "/s", "/p/", "/r/", "/a/", "/g/", ""}
	path := heads[vChoose("head", len(heads))] + vStr("path", 0, vB(3, 4))
	act := vChoose("act", 2)
	e := raceApp(static, nf, act, 1-act, nil)
	if vChoose("warm", 2) == 1 {
		vFrameBegin()
		serve(e, newReq("GET", "/p/1"))
		vFrameEnd()
	}
	concurrently(func() {
		catch(func() { raceServe(e, raceReq(m, path, "", "", "")) })
	})
	vReach("end")
}

// every kind of handler, alone and behind every middleware
func H_X08_handlers() {
	a, b := vChoose("a", nRaceActs), []int{9, 5, 1, 0, 2, 3, 4, 6, 7, 8}[vChoose("b", vB(3, nRaceActs))]
	var mws []interface{}
	switch vChoose("mw", 4) {
	case 1:
		mws = append(mws, water.Recovery())
	case 2:
		mws = append(mws, water.CORS(water.DefaultCORSConfig))
	case 3:
		mws = append(mws, water.Logger(), water.Recovery())
	}
	e := raceApp(vChoose("static", 2) == 1, true, a, b, mws)
	paths := []string{"/", "/p/1", "/r/ab/c", "/a/x/y", "/none"}
	path := paths[vChoose("path", len(paths))]
	m := []string{"GET", "POST", "OPTIONS"}[vChoose("m", 3)]
	ct, body := "", ""
	if a == 4 || b == 4 || a == 2 || b == 2 {
		k := vChoose("ct", 4)
		ct = []string{"", "application/x-www-form-urlencoded", "multipart/form-data; boundary=XX", "application/json"}[k]
		body = []string{"", "i=1", part("i", "", "1") + "--XX--\r\n", "{\"i\":1}"}[k]
	}
	concurrently(func() {
		catch(func() { raceServe(e, raceReq(m, path, "m[a]=2", ct, body)) })
	})
	vReach("end")
}

// static files, downloads, directories and validators of the client's copy
func H_X08_static() {
	dir := vDir()
	vPutAt(dir+"/f", "content", 1000)
	vMkdir(dir + "/d")
	vPutAt(dir+"/d/i", "index", 2000)
	r := water.NewRouter()
	opt := &water.StaticOptions{Prefix: "/st", FileSystem: http.Dir(dir), ETag: water.ETagType(vChoose("etag", 3))}
	if vChoose("index", 2) == 1 {
		opt.IndexFile = "i"
	}
	if vChoose("exp", 2) == 1 {
		opt.Expires = func() string { return "0" }
	}
	r.StaticAdvance(opt)
	r.StaticFile("/one", dir+"/f")
	r.GET("/dl", func(c *water.Context) { c.Download(dir + "/f") })
	r.GET("/sf", func(c *water.Context) { c.ServeFile(dir + "/f") })
	r.GET("/at", func(c *water.Context) { c.Attachment("n", time.Unix(5, 0), strings.NewReader("abc")) })
	paths := []string{"/st/f", "/st/d/", "/st/d", "/st/none", "/one", "/dl", "/sf", "/at", "/st/"}
	path := paths[vChoose("path", len(paths))]
	if vChoose("sym", 2) == 1 {
		path = "/st/" + vStrOf("rest", 1, 2, "fdi/.")
	}
	m := []string{"GET", "HEAD"}[vChoose("m", 2)]
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	etag := vChoose("inm", 2) == 1
	concurrently(func() {
		q := newReq(m, path)
		if etag {
			q.Header["If-None-Match"] = []string{"x"}
		}
		raceServe(e, q)
	})
	vReach("end")
}

// the middleware under every configuration
func H_X08_middleware() {
	r := water.NewRouter()
	cfg := water.CORSConfig{}
	if vChoose("origins", 2) == 1 {
		cfg.AllowOrigins = []string{"http://a", "*"}
	}
	if vChoose("methods", 2) == 1 {
		cfg.AllowMethods = []string{"GET", "PUT"}
	}
	if vChoose("headers", 2) == 1 {
		cfg.AllowHeaders, cfg.ExposeHeaders, cfg.MaxAge, cfg.AllowCredentials = []string{"X-A"}, []string{"X-B"}, 5, true
	}
	order := vChoose("order", 3)
	if order == 0 {
		r.Use(water.Logger(), water.Recovery(), water.CORS(cfg))
	} else if order == 1 {
		r.Use(water.CORS(cfg), water.Recovery(), water.Logger())
	} else {
		r.Use(water.Recovery())
	}
	act := raceActs(vChoose("act", nRaceActs))
	for _, m := range []string{"GET", "POST", "OPTIONS"} {
		reg(r, m, "/<x>", act)
	}
	m := []string{"GET", "POST", "OPTIONS"}[vChoose("m", 3)]
	json := vChoose("json", 2) == 1
	e := r.Handler()
	concurrently(func() {
		q := raceReq(m, "/v", "", "", "{}")
		if json {
			q.Header["Content-Type"] = []string{"application/json"}
		}
		q.Header["Origin"] = []string{"http://a"}
		catch(func() { raceServe(e, q) })
	})
	vReach("end")
}

func raceServe(e *water.Engine, q *http.Request) {
	w := newRec()
	w.plain = true
	e.ServeHTTP(w, q)
}
