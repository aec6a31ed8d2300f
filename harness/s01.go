package main

import (
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

func joinList(l []string) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

// elems splits a header at its commas; spaces around the elements do not matter
func elems(vals []string) []string {
	var l []string
	for _, v := range vals {
		if v != "" {
			l = append(l, splitComma(v)...)
		}
	}
	return l
}

func varies(vals []string, on string) bool {
	for _, e := range elems(vals) {
		if strings.EqualFold(e, on) {
			return true
		}
	}
	return false
}

type corsCase struct {
	conf    water.CORSConfig
	origins []string // configured, or the default
	methods []string
	origin  string // of the request
	acrh    string
	method  string
}

func newCors() corsCase {
	var t corsCase
	n := vChoose("origins", 3)
	for i := 0; i < n; i++ {
		o := vStrOf("o", 1, vB(2, 3), "ab*")
		t.conf.AllowOrigins = append(t.conf.AllowOrigins, o)
	}
	t.origins = t.conf.AllowOrigins
	if n == 0 {
		t.origins = []string{"*"}
	}
	t.methods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}
	if vChoose("methods", 2) == 1 {
		t.conf.AllowMethods = []string{"GET", "BREW"}
		t.methods = t.conf.AllowMethods
	}
	t.conf.AllowHeaders = []string{"X-A", "X-B"}[:vChoose("headers", 3)]
	t.conf.ExposeHeaders = []string{"X-E", "X-F"}[:vChoose("expose", 3)]
	t.conf.AllowCredentials = vChoose("cred", 2) == 1
	t.origin = vStrOf("origin", 0, vB(2, 3), "ab*A")
	t.method = []string{"OPTIONS", "GET", "POST"}[vChoose("method", 3)]
	return t
}

func (t *corsCase) allowed() string {
	for _, o := range t.origins {
		if o == "*" || o == t.origin {
			return o
		}
	}
	return ""
}

// every configuration and request
func H_S01_grants() {
	t := newCors()
	age := vInt("age", -1, vB(12, 1000))
	t.conf.MaxAge = age
	r := water.NewRouter()
	r.Use(water.CORS(t.conf))
	for _, m := range allMethods {
		reg(r, m, "/x", func(c *water.Context) { c.WriteHeader(299) })
	}
	q := newReq(t.method, "/x")
	has(q.Header, "Origin", t.origin, t.origin != "")
	pre := t.method == "OPTIONS"
	if pre {
		q.Header["Access-Control-Request-Method"] = []string{"PUT"}
		t.acrh = []string{"", "X-Req, X-Other"}[vChoose("acrh", 2)]
		has(q.Header, "Access-Control-Request-Headers", t.acrh, t.acrh != "")
	}
	w := serve(r.Handler(), q)
	h := w.sent
	ao := h["Access-Control-Allow-Origin"]
	vAssert(len(ao) <= 1, "several origins are allowed")
	got := ""
	if len(ao) == 1 {
		got = ao[0]
	}
	want := t.allowed()
	star := false
	for _, o := range t.origins {
		star = vOr(star, o == "*")
	}
	if got != want { // either grant is right when '*' and the origin are both configured
		own := false
		for _, o := range t.origins {
			own = vOr(own, o == t.origin)
		}
		vAssert(vOr(vAnd(got == "*", star), vAnd(got == t.origin, own)), "an origin is allowed that is not configured, or a configured one is not")
	}
	vAssert(varies(h["Vary"], "Origin"), "the response does not vary on the origin")
	cred := h["Access-Control-Allow-Credentials"]
	vAssert(t.conf.AllowCredentials == (len(cred) == 1 && cred[0] == "true"), "credentials are allowed other than configured")
	if !t.conf.AllowCredentials {
		vAssert(len(cred) == 0, "credentials are allowed other than configured")
	}
	if pre {
		vAssert(eqStrs(elems(h["Access-Control-Allow-Methods"]), t.methods), "the allowed methods are not the configured ones")
		wantH := t.conf.AllowHeaders
		if len(wantH) == 0 && t.acrh != "" {
			wantH = []string{"X-Req", "X-Other"}
		}
		vAssert(eqStrs(elems(h["Access-Control-Allow-Headers"]), wantH), "the allowed headers are not the configured or requested ones")
		if len(t.conf.AllowHeaders) == 0 {
			vAssert(varies(h["Vary"], "Access-Control-Request-Headers"), "the headers asked for are echoed, but the response does not vary on them")
		}
		ma := h["Access-Control-Max-Age"]
		if age > 0 {
			vAssert(len(ma) == 1 && ma[0] == strconv.Itoa(age), "the max age is not the configured one")
		} else {
			vAssert(len(ma) == 0, "the max age is not the configured one")
		}
	} else {
		vAssert(eqStrs(elems(h["Access-Control-Expose-Headers"]), t.conf.ExposeHeaders), "the exposed headers are not the configured ones")
		vAssert(len(h["Access-Control-Allow-Methods"])+len(h["Access-Control-Max-Age"]) == 0, "a plain response carries preflight headers")
	}
	vReach("end")
}

// any bytes in origins, and one policy used for many requests
func H_S01_origins() {
	conf := water.CORSConfig{AllowOrigins: []string{"https://a.b", vStr("o", 1, vB(2, 3))}}
	two := conf.AllowOrigins[1]
	r := water.NewRouter()
	r.Use(water.CORS(conf))
	reg(r, "GET", "/x", func(c *water.Context) {})
	reg(r, "OPTIONS", "/x", func(c *water.Context) { vFail("a preflight reaches a handler") })
	e := r.Handler()
	for i := 0; i < 2; i++ {
		o := []string{"https://a.b", "https://A.b", "https://a.bc", "ttps://a.b", "*", ""}[vChoose("k", 6)]
		if vChoose("sym", 2) == 1 {
			o = vStr("origin", 0, vB(2, 3))
		}
		q := newReq([]string{"GET", "OPTIONS"}[vChoose("m", 2)], "/x")
		q.Header["Origin"] = []string{o}
		w := newRec()
		e.ServeHTTP(w, q)
		got := w.hdr.Get("Access-Control-Allow-Origin")
		want := ""
		if o == "https://a.b" || o == two {
			want = o
		} else if two == "*" {
			want = "*"
		}
		if got != want {
			vAssert(vAnd(got == "*", two == "*"), "an origin is allowed that is not configured, or a configured one is not")
		}
		vAssert(varies(w.hdr["Vary"], "Origin"), "the response does not vary on the origin")
	}
	vReach("end")
}

// origins that look like the configured one, or like one browsers and development servers send
func H_S01_near() {
	o := []string{"https://a.b", "http://a.b:8080", "https://*.a.b", "null", "a.b", "https://.*"}[vChoose("o", 6)]
	host := "a.b"
	var origin string
	switch vChoose("k", 8) {
	case 0:
		origin = o + []string{"/", ":443", ":80", ":8080", ".evil", "?x", "#", "@evil", ".", " ", ",http://x", " http://x"}[vChoose("tail", 12)]
	case 1:
		origin = []string{"null", "file://", "http://localhost", "http://localhost:3000", "http://127.0.0.1", "http://[::1]", "*", "http://", "https://", "chrome-extension://x", "capacitor://localhost", ""}[vChoose("known", 12)]
	case 2:
		origin = []string{"http://", "https://", "HTTPS://", "", "ws://"}[vChoose("scheme", 5)] + []string{host, host + ":8080", "A.b", "sub." + host, "x" + host, "evil@" + host, "b"}[vChoose("host", 7)]
	case 3:
		n := vChoose("cut", len(o))
		origin = o[:n] + o[n+1:]
	case 4:
		n := vChoose("ins", len(o)+1)
		origin = o[:n] + vStr("c", 1, 1) + o[n:]
	case 5:
		n := vChoose("put", len(o))
		origin = o[:n] + vStr("c", 1, 1) + o[n+1:]
	case 6:
		origin = strings.ToUpper(o)
	case 7:
		origin = o
	}
	r := water.NewRouter()
	r.Use(water.CORS(water.CORSConfig{AllowOrigins: []string{o}, AllowCredentials: vChoose("cred", 2) == 1}))
	m := []string{"GET", "OPTIONS"}[vChoose("m", 2)]
	reg(r, m, "/", func(c *water.Context) {})
	q := newReq(m, "/")
	has(q.Header, "Origin", origin, origin != "")
	got := serve(r.Handler(), q).hdr.Get("Access-Control-Allow-Origin")
	want := ""
	if origin == o {
		want = o
	}
	vAssert(got == want, "an origin is allowed that is not configured, or a configured one is not")
	vReach("end")
}

// the headers asked for come back whole, however many and however spelled
func H_S01_asked() {
	vNoise()
	n := []int{1, 2, 7, 20, 60}[vChoose("n", 5)]
	sep := []string{",", ", ", " ,", ",  "}[vChoose("sep", 4)]
	var want []string
	for i := 0; i < n; i++ {
		s := []string{"x-custom-header-", "X-Mixed-", "authorization", "Content-Type"}[i%4] + num(i)
		if i == n-1 {
			s += vStrOf("tail", 0, 2, "aZ0-_.!~")
		}
		want = append(want, s)
	}
	conf := water.CORSConfig{AllowCredentials: vChoose("cred", 2) == 1}
	if vChoose("conf", 2) == 1 {
		conf.AllowOrigins = []string{"https://a.example"}
	}
	if vChoose("set", 2) == 1 {
		conf.AllowHeaders = []string{"X-Only"}
	}
	r := water.NewRouter()
	r.Use(water.CORS(conf))
	reg(r, "OPTIONS", "/x", func(c *water.Context) {})
	q := newReq("OPTIONS", "/x")
	q.Header["Origin"] = []string{"https://a.example"}
	q.Header["Access-Control-Request-Method"] = []string{"PUT"}
	q.Header["Access-Control-Request-Headers"] = []string{strings.Join(want, sep)}
	w := serve(r.Handler(), q)
	if len(conf.AllowHeaders) > 0 {
		want = conf.AllowHeaders
	}
	vAssert(eqStrs(elems(w.sent["Access-Control-Allow-Headers"]), want), "the allowed headers are not the configured or requested ones")
	vReach("end")
}
