package main

import (
	"net/http"

	"github.com/meilihao/water"
)

type formIface struct {
	f func(http.ResponseWriter, *http.Request)
}

func (h formIface) ServeHTTP(c *water.Context) { h.f(c, c.Request) }

type formStd struct {
	f func(http.ResponseWriter, *http.Request)
}

func (h *formStd) ServeHTTP(w http.ResponseWriter, r *http.Request) { h.f(w, r) }

const nForms = 7

// asForm presents f in one of the accepted handler forms.
func asForm(k int, f func(http.ResponseWriter, *http.Request)) interface{} {
	switch k {
	case 0:
		return func(c *water.Context) { f(c, c.Request) }
	case 1:
		return water.HandlerFunc(func(c *water.Context) { f(c, c.Request) })
	case 2:
		return formIface{f}
	case 3:
		return &formStd{f}
	case 4:
		return http.HandlerFunc(f)
	case 5:
		return f
	}
	return water.WrapHandler(f)
}

// two handlers of any form with any behaviour: each starts exactly once with this request
func H_C03_forms() {
	vNoise()
	r := water.NewRouter()
	req := newReq("GET", "/a")
	runs := []int{0, 0, 0}
	var wantBody []byte
	wantStatus := 0
	forms := []int{vChoose("f0", nForms), vChoose("f1", nForms), 0}
	acts := []int{vChoose("a0", 3), vChoose("a1", 3), 1}
	code := vInt("code", 200, 599)
	body := []byte(vStr("body", 1, 2))
	mk := func(i int) interface{} {
		return asForm(forms[i], func(w http.ResponseWriter, q *http.Request) {
			runs[i]++
			vAssert(q == req, "a handler is not invoked with this request")
			switch acts[i] {
			case 1:
				w.WriteHeader(code)
			case 2:
				w.Header().Set("Content-Type", "x/y")
				w.Write(body)
			}
		})
	}
	where := vChoose("where", 3)
	switch where {
	case 0:
		r.GET("/a", mk(0), mk(1), mk(2))
	case 1:
		r.Use(mk(0))
		r.Group("/a", func(g *water.Router) { g.Use(mk(1)); g.GET("", mk(2)) })
	case 2:
		r.Before(mk(0), mk(1))
		r.ANY("/a", mk(2))
	}
	e := r.Handler()
	w := serve(e, req)
	exp := 3
	for i := 0; i < 3; i++ {
		if acts[i] == 1 {
			wantStatus = code
		}
		if acts[i] == 2 {
			wantStatus = 200
			wantBody = body
		}
		if acts[i] != 0 {
			exp = i + 1
			break
		}
	}
	for i := 0; i < 3; i++ {
		if i < exp {
			vAssert(runs[i] == 1, "a handler is not invoked exactly once")
		} else {
			vAssert(runs[i] == 0, "a handler is invoked after another one wrote the response")
		}
	}
	vAssert(len(w.statuses) == 1 && w.status() == wantStatus, "what a handler writes is not what the client receives")
	vAssert(string(w.body) == string(wantBody), "what a handler writes is not what the client receives")
	vReach("end")
}

// the writer given to a standard handler is the response: headers, status, all body bytes
func H_C03_writer() {
	r := water.NewRouter()
	f := vChoose("form", nForms)
	v := vStr("v", 0, 2)
	b1, b2 := vStr("b1", 0, 2), vStr("b2", 0, 2)
	order := vChoose("order", 3)
	code := vInt("code", 200, 599)
	after := 0
	r.GET("/", asForm(f, func(w http.ResponseWriter, q *http.Request) {
		w.Header()["X-Test"] = []string{v}
		w.Header()["Content-Type"] = []string{"x/y"}
		if order > 0 {
			w.WriteHeader(code)
		}
		n, err := w.Write([]byte(b1))
		vAssert(n == len(b1) && err == nil, "a write reports a wrong count")
		if order == 2 {
			w.WriteHeader(500)
		}
		n, err = w.Write([]byte(b2))
		vAssert(n == len(b2) && err == nil, "a write reports a wrong count")
	}), func(c *water.Context) { after++ })
	w := serve(r.Handler(), newReq("GET", "/"))
	want := 200
	if order > 0 {
		want = code
	}
	vAssert(len(w.statuses) == 1 && w.status() == want, "what a handler writes is not what the client receives")
	vAssert(string(w.body) == b1+b2, "what a handler writes is not what the client receives")
	h := w.sent["X-Test"]
	vAssert(len(h) == 1 && h[0] == v, "a header set by a handler does not reach the client")
	vAssert(after == 0, "a handler is invoked after another one wrote the response")
	vReach("end")
}

// not-found handlers of any form
func H_C03_notfound() {
	r := water.NewRouter()
	f := vChoose("form", nForms)
	runs := 0
	p := "/" + vStr("p", 0, 2)
	req := newReq("GET", p)
	body := vStr("b", 1, 1)
	e := r.Handler(water.WithNoFoundHandlers(asForm(f, func(w http.ResponseWriter, q *http.Request) {
		runs++
		vAssert(q == req, "a handler is not invoked with this request")
		w.WriteHeader(404)
		w.Write([]byte(body))
	})))
	w := serve(e, req)
	vAssert(runs == 1, "a handler is not invoked exactly once")
	vAssert(len(w.statuses) == 1 && w.status() == 404 && string(w.body) == body, "what a handler writes is not what the client receives")
	vReach("end")
}

// handlers the standard library makes out of a handler: what they write is what the chain sees
func H_C03_library() {
	runs, after := 0, 0
	body := vStr("b", 1, 1)
	code := 200 + vInt("code", 0, 399)
	inner := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		runs++
		w.Header().Set("Content-Type", "x/y")
		w.WriteHeader(code)
		w.Write([]byte(body))
	})
	quiet := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { runs++ })
	in := inner
	written := vChoose("quiet", 2) == 0
	if !written {
		in = quiet
	}
	want, once, content := code, 1, body
	var h interface{}
	switch vChoose("kind", 7) {
	case 0:
		m := http.NewServeMux()
		m.Handle("/a/", in)
		h = m
	case 1:
		h = http.StripPrefix("/a", in)
	case 2:
		h = http.NotFoundHandler()
		want, once, content, written = 404, 0, "404 page not found\n", true
	case 3:
		h = http.RedirectHandler("/x", 307)
		want, once, content, written = 307, 0, "<a href=\"/x\">Temporary Redirect</a>.\n\n", true
	case 4:
		h = http.MaxBytesHandler(in, 10)
	case 5:
		h = struct{ http.Handler }{in}
	case 6:
		m := http.NewServeMux()
		m.Handle("/other", in)
		h = m
		want, once, content, written = 404, 0, "404 page not found\n", true
	}
	r := water.NewRouter()
	status := -1
	late := func(c *water.Context) { after++ }
	watch := func(c *water.Context) {
		c.Next()
		vAssert(c.Written() == written, "what a handler writes does not count as written")
		status = c.Status()
	}
	e := (*water.Engine)(nil)
	switch vChoose("where", 3) {
	case 0:
		r.GET("/a/b", watch, h, late)
		e = r.Handler()
	case 1:
		r.Use(watch, h)
		r.GET("/a/b", late)
		e = r.Handler()
	case 2:
		r.Before(watch)
		e = r.Handler(water.WithNoFoundHandlers(h, late))
	}
	w := serve(e, newReq("GET", "/a/b"))
	vAssert(runs == once, "a handler is not invoked exactly once")
	if !written {
		vAssert(after == 1 && len(w.statuses) == 0 && len(w.body) == 0, "a handler that writes nothing ends the chain")
		vReach("quiet")
		return
	}
	vAssert(after == 0, "a handler is invoked after another one wrote the response")
	vAssert(len(w.statuses) == 1 && w.status() == want && string(w.body) == content && status == want, "what a handler writes is not what the client receives")
	vReach("end")
}
