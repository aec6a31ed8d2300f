package main

import (
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

type stringerPanic struct{ s string }

func (p stringerPanic) String() string { return p.s }

type badError struct{}

func (*badError) Error() string { panic("error of error") }

// panicValue: panics of every kind a handler can raise; secret is the text it carries
func panicValue(k int, secret string) {
	switch k {
	case 0:
		panic(secret)
	case 1:
		panic(errors.New(secret))
	case 2:
		panic(stringerPanic{secret})
	case 3:
		panic(42)
	case 4:
		var m map[string]int
		m[secret] = 1
	case 5:
		var p *jdoc
		p.A = secret
	case 6:
		_ = []int{}[len(secret)]
	case 7:
		panic(http.ErrAbortHandler)
	case 8:
		panic(&badError{})
	case 9:
		panic([]string{secret})
	case 10:
		panic(map[string]int{})
	}
}

const nPanics = 11

// a panic anywhere behind the recovery middleware, at any point of the response
func H_X05_recover() {
	old := water.Status
	water.Status = []string{water.Stable, water.Dev}[vChoose("stable", 2)]
	stable := water.Status == water.Stable
	defer func() { water.Status = old }()
	secret := "QZ" + vStr("secret", 0, 1)
	kind := vChoose("kind", nPanics+1) // the last: no panic
	when := vChoose("when", 4)
	where := vChoose("where", 3)
	code := vInt("code", 200, 599)
	boom := func(c *water.Context) {
		switch when {
		case 1:
			c.WriteHeader(code)
		case 2:
			c.Write([]byte("ok"))
		case 3:
			c.String(code, "ok")
		}
		if kind < nPanics {
			panicValue(kind, secret)
		}
	}
	r := water.NewRouter()
	after := 0
	r.Use(water.Recovery())
	switch where {
	case 0:
		r.GET("/", boom, func(c *water.Context) { after++ })
	case 1:
		r.Use(func(c *water.Context) { c.Next() })
		r.GET("/", func(c *water.Context) { c.Next(); after++ }, boom)
	case 2:
		r.Use(func(c *water.Context) {
			if c.Request.URL.Path == "/" {
				defer boom(c)
			}
			c.Next()
		})
		r.GET("/", func(c *water.Context) {})
	}
	r.GET("/ok", func(c *water.Context) { c.String(205, "fine") })
	e := r.Handler()
	w := newRec()
	_, p := catch(func() { e.ServeHTTP(w, newReq("GET", "/")) })
	vAssert(!p, "a panic of a handler reaches the server")
	want, body := 200, ""
	switch when {
	case 0:
		if kind < nPanics {
			want = 500
		}
	case 1:
		want = code
	case 2:
		body = "ok"
	case 3:
		want, body = code, "ok"
	}
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	vAssert(w.statuses[0] == want, "a recovered or plain request has the wrong status")
	if kind == nPanics {
		vAssert(string(w.body) == body, "the recovery middleware changes a response without a panic")
	} else {
		vAssert(strings.HasPrefix(string(w.body), body), "what was written before the panic is lost")
		if stable {
			vAssert(string(w.body) == body, "the panic text reaches the client in stable state")
		}
	}
	// the application keeps serving
	w2 := serve(e, newReq("GET", "/ok"))
	vAssert(w2.status() == 205 && string(w2.body) == "fine", "a later request is not served correctly")
	vReach("end")
}

// recovery in front of not-found handlers, in groups, in global middleware, nested
func H_X05_places() {
	old := water.Status
	water.Status = water.Stable
	defer func() { water.Status = old }()
	r := water.NewRouter()
	boom := func(c *water.Context) { panic(fmt.Sprint("x", c.Request.URL.Path)) }
	place := vChoose("place", 5)
	p := "/" + vStr("p", 0, 2)
	opts := []water.Option{water.WithStaticRouter(vChoose("static", 2) == 1)}
	rerun := 0
	switch place {
	case 0:
		r.Before(water.Recovery())
		opts = append(opts, water.WithNoFoundHandlers(boom))
	case 1:
		r.Before(water.Recovery(), boom)
		r.GET("/<x>", func(c *water.Context) { rerun++ })
		opts = append(opts, water.WithNoFoundHandlers(func(c *water.Context) { rerun++ }))
	case 2:
		r.Use(water.Recovery())
		r.Group("/", func(g *water.Router) { g.Use(boom); g.GET("<x>", func(c *water.Context) { rerun++ }) })
	case 3:
		r.Use(water.Recovery(), water.Recovery())
		r.GET("/*", boom, func(c *water.Context) { rerun++ })
	case 4:
		r.Classic()
		r.GET("/*", http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { panic("std") }))
	}
	e := r.Handler(opts...)
	for i := 0; i < 2; i++ {
		w := newRec()
		_, pn := catch(func() { e.ServeHTTP(w, newReq("GET", p)) })
		vAssert(!pn, "a panic of a handler reaches the server")
		vAssert(len(w.statuses) == 1, "not exactly one status is committed")
		if w.statuses[0] != 404 || place < 2 {
			vAssert(w.statuses[0] == 500, "a recovered request is not answered 500")
		}
		vAssert(len(w.body) == 0, "the panic text reaches the client in stable state")
		vAssert(rerun == 0, "a handler behind the panicking one ran")
	}
	vReach("end")
}

// without a panic an unwritten response becomes 200 and nothing else changes
func H_X05_quiet() {
	vNoise()
	r := water.NewRouter()
	r.Use(water.Recovery())
	log := ""
	w1, w2 := vBool("w1"), vBool("w2")
	code := vInt("code", 200, 599)
	r.GET("/", func(c *water.Context) {
		log += "a"
		if w1 {
			c.WriteHeader(code)
		}
	}, func(c *water.Context) {
		log += "b"
		if w2 {
			c.String(code, "t")
		}
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	want := 200
	switch {
	case w1:
		want = code
		vAssert(log == "a" && len(w.body) == 0, "the recovery middleware changes a request without a panic")
	case w2:
		want = code
		vAssert(log == "ab" && string(w.body) == "t", "the recovery middleware changes a request without a panic")
	default:
		vAssert(log == "ab" && len(w.body) == 0, "the recovery middleware changes a request without a panic")
	}
	vAssert(len(w.statuses) == 1 && w.statuses[0] == want, "a recovered or plain request has the wrong status")
	vReach("end")
}
