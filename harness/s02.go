package main

import (
	"bytes"
	"net/http"

	"github.com/meilihao/water"
)

// the middleware anywhere in a chain: preflights end there, everything else passes once
func H_S02_flow() {
	vNoise()
	conf := water.CORSConfig{}
	switch vChoose("conf", 3) {
	case 1:
		conf.AllowOrigins = []string{vStrOf("o", 1, 1, "ab*")}
	case 2:
		conf.AllowOrigins = []string{"x", "y"}
		conf.AllowCredentials = true
		conf.MaxAge = 5
		conf.ExposeHeaders = []string{"E"}
	}
	place := vChoose("place", 4)
	code := vInt("code", 200, 599)
	body := vStr("body", 0, 1)
	nested := vChoose("nested", 2) == 1
	log := ""
	note := func(s string) func(*water.Context) {
		return func(c *water.Context) {
			log += s
			if nested && s == "a" {
				c.Next()
				log += "A"
			}
		}
	}
	final := func(c *water.Context) {
		log += "f"
		c.String(code, body)
	}
	cors := water.CORS(conf)
	r := water.NewRouter()
	var opts []water.Option
	before := "a"
	switch place {
	case 0:
		r.Use(note("a"), cors, note("b"))
	case 1:
		r.Before(note("a"), cors, note("b"))
		opts = append(opts, water.WithNoFoundHandlers(final))
	case 2:
		r.Use(cors, note("b"))
		before = ""
	case 3:
		r.Use(note("a"))
	}
	for _, m := range allMethods {
		switch place {
		case 3:
			reg(r, m, "/<x>", cors, note("b"), final, note("n"))
		default:
			reg(r, m, "/<x>", final, note("n"))
		}
	}
	e := r.Handler(opts...)
	m := allMethods[vChoose("m", len(allMethods))]
	q := newReq(m, "/p")
	if place == 1 && vChoose("notfound", 2) == 1 {
		q = newReq(m, "/no/route")
	}
	if vChoose("origin", 2) == 1 {
		q.Header["Origin"] = []string{vStrOf("origin", 0, 1, "abx")}
	}
	if vChoose("acrm", 2) == 1 {
		q.Header["Access-Control-Request-Method"] = []string{"PUT"}
	}
	if vChoose("withbody", 2) == 1 {
		q.Body, q.ContentLength = &bodyRC{Reader: bytes.NewReader([]byte("a=1"))}, 3
		q.Header["Content-Type"] = []string{"application/json"}
		q.Header["Content-Length"] = []string{"3"}
	}
	w := newRec()
	_, p := catch(func() { e.ServeHTTP(w, q) })
	vAssert(!p, "the CORS middleware panics")
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	after := ""
	if nested && before == "a" {
		after = "A"
	}
	if m == http.MethodOptions {
		vAssert(log == before+after, "a later handler runs for a preflight")
		vAssert(w.statuses[0] == 204 && len(w.body) == 0, "a preflight is not answered 204 without a body")
	} else {
		vAssert(log == before+"bf"+after, "a request does not continue through the rest of the chain exactly once")
		vAssert(w.statuses[0] == code && string(w.body) == body, "the status or body of a request is changed")
		vAssert(w.sent.Get("Content-Type") == "text/plain; charset=utf-8", "the headers of a handler are changed")
	}
	vReach("end")
}

// unwritten chains and chains that panic behave as without the middleware
func H_S02_unwritten() {
	vNoise()
	act := vChoose("act", 3)
	var logs [2]string
	var ps [2]bool
	var ns [2]int
	m := []string{"GET", "POST", "HEAD", "DELETE"}[vChoose("m", 4)]
	for i := 0; i < 2; i++ {
		log := ""
		r := water.NewRouter()
		if i == 1 {
			r.Use(water.CORS(water.DefaultCORSConfig))
		}
		reg(r, m, "/<x>", func(c *water.Context) {
			log += "1" + c.Param("x")
			switch act {
			case 1:
				panic("x")
			case 2:
				c.Next()
				log += "n"
			}
		}, func(c *water.Context) { log += "2" })
		e := r.Handler()
		w := newRec()
		_, ps[i] = catch(func() { e.ServeHTTP(w, newReq(m, "/"+vStrOf("p", 1, 1, "p"))) })
		logs[i], ns[i] = log, len(w.statuses)
	}
	vAssert(logs[0] == logs[1] && ps[0] == ps[1] && ns[0] == ns[1], "a request does not continue through the rest of the chain exactly once")
	vReach("end")
}

// whatever an earlier handler did, the rest of the chain runs and answers as without the middleware
func H_S02_begun() {
	m := allMethods[vChoose("m", len(allMethods))]
	act := vChoose("act", 5)
	code := vInt("code", 200, 599)
	body := vStr("body", 0, 1)
	origin := vChoose("origin", 2) == 1
	place := vChoose("place", 3)
	if m == http.MethodOptions {
		return
	}
	var logs, bodies [2]string
	var statuses [2]int
	for i := 0; i < 2; i++ {
		log := ""
		first := func(c *water.Context) {
			log += "1"
			switch act {
			case 0:
				c.WriteHeader(code)
			case 1:
				c.Write([]byte(body))
			case 2:
				c.String(code, body)
			case 3:
				c.Set("k", body)
				c.SetHeader("X-K", "1")
			case 4:
				c.SetHeader("Vary", "Accept")
				c.Write([]byte(body))
				c.Next()
				log += "n"
			}
		}
		cors := water.CORS(water.CORSConfig{AllowOrigins: []string{"a"}, AllowCredentials: true})
		r := water.NewRouter()
		var hs []interface{}
		switch place {
		case 0:
			r.Before(first)
		case 1:
			r.Use(first)
		case 2:
			hs = append(hs, first)
		}
		if i == 1 {
			switch place {
			case 0:
				r.Before(cors)
			case 1:
				r.Use(cors)
			case 2:
				hs = append(hs, cors)
			}
		}
		hs = append(hs, func(c *water.Context) { log += "2" }, func(c *water.Context) { log += "3"; c.Write([]byte("end")) })
		reg(r, m, "/<x>", hs...)
		q := newReq(m, "/p")
		if origin {
			q.Header["Origin"] = []string{"a"}
		}
		w := newRec()
		w.plain = true
		_, p := catch(func() { r.Handler().ServeHTTP(w, q) })
		vAssert(!p && len(w.statuses) == 1, "not exactly one status is committed")
		if len(w.statuses) == 1 {
			statuses[i] = w.statuses[0]
		}
		logs[i], bodies[i] = log, string(w.body)
	}
	vAssert(logs[0] == logs[1], "a request does not continue through the rest of the chain exactly once")
	vAssert(statuses[0] == statuses[1] && bodies[0] == bodies[1], "the status or body of a request is changed")
	vReach("end")
}
