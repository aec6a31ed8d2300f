package main

import (
	"errors"
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// records splits a log at its records; a record of one level starts with its letter in brackets at a line start
func records(log, level string) []string {
	var l []string
	for _, x := range strings.Split("\n"+log, "\n[") {
		if len(x) > 1 && x[1] == ']' && x[:1] == level {
			l = append(l, x[2:])
		}
	}
	return l
}

// quietLog makes the records free of colours and times, and restores the switches
func quietLog(f func()) {
	a, b, c, d := water.LogClose, water.LogHttpBody, water.LogColor, water.LogTimeFormat
	defer func() { water.LogClose, water.LogHttpBody, water.LogColor, water.LogTimeFormat = a, b, c, d }()
	water.LogClose, water.LogHttpBody, water.LogColor, water.LogTimeFormat = false, true, false, "START"
	f()
}

// checkRecord: one access record tells the trace id, status, address, method, target and body
func checkRecord(r, trace string, status int, ip, method, target, body string) {
	f := strings.SplitN(r, "|", 5)
	vAssert(len(f) == 5, "an access record does not have its fields")
	vAssert((trace == "" || strings.Contains(f[0], " "+trace+" ")) && strings.Contains(f[0], "START"), "an access record lacks the trace id or the start time")
	vAssert(strings.TrimSpace(f[1]) == strconv.Itoa(status), "an access record has another status than the response")
	vAssert(strings.TrimSpace(f[3]) == ip, "an access record has another address than the client's")
	rest := strings.TrimLeft(f[4], " ")
	vAssert(strings.HasPrefix(rest, method+" "), "an access record has another method than the request")
	rest = strings.TrimLeft(rest[len(method):], " ")
	vAssert(strings.HasPrefix(rest, target), "an access record has another target than the request")
	rest = rest[len(target):]
	if body == "" {
		vAssert(strings.TrimSpace(rest) == "", "an access record has a body it should not have")
	} else {
		vAssert(rest == "\n"+body || rest == "\n"+body+"\n", "an access record does not have the body sent")
	}
}

// every request: status, target, method, address, trace id, body and switches
func H_G01_record() {
	quietLog(func() {
		water.LogClose = vChoose("close", 2) == 1
		water.LogHttpBody = vChoose("logbody", 2) == 1
		before := vChoose("before", 2) == 1
		code := []int{200, 304, 499, 999}[vChoose("code", 4)]
		method := []string{"GET", "POST", "DELETE"}[vChoose("m", 3)]
		path := "/" + vStr("p", 0, vB(1, 2))
		query := []string{"", "a=b&c", "x=%20|y"}[vChoose("q", 3)]
		body := vStrOf("body", 0, vB(2, 3), "{}\n|a")
		ct := []string{"application/json", "application/json; charset=utf-8", "text/json", ""}[vChoose("ct", 4)]
		trace := vStrOf("trace", 0, 1, "t-9")
		hit := 0
		r := water.NewRouter()
		h := func(c *water.Context) {
			hit++
			c.WriteHeader(code)
		}
		if before {
			r.Before(water.Logger())
		} else {
			r.Use(water.Logger())
		}
		r.ANY("/", h)
		r.ANY("/*", h)
		e := r.Handler()
		q := newReq(method, path)
		q.URL.RawQuery = query
		q.Body = &trackBody{s: body}
		q.Header["Trace-Id"] = []string{trace}
		if ct != "" {
			q.Header["Content-Type"] = []string{ct}
		}
		q.RemoteAddr = "10.0.0.7:1234"
		ip := "10.0.0.7"
		if vChoose("real", 2) == 1 {
			ip = "2001:db8::" + vStrOf("ip", 1, 1, "0af")
			q.Header["X-Real-Ip"] = []string{ip}
		}
		target := q.URL.String()
		log := vLogs(func() { serve(e, q) })
		l := records(log, "I")
		vAssume(hit == 1)
		if water.LogClose {
			vAssert(log == "", "something is logged although logging is off")
			vReach("closed")
			return
		}
		vAssert(len(l) == 1, "not exactly one access record is written for a request")
		if !(water.LogHttpBody && strings.HasPrefix(ct, "application/json")) {
			body = ""
		}
		checkRecord(l[0], trace, code, ip, method, target, body)
		vReach("end")
	})
}

// the record is written when the chain is done: once per request of a history, with the status of its response
func H_G01_history() {
	quietLog(func() {
		var log string
		r := water.Default()
		r.Before(func(c *water.Context) { log += "B" })
		code := vInt("code", 200, 599)
		r.GET("/ok", func(c *water.Context) { c.String(code, "x") })
		r.GET("/twice", func(c *water.Context) { c.WriteHeader(code); c.WriteHeader(201) })
		r.GET("/none", func(c *water.Context) {})
		r.GET("/boom", func(c *water.Context) { panic("the reason") })
		r.GET("/late", func(c *water.Context) { c.WriteHeader(code); panic(errors.New("the reason")) })
		r.GET("/body", func(c *water.Context) { c.Write([]byte("x")) })
		e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
		for i := 0; i < 2; i++ {
			k := vChoose("k", 7)
			p := []string{"/ok", "/twice", "/none", "/boom", "/late", "/body", "/missing"}[k]
			want := []int{code, code, 200, 500, code, 200, -1}[k]
			w := newRec()
			out := vLogs(func() { e.ServeHTTP(w, newReq("GET", p)) })
			acc, errs, warns := records(out, "I"), records(out, "E"), records(out, "W")
			if want < 0 {
				vAssert(len(acc)+len(errs)+len(warns) == 0, "an unmatched request is logged by route middleware")
				continue
			}
			vAssert(len(acc) == 1, "not exactly one access record is written for a request")
			vAssert(len(w.statuses) == 1 && w.statuses[0] == want, "not the requested status is delivered")
			checkRecord(acc[0], "", want, "192.0.2.1", "GET", p, "")
			if k == 3 || k == 4 {
				vAssert(len(errs) == 1 && strings.Contains(errs[0], "the reason"), "a recovered panic is not logged once with its value")
			} else {
				vAssert(len(errs) == 0, "an error is logged although no handler panicked")
			}
		}
		vReach("end")
	})
}

// colours change how the status looks and nothing else
func H_G01_colour() {
	quietLog(func() {
		code := vInt("code", 200, 599)
		r := water.NewRouter()
		r.Use(water.Logger())
		r.GET("/", func(c *water.Context) { c.WriteHeader(code) })
		e := r.Handler()
		var l [2]string
		for i := range l {
			water.LogColor = i == 1
			l[i] = vLogs(func() { serve(e, newReq("GET", "/")) })
		}
		f, g := strings.SplitN(l[0], "|", 3), strings.SplitN(l[1], "|", 3)
		vAssert(len(f) == 3 && len(g) == 3 && f[0] == g[0], "colours change more than the status of a record")
		vAssert(!strings.Contains(l[0], "\x1b") && strings.Contains(g[1], "\x1b"), "colours appear although they are off, or do not although they are on")
		vAssert(strings.Contains(g[1], " "+strconv.Itoa(code)+" ") && strings.TrimSpace(f[1]) == strconv.Itoa(code), "an access record has another status than the response")
		vReach("end")
	})
}

// what a record shows of a body is all of it, up to a mebibyte
func H_G01_large() {
	quietLog(func() {
		n := []int{600, 40000, 1<<20 - 1, 1 << 20, 1<<20 + 1}[vChoose("n", 5)]
		body := strings.Repeat("a", n-2) + vStrOf("tail", 2, 2, "{}")
		r := water.NewRouter()
		r.Use(water.Logger())
		r.POST("/", func(c *water.Context) { c.WriteHeader(201) })
		e := r.Handler()
		q := newReq("POST", "/")
		q.Header["Content-Type"] = []string{"application/json"}
		q.Body = &trackBody{s: body}
		l := records(vLogs(func() { serve(e, q) }), "I")
		vAssert(len(l) == 1, "not exactly one access record is written for a request")
		if n > 1<<20 {
			body = body[:1<<20]
		}
		i := strings.IndexByte(l[0], '\n')
		vAssert(i > 0 && strings.TrimSuffix(l[0][i+1:], "\n") == body, "an access record does not have the body sent")
		vReach("end")
	})
}

// the switches are looked at when a request comes, not when the middleware is made
func H_G01_switches() {
	quietLog(func() {
		type set struct{ close, body, color bool }
		var was, now set
		for i, s := range []*set{&was, &now} {
			l := num(i)
			*s = set{vChoose("close"+l, 2) == 1, vChoose("body"+l, 2) == 1, vChoose("color"+l, 2) == 1}
		}
		put := func(s set) { water.LogClose, water.LogHttpBody, water.LogColor = s.close, s.body, s.color }
		put(was)
		r := water.NewRouter()
		r.Use(water.Logger())
		code := []int{200, 404, 599}[vChoose("code", 3)]
		r.POST("/", func(c *water.Context) { c.WriteHeader(code) })
		e := r.Handler()
		send := func() string {
			q := newReq("POST", "/")
			q.Header["Content-Type"] = []string{"application/json"}
			q.Body = &trackBody{s: "{}"}
			return vLogs(func() { serve(e, q) })
		}
		if vChoose("used", 2) == 1 {
			send()
		}
		put(now)
		log := send()
		if now.close {
			vAssert(log == "", "something is logged although logging is off")
			vReach("closed")
			return
		}
		l := records(log, "I")
		vAssert(len(l) == 1, "not exactly one access record is written for a request")
		vAssert(strings.Contains(l[0], "\n{}") == now.body, "an access record has a body it should not have, or lacks it")
		vAssert(strings.Contains(l[0], "\x1b") == now.color, "colours appear although they are off, or do not although they are on")
		vAssert(strings.Contains(l[0], " "+strconv.Itoa(code)+" "), "an access record has another status than the response")
		vReach("end")
	})
}
