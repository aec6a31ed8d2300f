package main

import (
	"io"
	"io/ioutil"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

type trackBody struct {
	s      string
	step   int
	closed int
	fail   bool
}

func (t *trackBody) Read(b []byte) (int, error) {
	if t.closed > 0 {
		return 0, http.ErrBodyReadAfterClose
	}
	if t.s == "" {
		if t.fail {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := len(t.s)
	if t.step > 0 && t.step < n {
		n = t.step
	}
	n = copy(b, t.s[:n])
	t.s = t.s[n:]
	return n, nil
}
func (t *trackBody) Close() error { t.closed++; return nil }

func withLog(f func()) {
	a, b, c := water.LogClose, water.LogHttpBody, water.LogColor
	defer func() { water.LogClose, water.LogHttpBody, water.LogColor = a, b, c }()
	f()
}

// one application with and one without the middleware; the handler reads the body in its own way
func logApps(h func(c *water.Context)) [2]*water.Engine {
	var es [2]*water.Engine
	for i := range es {
		r := water.NewRouter()
		if i == 1 {
			r.Use(water.Logger())
		}
		r.POST("/<x>", h)
		r.GET("/<x>", h)
		es[i] = r.Handler()
	}
	return es
}

// the body read, the response and the context are the same with and without the middleware
func H_X07_transparent() {
	withLog(func() {
		water.LogClose = vChoose("close", 2) == 1
		water.LogHttpBody = vChoose("logbody", 2) == 1
		water.LogColor = vChoose("color", 2) == 1
		body := vStr("body", 0, vB(3, 5))
		step := vChoose("step", 3)
		fail := vChoose("fail", 2) == 1
		ct := []string{"application/json", "application/json; charset=utf-8", "text/plain", ""}[vChoose("ct", 4)]
		act := vChoose("act", 4)
		code := vInt("code", 200, 599)
		var got string
		var gerr error
		es := logApps(func(c *water.Context) {
			if act != 3 {
				b, err := ioutil.ReadAll(c.Request.Body)
				got, gerr = string(b), err
			}
			switch act {
			case 0:
				c.String(code, got)
			case 1:
				c.WriteHeader(code)
			case 3:
				c.Data(code, "x/y", []byte("z"))
			}
		})
		var ws [2]*rec
		var gots [2]string
		var errs [2]error
		for i := range es {
			q := newReq("POST", "/p")
			if ct != "" {
				q.Header["Content-Type"] = []string{ct}
			}
			q.Body = &trackBody{s: body, step: step, fail: fail}
			got, gerr = "", nil
			ws[i] = serve(es[i], q)
			gots[i], errs[i] = got, gerr
		}
		if act != 3 {
			vAssert(gots[1] == body, "a handler behind the logger does not read exactly the request body")
			vAssert((errs[1] != nil) == (errs[0] != nil), "a body error is hidden or invented by the logger")
		}
		vAssert(len(ws[0].statuses) == len(ws[1].statuses) && ws[0].status() == ws[1].status(), "the logger changes the status")
		vAssert(string(ws[0].body) == string(ws[1].body), "the logger changes the body of the response")
		vAssert(len(ws[0].hdr) == len(ws[1].hdr), "the logger changes the headers of the response")
		vReach("end")
	})
}

// bodies around the size the logger keeps
func H_X07_large() {
	withLog(func() {
		water.LogHttpBody = true
		n := 1<<20 + vChoose("d", 3) - 1
		big := strings.Repeat("a", n-2) + vStr("tail", 2, 2)
		total := 0
		last := ""
		es := logApps(func(c *water.Context) {
			buf := make([]byte, 1<<18)
			for {
				k, err := c.Request.Body.Read(buf)
				total += k
				if k > 0 {
					last = string(buf[k-1 : k])
				}
				if err != nil {
					break
				}
			}
			c.WriteHeader(200)
		})
		q := newReq("POST", "/p")
		q.Header["Content-Type"] = []string{"application/json"}
		q.Body = &trackBody{s: big}
		serve(es[1], q)
		vAssert(total == n, "a handler behind the logger does not read exactly the request body")
		vAssert(last == big[n-1:], "a handler behind the logger does not read exactly the request body")
		vReach("end")
	})
}

// panics, continues and nil bodies pass through the logger
func H_X07_flow() {
	withLog(func() {
		water.LogClose = vChoose("close", 2) == 1
		water.LogHttpBody = vChoose("logbody", 2) == 1
		act := vChoose("act", 4)
		nilBody := vChoose("nil", 2) == 1
		log := ""
		var res [2]string
		var pans [2]bool
		var sts [2]int
		for i := 0; i < 2; i++ {
			log = ""
			r := water.NewRouter()
			r.Use(func(c *water.Context) { log += "0"; c.Next(); log += "9" })
			if i == 1 {
				r.Use(water.Logger())
			}
			r.GET("/<x>", func(c *water.Context) {
				log += "1"
				switch act {
				case 1:
					panic("x")
				case 2:
					c.WriteHeader(201)
				case 3:
					c.Next()
					log += "4"
				}
			}, func(c *water.Context) { log += "2" + c.Param("x") })
			e := r.Handler()
			q := newReq("GET", "/"+vStrOf("s", 1, 1, "z"))
			q.Header["Content-Type"] = []string{"application/json"}
			if nilBody {
				q.Body = nil
			}
			w := newRec()
			_, pans[i] = catch(func() { e.ServeHTTP(w, q) })
			res[i], sts[i] = log, len(w.statuses)*1000+w.status()
		}
		vAssert(res[0] == res[1] && pans[0] == pans[1] && sts[0] == sts[1], "the logger changes which handlers run or the status")
		vReach("end")
	})
}

// closing the body still closes the client's body, once
func H_X07_closing() {
	vNoise()
	withLog(func() {
		water.LogHttpBody = vChoose("logbody", 2) == 1
		body := vStr("body", 0, 3)
		tb := &trackBody{s: body}
		part := vChoose("part", 4)
		es := logApps(func(c *water.Context) {
			b := make([]byte, part)
			n, _ := io.ReadFull(c.Request.Body, b)
			vAssert(string(b[:n]) == body[:n] && (n == part || n == len(body)), "a handler behind the logger does not read exactly the request body")
			before := tb.closed
			c.Request.Body.Close()
			vAssert(tb.closed == before+1, "closing the body does not close the client's body")
			c.WriteHeader(200)
		})
		q := newReq("POST", "/p")
		q.Header["Content-Type"] = []string{"application/json"}
		q.Body = tb
		serve(es[1], q)
		vReach("end")
	})
}
