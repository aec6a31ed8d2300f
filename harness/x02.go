package main

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// A model of the response: what the first operation that commits decides.
type mresp struct {
	status int // 0: not committed
	body   string
}

func (m *mresp) head(code int) {
	if m.status == 0 {
		m.status = code
	}
}
func (m *mresp) write(s string) {
	m.head(200)
	m.body += s
}

// every sequence of primitive and helper writes: one commit, the first; all body bytes in order
func H_X02_sequences() {
	r := water.NewRouter()
	m := &mresp{}
	ran := 0
	r.GET("/", func(c *water.Context) {
		ran++
		vAssert(!c.Written() && c.Status() == 0, "a fresh context reports a written response")
		n := vB(3, 4)
		for i := 0; i < n; i++ {
			code := vInt("code", 200, 599)
			s := vStrOf("s", 0, 1, "ab\xff<")
			switch vChoose("op", 8) {
			case 0:
				c.WriteHeader(code)
				m.head(code)
			case 1:
				k, err := c.Write([]byte(s))
				vAssert(k == len(s) && err == nil, "a write reports a wrong count")
				m.write(s)
			case 2:
				c.String(code, s)
				m.head(code)
				m.write(s)
			case 3:
				c.Data(code, "x/y", []byte(s))
				m.head(code)
				m.write(s)
			case 4:
				c.HTMLRaw(code, s)
				m.head(code)
				m.write(s)
			case 5:
				c.Abort(code)
				m.head(code)
			case 6:
				err := c.Stream("x/y", strings.NewReader(s))
				vAssert(err == nil, "streaming fails")
				if len(s) > 0 {
					m.write(s)
				}
			case 7:
				http.Error(c, s, code)
				m.head(code)
				m.write(s + "\n")
			}
			vAssert(c.Written() == (m.status != 0), "written is not reported correctly")
			vAssert(c.Status() == m.status, "the reported status is not the first one requested")
		}
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	vAssert(ran == 1, "the handler did not run")
	checkResp(w, m)
	vReach("end")
}

func checkResp(w *rec, m *mresp) {
	if m.status == 0 {
		vAssert(len(w.statuses) == 0, "a status is committed although nothing was written")
	} else {
		vAssert(len(w.statuses) == 1, "not exactly one status is committed")
		vAssert(w.statuses[0] == m.status, "the committed status is not the first one requested")
	}
	vAssert(string(w.body) == m.body, "the body bytes do not arrive unchanged and in order")
}

// the fixed-status helpers and redirects, before or after another write
func H_X02_helpers() {
	vNoise()
	r := water.NewRouter()
	type hp struct {
		f    func(c *water.Context)
		code int
	}
	uri := "/" + vStrOf("uri", 0, 2, "ab/?")
	hs := []hp{
		{func(c *water.Context) { c.NotModified() }, 304},
		{func(c *water.Context) { c.BadRequest() }, 400},
		{func(c *water.Context) { c.Unauthorized() }, 401},
		{func(c *water.Context) { c.Forbidden() }, 403},
		{func(c *water.Context) { c.NotFound() }, 404},
		{func(c *water.Context) { c.InternalServerError() }, 500},
		{func(c *water.Context) { c.MovedPermanently(uri) }, 301},
		{func(c *water.Context) { c.Found(uri) }, 302},
		{func(c *water.Context) { c.HTML(299, "t", nil) }, 299},
		{func(c *water.Context) { c.HTMLSet(298, "s", "t", nil) }, 298},
		{func(c *water.Context) { c.JSON(297, "x") }, 297},
		{func(c *water.Context) { c.XML(296, "x") }, 296},
	}
	a, b := hs[vChoose("a", len(hs))], hs[vChoose("b", len(hs))]
	pre := vChoose("pre", 3)
	code := vInt("code", 200, 599)
	want := 0
	r.GET("/", func(c *water.Context) {
		if pre == 1 {
			c.WriteHeader(code)
			want = code
		} else if pre == 2 {
			c.Write(nil)
			want = 200
		} else {
			want = a.code
		}
		a.f(c)
		vAssert(c.Written() && c.Status() == want, "the reported status is not the first one requested")
		b.f(c)
		vAssert(c.Written() && c.Status() == want, "the reported status is not the first one requested")
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	vAssert(w.statuses[0] == want, "the committed status is not the first one requested")
	vReach("end")
}

// serving files: found, missing, conditional, ranges, directories
func H_X02_files() {
	dir := vDir()
	content := vStr("content", 0, 3)
	vPutAt(dir+"/f.txt", content, 1600000000)
	vPutAt(dir+"/index.html", "i", 1600000000)
	name := []string{"/f.txt", "/none", "/f.txt/x"}[vChoose("name", 3)]
	how := vChoose("how", 4)
	pre := vInt("pre", 199, 599)
	r := water.NewRouter()
	ran := 0
	want := 200
	var st int
	r.GET("/<x>", func(c *water.Context) {
		ran++
		if pre >= 200 {
			c.WriteHeader(pre)
		}
		switch how {
		case 0:
			c.File(dir + name)
		case 1:
			c.ServeFile(dir + name)
		case 2:
			err := c.Download(dir + name)
			vAssert((err == nil) == (name == "/f.txt"), "a failing download is not reported")
			if err != nil {
				vAssert(c.Written() == (pre >= 200), "a failed download writes a response")
				c.NotFound()
			}
		case 3:
			c.Attachment("n", time.Unix(1600000000, 0), strings.NewReader(content))
		}
		vAssert(c.Written(), "a served file is not reported as written")
		st = c.Status()
	})
	q := newReq("GET", "/f")
	cond := vChoose("cond", 4)
	switch cond {
	case 1:
		q.Header["If-Modified-Since"] = []string{"Sun, 13 Sep 2020 12:26:40 GMT"}
	case 2:
		q.Header["Range"] = []string{"bytes=1-1"}
	case 3:
		q.Header["If-None-Match"] = []string{"*"}
	}
	w := serve(r.Handler(), q)
	vAssert(ran == 1, "the handler did not run")
	found := how == 3 || name == "/f.txt"
	wantBody := content
	switch {
	case !found:
		want = 404
	case cond == 1:
		want, wantBody = 304, ""
	case cond == 2 && len(content) > 1:
		want, wantBody = 206, content[1:2]
	case cond == 2 && len(content) > 0:
		want = 416
	case cond == 2:
		want = 200
	}
	if pre >= 200 {
		want = pre
	}
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	if !(cond == 3) {
		vAssert(w.statuses[0] == want, "the committed status is not the first one requested")
		if found && want != 416 && !(cond == 2 && len(content) == 1) {
			vAssert(string(w.body) == wantBody, "the body bytes do not arrive unchanged and in order")
		}
	}
	vAssert(w.statuses[0] == st, "the reported status is not the committed one")
	vReach("end")
}

// writes from several handlers of one chain, standard handlers included; a failing connection
func H_X02_chain() {
	r := water.NewRouter()
	m := &mresp{}
	acts := vStrOf("acts", 4, 4, "HWN")
	var st []int
	mk := func(i int) interface{} {
		return asForm(i+1, func(w http.ResponseWriter, q *http.Request) {
			switch acts[i] {
			case 'H':
				w.WriteHeader(201 + i)
				m.head(201 + i)
			case 'W':
				w.Header()["Content-Type"] = []string{"x/y"}
				s := string(rune('a' + i))
				w.Write([]byte(s))
				m.write(s)
			}
		})
	}
	r.Use(func(c *water.Context) {
		c.Next()
		for c.Status() != 0 && len(st) < 3 {
			st = append(st, c.Status())
			c.Next()
		}
		vAssert(c.Status() == m.status, "the reported status is not the first one requested")
		vAssert(c.Written() == (m.status != 0), "written is not reported correctly")
	})
	r.GET("/", mk(0), mk(1), mk(2), mk(3))
	w := serve(r.Handler(), newReq("GET", "/"))
	checkResp(w, m)
	for i := range st {
		vAssert(st[i] == m.status, "the reported status changes later")
	}
	vReach("end")
}

type failRec struct {
	*rec
	left int
}

func (f *failRec) Write(b []byte) (int, error) {
	if len(f.statuses) == 0 {
		f.WriteHeader(200)
	}
	if len(b) > f.left {
		n := f.left
		f.body = append(f.body, b[:n]...)
		f.left = 0
		return n, errors.New("connection lost")
	}
	f.left -= len(b)
	f.body = append(f.body, b...)
	return len(b), nil
}

// a connection that fails after some bytes: errors are reported, the status stays
func H_X02_failing() {
	r := water.NewRouter()
	left := vChoose("left", 4)
	n1, n2 := vStr("a", 0, 2), vStr("b", 1, 3)
	ran := 0
	r.GET("/", func(c *water.Context) {
		ran++
		c.Header()["Content-Type"] = []string{"x/y"}
		k, err := c.Write([]byte(n1))
		vAssert((err == nil) == (len(n1) <= left) && (err != nil || k == len(n1)), "a failing write is not reported")
		k2, err2 := c.Write([]byte(n2))
		tot := len(n1) + len(n2)
		if err == nil {
			vAssert((err2 == nil) == (tot <= left) && (err2 != nil || k2 == len(n2)), "a failing write is not reported")
			err3 := c.Stream("x/y", strings.NewReader("z"))
			vAssert((err3 == nil) == (tot < left), "a failing write is not reported")
		}
		vAssert(c.Written() && c.Status() == 200, "the reported status is not the first one requested")
	})
	w := &failRec{newRec(), left}
	r.Handler().ServeHTTP(w, newReq("GET", "/"))
	vAssert(ran == 1 && len(w.statuses) == 1 && w.statuses[0] == 200, "not exactly one status is committed")
	vAssert(string(w.body) == (n1 + n2 + "z")[:len(w.body)], "the body bytes do not arrive unchanged and in order")
	vReach("end")
}

// handlers of net/http use whatever further abilities the writer they are given declares
func H_X02_abilities() {
	r := water.NewRouter()
	m := &mresp{}
	ran := 0
	step := func(w http.ResponseWriter, c *water.Context) {
		code := vInt("code", 200, 599)
		s := vStrOf("s", 0, 1, "ab")
		switch vChoose("op", 8) {
		case 0:
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
				m.head(200)
			}
		case 1:
			n, err := io.Copy(w, strings.NewReader(s))
			vAssert(int(n) == len(s) && err == nil, "a copy reports a wrong count")
			if s != "" {
				m.write(s)
			}
		case 2:
			n, err := io.Copy(w, struct{ io.Reader }{strings.NewReader(s)})
			vAssert(int(n) == len(s) && err == nil, "a copy reports a wrong count")
			if s != "" {
				m.write(s)
			}
		case 3:
			n, err := io.WriteString(w, s)
			vAssert(n == len(s) && err == nil, "a write reports a wrong count")
			m.write(s)
		case 4:
			if f, ok := w.(io.ReaderFrom); ok {
				n, err := f.ReadFrom(strings.NewReader(s))
				vAssert(int(n) == len(s) && err == nil, "a copy reports a wrong count")
				if s != "" {
					m.write(s)
				}
			}
		case 5:
			w.WriteHeader(code)
			m.head(code)
		case 6:
			w.Write([]byte(s))
			m.write(s)
		case 7:
		}
		if c != nil {
			vAssert(c.Written() == (m.status != 0), "written is not reported correctly")
			vAssert(c.Status() == m.status, "the reported status is not the first one requested")
		}
	}
	for i := 0; i < 2; i++ {
		if vChoose("std", 2) == 0 {
			r.Use(func(c *water.Context) {
				ran++
				step(c, c)
				step(c, c)
			})
		} else {
			r.Use(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				ran++
				c, _ := w.(*water.Context)
				step(w, c)
			}))
		}
	}
	r.GET("/", func(c *water.Context) {
		ran++
		vAssert(!c.Written(), "a handler runs after the response was written")
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	vAssert(ran >= 1, "the handler did not run")
	vAssert((ran == 3) == (m.status == 0), "a handler runs after the response was written, or does not although it was not")
	checkResp(w, m)
	vReach("end")
}
