package main

import (
	"bytes"
	stdjson "encoding/json"
	"encoding/xml"
	"errors"
	"io"
	"net/url"
	"strings"
	"time"

	"github.com/meilihao/water"
)

type jdoc struct {
	A string   `json:"a" xml:"a"`
	N int      `json:"n" xml:"n,attr"`
	L []string `json:"l,omitempty" xml:"l"`
	P *jdoc    `json:"p" xml:"p"`
	B bool     `json:"-" xml:"-"`
}

// wantResp: exactly this status, content type and body reach the client.
func wantResp(w *rec, code int, ct, body string) {
	vAssert(len(w.statuses) == 1 && w.statuses[0] == code, "the client does not receive the given status")
	if len(w.statuses) == 1 {
		h := w.sent["Content-Type"]
		vAssert(len(h) == 1 && h[0] == ct, "the client does not receive the documented content type")
	}
	vAssert(string(w.body) == body, "the client does not receive exactly the given body")
}

// text, HTML and data helpers for every status, content type and body
func H_X03_text() {
	vNoise()
	r := water.NewRouter()
	code := vInt("code", 200, 599)
	s := vStr("s", 0, vB(4, 6))
	ct := vStr("ct", 0, 2)
	op := vChoose("op", 4)
	earlier := vChoose("earlier", 3)
	r.GET("/", func(c *water.Context) {
		if earlier == 1 { // a content type set before is replaced
			c.SetHeader("Content-Type", "a/b")
		} else if earlier == 2 {
			c.Header()["Content-Type"] = []string{"a/b", "c/d"}
		}
		switch op {
		case 0:
			c.String(code, s)
		case 1:
			c.HTMLRaw(code, s)
		case 2:
			c.Data(code, ct, []byte(s))
		case 3:
			err := c.Stream(ct, strings.NewReader(s))
			vAssert(err == nil, "streaming fails")
		}
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	switch op {
	case 0:
		wantResp(w, code, "text/plain; charset=utf-8", s)
	case 1:
		wantResp(w, code, "text/html; charset=utf-8", s)
	case 2:
		wantResp(w, code, ct, s)
	case 3:
		vAssert(string(w.body) == s, "the client does not receive exactly the given body")
		if len(s) > 0 {
			if ct != "" {
				wantResp(w, 200, ct, s)
			}
		}
	}
	vReach("end")
}

// JSON: the encoder's output for every text and number of a document
func H_X03_json() {
	vNoise()
	r := water.NewRouter()
	code := vInt("code", 200, 599)
	s := vStrOf("s", 0, vB(2, 3), "a<\"\\\n\x01") + []string{"", "\u00e9", "\u2028"}[vChoose("tail", 3)]
	var v interface{}
	switch vChoose("v", 18) {
	case 6:
		v = []byte(s)
	case 7:
		v = stdjson.RawMessage(`{"a":[1,"x"]}`)
	case 8:
		v = map[string]string{"k": s, "": "e", "a": "z"}
	case 9:
		v = water.H{"s": s, "n": nil, "h": water.H{}}
	case 10:
		v = &s
	case 11:
		v = jsonOwn{"own"}
	case 12:
		v = textOwn{s}
	case 13:
		v = errors.New(s)
	case 14:
		v = (*jdoc)(nil)
	case 15:
		v = []string(nil)
	case 16:
		v = [2]int64{-1 << 63, 1<<63 - 1}
	case 17:
		v = url.Values{"k": {s, ""}}
	case 0:
		v = jdoc{A: s, N: vInt("n", -9, 99), L: []string{s, "x"}, P: &jdoc{A: "q"}}
	case 1:
		v = []interface{}{s, nil, true, 12}
	case 2:
		v = s
	case 3:
		v = &jdoc{A: s, B: true}
	case 4:
		v = nil
	case 5:
		v = []string{}
	}
	var err error
	r.GET("/", func(c *water.Context) { err = c.JSON(code, v) })
	w := serve(r.Handler(), newReq("GET", "/"))
	b, e := stdjson.Marshal(v)
	vAssert(e == nil && err == nil, "encoding fails")
	wantResp(w, code, "application/json; charset=utf-8", string(b)+"\n")
	vReach("end")
}

// XML: the encoder's output
func H_X03_xml() {
	r := water.NewRouter()
	code := vInt("code", 200, 599)
	s := vStrOf("s", 0, vB(2, 3), "a<&\"\n")
	var v interface{}
	switch vChoose("v", 8) {
	case 3:
		v = []byte(s)
	case 4:
		v = -5
	case 5:
		v = &s
	case 6:
		v = textOwn{s}
	case 7:
		v = []jdoc{{A: s}, {B: true}}
	case 0:
		v = jdoc{A: s, N: vInt("n", -9, 99), L: []string{s, "x"}, P: &jdoc{A: "q"}}
	case 1:
		v = s
	case 2:
		v = []string{s, "b"}
	}
	var err error
	r.GET("/", func(c *water.Context) { err = c.XML(code, v) })
	w := serve(r.Handler(), newReq("GET", "/"))
	b, e := xml.Marshal(v)
	vAssert((e == nil) == (err == nil), "encoding fails")
	if e != nil {
		b = nil
	}
	wantResp(w, code, "application/xml; charset=utf-8", string(b))
	vReach("end")
}

type tplRender struct {
	code           int
	set, name, arg string
	runs           int
}

func (t *tplRender) HTMLSet(c *water.Context, code int, set, name string, data interface{}) {
	t.code, t.set, t.name = code, set, name
	t.arg, _ = data.(string)
	t.runs++
	c.HTMLRaw(code, set+"|"+name+"|"+t.arg)
}

type defRender struct{}

func (defRender) HTMLSet(c *water.Context, code int, set, name string, data interface{}) {
	c.SetHeader("Content-Type", "text/html; charset=utf-8")
	c.WriteHeader(code)
}

// template helpers hand exactly their arguments to the installed renderer
func H_X03_template() {
	t := &tplRender{}
	custom := vChoose("custom", 2) == 1
	if custom {
		water.SetRender(t)
		defer water.SetRender(defRender{}) // the original renderer cannot be named from here
	}
	code := vInt("code", 200, 599)
	set, name, arg := vStr("set", 0, 2), vStr("name", 0, 2), vStr("arg", 0, 1)
	withSet := vChoose("withSet", 2) == 1
	r := water.NewRouter()
	r.GET("/", func(c *water.Context) {
		if withSet {
			c.HTMLSet(code, set, name, arg)
		} else {
			c.HTML(code, name, arg)
		}
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	if !withSet {
		set = water.DEFAULT_TPL_SET_NAME
	}
	if custom {
		vAssert(t.runs == 1 && t.code == code && t.set == set && t.name == name && t.arg == arg, "the renderer does not get the given arguments")
		wantResp(w, code, "text/html; charset=utf-8", set+"|"+name+"|"+arg)
	} else {
		wantResp(w, code, "text/html; charset=utf-8", "")
	}
	vReach("end")
}

// after a commit no helper alters the status, and bodies are appended
func H_X03_committed() {
	r := water.NewRouter()
	first, code := vInt("first", 200, 599), vInt("code", 200, 599)
	s := vStr("s", 0, 2)
	op := vChoose("op", 7)
	want := s
	r.GET("/", func(c *water.Context) {
		c.WriteHeader(first)
		switch op {
		case 0:
			c.String(code, s)
		case 1:
			c.HTMLRaw(code, s)
		case 2:
			c.Data(code, "x/y", []byte(s))
		case 3:
			c.Stream("x/y", strings.NewReader(s))
		case 4:
			c.JSON(code, 7)
			want = "7\n"
		case 5:
			c.XML(code, 7)
			want = "<int>7</int>"
		case 6:
			c.HTML(code, "n", nil)
			want = ""
		}
		vAssert(c.Status() == first, "a helper alters a committed status")
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	vAssert(len(w.statuses) == 1 && w.statuses[0] == first, "a helper alters a committed status")
	vAssert(string(w.body) == want, "the client does not receive exactly the given body")
	vReach("end")
}

type slowReader struct {
	s    string
	step int
	eof  bool
}

func (r *slowReader) Read(b []byte) (int, error) {
	if r.s == "" {
		return 0, io.EOF
	}
	n := r.step
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(b, r.s[:n])
	r.s = r.s[n:]
	if r.s == "" && r.eof {
		return n, io.EOF
	}
	return n, nil
}

// streams deliver everything the reader gives, in any portions; read errors are reported
func H_X03_stream() {
	vNoise()
	r := water.NewRouter()
	s := vStr("s", 0, 5)
	rd := &slowReader{s, 1 + vChoose("step", 3), vChoose("eof", 2) == 1}
	r.GET("/", func(c *water.Context) {
		vAssert(c.Stream("x/y", rd) == nil, "streaming fails")
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	vAssert(string(w.body) == s, "the client does not receive exactly the given body")
	if len(s) > 0 {
		wantResp(w, 200, "x/y", s)
	}
	vReach("end")
}

// a stream that breaks: what was read is delivered, and the error is reported whatever it is
func H_X03_broken() {
	s := vStr("s", 0, 3)
	bad := bodyErrs[vChoose("err", len(bodyErrs))]
	body := &oddBody{s: s, step: 1 + vChoose("step", 3), err: bad}
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		vAssert(c.Stream("x/y", body) == bad, "a stream that breaks is reported as complete")
	})
	vAssert(string(w.body) == s, "the client does not receive exactly the given body")
	vReach("end")
}

// attachments and headers
func H_X03_attachment() {
	r := water.NewRouter()
	s := vStr("s", 0, 3)
	inline := vChoose("inline", 3)
	k, v := "X-"+vStrOf("k", 1, 1, "ab"), vStr("v", 0, 2)
	r.GET("/", func(c *water.Context) {
		c.SetHeader(k, "old")
		c.SetHeader(k, v)
		c.NoCache()
		switch inline {
		case 0:
			c.Attachment("n.txt", time.Time{}, bytes.NewReader([]byte(s)))
		case 1:
			c.Attachment("n.txt", time.Time{}, bytes.NewReader([]byte(s)), false)
		case 2:
			c.Attachment("n.txt", time.Time{}, bytes.NewReader([]byte(s)), true)
		}
	})
	w := serve(r.Handler(), newReq("GET", "/"))
	d := "attachment"
	if inline == 2 {
		d = "inline"
	}
	wantResp(w, 200, "text/plain; charset=utf-8", s)
	vAssert(strings.HasPrefix(w.sent.Get("Content-Disposition"), d+";"), "the disposition is not the requested one")
	vAssert(w.sent.Get(k) == v && len(w.sent[k]) <= 1 || len(w.sent.Values(k)) == 1 && w.sent.Get(k) == v, "a header set by a handler does not reach the client")
	cc := w.sent.Get("Cache-Control")
	vAssert(strings.Contains(cc, "no-cache") && strings.Contains(cc, "must-revalidate") && w.sent.Get("Expires") == "0", "no-cache headers are missing")
	vReach("end")
}

type badText struct{ how int }

func (b badText) MarshalText() ([]byte, error) {
	if b.how == 1 {
		panic("badText")
	}
	return []byte("part"), errors.New("badText")
}

type cutReader struct {
	s   string
	how int
}

func (r *cutReader) Read(b []byte) (int, error) {
	if r.s == "" {
		if r.how == 1 {
			panic("cutReader")
		}
		return 0, errors.New("cutReader")
	}
	n := copy(b, r.s[:1])
	r.s = r.s[n:]
	return n, nil
}

// a response that fails on the way (the connection, the encoder, the source; by an error or a panic)
// leaves nothing behind for the next one
func H_X03_after() {
	r := water.NewRouter()
	op, how := vChoose("op", 7), vChoose("how", 3)
	left := vChoose("left", 12)
	code, text := vInt("code", 200, 599), vStr("text", 1, 2)
	doc := &jdoc{A: "earlier", N: 5, L: []string{"e1", "e2"}}
	r.GET("/bad", func(c *water.Context) {
		switch op {
		case 0:
			if how == 0 {
				c.JSON(200, doc)
			} else {
				c.JSON(200, []interface{}{"earlier", badText{how - 1}, "tail"})
			}
		case 1:
			if how == 0 {
				c.XML(200, doc)
			} else {
				c.XML(200, []interface{}{"earlier", badText{how - 1}, "tail"})
			}
		case 2:
			c.String(200, "earlier text")
		case 3:
			c.HTMLRaw(200, "earlier text")
		case 4:
			c.Data(200, "e/t", []byte("earlier text"))
		case 5:
			if how == 0 {
				c.Stream("e/t", strings.NewReader("earlier text"))
			} else {
				c.Stream("e/t", &cutReader{"earlier text", how - 1})
			}
		case 6:
			c.Write([]byte("earlier text"))
			if how > 0 {
				panic("earlier")
			}
		}
	})
	ok := func(c *water.Context) {
		switch c.Request.URL.Path {
		case "/j":
			vAssert(c.JSON(code, jdoc{A: "n"}) == nil, "encoding fails")
		case "/x":
			vAssert(c.XML(code, jdoc{A: "n"}) == nil, "encoding fails")
		case "/s":
			vAssert(c.Stream("x/y", &slowReader{text, 1, false}) == nil, "streaming fails")
		case "/t":
			c.String(code, text)
		}
	}
	for _, p := range []string{"/j", "/x", "/s", "/t"} {
		r.GET(p, ok)
	}
	h := r.Handler()
	for i := 0; i < 2; i++ {
		catch(func() { h.ServeHTTP(&failRec{newRec(), left}, newReq("GET", "/bad")) })
		switch vChoose("next", 4) {
		case 0:
			wantResp(serve(h, newReq("GET", "/j")), code, "application/json; charset=utf-8", "{\"a\":\"n\",\"n\":0,\"p\":null}\n")
		case 1:
			wantResp(serve(h, newReq("GET", "/x")), code, "application/xml; charset=utf-8", "<jdoc n=\"0\"><a>n</a></jdoc>")
		case 2:
			wantResp(serve(h, newReq("GET", "/s")), 200, "x/y", text)
		case 3:
			wantResp(serve(h, newReq("GET", "/t")), code, "text/plain; charset=utf-8", text)
		}
	}
	vReach("end")
}

type jsonOwn struct{ s string }

func (j jsonOwn) MarshalJSON() ([]byte, error) { return []byte(`{"own":"` + j.s + `"}`), nil }

type textOwn struct{ s string }

func (t textOwn) MarshalText() ([]byte, error) { return []byte("text:" + t.s), nil }
func (t textOwn) String() string               { return "not this" }
