package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"mime/multipart"
	"net/http"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

// oddBody hands out its bytes in portions and ends with an error of its own if told to.
type oddBody struct {
	s      string
	step   int
	early  bool // report the end together with the last bytes
	err    error
	closed int
	reads  int
}

func (b *oddBody) Read(p []byte) (int, error) {
	b.reads++
	if b.s == "" {
		return 0, b.err
	}
	n := b.step
	if n > len(b.s) {
		n = len(b.s)
	}
	n = copy(p, b.s[:n])
	b.s = b.s[n:]
	if b.s == "" && b.early {
		return n, b.err
	}
	return n, nil
}
func (b *oddBody) Close() error { b.closed++; return nil }

var errBody = errors.New("body broke")
var bodyErrs = []error{errBody, io.ErrUnexpectedEOF, io.ErrClosedPipe, http.ErrBodyReadAfterClose, context.Canceled, io.ErrNoProgress}

// the body accessors give exactly the bytes the client sent, or the error of the connection
func H_X10_body() {
	vNoise()
	s := vStr("s", 0, vB(3, 5))
	if vChoose("long", 2) == 1 {
		s += strings.Repeat("0123456789", 60)
	}
	b := &oddBody{s: s, step: []int{1, 2, 1000}[vChoose("step", 3)], early: vChoose("early", 2) == 1, err: io.EOF}
	fails := vChoose("fails", 2) == 1
	if fails {
		b.err = bodyErrs[vChoose("err", len(bodyErrs))]
	}
	how := vChoose("how", 3)
	q := newReq([]string{"POST", "PUT", "GET"}[vChoose("m", 3)], "/")
	q.Header["Content-Type"] = []string{"text/plain"}
	q.Body = b
	inHandler(q, func(c *water.Context) {
		var got string
		var err error
		switch how {
		case 0:
			got, err = c.BodyString()
		case 1:
			var l []byte
			l, err = c.BodyBytes()
			got = string(l)
		case 2:
			rc := c.ReadCloser()
			var buf bytes.Buffer
			_, err = io.Copy(&buf, rc)
			got = buf.String()
			rc.Close()
		}
		if fails {
			vAssert(err == b.err, "a failing body is not reported")
		} else {
			vAssert(err == nil && got == s, "the body read is not the body sent")
			vAssert(b.closed >= 1, "a completely read body stays open")
		}
	})
	vReach("end")
}

// a form that cannot be parsed is reported by binding and by the accessors, never taken for an empty one
func H_X10_malformed() {
	kind := vChoose("kind", 6)
	bad := true
	q := newReq("POST", "/")
	switch kind {
	case 0:
		q.URL.RawQuery = "a=%" + vStr("x", 0, 2)
	case 1:
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = &bodyRC{Reader: bytes.NewReader([]byte("a=%" + vStr("x", 0, 2)))}
	case 2: // no boundary
		q.Header["Content-Type"] = []string{"multipart/form-data"}
		q.Body = &bodyRC{Reader: bytes.NewReader([]byte("--X--"))}
	case 3: // cut off
		q.Header["Content-Type"] = []string{"multipart/form-data; boundary=XX"}
		s := part("a", "", "1") + part("f", "n", "22") + "--XX--\r\n"
		cut := vConcInt(vInt("cut", 0, len(s)))
		q.Body = &bodyRC{Reader: bytes.NewReader([]byte(s[:cut]))}
		ref := *q
		ref.Body = &bodyRC{Reader: bytes.NewReader([]byte(s[:cut]))}
		bad = ref.ParseMultipartForm(1<<20) != nil
	case 4:
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = &oddBody{s: "a=1", step: 2, err: errBody}
	case 5:
		q.URL.RawQuery = "a=1;b=2"
	}
	if kind < 2 { // the escape may be a good one
		s := q.URL.RawQuery
		if kind == 1 {
			l, _ := io.ReadAll(q.Body)
			s = string(l)
			q.Body = &bodyRC{Reader: bytes.NewReader([]byte(s))}
		}
		bad = len(s) < 5
		if !bad {
			_, ok1 := hexVal(s[3])
			_, ok2 := hexVal(s[4])
			bad = !ok1 || !ok2
		}
	}
	how := vChoose("how", 3)
	w := inHandler(q, func(c *water.Context) {
		switch how {
		case 0:
			var t struct {
				A string `form:"a"`
			}
			err := c.Bind(&t)
			vAssert((err != nil) == bad, "a form that cannot be parsed is bound")
		case 1:
			_, p := catch(func() { c.Query("a") })
			vAssert(p == bad, "a form that cannot be parsed is taken for another one")
		case 2:
			_, p := catch(func() { c.ParseFormOrMultipartForm() })
			vAssert(p == bad, "a form that cannot be parsed is taken for another one")
		}
	})
	_ = w
	vReach("end")
}

// the binders on requests nobody parsed before, and on parsed ones: the value sent, or an error
func H_X10_binders() {
	kind := vChoose("kind", 7)
	parsed := vChoose("parsed", 2) == 1
	how := vChoose("how", 4)
	v := vStrOf("v", 0, 2, "ab1")
	q := newReq("POST", "/")
	multi := kind >= 4
	bad := false
	body := ""
	switch kind {
	case 0: // good ones
		q.URL.RawQuery = "a=" + v
	case 1, 2:
		body = "a=" + v
	case 3:
		body, bad = "a=%"+v, len(v) < 2
		if !bad {
			_, ok1 := hexVal(v[0])
			_, ok2 := hexVal(v[1])
			bad = !ok1 || !ok2
		}
	case 4, 5:
		body = part("a", "", v) + "--XX--\r\n"
	case 6:
		body, bad = part("a", "", v), true
		body = body[:len(body)-1]
	}
	if kind > 0 {
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = &bodyRC{Reader: bytes.NewReader([]byte(body))}
	}
	if multi {
		q.Header["Content-Type"] = []string{"multipart/form-data; boundary=XX"}
	}
	if parsed {
		if bad {
			return
		}
		if multi {
			vAssert(q.ParseMultipartForm(1<<20) == nil, "parsing fails")
		} else {
			vAssert(q.ParseForm() == nil, "parsing fails")
		}
		q.Body = &oddBody{err: errBody}
	}
	old := binding.Validator
	binding.Validator = nil
	defer func() { binding.Validator = old }()
	var t struct {
		A string `form:"a"`
		B string `form:"b"`
	}
	t.B = "kept"
	var err error
	switch how {
	case 0:
		err = binding.Form.Bind(q, &t)
	case 1:
		err = binding.Form.Bind2(q, &t)
	case 2:
		err = binding.FormMultipart.Bind(q, &t)
	case 3:
		err = binding.FormMultipart.Bind2(q, &t)
	}
	if how >= 2 && !multi || how >= 2 && bad {
		vAssert(err != nil, "a form that cannot be parsed is bound")
		vReach("refused")
		return
	}
	if how < 2 && multi { // only multipart binders read multipart bodies that nobody parsed
		vAssert(err == nil, "binding fails")
		if parsed {
			vAssert(t.A == v, "the value bound is not the one sent")
		}
		return
	}
	vAssert((err != nil) == bad, "a form that cannot be parsed is bound")
	if err == nil {
		want := v
		if kind == 3 {
			a, _ := hexVal(v[0])
			b, _ := hexVal(v[1])
			want = string([]byte{a<<4 | b})
		}
		vAssert(t.A == want && t.B == "kept", "the value bound is not the one sent")
		vReach("bound")
	}
	vReach("end")
}

// uploaded files are found by name, the first one with its content; unknown names and broken forms are errors
func H_X10_formfile() {
	n1, n2 := vStrOf("n1", 1, 1, "ab"), vStrOf("n2", 1, 1, "ab")
	c1, c2 := vStr("c1", 0, 2), vStr("c2", 0, 1)
	f1, f2 := "one.txt", "two.txt"
	if vChoose("filenames", 2) == 1 { // the names of the files are names of fields
		f1, f2 = "c", "b"
	}
	body := part("v", "", "text") + part(n1, f1, c1) + part(n2, f2, c2) + "--XX--\r\n"
	cut := vChoose("cut", 2) == 1
	if cut {
		body = body[:len(body)-9]
	}
	ask := vStrOf("ask", 1, 1, "abcv")
	parsed := vChoose("parsed", 3)
	q := multiReq(body)
	q.URL.Path = "/"
	inHandler(q, func(c *water.Context) {
		if cut {
			_, _, err := c.FormFile(ask)
			vAssert(err != nil, "a file of a broken upload is handed out")
			return
		}
		if parsed == 1 {
			c.ParseFormOrMultipartForm()
		} else if parsed == 2 {
			vAssert(c.Query("v") == "text", "the text of a multipart form is lost")
		}
		f, h, err := c.FormFile(ask)
		want, name, ok := "", "", false
		if n2 == ask {
			want, name, ok = c2, f2, true
		}
		if n1 == ask {
			want, name, ok = c1, f1, true
		}
		vAssert((err == nil) == ok, "an uploaded file is not found, or one that was not sent is")
		if !ok {
			vAssert(err == http.ErrMissingFile, "a missing file is reported as something else")
			return
		}
		var buf bytes.Buffer
		_, err = io.Copy(&buf, f)
		vAssert(err == nil && buf.String() == want && h.Filename == name, "the file handed out is not the one uploaded")
		f.Close()
		vReach("found")
	})
	vReach("end")
}

var _ = (*multipart.Form)(nil)
