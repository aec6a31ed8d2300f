package main

import (
	"bytes"
	"io"
	"net/http"
	"net/url"

	"github.com/meilihao/water"
)

// trim removes leading and trailing white space (all of it outside ASCII, too).
func trim(s string) string {
	for {
		n := spaceLen(s)
		if n == 0 {
			break
		}
		s = s[n:]
	}
	for {
		n := spaceTail(s)
		if n == 0 {
			return s
		}
		s = s[:len(s)-n]
	}
}

// white space of Unicode, as UTF-8
var wideSpaces = []string{"\u0085", "\u00a0", "\u1680", "\u2000", "\u2001", "\u2002", "\u2003", "\u2004", "\u2005", "\u2006", "\u2007", "\u2008", "\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}

func asciiSpace(b byte) bool { return b == ' ' || b >= 9 && b <= 13 }

func spaceLen(s string) int {
	if s == "" {
		return 0
	}
	if asciiSpace(s[0]) {
		return 1
	}
	if s[0] < 0x80 {
		return 0
	}
	for _, w := range wideSpaces {
		if len(s) >= len(w) && s[:len(w)] == w {
			return len(w)
		}
	}
	return 0
}

func spaceTail(s string) int {
	if s == "" {
		return 0
	}
	if asciiSpace(s[len(s)-1]) {
		return 1
	}
	if s[len(s)-1] < 0x80 {
		return 0
	}
	for _, w := range wideSpaces {
		if len(s) >= len(w) && s[len(s)-len(w):] == w {
			return len(w)
		}
	}
	return 0
}

// checkForm compares every accessor with the values of the key (none: absent).
func checkForm(c *water.Context, key string, vals []string) {
	one, def := "", "dflt "
	if len(vals) > 0 {
		one = trim(vals[0])
		def = one
	}
	order := vChoose("order", 2) // whichever accessor comes first parses the form
	if order == 0 {
		vAssert(c.Query(key) == one, "a query value is not the trimmed first value of its key")
	}
	l := c.QueryArray(key)
	vAssert(len(l) == len(vals), "the array accessor does not return all values")
	dl := c.DefaultQueryArray(key, []string{" x", "y"})
	if len(vals) == 0 {
		vAssert(eqStrs(dl, []string{" x", "y"}), "a default is not used for an absent key")
	} else {
		vAssert(len(dl) == len(vals), "the array accessor does not return all values")
	}
	for i := range vals {
		vAssert(l[i] == trim(vals[i]) && dl[i] == l[i], "the array accessor does not return the trimmed values in order")
	}
	vAssert(c.DefaultQuery(key, "dflt ") == def, "a default is used for a present key or not used for an absent one")
	if order == 1 {
		vAssert(c.Query(key) == one, "a query value is not the trimmed first value of its key")
	}
}

// any values under any number of keys
func H_Q01_values() {
	form := url.Values{}
	keys := []string{"k", "kk", "K", ""}
	n := vChoose("n", vB(3, 4))
	for i := 0; i < n; i++ {
		form["k"] = append(form["k"], vStr("v", 0, vB(2-n/2, 2)))
	}
	for _, k := range keys[1:] {
		form[k] = []string{"other"}
	}
	want := append([]string(nil), form["k"]...)
	inHandler(func() *http.Request {
		q := newReq("GET", "/")
		q.Form = form
		q.PostForm = url.Values{}
		return q
	}(), func(c *water.Context) {
		checkForm(c, "k", want)
		vAssert(eqStrs(c.Request.Form["k"], want), "an accessor modifies the form")
		vAssert(c.Query("") == "other" && c.Query("K") == "other" && c.Query("none") == "", "a query value is that of another key")
	})
	vReach("end")
}

// white space of every kind around and inside values
func H_Q01_trim() {
	vNoise()
	alpha := " \t\xc2\xa0\x85a\xe2\x80\x8b\xff\x00"
	s := vStrOf("s", 0, vB(4, 5), alpha)
	q := newReq("GET", "/")
	q.Form, q.PostForm = url.Values{"k": {s, s + "x"}}, url.Values{}
	inHandler(q, func(c *water.Context) { checkForm(c, "k", []string{s, s + "x"}) })
	vReach("end")
}

// any query string and urlencoded body, any method
func H_Q01_parsed() {
	raw := vStrOf("raw", 0, vB(3, 4), "k=v&+%2 ;") + []string{"", "&k=%20w"}[vChoose("tail", 2)]
	method := []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD"}[vChoose("method", 6)]
	body := []string{"", "k=b", "k=b1&z=1&k=+b2+"}[vChoose("body", 3)]
	ct := []string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8", "text/plain", "application/json"}[vChoose("ct", 4)]
	mk := func() *http.Request {
		q := newReq(method, "/")
		q.URL.RawQuery = raw
		q.Header["Content-Type"] = []string{ct}
		q.Body = io.NopCloser(bytes.NewReader([]byte(body)))
		q.ContentLength = int64(len(body))
		return q
	}
	ref := mk()
	err := ref.ParseForm()
	ran := 0
	r := water.NewRouter()
	for _, m := range allMethods {
		reg(r, m, "/", func(c *water.Context) {
			ran++
			vals := ref.Form["k"]
			checkForm(c, "k", vals)
			vAssert(eqStrs(c.Request.Form["k"], vals), "an accessor modifies the form")
		})
	}
	e := r.Handler()
	_, p := catch(func() { serve(e, mk()) })
	vAssert(p == (err != nil), "a malformed form is not reported, or a correct one is")
	vReach("end")
}

// multipart values come after those of the query string, as net/http defines it
func H_Q01_multipart() {
	v1 := vStr("v1", 0, 2)
	v2 := vStr("v2", 0, 1)
	for i := 0; i < len(v1+v2); i++ {
		b := (v1 + v2)[i]
		vAssume(vAnd(b != '-', b != '\r'))
	}
	body := part("k", "", v1) + part("k", "", v2) + part("f", "name", "file") + "--XX--\r\n"
	q := multiReq(body)
	q.URL.Path, q.RequestURI = "/", "/"
	q.Method = []string{"POST", "PUT", "PATCH"}[vChoose("method", 3)]
	want := []string{v1, v2}
	if vChoose("query", 2) == 1 {
		q.URL.RawQuery = "k=q"
		want = append(want, "q")
	}
	inHandler(q, func(c *water.Context) {
		got := c.QueryArray("k")
		vAssert(len(got) == len(want), "the array accessor does not return all values")
		ref := c.Request.Form["k"]
		for i := range got {
			vAssert(got[i] == trim(ref[i]), "the array accessor does not return the trimmed values in order")
		}
		// each value sent is there once
		for _, w := range want {
			n := 0
			for _, x := range ref {
				if x == w {
					n++
				}
			}
			vAssert(n > 0, "a value of the multipart form is missing")
		}
		vAssert(c.Query("k") == trim(ref[0]) && c.Query("f") == "", "a query value is not the trimmed first value of its key")
	})
	vReach("end")
}
