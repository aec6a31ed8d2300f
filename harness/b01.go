package main

import (
	"mime"
	"net/url"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

var bMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", ""}

func bWant(method, media string) string {
	switch {
	case method == "GET":
		return "form"
	case (method == "POST" || method == "PUT" || method == "PATCH") && media == "multipart/form-data":
		return "multipart/form-data"
	case media == "application/json":
		return "json"
	case media == "application/xml" || media == "text/xml":
		return "xml"
	}
	return "form"
}

// the decoder for every media type up to a length, and every spelling close to a known one
func H_B01_choice() {
	m := bMethods[vChoose("m", len(bMethods))]
	if vChoose("symm", 3) == 1 {
		m = vStr("method", 0, 6)
	}
	var media string
	known := []string{"application/json", "application/xml", "text/xml", "multipart/form-data", "application/x-www-form-urlencoded", "text/plain"}
	if vChoose("other", 2) == 1 { // types that look or end like one of them
		known = []string{"application/xhtml+xml", "application/problem+json", "application/vnd.api+json", "text/json", "application/javascript", "multipart/mixed", "application/soap+xml", "image/svg+xml", "application/json5", "application/x-ndjson", "text/xml-external-parsed-entity", "application/octet-stream", "text/html", "application/csp-report", "multipart/form-data-x", "*/*"}
	}
	switch k := vChoose("k", len(known)+2); k {
	case len(known):
		media = vStr("media", 0, vB(20, 34))
	case len(known) + 1: // any byte of a known one replaced
		b := []byte(known[vChoose("which", len(known))])
		b[vInt("at", 0, len(b)-1)] = vByte("b")
		media = string(b)
	default:
		media = known[k]
	}
	vAssert(binding.NewBindinger(m, media).Name() == bWant(m, media), "the decoder does not follow from method and media type")
	vReach("end")
}

type bTarget struct {
	V string `form:"v" json:"v" xml:"v"`
}

// Context.Bind: which part of the request a value comes from, whatever follows the media type in the header
func H_B01_context() {
	m := []string{"GET", "POST", "PUT", "PATCH", "DELETE"}[vChoose("m", 5)]
	medias := []string{"application/json", "application/xml", "text/xml", "application/x-www-form-urlencoded", "multipart/form-data", "text/plain", ""}
	k := vChoose("media", len(medias))
	media := medias[k]
	header := media
	if media == "multipart/form-data" {
		header += []string{"; boundary=XX", ";boundary=XX", " ; boundary=\"XX\""}[vChoose("bd", 3)]
	} else if media != "" {
		switch vChoose("tail", 3) {
		case 1:
			header += ";" + vStrOf("param", 0, 3, " ;=a/x\"")
		case 2:
			header += " ; charset=utf-8"
		}
	}
	var body string
	switch {
	case media == "application/json":
		body = `{"v":"json"}`
	case media == "application/xml" || media == "text/xml":
		body = "<t><v>xml</v></t>"
	case media == "multipart/form-data":
		body = part("v", "", "multipart") + "--XX--\r\n"
	case media == "application/x-www-form-urlencoded":
		body = "v=post"
	default:
		body = "{}"
	}
	q := newReq(m, "/")
	q.URL = &url.URL{Path: "/", RawQuery: "v=query"}
	if header != "" {
		q.Header["Content-Type"] = []string{header}
	}
	q.Body = &bRC{strings.NewReader(body), 0}
	want := "query"
	hasBody := m == "POST" || m == "PUT" || m == "PATCH"
	switch w := bWant(m, media); {
	case w == "json" || w == "xml":
		want = w
	case w == "multipart/form-data":
		want = "multipart"
	case hasBody && media == "application/x-www-form-urlencoded":
		want = "post" // the form holds the values of the body before those of the address
	}
	got := ""
	inHandler(q, func(c *water.Context) {
		t := bTarget{}
		err := c.Bind(&t)
		if err != nil { // only parameters that are not well-formed are refused, and only when the form is parsed
			_, _, e := mime.ParseMediaType(header)
			vAssert(e != nil && hasBody && bWant(m, media) == "form", "binding fails")
			vReach("refused")
			got = want
			return
		}
		got = t.V
	})
	vObs("got", got)
	vAssert(got == want, "the value is not bound from the part of the request the method and media type select")
	vReach("end")
}

type bRC struct {
	*strings.Reader
	closed int
}

func (b *bRC) Close() error { b.closed++; return nil }
