package main

import (
	"crypto/tls"

	"github.com/meilihao/water"
)

func has(h map[string][]string, k, v string, on bool) {
	if on {
		h[k] = []string{v}
	}
}

// the media type is everything before the first space or semicolon
func H_Q05_mediatype() {
	vNoise()
	s := vStrOf("more", 0, vB(3, 4), "a; /\xc3\xa9") + vStr("ct", 0, vB(2, 3))
	q := newReq("POST", "/")
	has(q.Header, "Content-Type", s, vChoose("present", 2) == 1 || s != "")
	want := s
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' || s[i] == ';' {
			want = s[:i]
			break
		}
	}
	inHandler(q, func(c *water.Context) {
		vAssert(c.ContentType() == want, "the media type is not the part before the first space or semicolon")
	})
	vReach("end")
}

// the protocol is the forwarded one if it is http or https, else that of the connection
func H_Q05_protocol() {
	vNoise()
	q := newReq("GET", "/")
	s := vStrOf("proto", 0, 6, "htpsHTPS,w ")
	has(q.Header, "X-Forwarded-Proto", s, s != "" || vChoose("present", 2) == 1)
	tl := vChoose("tls", 2) == 1
	q.TLS = nil
	if tl {
		q.TLS = &tls.ConnectionState{}
	}
	want := "http"
	if tl {
		want = "https"
	}
	if s == "http" || s == "https" {
		want = s
	}
	inHandler(q, func(c *water.Context) {
		vAssert(c.Protocol() == want, "the protocol is neither the forwarded one nor that of the connection")
	})
	vReach("end")
}

func lowerASCII(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func foldEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lowerASCII(a[i]) != b[i] {
			return false
		}
	}
	return true
}

// ajax detection: exactly the documented header value
func H_Q05_ajax() {
	vNoise()
	q := newReq("GET", "/")
	full := "XMLHttpRequest"
	v := full
	switch vChoose("form", 5) {
	case 0:
		i := vChoose("at", len(full))
		v = full[:i] + string([]byte{vByte("b")}) + full[i+1:]
	case 1:
		v = full + vStr("tail", 0, 2)
	case 2:
		v = vStr("head", 0, 2) + full
	case 3:
		v = vStr("v", 0, 3)
	case 4:
		v = full[:vChoose("n", len(full))]
	}
	has(q.Header, "X-Requested-With", v, v != "")
	inHandler(q, func(c *water.Context) {
		vAssert(c.IsAjax() == (v == full), "a request is taken for an ajax request without the documented header, or not with it")
	})
	vReach("end")
}

// websocket detection: both headers, in any case of letters
func H_Q05_websocket() {
	vNoise()
	q := newReq("GET", "/")
	up, conn := "websocket", "Upgrade"
	letters := func(name, s string, from, n int) string {
		b := []byte(s)
		for i := from; i < from+n && i < len(b); i++ {
			b[i] = vByte(name)
			vAssume(b[i] < 0x80)
		}
		return string(b)
	}
	switch vChoose("form", 5) {
	case 0:
		up = letters("u", up, vChoose("at", 9), vB(2, 3))
	case 1:
		conn = letters("c", conn, vChoose("at", 7), vB(2, 3))
	case 2:
		conn = vStrOf("pre", 0, 2, "k, -") + conn + vStrOf("post", 0, 2, "k, -")
		up = letters("u", up, vChoose("at", 9), 1)
	case 3:
		up = vStrOf("pre", 0, 2, "k, -") + up + vStrOf("post", 0, 2, "k, -")
	case 4:
		up, conn = vStrOf("up", 0, 2, "wW"), vStrOf("conn", 0, 2, "uU")
		if vChoose("swap", 2) == 1 {
			up, conn = "upgrade", "websocket"
		}
	}
	has(q.Header, "Upgrade", up, up != "")
	has(q.Header, "Connection", conn, conn != "")
	want := false
	for i := 0; i+7 <= len(conn); i++ {
		if foldEq(conn[i:i+7], "upgrade") {
			want = true
		}
	}
	want = want && foldEq(up, "websocket")
	inHandler(q, func(c *water.Context) {
		vAssert(c.IsWebsocket() == want, "a request is taken for a websocket request without the documented headers, or not with them")
	})
	vReach("end")
}
