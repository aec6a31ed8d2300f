package main

import (
	"github.com/meilihao/water"
)

// splitComma: the comma-separated elements without surrounding white space
func splitComma(s string) []string {
	var l []string
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == ',' {
			l = append(l, trim(s[from:i]))
			from = i + 1
		}
	}
	return l
}

// every combination of the two headers and the peer address
func H_Q04_headers() {
	vNoise()
	q := newReq("GET", "/")
	real, xff := "", ""
	if vChoose("hasReal", 2) == 1 {
		real = vStr("real", 0, 3)
		q.Header["X-Real-Ip"] = []string{real, "9.9.9.9"}[:1+vChoose("twice", 2)]
	}
	if vChoose("hasXff", 2) == 1 {
		xff = vStrOf("xff", 0, vB(5, 7), "1a, \t:")
		q.Header["X-Forwarded-For"] = []string{xff}
	}
	host := vStrOf("host", 0, 3, "1:.[]")
	q.RemoteAddr = host + ":" + vStrOf("port", 1, 2, "089")
	want := host
	if xff != "" {
		if l := splitComma(xff); l[0] != "" {
			want = l[0]
		}
	}
	if real != "" {
		want = real
	}
	inHandler(q, func(c *water.Context) {
		vAssert(c.RealIp() == want, "the client address is not X-Real-IP, the first forwarded hop or the peer, in this order")
		var l []string
		if xff != "" {
			l = splitComma(xff)
		}
		vAssert(eqStrs(c.Proxy(), l), "the proxy list is not the list of forwarded elements")
	})
	vReach("end")
}

// every byte in the forwarded elements
func H_Q04_bytes() {
	vNoise()
	a, b := vStr("a", 0, vB(2, 3)), vStr("b", 0, vB(1, 2))
	q := newReq("GET", "/")
	q.Header["X-Forwarded-For"] = []string{a + "," + b}
	want := "192.0.2.1"
	l := splitComma(a + "," + b)
	if l[0] != "" {
		want = l[0]
	}
	inHandler(q, func(c *water.Context) {
		vAssert(c.RealIp() == want, "the client address is not X-Real-IP, the first forwarded hop or the peer, in this order")
		vAssert(eqStrs(c.Proxy(), l), "the proxy list is not the list of forwarded elements")
		vAssert(q.Header["X-Forwarded-For"][0] == a+","+b, "the request is modified")
	})
	vReach("end")
}
