package main

import (
	"net/url"

	"github.com/meilihao/water"
)

// refInt: the decimal integer a text denotes; ok: well-formed; out: beyond the 64-bit range (-1 below, 1 above)
func refInt(s string) (v int64, ok bool, out int) {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	u, ok, over := refUint(s)
	if !ok {
		return 0, false, 0
	}
	if neg {
		if over || u > 1<<63 {
			return 0, true, -1
		}
		return -int64(u), true, 0
	}
	if over || u > 1<<63-1 {
		return 0, true, 1
	}
	return int64(u), true, 0
}

// refUint: digits only; over: beyond 64 bits
func refUint(s string) (v uint64, ok, over bool) {
	if s == "" {
		return 0, false, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false, false
		}
	}
	for len(s) > 1 && s[0] == '0' {
		s = s[1:]
	}
	const max = "18446744073709551615"
	if len(s) > len(max) || len(s) == len(max) && s > max {
		return 0, true, true
	}
	for i := 0; i < len(s); i++ {
		v = v*10 + uint64(s[i]-'0')
	}
	return v, true, false
}

func refBool(s string) (v, ok bool) {
	switch s {
	case "1", "t", "T", "true", "TRUE", "True":
		return true, true
	case "0", "f", "F", "false", "FALSE", "False":
		return false, true
	}
	return false, false
}

const (
	maxI = 1<<63 - 1
	minI = -1 << 63
	maxU = 1<<64 - 1
)

func clampInt(s string) int64 {
	v, ok, out := refInt(s)
	if !ok {
		return 0
	}
	switch out {
	case 1:
		return maxI
	case -1:
		return minI
	}
	return v
}

func clampUint(s string) uint64 {
	v, _, over := refUint(s)
	if over {
		return maxU
	}
	return v
}

const wrongNum = "an infallible accessor returns an unrelated number"

// checkTyped compares all typed accessors of path parameters, query values and cookies (each holding s if carried)
func checkTyped(s string, path, query, cookie bool) {
	q := newReq("GET", "/")
	if path {
		q = newReq("GET", "/"+s)
	}
	q.Form, q.PostForm = url.Values{"k": {s}}, url.Values{}
	q.Header["Cookie"] = []string{"c=" + s}
	i, ok, out := refInt(s)
	u, uok, over := refUint(s)
	b, bok := refBool(s)
	ci, cu := clampInt(s), clampUint(s)
	r := water.NewRouter()
	ran := 0
	h := func(c *water.Context) {
		ran++
		if path {
			p := c.Params
			vAssert(c.Param("p") == s, "the parameter is not the text of the path")
			v, e := p.Int("p")
			vAssert((e == nil) == (ok && out == 0) && (e != nil || int64(v) == i), "a fallible accessor accepts a text that is no integer in range, or returns another number")
			w, e := p.Int64("p")
			vAssert((e == nil) == (ok && out == 0) && (e != nil || w == i), "a fallible accessor accepts a text that is no integer in range, or returns another number")
			x, e := p.Uint("p")
			vAssert((e == nil) == (uok && !over) && (e != nil || uint64(x) == u), "a fallible accessor accepts a text that is no integer in range, or returns another number")
			y, e := p.Uint64("p")
			vAssert((e == nil) == (uok && !over) && (e != nil || y == u), "a fallible accessor accepts a text that is no integer in range, or returns another number")
			z, e := p.Bool("p")
			vAssert((e == nil) == bok && (e != nil || z == b), "a fallible accessor accepts a text that is no boolean, or returns another one")
			vAssert(int64(p.MustInt("p")) == ci && p.MustInt64("p") == ci, wrongNum)
			vAssert(uint64(p.MustUint("p")) == cu && p.MustUint64("p") == cu, wrongNum)
			vAssert(p.MustBool("p") == b, "an infallible accessor returns another boolean")
		}
		if query {
			vAssert(int64(c.QueryInt("k")) == ci && c.QueryInt64("k") == ci, wrongNum)
			vAssert(uint64(c.QueryUint("k")) == cu && c.QueryUint64("k") == cu, wrongNum)
			vAssert(c.QueryBool("k") == b, "an infallible accessor returns another boolean")
			vAssert(int64(c.DefaultQueryInt("k", "7")) == ci && c.DefaultQueryInt64("k", "7") == ci, wrongNum)
			vAssert(uint64(c.DefaultQueryUint("k", "7")) == cu && c.DefaultQueryUint64("k", "7") == cu, wrongNum)
			vAssert(c.DefaultQueryBool("k", "true") == b, "an infallible accessor returns another boolean")
			vAssert(int64(c.DefaultQueryInt("n", s)) == ci && c.DefaultQueryInt64("n", s) == ci, "a default is not converted")
			vAssert(uint64(c.DefaultQueryUint("n", s)) == cu && c.DefaultQueryUint64("n", s) == cu, "a default is not converted")
			vAssert(c.DefaultQueryBool("n", s) == b, "a default is not converted")
			vAssert(c.QueryInt("n") == 0 && c.QueryInt64("n") == 0 && c.QueryUint("n") == 0 && c.QueryUint64("n") == 0 && !c.QueryBool("n"), "an absent value is not zero")
		}
		if cookie {
			vAssert(c.Cookie("c") == s && c.Cookie("n") == "", "the cookie value is not the one sent")
			vAssert(int64(c.CookieInt("c")) == ci && c.CookieInt64("c") == ci, wrongNum)
			vAssert(uint64(c.CookieUint("c")) == cu && c.CookieUint64("c") == cu, wrongNum)
			vAssert(c.CookieBool("c") == b, "an infallible accessor returns another boolean")
			vAssert(c.CookieInt("n") == 0 && c.CookieUint64("n") == 0 && !c.CookieBool("n"), "an absent value is not zero")
		}
	}
	r.GET("/<p>", h)
	r.GET("/", h)
	serve(r.Handler(), q)
	vAssert(ran == 1, "the handler did not run")
}

// any short text
func H_Q03_short() {
	s := vStr("s", 1, vB(3, 4))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != '/')
	}
	checkTyped(s, true, false, false)
	vReach("end")
}

// any short text as a query value or cookie (white space belongs to the accessor, not to the number)
func H_Q03_query() {
	s := vStr("s", 0, vB(3, 4))
	vAssume(trim(s) == s)
	checkTyped(s, false, true, false)
	vReach("end")
}

func H_Q03_cookie() {
	s := vStr("s", 0, vB(3, 4))
	for i := 0; i < len(s); i++ { // the characters a cookie value may have
		vAssume(vAnd(s[i] > ' ', s[i] < 0x7f, s[i] != '"', s[i] != ';', s[i] != '\\', s[i] != ','))
	}
	checkTyped(s, false, false, true)
	vReach("end")
}

// the ends of the ranges of 8 to 64 bits: every digit string of their lengths with that beginning
func H_Q03_bounds() {
	pre := []string{"922337203685477", "1844674407370955", "429496", "214748", "6553", "9", "0000000000000000000000", "99999999999999999999"}[vChoose("pre", 8)]
	s := []string{"", "-", "+"}[vChoose("sign", 3)] + pre + vStrOf("digits", vB(4, 3), vB(4, 6), "0123456789")
	checkTyped(s, true, true, true)
	vReach("end")
}

// words around true and false
func H_Q03_bool() {
	w := []string{"true", "TRUE", "True", "false", "FALSE", "False"}[vChoose("w", 6)]
	i := vChoose("at", len(w)+1)
	var s string
	if i == len(w) {
		s = w + vStrOf("more", 0, 1, "eE ")
		vAssume(trim(s) == s)
	} else {
		b := vByte("b")
		vAssume(vOr(vAnd(b >= 'A', b <= 'Z'), vAnd(b >= 'a', b <= 'z')))
		s = w[:i] + string([]byte{b}) + w[i+1:]
	}
	checkTyped(s, true, true, true)
	vReach("end")
}
