package main

import (
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

func tokenByte(b byte) bool {
	return vOr(vAnd(b >= 'a', b <= 'z'), vAnd(b >= 'A', b <= 'Z'), vAnd(b >= '0', b <= '9'), vIn(b, "!#$%&'*+-.^_`|~"))
}

func valueByte(b byte) bool {
	return vAnd(b >= 0x20, b < 0x7f, b != '"', b != ';', b != '\\')
}

// sentCookies: the cookies a client reads from the response
func sentCookies(w *rec) []*http.Cookie {
	return (&http.Response{Header: w.hdr}).Cookies()
}

// round trip: what is set is read back from the request of a client that stored it
func H_Q06_roundtrip() {
	name := vStr("name", 1, vB(1, 2))
	value := vStr("value", 0, vB(2, 3))
	for i := 0; i < len(name); i++ {
		vAssume(tokenByte(name[i]))
	}
	for i := 0; i < len(value); i++ {
		vAssume(valueByte(value[i]))
	}
	w := inHandler(newReq("GET", "/"), func(c *water.Context) { c.SetCookie(name, value) })
	l := sentCookies(w)
	vAssert(len(l) == 1 && l[0].Name == name && l[0].Value == value, "a client does not receive the cookie as set")
	vAssert(l[0].Path == "/" && l[0].MaxAge == 0 && l[0].Domain == "" && !l[0].Secure && !l[0].HttpOnly && l[0].SameSite == 0 && l[0].RawExpires == "", "a cookie has attributes that were not given")
	q := newReq("GET", "/")
	if vChoose("other", 2) == 1 {
		q.AddCookie(&http.Cookie{Name: "zz", Value: "1"})
		vAssume(name != "zz")
	}
	q.AddCookie(l[0])
	inHandler(q, func(c *water.Context) {
		vAssert(c.Cookie(name) == value, "a cookie is not read back as set")
		vAssert(c.Cookie(name+"x") == "" || name == "z" && value == "1", "a cookie that was not sent is read")
	})
	vReach("end")
}

// any bytes: never more than this cookie and its attributes
func H_Q06_anybytes() {
	which := vChoose("which", 4)
	name, value, path, domain := "n", "v", "/p", "d.example"
	n := vB(2, 3)
	switch which {
	case 0:
		name = vStr("name", 0, n)
	case 1:
		value = vStr("value", 0, n) + "; Domain=evil\r\nX: y"[:vChoose("tail", 2)*19]
	case 2:
		path = "/" + vStr("path", 0, n)
	case 3:
		domain = vStr("domain", 0, n)
	}
	w := inHandler(newReq("GET", "/"), func(c *water.Context) { c.SetCookie(name, value, 5, path, domain) })
	vAssert(len(w.hdr) <= 1 && len(w.hdr["Set-Cookie"]) <= 1, "a cookie adds more than one header")
	okName := name != ""
	for i := 0; i < len(name); i++ {
		if !tokenByte(name[i]) {
			okName = false
		}
	}
	if !okName {
		vAssert(len(w.hdr) == 0, "an invalid cookie name adds something to the response")
		vReach("invalid")
		return
	}
	vAssert(len(w.hdr["Set-Cookie"]) == 1, "a cookie is not sent")
	line := w.hdr["Set-Cookie"][0]
	for i := 0; i < len(line); i++ {
		vAssert(vAnd(line[i] >= 0x20, line[i] < 0x7f), "a cookie value can end the header line")
	}
	want := []string{"Path", "Domain", "Max-Age"}
	for i, p := range strings.Split(line, "; ") {
		if i == 0 {
			continue
		}
		k := p
		if j := strings.IndexByte(p, '='); j >= 0 {
			k = p[:j]
		}
		found := false
		for x := range want {
			if want[x] == k {
				want = append(want[:x], want[x+1:]...)
				found = true
				break
			}
		}
		vAssert(found, "a cookie part adds an attribute that was not given")
	}
	vAssert(strings.Count(line, ";") <= 3, "a cookie part adds an attribute that was not given")
	l := sentCookies(w)
	vAssert(len(l) == 1 && l[0].Name == name, "a client does not receive the cookie as set")
	vAssert(l[0].MaxAge == 5, "a cookie does not have the attributes given")
	if which != 2 {
		vAssert(l[0].Path == path, "a cookie does not have the attributes given")
	}
	if which != 3 {
		vAssert(l[0].Domain == domain, "a cookie does not have the attributes given")
	}
	vReach("end")
}

// attributes of every accepted type, in every prefix of the argument list
func H_Q06_attributes() {
	age := vInt("age", -2, vB(3, 1000))
	if vChoose("big", 2) == 1 {
		age += 1 << 33
	}
	var others []interface{}
	n := vChoose("n", 7)
	wantAge := 0
	wantPath, wantDomain := "/", ""
	secure, httpOnly := false, false
	var same http.SameSite
	for i := 0; i < n; i++ {
		switch i {
		case 0:
			wantAge = age
			switch vChoose("age type", 5) {
			case 0:
				others = append(others, age)
			case 1:
				vAssume(age < 1<<31)
				others = append(others, int32(age))
			case 2:
				others = append(others, int64(age))
			case 3:
				others = append(others, nil)
				wantAge = 0
			case 4:
				others = append(others, "7")
				wantAge = 0
			}
		case 1:
			switch vChoose("path type", 3) {
			case 0:
				s := vStrOf("path", 0, vB(1, 2), "/aB")
				others = append(others, s)
				if s != "" {
					wantPath = s
				}
			case 1:
				others = append(others, nil)
			case 2:
				others = append(others, 3)
			}
		case 2:
			switch vChoose("domain type", 3) {
			case 0:
				wantDomain = vStrOf("domain", 0, vB(1, 2), "ab")
				others = append(others, wantDomain)
			case 1:
				others = append(others, nil)
			case 2:
				others = append(others, false)
			}
		case 3:
			switch vChoose("secure type", 4) {
			case 0:
				secure = vBool("secure")
				others = append(others, secure)
			case 1:
				others = append(others, nil)
			case 2:
				others = append(others, 1)
				secure = true
			case 3:
				others = append(others, "x")
				secure = true
			}
		case 4:
			switch vChoose("httponly type", 3) {
			case 0:
				httpOnly = vBool("httponly")
				others = append(others, httpOnly)
			case 1:
				others = append(others, nil)
			case 2:
				others = append(others, 1)
			}
		case 5:
			switch vChoose("samesite type", 4) {
			case 0:
				same = http.SameSiteLaxMode
				others = append(others, same)
			case 1:
				same = http.SameSiteStrictMode
				others = append(others, same)
			case 2:
				same = http.SameSiteNoneMode
				others = append(others, same)
			case 3:
				others = append(others, nil)
			}
		}
	}
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		c.Header()["Set-Cookie"] = []string{"before=1"}
		c.SetCookie("n", "v", others...)
	})
	l := sentCookies(w)
	vAssert(len(l) == 2 && l[0].Name == "before", "setting a cookie loses another one")
	if len(l) != 2 {
		return
	}
	c := l[1]
	vAssert(c.Name == "n" && c.Value == "v", "a client does not receive the cookie as set")
	if wantAge < 0 {
		vAssert(c.MaxAge < 0, "a cookie to be deleted is kept")
	} else {
		vAssert(c.MaxAge == wantAge, "a cookie does not have the attributes given")
	}
	vAssert(c.Path == wantPath && c.Domain == wantDomain && c.Secure == secure && c.HttpOnly == httpOnly && c.SameSite == same && c.RawExpires == "" && len(c.Unparsed) == 0, "a cookie does not have the attributes given")
	vReach("end")
}

// several cookies in one response: a client stores each of them, the last one where they denote the same cookie
func H_Q06_several() {
	vNoise()
	type ck struct{ name, value, path, domain string }
	var l []ck
	for i, n := 0, 2+vChoose("n", vB(2, 3)); i < n; i++ {
		x := ck{vStrOf("name", 1, vB(2, 3), "aA-"), string(rune('0' + i)), "/", ""}
		if i < 2 {
			x.path = []string{"/", "/p", "/pp"}[vChoose("path", 3)]
			x.domain = []string{"", "d.example"}[vChoose("domain", 2)]
		}
		l = append(l, x)
	}
	read := vChoose("read", 2) == 1
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		for _, x := range l {
			c.SetCookie(x.name, x.value, 3, x.path, x.domain)
			if read {
				vAssert(c.Cookie(x.name) == "", "a cookie that was not sent is read")
			}
		}
	})
	got := sentCookies(w)
	vAssert(len(w.hdr) == 1, "a cookie adds more than one header")
	for i, x := range l {
		last := true
		for _, y := range l[i+1:] {
			last = vAnd(last, vNot(vAnd(y.name == x.name, y.path == x.path, y.domain == x.domain)))
		}
		if !last {
			vReach("replaced")
			continue
		}
		stored := "-"
		for _, c := range got {
			if c.Name == x.name && c.Path == x.path && c.Domain == x.domain {
				stored = c.Value
			}
		}
		vAssert(stored == x.value, "setting a cookie loses or changes another one")
	}
	for _, c := range got {
		known := false
		for _, x := range l {
			if c.Name == x.name && c.Value == x.value && c.Path == x.path && c.Domain == x.domain {
				known = true
			}
		}
		vAssert(known, "a cookie is sent that was not set")
	}
	vReach("end")
}

// domains, paths and ages of every kind a site uses
func H_Q06_special() {
	domain := []string{"localhost", ".example.com", "example.com", "127.0.0.1", "sub.a-b.co.uk", "LOCALHOST", "example.local", "x"}[vChoose("domain", 8)]
	path := []string{"/", "/a/b/", "/a b", "/é", "relative", "/index.html", "/a%20b", "/?q=1#f"}[vChoose("path", 8)]
	age := []int{0, 1, -1, 60, 86400, 365 * 86400, 400*86400 + 1, 1<<31 - 1, 1 << 40}[vChoose("age", 9)]
	name := []string{"session", "__Host-id", "__Secure-id", "Path", "Domain", "$Version", "a"}[vChoose("name", 7)]
	secure, only := vBool("secure"), vBool("only")
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		c.SetCookie(name, "v", age, path, domain, secure, only)
	})
	l := sentCookies(w)
	vAssert(len(l) == 1, "a cookie is not sent")
	c := l[0]
	want := domain
	if want[0] == '.' {
		want = want[1:]
	}
	vAssert(c.Name == name && c.Value == "v", "a client does not receive the cookie as set")
	vAssert(c.Domain == want, "a cookie does not have the attributes given")
	if path != "/é" {
		vAssert(c.Path == path, "a cookie does not have the attributes given")
	}
	wantAge := age
	if wantAge < 0 {
		wantAge = -1
	}
	vAssert(c.MaxAge == wantAge, "a cookie does not have the attributes given")
	vAssert(c.Secure == secure && c.HttpOnly == only && c.SameSite == 0 && c.RawExpires == "", "a cookie does not have the attributes given")
	q := newReq("GET", "/")
	q.AddCookie(&http.Cookie{Name: c.Name, Value: c.Value})
	inHandler(q, func(c *water.Context) { vAssert(c.Cookie(name) == "v", "a cookie is not read back as set") })
	vReach("end")
}
