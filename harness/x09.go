package main

import (
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

// redirects: the status of the helper and a location that denotes the target, for every target and request path
func H_X09_redirect() {
	vNoise()
	perm := vChoose("perm", 2) == 1
	target := []string{"", "/", "/a/", "http://h/", "//h/", "../"}[vChoose("kind", 6)]
	if vChoose("any", 2) == 1 {
		target += vStr("t", 1, 1)
	} else {
		target += vStrOf("t", 0, vB(2, 3), "/.?#a")
	}
	if len(target) == 3 && vChoose("long", 2) == 1 { // /a/ or one of the others with a little behind it
		target += "?" + strings.Repeat("0123456789abcdef", []int{17, 65, 130}[vChoose("len", 3)])
	}
	path := []string{"/", "/x/y"}[vChoose("path", 2)]
	q := newReq([]string{"GET", "POST", "HEAD"}[vChoose("m", 3)], path)
	q.URL.RawQuery = "k=v"
	r := water.NewRouter()
	ran := 0
	for _, p := range []string{"/", "/<*>"} {
		reg(r, q.Method, p, func(c *water.Context) {
			ran++
			if perm {
				c.MovedPermanently(target)
			} else {
				c.Found(target)
			}
		})
	}
	w := serve(r.Handler(), q)
	vAssert(ran == 1, "the handler did not run")
	code := 302
	if perm {
		code = 301
	}
	vAssert(len(w.statuses) == 1 && w.statuses[0] == code, "a redirect has another status than the requested one")
	loc := w.sent["Location"]
	vAssert(len(loc) == 1, "a redirect has no location")
	ref := newRec()
	http.Redirect(ref, q, target, code)
	vAssert(loc[0] == ref.hdr["Location"][0], "a redirect points elsewhere than to the requested target")
	for i := 0; i < len(loc[0]); i++ {
		vAssert(vAnd(loc[0][i] != '\r', loc[0][i] != '\n') || strings.IndexByte(target, loc[0][i]) >= 0, "a redirect adds a line to the header")
	}
	vReach("end")
}

// the helpers named after a status answer with it, with no body, and leave the header alone
func H_X09_status() {
	vNoise()
	k := vChoose("k", 7)
	code := []int{304, 400, 401, 403, 404, 500, 0}[k]
	if k == 6 {
		code = vInt("code", 200, 599)
	}
	hv := vStr("hv", 0, 2)
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		c.SetHeader("X-A", "old")
		c.SetHeader("x-a", hv)
		switch k {
		case 0:
			c.NotModified()
		case 1:
			c.BadRequest()
		case 2:
			c.Unauthorized()
		case 3:
			c.Forbidden()
		case 4:
			c.NotFound()
		case 5:
			c.InternalServerError()
		case 6:
			c.Abort(code)
		}
		vAssert(c.Written() && c.Status() == code, "the status is not the one the helper is named after")
	})
	vAssert(len(w.statuses) == 1 && w.statuses[0] == code, "the status is not the one the helper is named after")
	vAssert(len(w.body) == 0, "a status helper writes a body")
	vAssert(len(w.sent) == 1 && eqStrs(w.sent["X-A"], []string{hv}), "a header set by a handler does not reach the client")
	vReach("end")
}

// no-cache really forbids caching, whatever was declared before
func H_X09_nocache() {
	prev := vChoose("prev", 3)
	cc := vStr("cc", 0, 2)
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		if prev >= 1 {
			c.SetHeader("Cache-Control", cc)
			c.SetHeader("Expires", cc)
		}
		if prev == 2 {
			c.Header().Add("Cache-Control", "public")
		}
		c.NoCache()
		c.Abort(200)
	})
	h := w.sent["Cache-Control"]
	vAssert(len(h) == 1, "an earlier caching directive survives")
	ok := false
	for _, d := range strings.Split(h[0], ",") {
		d = strings.TrimSpace(d)
		if d == "no-cache" || d == "no-store" || d == "max-age=0" {
			ok = true
		}
		vAssert(d != "public" && !strings.HasPrefix(d, "max-age=") || d == "max-age=0", "caching is not forbidden")
	}
	vAssert(ok, "caching is not forbidden")
	vAssert(eqStrs(w.sent["Expires"], []string{"0"}), "an earlier expiry survives")
	vReach("end")
}
