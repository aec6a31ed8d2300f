package main

import (
	"net/url"

	"github.com/meilihao/water"
)

// subOf: key[sub] with a non-empty sub (text behind the closing bracket is ignored)
func subOf(k, key string) (string, bool) {
	if len(k) <= len(key) || k[:len(key)] != key || k[len(key)] != '[' {
		return "", false
	}
	rest := k[len(key)+1:]
	for j := 0; j < len(rest); j++ {
		if rest[j] == ']' {
			return rest[:j], j > 0
		}
	}
	return "", false
}

// forms of up to three parameters with any names around the bracket syntax
func H_Q02_maps() {
	n := vChoose("n", vB(3, 4))
	key := []string{"k", "kk", "kx"}[vChoose("key", vB(2, 3))]
	form := url.Values{}
	var names []string
	for i := 0; i < n; i++ {
		nm := vStrOf("name", 0, vB(6, 6)-n/2, "k[]x")
		if i > 0 {
			nm = vStrOf("second", 1, vB(4, 5)-n/2, "k[]x")
		}
		for _, o := range names {
			vAssume(o != nm)
		}
		names = append(names, nm)
		form[nm] = []string{vStrOf("v", 0, 1, " a[]"), "more"}
	}
	want := map[string]string{}
	for _, nm := range names {
		if s, ok := subOf(nm, key); ok {
			_, dup := want[s]
			vAssume(!dup) // which of two equal entries wins is not specified
			want[s] = trim(form[nm][0])
		}
	}
	q := newReq("GET", "/")
	q.Form, q.PostForm = form, url.Values{}
	same := func(got map[string]string) {
		vAssert(len(got) == len(want), "a map accessor returns a missing or additional entry")
		for k, v := range want {
			g, ok := got[k]
			vAssert(ok && g == v, "a map entry is not the trimmed first value of its parameter")
		}
	}
	inHandler(q, func(c *water.Context) {
		same(c.QueryMap(key))
		def := map[string]string{"d": "1", "e": " 2"}
		got := c.DefaultQueryMap(key, def)
		if len(want) == 0 {
			vAssert(len(got) == 2 && got["d"] == "1" && got["e"] == " 2", "the default map is not used although there is no entry")
		} else {
			same(got)
		}
		vAssert(len(def) == 2 && c.DefaultQueryMap("none", nil) == nil, "the default map is changed")
		vAssert(len(c.Request.Form) == len(names), "an accessor modifies the form")
	})
	vReach("end")
}

// any bytes as names, and through the query string
func H_Q02_bytes() {
	vNoise()
	nm := vStr("name", 0, vB(4, 5))
	val := vStr("v", 0, 1)
	q := newReq("GET", "/")
	q.URL.RawQuery = url.QueryEscape(nm) + "=" + url.QueryEscape(val) + "&k[z[]=0&%6b[y]=%20+1&k[=2&[k]=3"
	inHandler(q, func(c *water.Context) {
		got := c.QueryMap("k")
		want := map[string]string{"z[": "0", "y": "1"}
		n := 2
		if s, ok := subOf(nm, "k"); ok {
			if _, dup := want[s]; !dup {
				n = 3
				g, have := got[s]
				vAssert(have && g == trim(val), "a map entry is not the trimmed first value of its parameter")
			}
			vAssume(s != "z[" && s != "y")
		}
		vAssert(len(got) == n && got["z["] == "0" && got["y"] == "1", "a map accessor returns a missing or additional entry")
	})
	vReach("end")
}

var _ = water.NewRouter
