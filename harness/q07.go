package main

import (
	"github.com/meilihao/water"
)

var entities = []string{"&lt;", "<", "&gt;", ">", "&#34;", "\"", "&quot;", "\"", "&#39;", "'", "&apos;", "'", "&amp;", "&"}

// unescape: ok is false when an & starts no entity
func unescape(s string) (string, bool) {
	out := ""
	for i := 0; i < len(s); {
		if s[i] != '&' {
			out += s[i : i+1]
			i++
			continue
		}
		hit := false
		for k := 0; k < len(entities); k += 2 {
			if e := entities[k]; len(s)-i >= len(e) && s[i:i+len(e)] == e {
				out += entities[k+1]
				i += len(e)
				hit = true
				break
			}
		}
		if !hit {
			return "", false
		}
	}
	return out, true
}

func checkEscape(val string, quoted bool) {
	q := newReq("GET", "/")
	line := "c=" + val
	if quoted {
		line = "c=\"" + val + "\""
	}
	q.Header["Cookie"] = []string{line}
	inHandler(q, func(c *water.Context) {
		raw, s := c.Cookie("c"), c.CookieEscape("c")
		for i := 0; i < len(s); i++ {
			vAssert(!vIn(s[i], "<>\"'"), "an escaped cookie value contains active markup")
		}
		un, ok := unescape(s)
		vAssert(ok, "an ampersand of an escaped cookie value is no entity")
		vAssert(un == raw, "unescaping does not give back the cookie value")
		vAssert(c.CookieEscape("none") == "", "a cookie that was not sent is read")
	})
}

func H_Q07_bytes() {
	vNoise()
	checkEscape(vStr("v", 0, vB(3, 4)), vChoose("quoted", 2) == 1)
	vReach("end")
}

func H_Q07_markup() {
	checkEscape(vStrOf("v", 0, vB(4, 5), "<>&'a;#3"), vChoose("quoted", 2) == 1)
	vReach("end")
}

// values that are escaped already, or look like it: they are escaped again
func H_Q07_pieces() {
	pieces := []string{"&lt;", "&#39;", "&amp;", "&quot;", "&nbsp;", "&", "<b>", "</script>", "a", ";", "=\"'", "&amp;lt;", "javascript:", "&#x3c;", "%3C", "\u00e9", ""}
	v := ""
	for i := 0; i < 3; i++ {
		v += pieces[vChoose("p"+string(rune('0'+i)), len(pieces))]
	}
	v += vStrOf("tail", 0, 1, "<&;a")
	checkEscape(v, false)
	vReach("end")
}
