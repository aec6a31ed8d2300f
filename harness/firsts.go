package main

import (
	"bytes"
	"io"
	"net/http"

	"github.com/meilihao/water"
)

// accessor number i (0-3 plain, 4-5 maps, 6-17 typed, 18-19 files), compared with the form k=" d ", k="x", m[a]=" d ", and the file f if any
func access(c *water.Context, i int, d string, file bool) {
	n := int64(0)
	for j := 0; j < len(d); j++ {
		n = n*10 + int64(d[j]-'0')
	}
	ok := true
	switch i {
	case 0:
		ok = c.Query("k") == d && c.Query("none") == ""
	case 1:
		ok = c.DefaultQuery("k", "z") == d && c.DefaultQuery("none", " z") == " z"
	case 2:
		l := c.QueryArray("k")
		ok = eqStrs(l, []string{d, "x"}) && len(c.QueryArray("none")) == 0
		if ok { // what was returned belongs to the handler
			l[0], l[1] = "changed", "changed"
		}
	case 3:
		l := c.DefaultQueryArray("k", []string{"z"})
		ok = eqStrs(l, []string{d, "x"}) && eqStrs(c.DefaultQueryArray("none", []string{"z"}), []string{"z"})
		if ok {
			l[0] = "changed"
		}
	case 4:
		m := c.QueryMap("m")
		ok = len(m) == 1 && m["a"] == d && len(c.QueryMap("none")) == 0
		m["a"], m["b"] = "changed", "changed"
	case 5:
		m := c.DefaultQueryMap("m", nil)
		ok = len(m) == 1 && m["a"] == d && c.DefaultQueryMap("none", nil) == nil
		m["a"], m["b"] = "changed", "changed"
	case 20:
		m := c.DefaultQueryMap("m", map[string]string{"z": "z"})
		ok = len(m) == 1 && m["a"] == d && len(c.DefaultQueryMap("none", map[string]string{"z": "z"})) == 1
	case 21:
		ok = c.DefaultQuery("k", "") == d && c.DefaultQuery("none", "") == ""
	case 22:
		ok = eqStrs(c.DefaultQueryArray("k", nil), []string{d, "x"}) && c.DefaultQueryArray("none", nil) == nil
	case 6:
		ok = int64(c.QueryInt("k")) == n
	case 7:
		ok = c.QueryInt64("k") == n
	case 8:
		ok = int64(c.QueryUint("k")) == n
	case 9:
		ok = int64(c.QueryUint64("k")) == n
	case 10:
		ok = c.QueryBool("b")
	case 11:
		ok = c.QueryFloat64("h") == 0.5
	case 12:
		ok = int64(c.DefaultQueryInt("k", "7")) == n && c.DefaultQueryInt("none", "7") == 7
	case 13:
		ok = c.DefaultQueryInt64("k", "7") == n && c.DefaultQueryInt64("none", "7") == 7
	case 14:
		ok = int64(c.DefaultQueryUint("k", "7")) == n && c.DefaultQueryUint("none", "7") == 7
	case 15:
		ok = int64(c.DefaultQueryUint64("k", "7")) == n && c.DefaultQueryUint64("none", "7") == 7
	case 16:
		ok = c.DefaultQueryBool("b", "false") && c.DefaultQueryBool("none", "true")
	case 17:
		ok = c.DefaultQueryFloat64("h", "2") == 0.5 && c.DefaultQueryFloat64("none", "2") == 2
	case 18:
		_, h, err := c.FormFile("f")
		ok = (err == nil) == file && (err != nil || h.Filename == "name" && h.Size == 4)
	case 19:
		_, _, err := c.FormFile("none")
		ok = err != nil
	}
	vAssert(ok, "the first or second accessor of a request does not return what the form holds")
}

// whichever accessor comes first parses the form, for every kind of request and form, and the next one finds it parsed
func firstOf(which ...int) {
	vNoise()
	d := vStrOf("d", 1, vB(1, 2), "0123456789")
	kind := vChoose("kind", 6)
	first, second := which[vChoose("first", len(which))], vChoose("second", 23)
	enc := "k=+" + d + "+&k=x&m%5Ba%5D=" + d + "%20&b=true&h=.5"
	var q *http.Request
	switch kind {
	case 0:
		q = newReq("GET", "/")
		q.URL.RawQuery = enc
	case 1:
		q = newReq("DELETE", "/")
		q.URL.RawQuery = enc
	case 2, 3:
		q = newReq([]string{"POST", "PUT"}[kind-2], "/")
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = io.NopCloser(bytes.NewReader([]byte(enc)))
		q.ContentLength = int64(len(enc))
	case 4, 5:
		q = multiReq(part("k", "", " "+d+" ") + part("k", "", "x") + part("m[a]", "", d+" ") + part("b", "", "true") + part("h", "", ".5") + part("f", "name", "file") + "--XX--\r\n")
		q.Method = []string{"POST", "PATCH"}[kind-4]
		q.URL.Path, q.RequestURI = "/", "/"
	}
	vCalm(func() { // the order of a form's keys is not of interest here
		inHandler(q, func(c *water.Context) {
			switch vChoose("before", 3) { // what the handler may have had net/http parse
			case 1:
				vAssert(c.Request.ParseForm() == nil, "a correct form is refused")
			case 2:
				vAssert(trim(c.Request.FormValue("k")) == d, "a correct form is refused")
			}
			access(c, first, d, kind >= 4)
			access(c, second, d, kind >= 4)
			access(c, first, d, kind >= 4)
		})
	})
	vReach("end")
}

func H_Q01_first() { firstOf(0, 1, 2, 3, 21, 22) }
func H_Q02_first() { firstOf(4, 5, 20) }
func H_Q03_first() { firstOf(6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) }
func H_X10_first() { firstOf(18, 19) }
