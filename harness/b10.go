package main

import (
	"bytes"
	"io"
	"mime/multipart"
	"net/http"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

type bRep struct {
	S  string    `form:"s" uri:"s" header:"s"`
	N  int16     `form:"n" uri:"n" header:"n"`
	P  *string   `form:"s" uri:"s" header:"s"`
	L  []string  `form:"l" uri:"l" header:"l"`
	LN []int     `form:"n" uri:"n" header:"n"`
	B  bool      `form:"b" uri:"b" header:"b"`
	D  string    `form:"d,default=dflt" uri:"d,default=dflt" header:"d,default=dflt"`
	T  time.Time `form:"n" uri:"n" header:"n" time_format:"unix"`
}

type bRepOther struct { // other fields of the same names
	S []string `form:"s" uri:"s" header:"s"`
	N string   `form:"n" uri:"n" header:"n"`
	L string   `form:"l" uri:"l" header:"l"`
	D []string `form:"d,default=other" uri:"d,default=other" header:"d,default=other"`
}

func sameRep(a, b *bRep) bool {
	ok := a.S == b.S && a.N == b.N && a.B == b.B && a.D == b.D && eqStrs(a.L, b.L) && eqInts(a.LN, b.LN) && a.T.Equal(b.T)
	return ok && (a.P == nil) == (b.P == nil) && (a.P == nil || *a.P == *b.P)
}

func copyVals(m map[string][]string) map[string][]string {
	c := map[string][]string{}
	vCalm(func() {
		for k, v := range m {
			c[k] = append([]string{}, v...)
		}
	})
	return c
}

func sameVals(a, b map[string][]string) bool {
	same := len(a) == len(b)
	vCalm(func() {
		for k, v := range a {
			w, ok := b[k]
			same = same && ok && eqStrs(v, w)
		}
	})
	return same
}

// repInput: some keys with values; one of the values is symbolic
func repInput(raw bool) map[string][]string {
	m := map[string][]string{}
	which := vChoose("symbolic", 3)
	val := func(k int, v, of string) string {
		if which != k {
			return v
		}
		if of == "" && raw {
			return vStr("v", 0, vB(1, 2))
		}
		if of == "" {
			of = "aZ "
		}
		return vStrOf("v", 0, vB(1, 2), of)
	}
	if which == 0 || vChoose("s", 2) == 1 {
		m["s"] = []string{val(0, "s1", ""), "s2"}
	}
	if which == 1 || vChoose("n", 2) == 1 {
		m["n"] = []string{val(1, "31", "05-x"), "7"}
	}
	if which == 2 || vChoose("d", 2) == 1 {
		m["d"] = []string{val(2, "", "")}
	}
	if vChoose("lb", 2) == 1 {
		m["l"] = []string{"  x ", "", "z"}
		m["b"] = []string{[]string{"true", "maybe"}[vChoose("bv", 2)]}
	}
	return m
}

const msgGiven = "binding changes the data it reads"
const msgAgain = "binding the same data again gives other values"

// every way to bind: the input stays as it was, and another target of the same type gets the same, whatever was
// bound from it in between and whatever became of the first target
func H_B10_repeat() {
	how := vChoose("how", bSources)
	m := repInput(how < 9)
	given := copyVals(m)
	var a, b bRep
	e1 := bindVia(how, &a, m)
	vAssert(sameVals(m, given), msgGiven)
	first := a
	first.L = append([]string{}, a.L...)
	first.LN = append([]int{}, a.LN...)
	if a.P != nil {
		s := *a.P
		first.P = &s
	}
	switch vChoose("between", 3) {
	case 1: // the first target is used up
		for i := range a.L {
			a.L[i] = "used"
		}
		for i := range a.LN {
			a.LN[i] = -1
		}
		if a.P != nil {
			*a.P = "used"
		}
		vAssert(sameVals(m, given), "changing a bound value changes the data it came from")
	case 2:
		var o bRepOther
		vAssert(bindVia(how, &o, m) == nil, "binding fails")
		if given["d"] == nil {
			vAssert(eqStrs(o.D, []string{"other"}), msgAgain)
		}
		vAssert(eqStrs(o.S, given["s"]), "a list field does not hold all values of its key in order")
	}
	e2 := bindVia(how, &b, m)
	vAssert((e1 == nil) == (e2 == nil), msgAgain)
	vAssert(e1 != nil || sameRep(&first, &b), msgAgain)
	vAssert(sameVals(m, given), msgGiven)
	vReach("end")
}

// maps as targets
func H_B10_maps() {
	how := []int{0, 1, 2, 3, 4, 5, 6, 9, 10}[vChoose("how", 9)] // the others do not know maps
	m := repInput(how < 9)
	delete(m, "b")     // the order of the keys is a decision, too
	if vB(0, 1) == 0 { // two keys at most
		delete(m, "d")
		if len(m) > 2 {
			delete(m, "n")
		}
	}
	given := copyVals(m)
	x, y := map[string]string{}, map[string]string{}
	u, v := map[string][]string{}, map[string][]string{}
	order := vChoose("order", 2)
	for i := 0; i < 2; i++ {
		if i == order {
			vAssert(bindVia(how, &x, m) == nil && bindVia(how, &u, m) == nil, "binding fails")
		} else {
			vAssert(bindVia(how, &v, m) == nil && bindVia(how, &y, m) == nil, "binding fails")
		}
		vAssert(sameVals(m, given), msgGiven)
	}
	vAssert(len(x) == len(y) && len(x) == len(given) && sameVals(u, v) && len(u) == len(given), msgAgain)
	for _, k := range []string{"s", "n", "d", "l", "b"} {
		vAssert(x[k] == y[k], msgAgain)
	}
	delete(u, "s") // the map is the target's own
	u["new"] = nil
	vAssert(sameVals(m, given), "changing a bound value changes the data it came from")
	vReach("end")
}

// in a handler: a request bound several times, by Bind and by the binders, reads the same each time, and the
// accessors read what they read before
func H_B10_context() {
	kind := vChoose("kind", 5)
	s, n := vStrOf("s", 1, 2, "ab+%"), vStrOf("n", 0, 2, "019-")
	enc := "s=" + qEsc(s) + "&n=" + qEsc(n) + "&l=1&l=+2"
	var q *http.Request
	switch kind {
	case 0:
		q = newReq("GET", "/")
		q.URL.RawQuery = enc
	case 1, 2:
		q = newReq([]string{"POST", "PUT"}[kind-1], "/")
		q.Header["Content-Type"] = []string{"application/x-www-form-urlencoded"}
		q.Body = io.NopCloser(bytes.NewReader([]byte(enc)))
		q.ContentLength = int64(len(enc))
	case 3, 4: // an upload, or texts only
		file := ""
		if kind == 3 {
			file = part("f", "name", "file")
		}
		q = multiReq(part("s", "", s) + part("n", "", n) + part("l", "", "1") + part("l", "", " 2") + file + "--XX--\r\n")
		q.URL.Path, q.RequestURI = "/", "/"
	}
	q.Header["N"] = []string{n}
	vCalm(func() {
		old := binding.Validator
		binding.Validator = nil
		defer func() { binding.Validator = old }()
		inHandler(q, func(c *water.Context) {
			var was, fm map[string][]string
			var a bRep
			ea := c.Bind(&a)
			was = copyVals(c.Request.Form)
			if c.Request.MultipartForm != nil {
				fm = copyVals(c.Request.MultipartForm.Value)
			}
			hdr := copyVals(c.Request.Header)
			raw := c.Request.URL.RawQuery
			vAssert(ea != nil || a.S == s && eqStrs(a.L, []string{"1", " 2"}), "a bound value is not the value sent")
			switch vChoose("between", 4) {
			case 1:
				var m map[string][]string
				vAssert(c.BindWith(&m, binding.Form) == nil, "binding fails")
				delete(m, "s")
			case 2:
				vAssert(c.Query("s") == trim(s) && len(c.QueryArray("l")) == 2, "a query value is not the trimmed first value of its key")
			case 3:
				var h bRep
				c.BindWith(&h, binding.Header)
				vAssert(h.S == "" && h.L == nil, "a field is bound although its key is absent")
				var f struct {
					F *multipart.FileHeader `form:"f"`
				}
				if kind == 3 {
					vAssert(c.BindWith(&f, binding.FormMultipart) == nil && f.F != nil && f.F.Filename == "name", "an uploaded file is not bound")
				}
			}
			var b bRep
			eb := c.Bind(&b)
			vAssert((ea == nil) == (eb == nil), msgAgain)
			vAssert(ea != nil || sameRep(&a, &b), msgAgain)
			vAssert(sameVals(c.Request.Form, was) && sameVals(c.Request.Header, hdr) && c.Request.URL.RawQuery == raw, msgGiven)
			if fm != nil {
				vAssert(sameVals(c.Request.MultipartForm.Value, fm), msgGiven)
			}
			vAssert(c.Query("s") == trim(s), "a query value is not the trimmed first value of its key")
		})
	})
	vReach("end")
}

func qEsc(s string) string {
	o := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			o += "%2B"
		case '%':
			o += "%25"
		default:
			o += s[i : i+1]
		}
	}
	return o
}
