package main

import (
	"mime/multipart"
	"net/url"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

type bWild struct {
	S  string                  `form:"s" uri:"s" header:"s"`
	I  int8                    `form:"i" uri:"i" header:"i"`
	B  *bool                   `form:"b" uri:"b" header:"b"`
	L  []uint8                 `form:"l" uri:"l" header:"l"`
	LP []*int                  `form:"lp" uri:"lp" header:"lp"`
	LL [][]string              `form:"ll" uri:"ll" header:"ll"`
	A  [2]string               `form:"a" uri:"a" header:"a"`
	PP **string                `form:"pp" uri:"pp" header:"pp"`
	PL *[]string               `form:"pl" uri:"pl" header:"pl"`
	M  map[string]int          `form:"m" uri:"m" header:"m"`
	J  bInner                  `form:"j" uri:"j" header:"j"`
	PJ *bInner                 `form:"pj" uri:"pj" header:"pj"`
	LJ []bInner                `form:"lj" uri:"lj" header:"lj"`
	T  time.Time               `form:"t" uri:"t" header:"t" time_format:"2006-01-02" time_utc:"1"`
	U  time.Time               `form:"u" uri:"u" header:"u" time_format:"unix"`
	UN *time.Time              `form:"un" uri:"un" header:"un" time_format:"unixnano"`
	D  time.Duration           `form:"d" uri:"d" header:"d"`
	X  interface{}             `form:"x" uri:"x" header:"x"`
	C  chan int                `form:"c" uri:"c" header:"c"`
	F  func()                  `form:"f" uri:"f" header:"f"`
	FH *multipart.FileHeader   `form:"fh" uri:"fh" header:"fh"`
	FS multipart.FileHeader    `form:"fs" uri:"fs" header:"fs"`
	FL []*multipart.FileHeader `form:"fl" uri:"fl" header:"fl"`
	bEmb
	*BPtr
}

var bWildKeys = []string{"s", "i", "b", "l", "lp", "ll", "a", "pp", "pl", "m", "j", "pj", "lj", "t", "u", "un", "d", "x", "c", "f", "fh", "fs", "fl", "e", "l", "In", "none"}

func mustNotPanic(f func()) {
	v, p := catch(f)
	if p {
		vObs("panic", v)
	}
	vAssert(!p, "request content makes binding panic")
}

// every kind of field, every short text, any number of values including none
func H_B07_fields() {
	how := []int{0, 5, 1, 2, 3, 4, 6, 7, 8, 9, 10}[vChoose("how", vB(2, bSources))]
	key := bWildKeys[vChoose("k", len(bWildKeys))]
	var vals []string
	switch vChoose("n", 4) {
	case 0:
		vals = nil
	case 1:
		vals = []string{}
	case 2:
		vals = []string{vStr("v", 0, vB(2, 3))}
	case 3:
		vals = []string{[]string{"", "1", "{}", "null", "[]", "2020-02-30", "9999999999999999999", "{\"C\":1}", "-", "1h"}[vChoose("p", 10)], vStr("w", 0, 1)}
		for i := vChoose("more", 3); i > 0; i-- {
			vals = append(vals, "")
		}
	}
	t := &bWild{}
	if vChoose("set", 2) == 1 {
		b, tm := true, time.Time{}
		t.B, t.PJ, t.UN, t.BPtr, t.M, t.PL = &b, &bInner{}, &tm, &BPtr{}, map[string]int{}, &[]string{"x"}
	}
	mustNotPanic(func() { bindVia(how, t, map[string][]string{key: vals}) })
	vReach("end")
}

// maps as targets: any key, any number of values including none
func H_B07_maps() {
	how := vChoose("how", bSources)
	m := map[string][]string{}
	key := vStr("k", 0, 1)
	if how == 3 || how == 8 || how >= 9 {
		key = "K"
	}
	switch vChoose("n", 4) {
	case 0:
		m[key] = nil
	case 1:
		m[key] = []string{}
	case 2:
		m[key] = []string{vStr("v", 0, 1)}
	case 3:
		m[key] = []string{"", ""}
	}
	if vChoose("more", 2) == 1 {
		m["more"] = []string{}
	}
	mustNotPanic(func() {
		switch vChoose("t", 5) {
		case 0:
			t := map[string]string{}
			bindVia(how, &t, m)
		case 1:
			t := map[string][]string{}
			bindVia(how, &t, m)
		case 2:
			if how < 5 || how == 9 { // the older entry points want a map that was made
				var t map[string]string
				bindVia(how, &t, m)
				var u map[string][]string
				bindVia(how, &u, m)
			}
		case 3:
			t := map[string]int{}
			if how != 2 && how != 7 {
				bindVia(how, &t, m)
			}
		case 4:
			t := map[string][]int{}
			if how != 2 && how != 7 {
				bindVia(how, &t, m)
			}
		}
	})
	mustNotPanic(func() {
		t := bDef{}
		bindVia(how, &t, nil)
	})
	vReach("end")
}

// files of any number for every kind of field
func H_B07_files() {
	key := bWildKeys[vChoose("k", len(bWildKeys))]
	var fs []*multipart.FileHeader
	for i, n := 0, vChoose("n", 4); i < n; i++ {
		fs = append(fs, &multipart.FileHeader{Filename: vStr("name", 0, 1), Size: int64(i)})
	}
	vals := map[string][]string{}
	if vChoose("text", 2) == 1 {
		vals[key] = []string{vStr("v", 0, 1)}
	}
	t := &bWild{}
	legacy := vChoose("legacy", 2) == 1
	q := newReq("POST", "/")
	q.MultipartForm = &multipart.Form{Value: vals, File: map[string][]*multipart.FileHeader{key: fs}}
	old := binding.Validator
	binding.Validator = nil
	mustNotPanic(func() {
		if legacy {
			binding.FormMultipart.Bind2(q, t)
		} else {
			binding.FormMultipart.Bind(q, t)
		}
	})
	binding.Validator = old
	vReach("end")
}

// whole requests: any query, any body, any content type close to a known one
func H_B07_requests() {
	m := []string{"GET", "POST", "PUT", "DELETE"}[vChoose("m", 4)]
	q := newReq(m, "/")
	query := vStrOf("query", 0, vB(2, 3), "%&=;+si4\xff")
	q.URL = &url.URL{Path: "/", RawQuery: query}
	body := vStrOf("body", 0, vB(2, 3), "%&=si-\r\n{<\"")
	cts := []string{"", "application/x-www-form-urlencoded", "application/x-www-form-urlencoded; x", "multipart/form-data", "multipart/form-data; boundary=X", "multipart/form-data; boundary=\"", "application/json", "text/xml", "multipart/mixed; boundary=X", ";", "/"}
	if k := vChoose("ct", len(cts)); cts[k] != "" {
		q.Header["Content-Type"] = []string{cts[k]}
		if k >= 4 && k <= 5 && vChoose("pre", 2) == 1 {
			body = "--X\r\nContent-Disposition: form-data; name=\"s\"" + body
		}
	}
	if vChoose("nobody", 2) == 1 {
		q.Body = nil
	} else {
		q.Body = &bRC{strings.NewReader(body), 0}
	}
	bs := []binding.Bindinger{nil, binding.Form, binding.FormMultipart, binding.Query, binding.Header, binding.JSON, binding.XML}
	b := bs[vChoose("b", len(bs))]
	inHandler(q, func(c *water.Context) {
		mustNotPanic(func() {
			t := bSub{}
			if b == nil {
				c.Bind(&t)
			} else {
				c.BindWith(&t, b)
			}
		})
	})
	vReach("end")
}

// lists with null elements, and nothing at all where an object is expected
func H_B07_nulls() {
	docs := []string{"[null]", "[null,{\"v\":\"a\"},null]", "null", "[]", "[[null]]", "{\"v\":null}", "[{}]"}
	doc := docs[vChoose("doc", len(docs))]
	q := newReq("POST", "/")
	q.Header["Content-Type"] = []string{"application/json"}
	q.Body = &bRC{strings.NewReader(doc), 0}
	k := vChoose("t", 6)
	inHandler(q, func(c *water.Context) {
		mustNotPanic(func() {
			switch k {
			case 0:
				var t []*bReq
				c.Bind(&t)
			case 1:
				var t []bReq
				c.Bind(&t)
			case 2:
				var t *bReq
				c.Bind(&t)
			case 3:
				var t [][]*bReq
				c.Bind(&t)
			case 4:
				var t []interface{}
				c.Bind(&t)
			case 5:
				var t bReq
				c.Bind(&t)
			}
		})
	})
	vReach("end")
}

type BInt int
type BList []string
type BMap map[string]string
type bint int
type bstr string
type blist []string
type BIface interface{ M() }
type BDeep struct {
	*BInt
	BList
	V string `form:"v" uri:"v" header:"v"`
}

type bOdd1 struct {
	BInt
	V string `form:"v" uri:"v" header:"v"`
}
type bOdd2 struct {
	*BInt
	V string `form:"v" uri:"v" header:"v"`
}
type bOdd3 struct {
	BList
	BMap
	V string `form:"v" uri:"v" header:"v"`
}
type bOdd4 struct {
	BIface
	V string `form:"v" uri:"v" header:"v"`
}
type bOdd5 struct {
	bint
	bstr `form:"t" uri:"t" header:"t"`
	V    string `form:"v" uri:"v" header:"v"`
}
type bOdd6 struct {
	*bint
	blist `form:"t" uri:"t" header:"t"`
	V     string `form:"v" uri:"v" header:"v"`
}
type bOdd7 struct {
	*bOdd5
	V string `form:"v" uri:"v" header:"v"`
}
type bOdd8 struct {
	BDeep
	W string `form:"w" uri:"w" header:"w"`
}
type bOdd9 struct {
	bSub `form:"t" uri:"t" header:"t"`
	V    string `form:"v" uri:"v" header:"v"`
}

// embedded fields that are no structs, or that no other package can set: skipped, and the others are bound
func H_B07_embedded() {
	how := vChoose("how", bSources)
	keys := []string{"v", "t", "BInt", "BList", "BMap", "bint", "bstr", "Bint", "w", "BIface", "bSub", "none"}
	key := keys[vChoose("k", len(keys))]
	val := vStrOf("val", 0, vB(1, 2), "1{a-")
	n := vChoose("n", 3)
	vals := []string{val, "1"}[:n]
	set := vChoose("set", 2) == 1
	bi, bj := BInt(7), bint(8)
	check := func(t interface{}, v *string) {
		var err error
		mustNotPanic(func() { err = bindVia(how, t, map[string][]string{key: vals}) })
		if key == "v" && n > 0 && err == nil && v != nil {
			vAssert(*v == val, "a field is not bound")
		} else if v != nil && key != "v" {
			vAssert(*v == "old", "another field is changed")
		}
	}
	switch vChoose("t", 9) {
	case 0:
		t := bOdd1{7, "old"}
		check(&t, &t.V)
	case 1:
		t := bOdd2{nil, "old"}
		if set {
			t.BInt = &bi
		}
		check(&t, &t.V)
	case 2:
		t := bOdd3{nil, nil, "old"}
		if set {
			t.BList, t.BMap = BList{"x"}, BMap{"x": "y"}
		}
		check(&t, &t.V)
	case 3:
		t := bOdd4{nil, "old"}
		check(&t, &t.V)
	case 4:
		t := bOdd5{5, "5", "old"}
		check(&t, &t.V)
		vAssert(t.bint == 5 && t.bstr == "5", "a field that cannot be set is changed")
	case 5:
		t := bOdd6{nil, nil, "old"}
		if set {
			t.bint, t.blist = &bj, blist{"x"}
		}
		check(&t, &t.V)
		vAssert(bj == 8 && (!set && t.bint == nil && t.blist == nil || set && t.bint == &bj && len(t.blist) == 1), "a field that cannot be set is changed")
	case 6:
		t := bOdd7{nil, "old"}
		if set {
			t.bOdd5 = &bOdd5{5, "5", "in"}
		}
		check(&t, &t.V)
	case 7:
		t := bOdd8{}
		t.V, t.W = "old", "oW"
		if set {
			t.BInt = &bi
		}
		check(&t, &t.V)
		vAssert(key == "w" || t.W == "oW", "another field is changed")
	case 8:
		t := bOdd9{}
		t.V = "old"
		check(&t, &t.V)
	}
	vReach("end")
}

// requests without a body, and no request at all
func H_B07_nobody() {
	q := newReq([]string{"GET", "POST"}[vChoose("m", 2)], "/")
	q.Body = nil
	none := vChoose("none", 2) == 1
	b := []binding.Bindinger{binding.JSON, binding.XML}[vChoose("b", 2)]
	mustNotPanic(func() {
		var t bReq
		var err error
		if none {
			err = b.Bind(nil, &t)
		} else {
			err = b.Bind(q, &t)
		}
		vAssert(err != nil, "a document that was not sent is bound")
	})
	vReach("end")
}
