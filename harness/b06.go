package main

import (
	"errors"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

var errBad = errors.New("refused by the validator")

type spyVal struct {
	calls int
	obj   interface{}
	seen  string
	n     int
	err   error
}

func (s *spyVal) ValidateStruct(o interface{}) error {
	s.calls++
	s.obj = o
	switch t := o.(type) {
	case *bSub:
		s.seen, s.n = t.V, t.N
	case *map[string]string:
		s.seen = (*t)["v"]
	}
	return s.err
}
func (s *spyVal) Engine() interface{} { return nil }
func (s *spyVal) Name() string        { return "spy" }

type bSub struct {
	V string `form:"v" uri:"v" header:"v" json:"v" xml:"v"`
	N int    `form:"n" uri:"n" header:"n" json:"n" xml:"n"`
}

func withVal(v binding.StructValidater, f func() error) error {
	old := binding.Validator
	binding.Validator = v
	defer func() { binding.Validator = old }()
	return f()
}

// form, query, header and uri: the installed validator decides after decoding did, on the filled object
func H_B06_forms() {
	how := vChoose("how", bSources)
	if how == 4 { // MapForm does not validate
		how = 0
	}
	v, n := "", ""
	m := map[string][]string{}
	if vChoose("hasv", 2) == 1 {
		v = vStr("v", 0, vB(1, 2))
		m["v"] = []string{v}
	}
	if vChoose("hasn", 2) == 1 {
		n = vStrOf("n", 0, vB(2, 3), "01-x")
		m["n"] = []string{n}
	}
	t := &bSub{}
	spy := &spyVal{}
	fails := vChoose("fails", 2) == 1
	if fails {
		spy.err = errBad
	}
	none := vChoose("none", 2) == 1
	var val binding.StructValidater = spy
	if none {
		val = nil
	}
	err := withVal(val, func() error { return bindVal(how, t, m) })
	want, ok, _ := refInt(n)
	if n == "" {
		ok = true
	}
	switch {
	case !ok:
		vAssert(err != nil && err != errBad, "a decode error is not reported")
		vAssert(spy.calls == 0, "the validator sees an object that was not decoded")
		vReach("undecodable")
	case none:
		vAssert(err == nil, "binding fails although nothing objects")
		vAssert(t.V == v && int64(t.N) == want, "the object is not filled")
	default:
		vAssert(spy.calls == 1 && spy.obj == interface{}(t), "the validator is not asked about the very object")
		vAssert(spy.seen == v && int64(spy.n) == want, "the validator is asked before the object is filled")
		vAssert((err == nil) == !fails, "success is reported against the validator, or failure against it")
		vAssert(err == spy.err, "the validator's error is hidden")
		vReach("validated")
	}
}

// maps are handed to the validator like structures
func H_B06_maps() {
	how := []int{0, 1, 2, 3, 9}[vChoose("how", 5)]
	spy := &spyVal{}
	if vChoose("fails", 2) == 1 {
		spy.err = errBad
	}
	key := "v"
	if how == 3 {
		key = "V"
	}
	v := vStr("v", 0, 1)
	m := map[string]string{}
	err := withVal(spy, func() error { return bindVal(how, &m, map[string][]string{key: {v}}) })
	vAssert(m[key] == v && spy.calls == 1 && err == spy.err, "a map is bound without asking the validator")
	vReach("end")
}

// JSON and XML: the same, through the context and directly, for well-formed and broken bodies
func H_B06_bodies() {
	vNoise()
	isXML := vChoose("xml", 2) == 1
	ctx := vChoose("ctx", 3)
	docs := []string{`{"v":"a","n":3}`, `{"v":"a","n":3`, `{"v":"a","n":"x"}`, ``, `[1]`, `{"n":1e3}`, `null`, `{"n":99999999999999999999}`, `{"v":"a","n":3} trailing`}
	good := []bool{true, false, false, false, false, false, true, false, true}
	vals := []string{"a", "", "", "", "", "", "", "", "a"}
	nums := []int{3, 0, 0, 0, 0, 0, 0, 0, 3}
	if isXML {
		docs = []string{"<t><v>a</v><n>3</n></t>", "<t><v>a</v><n>3</n>", "<t><n>x</n></t>", "", "<t><v>a</w></t>", "<t/>", "<t><n>-4</n></t>"}
		good = []bool{true, false, false, false, false, true, true}
		vals = []string{"a", "", "", "", "", "", ""}
		nums = []int{3, 0, 0, 0, 0, 0, -4}
	}
	d := vChoose("doc", len(docs))
	spy := &spyVal{}
	if vChoose("fails", 2) == 1 {
		spy.err = errBad
	}
	var val binding.StructValidater = spy
	if vChoose("none", 2) == 1 {
		val = nil
	}
	t := &bSub{}
	q := newReq("POST", "/")
	body := &bRC{strings.NewReader(docs[d]), 0}
	q.Body = body
	q.Header["Content-Type"] = []string{"application/json; charset=utf-8"}
	if isXML {
		q.Header["Content-Type"] = []string{"application/xml"}
	}
	var err error
	switch ctx {
	case 0:
		inHandler(q, func(c *water.Context) { err = withVal(val, func() error { return c.Bind(t) }) })
	case 1:
		inHandler(q, func(c *water.Context) {
			err = withVal(val, func() error {
				if isXML {
					return c.BindWith(t, binding.XML)
				}
				return c.BindWith(t, binding.JSON)
			})
		})
	case 2:
		err = withVal(val, func() error {
			if isXML {
				return binding.XML.Bind(q, t)
			}
			return binding.JSON.Bind(q, t)
		})
	}
	switch {
	case !good[d]:
		vAssert(err != nil && err != errBad && spy.calls == 0, "a body that cannot be decoded is not reported, or validated")
		vReach("undecodable")
	case val == nil:
		vAssert(err == nil && t.V == vals[d] && t.N == nums[d], "a body that can be decoded is refused")
	default:
		vAssert(spy.calls == 1 && spy.obj == interface{}(t) && spy.seen == vals[d] && spy.n == nums[d], "the validator is not asked about the filled object")
		vAssert(err == spy.err, "the validator does not decide")
		vReach("validated")
	}
}

// JSON texts: what is bound is what was sent, for every short string and number
func H_B06_json_values() {
	s := vStrOf("s", 0, vB(3, 4), "ab\\\"n{}u\n\x00\x80")
	n := vStrOf("n", 0, vB(3, 4), "0127-+.e")
	which := vChoose("which", 2)
	text := `{"v":"` + s + `"}`
	if which == 1 {
		text = `{"n":` + n + `}`
	}
	t := &bSub{V: "o", N: 5}
	q := newReq("POST", "/")
	q.Body = &bRC{strings.NewReader(text), 0}
	err := withVal(nil, func() error { return binding.JSON.Bind(q, t) })
	if which == 0 {
		plain := true
		for i := 0; i < len(s); i++ {
			if s[i] == '\\' || s[i] == '"' || s[i] < ' ' || s[i] >= 0x80 {
				plain = false
			}
		}
		if plain {
			vAssert(err == nil && t.V == s && t.N == 5, "a string is not bound as sent")
			vReach("string")
		}
	} else {
		v, ok, _ := refInt(n)
		if ok && n[0] != '+' && !(len(n) > 1 && n[0] == '0') && !(len(n) > 2 && n[0] == '-' && n[1] == '0') {
			vAssert(err == nil && int64(t.N) == v && t.V == "o", "a number is not bound as sent")
			vReach("number")
		}
		if n == "" || n == "-" || n[0] == '+' {
			vAssert(err != nil, "a malformed number is bound")
		}
	}
}

type bReq struct {
	V string `json:"v" form:"v" binding:"required"`
	N int    `json:"n" form:"n" binding:"max=5"`
}

// the default validator: constraints of the structure and of every element of a list
func H_B06_default() {
	v := vStr("v", 0, 1)
	n := vInt("n", 0, 9)
	okOne := vAnd(v != "", n <= 5)
	val := binding.NewvVlidatorV10()
	switch vChoose("shape", 8) {
	case 7: // behind pointers and interfaces
		p := &bReq{v, n}
		pp := &p
		var i interface{} = p
		vAssert((val.ValidateStruct(pp) == nil) == okOne && (val.ValidateStruct(&pp) == nil) == okOne, "an object behind a pointer is not validated")
		vAssert((val.ValidateStruct(&i) == nil) == okOne && (val.ValidateStruct([]interface{}{p}) == nil) == okOne, "an object behind an interface is not validated")
		l := []**bReq{pp}
		vAssert((val.ValidateStruct(l) == nil) == okOne && (val.ValidateStruct(&l) == nil) == okOne, "an element of a list is not validated")
	case 0:
		vAssert((val.ValidateStruct(&bReq{v, n}) == nil) == okOne, "the validator does not decide")
		vReach("one")
	case 1:
		vAssert((val.ValidateStruct(bReq{v, n}) == nil) == okOne, "the validator does not decide")
	case 2, 3, 4:
		count := vChoose("count", vB(4, 6))
		at := 0
		if count > 0 {
			at = vInt("at", 0, count-1)
		}
		l := make([]bReq, count)
		p := make([]*bReq, count)
		for i := range l {
			l[i] = bReq{"x", 1}
			if i == at {
				l[i] = bReq{v, n}
			}
			p[i] = &l[i]
		}
		want := okOne || count == 0
		vAssert((val.ValidateStruct(l) == nil) == want, "an element of a list is not validated")
		vAssert((val.ValidateStruct(&l) == nil) == want, "an element of a list is not validated")
		vAssert((val.ValidateStruct(&p) == nil) == want, "an element of a list is not validated")
		vReach("list")
	case 5:
		vAssert((val.ValidateStruct(&[2]bReq{{"x", 0}, {v, n}}) == nil) == okOne, "an element of an array is not validated")
		vAssert((val.ValidateStruct([][]bReq{{{"x", 0}}, {{"y", 1}, {v, n}}}) == nil) == okOne, "an element of a list of lists is not validated")
	case 6:
		vAssert(val.ValidateStruct(map[string]string{"v": v}) == nil && val.ValidateStruct(v) == nil && val.ValidateStruct(n) == nil, "a value without constraints is refused")
		vAssert(val.ValidateStruct(nil) != nil && val.ValidateStruct((*bReq)(nil)) != nil && val.ValidateStruct([]*bReq{nil}) != nil, "an object that is missing is accepted")
	}
	vReach("end")
}

// the package's own validator is in place by default and decides what Context.Bind returns
func H_B06_installed() {
	v := vStr("v", 0, 1)
	n := vChoose("n", 10)
	t := &bReq{}
	var err error
	if vChoose("json", 2) == 1 {
		vAssume(v == "" || vAnd(v[0] >= ' ', v[0] < 0x7f, v[0] != '"', v[0] != '\\'))
		q := newReq("POST", "/")
		q.Header["Content-Type"] = []string{"application/json"}
		list := vChoose("list", 2) == 1
		l := []bReq{}
		text := `{"v":"` + v + `","n":` + string(rune('0'+n)) + `}`
		if list {
			text = `[{"v":"x"},` + text + `]`
		}
		q.Body = &bRC{strings.NewReader(text), 0}
		inHandler(q, func(c *water.Context) {
			if list {
				err = c.Bind(&l)
			} else {
				err = c.Bind(t)
			}
		})
	} else {
		err = binding.Uri.Bind(map[string][]string{"v": {v}, "n": {"1"}}, &struct {
			V string `uri:"v" binding:"required"`
		}{})
		n = 0
	}
	vAssert((err == nil) == vAnd(v != "", n <= 5), "the validator does not decide")
	vReach("end")
}

type anyVal struct {
	calls int
	obj   interface{}
	err   error
}

func (s *anyVal) ValidateStruct(o interface{}) error {
	s.calls++
	s.obj = o
	return s.err
}
func (s *anyVal) Engine() interface{} { return nil }
func (s *anyVal) Name() string        { return "any" }

// whatever the shape of the target, and whether or not there is anything in it or for it: the validator decides
func H_B06_shapes() {
	type untagged struct{ A, B string }
	type hidden struct{ a int }
	type tagged struct {
		V string `form:"v" uri:"v" header:"v" json:"v" xml:"v"`
	}
	type deep struct {
		P *tagged
		L []int
	}
	spy := &anyVal{}
	if vChoose("fails", 2) == 1 {
		spy.err = errBad
	}
	var t interface{}
	switch vChoose("shape", 6) {
	case 0:
		t = &struct{}{}
	case 1:
		t = &untagged{}
	case 2:
		t = &hidden{}
	case 3:
		t = &tagged{}
	case 4:
		t = &deep{}
	case 5:
		t = &map[string]string{}
	}
	how := []int{0, 1, 2, 3, 9}[vChoose("how", 5)]
	m := map[string][]string{}
	switch vChoose("input", 3) {
	case 1:
		m["v"] = []string{vStr("v", 0, 1)}
	case 2:
		m["other"] = []string{"x"}
	}
	err := withVal(spy, func() error { return bindVal(how, t, m) })
	vAssert(spy.calls == 1 && spy.obj == t, "the validator is not asked about the very object")
	vAssert(err == spy.err, "the validator does not decide")
	vReach("end")
}

// bodies without content of their own: empty objects, lists and elements
func H_B06_empty_bodies() {
	type none struct{}
	spy := &anyVal{}
	if vChoose("fails", 2) == 1 {
		spy.err = errBad
	}
	isXML := vChoose("xml", 2) == 1
	var t interface{}
	doc := ""
	k := vChoose("shape", 5)
	if isXML {
		vAssume(k < 3)
	}
	switch k {
	case 0:
		t, doc = &none{}, "{}"
	case 1:
		t, doc = &bSub{}, "{}"
	case 2:
		t, doc = &struct{ X []string }{}, "{}"
	case 3:
		t, doc = &[]bSub{}, "[]"
	case 4:
		t, doc = &[]bSub{}, `[{},{"v":"a"}]`
	}
	b := binding.Bindinger(binding.JSON)
	q := newReq("POST", "/")
	q.Header["Content-Type"] = []string{"application/json"}
	if isXML {
		b, doc = binding.XML, "<t></t>"
		q.Header["Content-Type"] = []string{"application/xml"}
	}
	q.Body = &bRC{strings.NewReader(doc), 0}
	var err error
	if vChoose("ctx", 2) == 1 {
		inHandler(q, func(c *water.Context) { err = withVal(spy, func() error { return c.Bind(t) }) })
	} else {
		err = withVal(spy, func() error { return b.Bind(q, t) })
	}
	vAssert(spy.calls == 1 && spy.obj == t, "the validator is not asked about the very object")
	vAssert(err == spy.err, "the validator does not decide")
	vReach("end")
}

// bodies of every length
func H_B06_long_bodies() {
	n := []int{0, 100, 1000, 1100, 5000, 9000}[vChoose("n", 6)]
	k := vChoose("where", 3)
	pad := strings.Repeat("x", n)
	isXML := vChoose("xml", 2) == 1
	spy := &spyVal{}
	if vChoose("fails", 2) == 1 {
		spy.err = errBad
	}
	tail := vStrOf("tail", 0, 1, "ab")
	want := "v" + tail
	doc := `{"p":"` + pad + `","v":"v` + tail + `","n":3}`
	if isXML {
		doc = "<t><p>" + pad + "</p><v>v" + tail + "</v><n>3</n></t>"
	}
	switch k {
	case 1:
		doc = `{"v":"v` + tail + `","n":3,"p":"` + pad + `"}`
		if isXML {
			doc = "<t><v>v" + tail + "</v><n>3</n><p>" + pad + "</p></t>"
		}
	case 2:
		want = pad + tail
		doc = `{"v":"` + want + `","n":3}`
		if isXML {
			doc = "<t><v>" + want + "</v><n>3</n></t>"
		}
	}
	t := &bSub{}
	q := newReq("POST", "/")
	q.Body = &bRC{strings.NewReader(doc), 0}
	q.Header["Content-Type"] = []string{"application/json"}
	if isXML {
		q.Header["Content-Type"] = []string{"application/xml"}
	}
	var err error
	inHandler(q, func(c *water.Context) { err = withVal(spy, func() error { return c.Bind(t) }) })
	vAssert(spy.calls == 1 && spy.obj == interface{}(t) && spy.seen == want && spy.n == 3, "the validator is not asked about the filled object")
	vAssert(err == spy.err, "the validator does not decide")
	vReach("end")
}
