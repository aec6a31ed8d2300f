package main

import (
	"net/url"
	"strconv"

	"github.com/meilihao/water"
)

// floatText: short texts of the syntax's characters, numbers around the ends of both widths and where rounding decides,
// and the special words
func floatText() string {
	switch vChoose("form", 3) {
	case 0:
		return vStrOf("s", 0, vB(4, 5), "19.e-")
	case 1:
		k := vChoose("range", 12)
		pre := []string{"3.40282", "340282", "1.797693134862315", "16777", "900719925474", "0.", "1.4012984643248", "-3.402823", "-1.79769313486231", "000000000000000000000001.", "0.3333333333333333333333333", "4.9406564584124"}[k]
		return pre + vStrOf("d", 2, vB(2, 3), "0123456789") + []string{"e38", "e33", "e308", "", "E+2", "e-3", "e-45", "e+38", "e308", "", "", "e-324"}[k]
	default:
		w := []string{"inf", "-Inf", "+infinity", "nan", "1e400", "-1e400", "1e-400", "0x1p-2", "0x1.8p1", "0x10", "1_0", "1e", "1e+", ".", "-", "+.5", "5.", "0b1", "1,5", "1f", "--1", "1 "}[vChoose("word", 22)]
		return w + vStrOf("more", 0, 1, "0x_ e.")
	}
}

// sameFloat: the same number, or no number both
func sameFloat(a, b float64) bool { return a == b || a != a && b != b }

// fractions, exponents and the ends of the floating-point range
func H_Q03_floats() {
	s := floatText()
	want, err := strconv.ParseFloat(s, 64)
	q := newReq("GET", "/"+s)
	q.Form, q.PostForm = url.Values{"k": {s}}, url.Values{}
	q.Header["Cookie"] = []string{"c=" + s}
	const bad = "a floating-point accessor returns another number"
	h := func(c *water.Context) {
		if s != "" {
			v, e := c.Params.Float64("p")
			vAssert((e == nil) == (err == nil) && (e != nil || sameFloat(v, want)), "a fallible accessor accepts a text that is no number in range, or returns another number")
			vAssert(sameFloat(c.Params.MustFloat64("p"), want), bad)
		}
		t := want
		if trim(s) != s {
			t, _ = strconv.ParseFloat(trim(s), 64)
		}
		vAssert(sameFloat(c.QueryFloat64("k"), t) && sameFloat(c.DefaultQueryFloat64("k", "7"), t), bad)
		vAssert(sameFloat(c.DefaultQueryFloat64("n", s), want), "a default is not converted")
		vAssert(c.QueryFloat64("n") == 0 && c.CookieFloat64("n") == 0, "an absent value is not zero")
		if trim(s) == s && s != "1,5" && s != "1,50" {
			vAssert(sameFloat(c.CookieFloat64("c"), want), bad)
		}
		vReach("ran")
	}
	r := water.NewRouter()
	r.GET("/<p>", h)
	r.GET("/", h)
	serve(r.Handler(), q)
	vReach("end")
}

type floatKind float32

type bFloats struct {
	F64 float64   `form:"a" uri:"a" header:"a"`
	F32 float32   `form:"b" uri:"b" header:"b"`
	P32 *float32  `form:"c" uri:"c" header:"c"`
	P64 *float64  `form:"d" uri:"d" header:"d"`
	K   floatKind `form:"e" uri:"e" header:"e"`
	L   []float32 `form:"f" uri:"f" header:"f"`
	O   float64   `form:"o" uri:"o" header:"o"`
}

// floating-point fields of both widths
func H_B02_floats() {
	how := []int{0, 5, 1, 2, 3, 4, 6, 7, 8, 9, 10}[vChoose("how", vB(2, bSources))]
	k := vChoose("k", 6)
	s := floatText()
	vAssume(k == 5 || how < 9 || trim(s) == s)
	bits := 32
	if k == 0 || k == 3 {
		bits = 64
	}
	want, err := strconv.ParseFloat(s, bits)
	if s == "" {
		want, err = 0, nil
	}
	x, y := float32(5), float64(5)
	t := bFloats{F64: 5, F32: 5, P32: &x, P64: &y, K: 5, L: []float32{5}, O: 5}
	if (k == 2 || k == 3 || k == 5) && vChoose("nil", 2) == 1 {
		t.P32, t.P64, t.L = nil, nil, nil
	}
	in := []string{s}
	if k == 5 {
		in = []string{"1", s}
	}
	e := bindVia(how, &t, map[string][]string{string("abcdef"[k]): in})
	vAssert((e == nil) == (err == nil), "a number that fits is refused, or one that is malformed or does not fit is accepted")
	vAssert(t.O == 5, "a field that no supplied key names was changed")
	if e != nil {
		vReach("refused")
		return
	}
	got := t.F64
	switch k {
	case 1:
		got = float64(t.F32)
	case 2:
		got = float64(*t.P32)
	case 3:
		got = *t.P64
	case 4:
		got = float64(t.K)
	case 5:
		vAssert(len(t.L) == 2 && t.L[0] == 1, "a list does not hold all values of its key, converted and in order")
		got = float64(t.L[1])
	}
	vAssert(sameFloat(got, want), "the bound value is not the one sent")
	vReach("bound")
}
