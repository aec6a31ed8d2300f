package main

import (
	"mime/multipart"
	"net/http"
	"net/textproto"
	"net/url"

	"github.com/meilihao/water/binding"
)

// the ways a map of texts reaches a target
const bSources = 11

// bindVia binds m into t in one of the ways the package offers, without validation.
func bindVia(how int, t interface{}, m map[string][]string) error {
	old := binding.Validator
	binding.Validator = nil
	defer func() { binding.Validator = old }()
	return bindVal(how, t, m)
}

func bindVal(how int, t interface{}, m map[string][]string) error {
	q := &http.Request{Method: "POST", URL: &url.URL{Path: "/"}, Header: http.Header{}, Body: http.NoBody}
	hdr := http.Header{}
	if how == 3 || how == 8 {
		for k, v := range m {
			hdr[textproto.CanonicalMIMEHeaderKey(k)] = v
		}
	}
	mf := &multipart.Form{Value: m, File: map[string][]*multipart.FileHeader{}}
	switch how {
	case 0:
		return binding.Uri.Bind(m, t)
	case 1:
		q.Form = m
		return binding.Form.Bind(q, t)
	case 2:
		q.MultipartForm = mf
		return binding.FormMultipart.Bind(q, t)
	case 3:
		q.Header = hdr
		return binding.Header.Bind(q, t)
	case 4:
		return binding.MapForm(t, m, nil, "form")
	case 5:
		return binding.Uri.Bind2(m, t)
	case 6:
		q.Form = m
		return binding.Form.Bind2(q, t)
	case 7:
		q.MultipartForm = mf
		return binding.FormMultipart.Bind2(q, t)
	case 8:
		q.Header = hdr
		return binding.Header.Bind2(q, t)
	case 9:
		q.URL.RawQuery = url.Values(m).Encode()
		return binding.Query.Bind(q, t)
	default:
		q.URL.RawQuery = url.Values(m).Encode()
		return binding.Query.Bind2(q, t)
	}
}

type bNums struct {
	I   int     `form:"i" uri:"i" header:"i"`
	I8  int8    `form:"i8" uri:"i8" header:"i8"`
	I16 int16   `form:"i16" uri:"i16" header:"i16"`
	I32 int32   `form:"i32" uri:"i32" header:"i32"`
	I64 int64   `form:"i64" uri:"i64" header:"i64"`
	U   uint    `form:"u" uri:"u" header:"u"`
	U8  uint8   `form:"u8" uri:"u8" header:"u8"`
	U16 uint16  `form:"u16" uri:"u16" header:"u16"`
	U32 uint32  `form:"u32" uri:"u32" header:"u32"`
	U64 uint64  `form:"u64" uri:"u64" header:"u64"`
	B   bool    `form:"b" uri:"b" header:"b"`
	PI8 *int8   `form:"pi8" uri:"pi8" header:"pi8"`
	PU  *uint16 `form:"pu" uri:"pu" header:"pu"`
	PB  *bool   `form:"pb" uri:"pb" header:"pb"`
}

var bNumKeys = []string{"i", "i8", "i16", "i32", "i64", "u", "u8", "u16", "u32", "u64", "b", "pi8", "pu", "pb"}
var bNumBits = []int{64, 8, 16, 32, 64, 64, 8, 16, 32, 64, 0, 8, 16, 0}
var bNumSign = []bool{true, true, true, true, true, false, false, false, false, false, false, true, false, false}

func bDirty() bNums {
	x, y, z := int8(5), uint16(5), true
	return bNums{I: 5, I8: 5, I16: 5, I32: 5, I64: 5, U: 5, U8: 5, U16: 5, U32: 5, U64: 5, B: true, PI8: &x, PU: &y, PB: &z}
}

// numField reads field k: its bits, and whether all the others are as in bDirty.
func numField(n *bNums, k int) (i int64, u uint64, b bool) {
	switch k {
	case 0:
		i = int64(n.I)
	case 1:
		i = int64(n.I8)
	case 2:
		i = int64(n.I16)
	case 3:
		i = int64(n.I32)
	case 4:
		i = n.I64
	case 5:
		u = uint64(n.U)
	case 6:
		u = uint64(n.U8)
	case 7:
		u = uint64(n.U16)
	case 8:
		u = uint64(n.U32)
	case 9:
		u = n.U64
	case 10:
		b = n.B
	case 11:
		i = int64(*n.PI8)
	case 12:
		u = uint64(*n.PU)
	case 13:
		b = *n.PB
	}
	return
}

// checkNum binds the text s to field k of a target and compares with the text's value.
func checkNum(how, k int, s string) {
	n := bDirty()
	if vChoose("nil", 2) == 1 {
		n.PI8, n.PU, n.PB = nil, nil, nil
	}
	err := bindVia(how, &n, map[string][]string{bNumKeys[k]: {s}})
	if bNumBits[k] == 0 {
		v, ok := refBool(s)
		if s == "" {
			v, ok = false, true
		}
		vAssert((err == nil) == ok, "a text that denotes a truth value is refused, or one that does not is accepted")
		if err == nil {
			_, _, b := numField(&n, k)
			vAssert(b == v, "the bound value is not the one sent")
			vReach("bool")
		}
		return
	}
	if s == "" {
		s = "0"
	}
	if bNumSign[k] {
		v, ok, out := refInt(s)
		sh := uint(64 - bNumBits[k])
		ok = ok && out == 0 && v<<sh>>sh == v
		vAssert((err == nil) == ok, "a number that fits is refused, or one that is malformed or does not fit is accepted")
		if err == nil {
			i, _, _ := numField(&n, k)
			vAssert(i == v, "the bound value is not the one sent")
			vReach("int")
		}
		return
	}
	v, ok, over := refUint(s)
	sh := uint(64 - bNumBits[k])
	ok = ok && !over && v<<sh>>sh == v
	vAssert((err == nil) == ok, "a number that fits is refused, or one that is malformed or does not fit is accepted")
	if err == nil {
		_, u, _ := numField(&n, k)
		vAssert(u == v, "the bound value is not the one sent")
		vReach("uint")
	}
}

// every short text, every kind of field
func H_B02_short() {
	how := []int{0, 5, 1, 2, 3, 4, 6, 7, 8, 9, 10}[vChoose("how", vB(2, bSources))]
	checkNum(how, vChoose("k", len(bNumKeys)), vStr("s", 0, vB(4, 5)))
}

// every source, texts of the bytes that matter
func H_B02_sources() {
	how := vChoose("how", bSources)
	checkNum(how, []int{1, 8, 10, 11, 13}[vChoose("k", 5)], vStrOf("s", 0, vB(2, 3), "0129-+ tfx_\x00"))
}

// digits up to and beyond the largest and smallest values of each width
func H_B02_limits() {
	how := []int{0, 5}[vChoose("how", 2)]
	k := vChoose("k", len(bNumKeys)-3)
	head := ""
	switch bNumBits[k] {
	case 64:
		if bNumSign[k] {
			head = "92233720368547758"
		} else {
			head = "184467440737095516"
		}
	case 32:
		head = []string{"214748364", "42949672", "000000021474836"}[vChoose("h", 3)]
	case 16:
		head = []string{"327", "655", "00000000000000000000000000000"}[vChoose("h", 3)]
	case 8:
		head = []string{"", "000"}[vChoose("h", 2)]
	case 0:
		head = []string{"tru", "FALS", "Tr"}[vChoose("h", 3)]
	}
	sign := []string{"", "-", "+"}[vChoose("sign", 3)]
	checkNum(how, k, sign+head+vStrOf("tail", 0, vB(3, 4), "0123456789e"))
}

// slices: one malformed element refuses the whole list, otherwise every element is the number sent
func H_B02_lists() {
	how := []int{0, 5, 3, 8}[vChoose("how", 4)]
	type lists struct {
		A []int8  `form:"a" uri:"a" header:"a"`
		B []uint8 `form:"b" uri:"b" header:"b"`
		C []bool  `form:"c" uri:"c" header:"c"`
	}
	t := lists{A: []int8{9, 9, 9, 9}, B: []uint8{8}, C: []bool{true}}
	vals := []string{}
	for i, n := 0, vChoose("n", 3)+1; i < n; i++ {
		vals = append(vals, []string{"", "12", "x"}[vChoose("h"+string(rune('0'+i)), 3)]+vStr("s"+string(rune('0'+i)), 0, 1))
	}
	k := vChoose("k", 3)
	err := bindVia(how, &t, map[string][]string{[]string{"a", "b", "c"}[k]: vals})
	ok := true
	for i := range vals {
		s := vals[i]
		switch k {
		case 0:
			if s == "" {
				s = "0"
			}
			v, o, _ := refInt(s)
			o = o && v >= -128 && v <= 127
			ok = ok && o
			if err == nil {
				vAssert(o && len(t.A) == len(vals) && int64(t.A[i]) == v, "an element of the list is not the number sent")
			}
		case 1:
			if s == "" {
				s = "0"
			}
			v, o, _ := refUint(s)
			o = o && v <= 255
			ok = ok && o
			if err == nil {
				vAssert(o && len(t.B) == len(vals) && uint64(t.B[i]) == v, "an element of the list is not the number sent")
			}
		case 2:
			v, o := refBool(s)
			o = o || s == ""
			ok = ok && o
			if err == nil {
				vAssert(o && len(t.C) == len(vals) && t.C[i] == v, "an element of the list is not the value sent")
			}
		}
	}
	vAssert((err == nil) == ok, "a list is refused although every element is well-formed, or accepted although one is not")
	if err == nil {
		vReach("bound")
	}
}
