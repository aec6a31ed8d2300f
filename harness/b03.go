package main

import (
	"net/textproto"
	"strings"
	"time"
)

type bInner struct {
	C string `form:"c" uri:"c" header:"c"`
	N string
	D int `form:"-" uri:"-" header:"-"`
}

type bEmb struct {
	E string `form:"e" uri:"e" header:"e"`
	f string `form:"f" uri:"f" header:"f"`
}

type bemb struct {
	G string `form:"g" uri:"g" header:"g"`
}

type bHidden struct {
	H string `form:"h" uri:"h" header:"h"`
	I bInner
}

type bMix struct {
	A   string   `form:"a" uri:"a" header:"a"`
	B   []string `form:"bb" uri:"bb" header:"bb"`
	J   string   `json:"a" xml:"a"`
	a   string   `form:"a" uri:"a" header:"a"`
	NoT string
	Min string `form:"-" uri:"-" header:"-"`
	In  bInner
	PIn *bInner
	bEmb2
	bemb
	*BPtr
	Hid  bHidden  `form:"-" uri:"-" header:"-"`
	PHid *bHidden `form:"-" uri:"-" header:"-"`
	Emp  string   `form:",default=x" uri:",default=x" header:",default=x"`
	T    time.Time
	PS   *string `form:"p" uri:"p" header:"p"`
}

type bEmb2 struct {
	bEmb
	K string `form:"k" uri:"k" header:"k"`
}

type BPtr struct {
	L string `form:"l" uri:"l" header:"l"`
	M string
}

func bMixOld() *bMix {
	m := &bMix{A: "oA", B: []string{"oB"}, J: "oJ", a: "oa", NoT: "oNoT", Min: "oMin", Emp: "oEmp", T: time.Unix(99, 0)}
	m.In = bInner{"oC", "oN", 4}
	m.bEmb2.bEmb = bEmb{"oE", "of"}
	m.bEmb2.K = "oK"
	m.bemb.G = "oG"
	m.Hid = bHidden{"oH", bInner{"oHC", "oHN", 5}}
	return m
}

func is(got, key, name, val, old string) bool {
	want := old
	if key == name {
		want = val
	}
	return got == want
}

// checkMix: exactly the fields whose tag is the key hold val, the others what they held before
func checkMix(m *bMix, key, val string, hadPIn, hadPHid, hadPS, hadEmb bool) {
	const msg = "a field that no supplied key names was changed, or a named one was not set"
	vAssert(is(m.A, key, "a", val, "oA"), msg)
	if key == "bb" {
		vAssert(len(m.B) == 1 && m.B[0] == val, msg)
	} else {
		vAssert(len(m.B) == 1 && m.B[0] == "oB", msg)
	}
	vAssert(m.J == "oJ" && m.a == "oa" && m.NoT == "oNoT" && m.Min == "oMin" && m.Emp == "oEmp", msg)
	vAssert(m.T.Unix() == 99, msg)
	vAssert(is(m.In.C, key, "c", val, "oC") && m.In.N == "oN" && m.In.D == 4, msg)
	if hadPIn {
		vAssert(is(m.PIn.C, key, "c", val, "pC") && m.PIn.N == "pN" && m.PIn.D == 3, msg)
	} else if m.PIn != nil { // a missing structure may be made
		vAssert(is(m.PIn.C, key, "c", val, "") && m.PIn.N == "" && m.PIn.D == 0, msg)
	} else {
		vAssert(key != "c", msg)
	}
	vAssert(is(m.E, key, "e", val, "oE") && m.f == "of" && is(m.K, key, "k", val, "oK") && is(m.G, key, "g", val, "oG"), msg)
	if hadEmb {
		vAssert(is(m.L, key, "l", val, "oL") && m.M == "oM", msg)
	} else if m.BPtr != nil {
		vAssert(is(m.L, key, "l", val, "") && m.M == "", msg)
	} else {
		vAssert(key != "l", msg)
	}
	vAssert(m.Hid.H == "oH" && m.Hid.I.C == "oHC" && m.Hid.I.N == "oHN" && m.Hid.I.D == 5, msg)
	if hadPHid {
		vAssert(m.PHid.H == "qH" && m.PHid.I.C == "qC", msg)
	} else {
		vAssert(m.PHid == nil, msg)
	}
	if key == "p" {
		vAssert(m.PS != nil && *m.PS == val, msg)
	} else if hadPS {
		vAssert(m.PS != nil && *m.PS == "oP", msg)
	} else {
		vAssert(m.PS == nil, msg)
	}
}

// every key up to a length, and every name a field has in some other way
func H_B03_keys() {
	how := []int{0, 1, 2, 3, 4, 9}[vChoose("how", vB(5, 6))]
	var key string
	names := []string{"A", "NoT", "Min", "-", "a", "bb", "c", "e", "f", "g", "k", "l", "h", "p", "In", "PIn", "N", "M", "D", "Hid", "bEmb", "BPtr", "T", "Emp", "default", "x", "I"}
	sym := vChoose("sym", 2) == 1
	if sym {
		if how == 3 { // the server canonicalises the names of headers
			key = vStrOf("key", 0, 2, "abcdefghijklmnopqrstuvwxyz-0")
		} else {
			key = vStr("key", 0, vB(2, 3))
		}
	} else {
		key = names[vChoose("name", len(names))]
	}
	if how == 3 && !sym {
		lower := ""
		for i := 0; i < len(key); i++ {
			c := key[i]
			if c >= 'A' && c <= 'Z' {
				c += 32
			}
			lower += string(rune(c))
		}
		key = lower
	}
	val := "v" + vStr("val", 0, 1)
	m := bMixOld()
	pin, phid, ps, emb := false, false, false, false
	if vChoose("had", 2) == 1 {
		pin, phid, ps, emb = true, true, true, true
		s := "oP"
		m.PIn = &bInner{"pC", "pN", 3}
		m.PHid = &bHidden{"qH", bInner{"qC", "", 0}}
		m.PS = &s
		m.BPtr = &BPtr{"oL", "oM"}
	}
	err := bindVia(how, m, map[string][]string{key: {val}})
	vAssert(err == nil, "binding fails")
	checkMix(m, key, val, pin, phid, ps, emb)
	vReach("end")
}

// two keys at once: each field takes the value of its own key
func H_B03_pairs() {
	how := []int{0, 3, 1, 2}[vChoose("how", vB(2, 4))]
	names := []string{"a", "bb", "c", "e", "f", "g", "k", "l", "p", "-", "not", "h"}
	i := vChoose("i", len(names))
	j := vChoose("j", len(names))
	vAssume(i != j)
	v1, v2 := "1"+vStr("v1", 0, 1), "2"+vStr("v2", 0, 1)
	m := bMixOld()
	had := vChoose("had", 2) == 1
	oldP, oldL := "?", ""
	if had {
		oldP, oldL = "oP", "oL"
		s := oldP
		m.PIn, m.PHid, m.PS, m.BPtr = &bInner{"pC", "pN", 3}, &bHidden{"qH", bInner{"qC", "", 0}}, &s, &BPtr{"oL", "oM"}
	}
	vAssert(bindVia(how, m, map[string][]string{names[i]: {v1}, names[j]: {v2}}) == nil, "binding fails")
	pick := func(name, old string) string {
		if names[i] == name {
			return v1
		}
		if names[j] == name {
			return v2
		}
		return old
	}
	const msg = "a field does not hold the value of its own key"
	vAssert(m.A == pick("a", "oA") && len(m.B) == 1 && m.B[0] == pick("bb", "oB") && m.In.C == pick("c", "oC"), msg)
	vAssert(m.E == pick("e", "oE") && m.f == "of" && m.G == pick("g", "oG") && m.K == pick("k", "oK"), msg)
	vAssert(m.NoT == "oNoT" && m.Hid.H == "oH" && m.Min == "oMin" && m.a == "oa", msg)
	if m.BPtr != nil {
		vAssert(m.L == pick("l", oldL), msg)
	}
	if had {
		vAssert(m.PIn.C == pick("c", "pC") && m.PIn.N == "pN" && m.PIn.D == 3 && m.PHid.H == "qH" && m.PHid.I.C == "qC" && m.M == "oM", msg)
	}
	if m.PS != nil {
		vAssert(*m.PS == pick("p", oldP), msg)
	} else {
		vAssert(pick("p", "") == "", msg)
	}
	vReach("end")
}

type bTags struct {
	F string `form:"k" header:"o-1"`
	U string `form:"o2" uri:"k"`
	H string `uri:"o3" header:"k"`
	J string `json:"k" xml:"k" binding:"k"`
}

// each source reads its own tag and no other
func H_B03_tagname() {
	how := vChoose("how", bSources)
	v := vStr("v", 0, vB(2, 3))
	t := bTags{"1", "2", "3", "4"}
	vAssert(bindVia(how, &t, map[string][]string{"k": {v}}) == nil, "binding fails")
	want := bTags{"1", "2", "3", "4"}
	switch how {
	case 0, 5:
		want.U = v
	case 3, 8:
		want.H = v
	default:
		want.F = v
	}
	vAssert(t.F == want.F && t.U == want.U && t.H == want.H && t.J == "4", "the source binds by another source's tag")
	vReach("end")
}

type b2Leaf struct {
	C string `form:"c" uri:"c" header:"c"`
	D int    `form:"-" uri:"-" header:"-"`
	e string
}

type b2None struct {
	X string `form:"-" uri:"-" header:"-"`
	y string
}

type B2Emb struct {
	G *string `form:"g" uri:"g" header:"g"`
}

type b2Mix struct {
	A    string `form:"a" uri:"a" header:"a"`
	Nam  string
	Min  string    `form:"-" uri:"-" header:"-"`
	a    string    `form:"a" uri:"a" header:"a"`
	PIn  *b2Leaf   `form:"in" uri:"in" header:"in"`
	PP   **b2Leaf  `form:"pp" uri:"pp" header:"pp"`
	No   *b2None   `form:"no" uri:"no" header:"no"`
	PHid *b2Leaf   `form:"-" uri:"-" header:"-"`
	PS   *string   `form:"p" uri:"p" header:"p"`
	L    []string  `form:"l" uri:"l" header:"l"`
	R    [2]string `form:"r" uri:"r" header:"r"`
	*B2Emb
}

// the Bind2 family: tagged fields by their tag, untagged ones by their name; pointers are only made for what is set
func H_B03_bind2() {
	how := []int{5, 6, 8, 10, 7}[vChoose("how", vB(3, 5))]
	names := []string{"a", "nam", "min", "-", "c", "d", "e", "x", "y", "g", "p", "l", "pin", "B2Emb", "phid", "other"}
	if how != 8 {
		names = append(names, "Nam", "Min", "D", "PHid", "L")
	} else {
		names[1] = "Nam"
	}
	key := names[vChoose("name", len(names))]
	if how == 8 && key == "Nam" { // a header is looked up by its canonical name
		key = "nam"
	}
	val := "v" + vStr("val", 0, 1)
	m := &b2Mix{A: "oA", Nam: "oNam", Min: "oMin", a: "oa", L: []string{"oL"}, R: [2]string{"oR", "oS"}}
	had := vChoose("had", 2) == 1
	if had {
		s, g := "oP", "oG"
		m.PIn, m.PHid, m.PS, m.B2Emb = &b2Leaf{"oC", 3, "oe"}, &b2Leaf{"qC", 4, "qe"}, &s, &B2Emb{&g}
	}
	err := bindVia(how, m, map[string][]string{key: {val}})
	vAssert(err == nil, "binding fails")
	const msg = "a field that no supplied key names was changed, or a named one was not set"
	nam := "Nam"
	if how == 8 {
		nam = "nam"
	}
	vAssert(is(m.A, key, "a", val, "oA") && is(m.Nam, key, nam, val, "oNam") && m.Min == "oMin" && m.a == "oa", msg)
	vAssert(m.R[0] == "oR" && m.R[1] == "oS" && m.No == nil, msg)
	vAssert(len(m.L) == 1 && is(m.L[0], key, "l", val, "oL"), msg)
	if had {
		vAssert(is(m.PIn.C, key, "c", val, "oC") && m.PIn.D == 3 && m.PIn.e == "oe" && m.PHid.C == "qC" && m.PHid.D == 4, msg)
		vAssert(is(*m.PS, key, "p", val, "oP") && is(*m.B2Emb.G, key, "g", val, "oG"), msg)
	} else {
		vAssert(m.PHid == nil, msg)
		vAssert((m.PIn != nil) == (key == "c") && (m.PIn == nil || m.PIn.C == val), msg)
		vAssert((m.PS != nil) == (key == "p") && (m.PS == nil || *m.PS == val), msg)
		vAssert((m.B2Emb != nil) == (key == "g") && (m.B2Emb == nil || *m.B2Emb.G == val), msg)
	}
	vAssert((m.PP != nil) == (key == "c") && (m.PP == nil || (**m.PP).C == val), msg)
	vReach("end")
}

func bindLocalA(how int, m map[string][]string) (string, error) {
	type form struct {
		V string `form:"a" uri:"a" header:"a"`
	}
	var f form
	err := bindVia(how, &f, m)
	return f.V, err
}

func bindLocalB(how int, m map[string][]string) (string, error) {
	type form struct {
		V string `form:"b" uri:"b" header:"b"`
	}
	var f form
	err := bindVia(how, &f, m)
	return f.V, err
}

// different types that look alike, one after the other: local types of one name, unnamed types, one type under several tags
func H_B03_history() {
	m := map[string][]string{"a": {"A" + vStrOf("x", 0, 1, "xy")}, "b": {"B"}, "c": {"C"}}
	for i := 0; i < 3; i++ {
		how := vChoose("how", 9)
		switch vChoose("type", 5) {
		case 0:
			v, err := bindLocalA(how, m)
			vAssert(err == nil && v == m["a"][0], "a field does not hold the value of its own key")
		case 1:
			v, err := bindLocalB(how, m)
			vAssert(err == nil && v == "B", "a field does not hold the value of its own key")
		case 2:
			var f struct {
				V string `form:"c" uri:"c" header:"c"`
			}
			vAssert(bindVia(how, &f, m) == nil && f.V == "C", "a field does not hold the value of its own key")
		case 3:
			var f struct {
				V string `form:"a" uri:"a" header:"a"`
			}
			vAssert(bindVia(how, &f, m) == nil && f.V == m["a"][0], "a field does not hold the value of its own key")
		case 4:
			var f bManyTags
			want := "A"
			switch how {
			case 0, 5:
				want = "B"
			case 3, 8:
				want = "C"
			default:
				want = m["a"][0]
			}
			vAssert(bindVia(how, &f, m) == nil && f.V == want, "a field does not hold the value of its own key")
		}
	}
	vReach("end")
}

type bManyTags struct {
	V string `form:"a" uri:"b" header:"c"`
}

type bLongNames struct {
	A string `form:"identifier" uri:"identifier" header:"Identifier"`
	B string `form:"user_name-with.dots" uri:"user_name-with.dots" header:"User-Name-With-Dots"`
	C string `form:"camelCaseName" uri:"camelCaseName" header:"Camel-Case-Name"`
	D string `form:"items[]" uri:"items[]" header:"Items"`
	E string `form:"filter[name]" uri:"filter[name]" header:"Filter"`
	F string `form:"日本" uri:"日本" header:"Nihon"`
	G string `form:"a b" uri:"a b" header:"A"`
	H string `form:"omitempty" uri:"omitempty" header:"Omitempty"`
}

// names of every kind: a field takes the key that is its name to the letter, and no other spelling of it
func H_B03_names() {
	how := []int{0, 1, 2, 4, 5, 6, 7, 9, 10}[vChoose("how", 9)]
	names := []string{"identifier", "user_name-with.dots", "camelCaseName", "items[]", "filter[name]", "日本", "a b", "omitempty"}
	k := vChoose("k", len(names))
	key := names[k]
	switch vChoose("spelling", 13) {
	case 1:
		key = "I" + key[1:]
	case 2:
		key = strings.ToUpper(key)
	case 3:
		key = strings.ToLower(key)
	case 4:
		key += "[]"
	case 5:
		key = strings.TrimSuffix(key, "[]")
	case 6:
		key = strings.Replace(key, "_", "-", -1)
	case 7:
		key = key + vStrOf("more", 1, 1, " [.:*")
	case 8:
		key = " " + key
	case 9:
		key = textproto.CanonicalMIMEHeaderKey(key)
	case 10:
		key = strings.Replace(key, "[name]", ".name", 1)
	case 11:
		key = string(rune('A' + k)) // the name in the source
	case 12:
		key = key[:len(key)-1]
	}
	val := "v" + vStr("val", 0, 1)
	t := bLongNames{"0", "1", "2", "3", "4", "5", "6", "7"}
	vAssert(bindVia(how, &t, map[string][]string{key: {val}}) == nil, "binding fails")
	got := []string{t.A, t.B, t.C, t.D, t.E, t.F, t.G, t.H}
	for i := range got {
		if key == names[i] {
			vAssert(got[i] == val, "a field does not hold the value of its own key")
		} else {
			vAssert(got[i] == string(rune('0'+i)), "a field that no supplied key names was changed")
		}
	}
	vReach("end")
}

// headers: one field for each name, in any case
func H_B03_header_names() {
	how := []int{3, 8}[vChoose("how", 2)]
	names := []string{"Identifier", "User-Name-With-Dots", "Camel-Case-Name", "Items", "Filter", "Nihon", "A", "Omitempty"}
	k := vChoose("k", len(names))
	key := names[k]
	switch vChoose("case", 3) {
	case 1:
		key = strings.ToLower(key)
	case 2:
		key = strings.ToUpper(key)
	}
	val := "v" + vStr("val", 0, 1)
	t := bLongNames{"0", "1", "2", "3", "4", "5", "6", "7"}
	vAssert(bindVia(how, &t, map[string][]string{key: {val}, "X-Other": {"x"}}) == nil, "binding fails")
	for i, s := range []string{t.A, t.B, t.C, t.D, t.E, t.F, t.G, t.H} {
		if i == k {
			vAssert(s == val, "a field does not hold the value of its own key")
		} else {
			vAssert(s == string(rune('0'+i)), "a field that no supplied key names was changed")
		}
	}
	vReach("end")
}
