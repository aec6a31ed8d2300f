package main

import (
	"bytes"
	"io/ioutil"
	"mime/multipart"
	"strconv"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

type bFiles struct {
	One  *multipart.FileHeader   `form:"one"`
	Many []*multipart.FileHeader `form:"many"`
	Same *multipart.FileHeader   `form:"many"`
	Txt  string                  `form:"txt"`
	In   struct {
		Deep []*multipart.FileHeader `form:"deep"`
	}
	No  *multipart.FileHeader `form:"-"`
	Un  *multipart.FileHeader
	Oth []*multipart.FileHeader `form:"other"`
}

type bFiles2 struct {
	One  *multipart.FileHeader    `form:"one"`
	Many []*multipart.FileHeader  `form:"many"`
	Same multipart.FileHeader     `form:"many"`
	Txt  string                   `form:"txt"`
	Two  [2]*multipart.FileHeader `form:"two"`
	No   *multipart.FileHeader    `form:"-"`
	Oth  []*multipart.FileHeader  `form:"other"`
}

func bind2(legacy bool, f *multipart.Form, t interface{}) error {
	q := newReq("POST", "/")
	q.MultipartForm = f
	return withVal(nil, func() error {
		if legacy {
			return binding.FormMultipart.Bind2(q, t)
		}
		return binding.FormMultipart.Bind(q, t)
	})
}

func mkFiles(key string, max int) []*multipart.FileHeader {
	var fs []*multipart.FileHeader
	for i, n := 0, vChoose("n"+key, max); i < n; i++ {
		fs = append(fs, &multipart.FileHeader{Filename: key + strconv.Itoa(i)})
	}
	return fs
}

func sameFiles(a, b []*multipart.FileHeader) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// any number of files for each field, next to texts and files nobody asked for, over fresh and filled targets
func H_B08_fields() {
	max := vB(4, 6)
	f := &multipart.Form{Value: map[string][]string{}, File: map[string][]*multipart.FileHeader{}}
	one, many, deep := mkFiles("one", 3), mkFiles("many", max), mkFiles("deep", 3)
	for _, k := range []string{"one", "many", "deep"} {
		fs := map[string][]*multipart.FileHeader{"one": one, "many": many, "deep": deep}[k]
		if fs != nil || vChoose("nil"+k, 2) == 1 {
			f.File[k] = fs
		}
	}
	if vChoose("extra", 2) == 1 {
		f.File["-"] = mkFiles("dash", 2)
		f.File["No"] = mkFiles("no", 2)
	} else { // other spellings of the keys
		for _, k := range []string{"one", "many", "other"} {
			f.File[k+[]string{"[]", "[0]", " ", "s"}[vChoose("spelling"+k, 4)]] = []*multipart.FileHeader{{Filename: "wrong"}}
			f.File[strings.ToUpper(k)] = []*multipart.FileHeader{{Filename: "wrong"}}
		}
	}
	txt := vStr("txt", 0, 1)
	f.Value["txt"] = []string{txt}
	old := &multipart.FileHeader{Filename: "old"}
	filled := vChoose("old", 2) == 1
	t := bFiles{}
	if filled {
		t.One, t.Many, t.Same, t.In.Deep, t.No, t.Un, t.Oth = old, []*multipart.FileHeader{old, old}, old, []*multipart.FileHeader{old}, old, old, []*multipart.FileHeader{old}
	}
	keepOne := func(got *multipart.FileHeader, fs []*multipart.FileHeader) {
		switch {
		case len(fs) > 0:
			vAssert(got == fs[0], "a single field does not hold the first file of its key")
		case filled:
			vAssert(got == old, "a field without a file was changed")
		default:
			vAssert(got == nil, "a field without a file was changed")
		}
	}
	vAssert(bind2(false, f, &t) == nil, "binding fails")
	keepOne(t.One, one)
	keepOne(t.Same, many)
	keepOne(t.No, nil)
	keepOne(t.Un, nil)
	if len(many) > 0 {
		vAssert(sameFiles(t.Many, many), "a list field does not hold all files of its key in order")
		vReach("many")
	} else {
		vAssert(filled && len(t.Many) == 2 || !filled && len(t.Many) == 0, "a field without a file was changed")
	}
	if len(deep) > 0 {
		vAssert(sameFiles(t.In.Deep, deep), "a list field does not hold all files of its key in order")
	}
	vAssert(len(t.Oth) == 0 || filled && len(t.Oth) == 1 && t.Oth[0] == old, "a field without a file was changed")
	vAssert(t.Txt == txt, "a text next to files is not bound")
	vReach("end")
}

// the older entry point: the same, and arrays of exactly the number of files
func H_B08_legacy() {
	f := &multipart.Form{Value: map[string][]string{}, File: map[string][]*multipart.FileHeader{}}
	one, many, two := mkFiles("one", 3), mkFiles("many", 4), mkFiles("two", 4)
	if one != nil {
		f.File["one"] = one
	}
	if many != nil {
		f.File["many"] = many
	}
	if two != nil {
		f.File["two"] = two
	}
	f.Value["txt"] = []string{vStr("txt", 0, 1)}
	t := bFiles2{}
	err := bind2(true, f, &t)
	if len(two) != 0 && len(two) != 2 {
		vAssert(err != nil, "files that do not fit an array are not refused")
		vReach("refused")
		return
	}
	vAssert(err == nil, "binding fails")
	if len(one) > 0 {
		vAssert(t.One != nil && t.One.Filename == "one0", "a single field does not hold the first file of its key")
	} else {
		vAssert(t.One == nil, "a field without a file was changed")
	}
	if len(many) > 0 {
		vAssert(sameFiles(t.Many, many) && t.Same.Filename == "many0", "a list field does not hold all files of its key in order")
	} else {
		vAssert(t.Many == nil && t.Same.Filename == "", "a field without a file was changed")
	}
	if len(two) == 2 {
		vAssert(t.Two[0] == two[0] && t.Two[1] == two[1], "an array does not hold all files of its key in order")
	} else {
		vAssert(t.Two[0] == nil, "a field without a file was changed")
	}
	vAssert(t.Txt == f.Value["txt"][0], "a text next to files is not bound")
	vReach("end")
}

// a file for a field that cannot hold it
func H_B08_misfit() {
	type misfit struct {
		S  string                   `form:"s"`
		I  int                      `form:"i"`
		L  []string                 `form:"l"`
		B  *bool                    `form:"b"`
		LV []multipart.FileHeader   `form:"lv"`
		PL *[]*multipart.FileHeader `form:"pl"`
		M  map[string]string        `form:"m"`
		OK *multipart.FileHeader    `form:"ok"`
	}
	keys := []string{"s", "i", "l", "b", "lv", "pl", "m", "ok", "none"}
	k := vChoose("k", len(keys))
	legacy := vChoose("legacy", 2) == 1
	t := misfit{S: "o", I: 3, L: []string{"o"}}
	f := &multipart.Form{File: map[string][]*multipart.FileHeader{}}
	n := vChoose("n", 3)
	for i := 0; i < n; i++ {
		f.File[keys[k]] = append(f.File[keys[k]], &multipart.FileHeader{Filename: "f"})
	}
	err := bind2(legacy, f, &t)
	want := n > 0 && k < 7
	if legacy && (k == 4 || k == 5) { // the older entry point can
		want = false
	}
	vAssert((err != nil) == want, "a file for a field that cannot hold it is not an error, or one that can be held is")
	vAssert(t.S == "o" && t.I == 3 && len(t.L) == 1, "a field that cannot hold a file was changed")
	vReach("end")
}

// whole uploads: the files a handler binds hold what the client sent, in its order
func H_B08_request() {
	vNoise()
	n := vChoose("n", vB(3, 4))
	body := part("txt", "", "t")
	var sent []string
	for i := 0; i < n; i++ {
		c := strconv.Itoa(i) + vStrOf("c"+strconv.Itoa(i), 0, 1, "a\r\n-\x00")
		sent = append(sent, c)
		body += part("many", "n"+strconv.Itoa(i), c)
		if i == 0 {
			body += part("one", "o", "single")
		}
	}
	body += "--XX--\r\n"
	q := newReq([]string{"POST", "PUT", "PATCH"}[vChoose("m", 3)], "/")
	q.Header["Content-Type"] = []string{"multipart/form-data; boundary=XX"}
	q.Body = &bodyRC{Reader: bytes.NewReader([]byte(body))}
	inHandler(q, func(c *water.Context) {
		t := bFiles{}
		var err error
		if vChoose("direct", 2) == 1 {
			err = c.BindWith(&t, binding.FormMultipart)
		} else {
			err = c.Bind(&t)
		}
		vAssert(err == nil && t.Txt == "t", "binding fails")
		vAssert(len(t.Many) == n && (t.One != nil) == (n > 0), "not all files are bound")
		for i, fh := range t.Many {
			vAssert(fh.Filename == "n"+strconv.Itoa(i), "the files are not bound in order")
			r, e := fh.Open()
			vAssert(e == nil, "a bound file cannot be opened")
			b, e := ioutil.ReadAll(r)
			r.Close()
			vAssert(e == nil && string(b) == sent[i], "a bound file does not hold what was sent")
		}
	})
	vReach("end")
}
