package main

import (
	"bytes"
	"mime"
	"time"

	"github.com/meilihao/water"
)

// checkDisposition: a recipient gets exactly the type and the name from the header
func checkDisposition(h []string, kind, name string) {
	vAssert(len(h) == 1, "not exactly one disposition header")
	s := h[0]
	quotes, semis := 0, 0
	for i := 0; i < len(s); i++ {
		vAssert(vAnd(s[i] >= 0x20, s[i] < 0x7f), "a name breaks out of the header line")
		if s[i] == '"' {
			quotes++
		}
		if s[i] == ';' {
			semis++
		}
		vAssert(s[i] != '\\', "a name escapes the closing quote")
	}
	vAssert(quotes <= 2 && semis <= 2, "a name adds a quote or parameter")
	t, params, err := mime.ParseMediaType(s)
	vAssert(err == nil, "the disposition header is malformed")
	vAssert(t == kind, "the disposition is not the requested one")
	if name == "" {
		vAssert(len(params) == 0, "a name is sent although there is none")
	} else {
		got, ok := params["filename"]
		vAssert(ok && got == name, "decoding the file name does not give back the name")
		vAssert(len(params) == 1, "a name adds a parameter")
	}
}

func dispose(name string) {
	args := vChoose("args", 4)
	kind := "attachment"
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		c.SetHeader("Content-Type", "x/y")
		body := bytes.NewReader([]byte("b"))
		switch args {
		case 0:
			c.Attachment(name, time.Time{}, body)
		case 1:
			c.Attachment(name, time.Time{}, body, false)
		case 2:
			kind = "inline"
			c.Attachment(name, time.Time{}, body, true)
		case 3:
			kind = "inline"
			c.Attachment(name, time.Time{}, body, true, false)
		}
	})
	checkDisposition(w.sent["Content-Disposition"], kind, name)
}

// every byte
func H_P01_bytes() {
	dispose(vStr("name", 0, vB(2, 3)))
	vReach("end")
}

// longer names of the characters that matter to the syntax
func H_P01_syntax() {
	dispose("a" + vStrOf("name", 0, vB(3, 4), "\";='%*\\ \r\n\xc3\xa9a"))
	vReach("end")
}

var oddNames = []string{"plain.txt", "a b.txt", "a\"b;c=d.txt", "x\r\nSet-Cookie: a=b", "50%25.txt", "日本.pdf", "+&'()*~!@:$,.txt", "back\\slash\"", "utf-8''x"}

// downloads: the name of the file on disk
func H_P01_download() {
	vNoise()
	name := oddNames[vChoose("name", len(oddNames))]
	dir := vDir()
	vPutAt(dir+"/"+name, "content", 1000)
	inline := vChoose("inline", 3)
	kind := "attachment"
	var err error
	w := inHandler(newReq("GET", "/"), func(c *water.Context) {
		switch inline {
		case 0:
			err = c.Download(dir + "/" + name)
		case 1:
			err = c.Download(dir+"/"+name, false)
		case 2:
			kind = "inline"
			err = c.Download(dir+"/"+name, true)
		}
	})
	vAssert(err == nil && string(w.body) == "content", "a download does not deliver the file")
	checkDisposition(w.sent["Content-Disposition"], kind, name)
	vReach("end")
}
