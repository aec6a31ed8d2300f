package main

import (
	"strings"
	"time"

	"github.com/meilihao/water"
)

// a download or served file is the file's bytes, complete or the range asked for; anything else is an error
func H_D01_file() {
	vNoise()
	content := vStr("content", 0, vB(3, 5))
	dir := vDir()
	vPutAt(dir+"/f.bin", content, 1600000000)
	vMkdir(dir + "/sub")
	kind := vChoose("kind", 4)
	name := []string{"/f.bin", "/none", "/sub", "/f.bin/x"}[kind]
	if kind == 0 && vChoose("link", 2) == 1 {
		vLink(dir+"/f.bin", dir+"/l.bin")
		name = "/l.bin"
	}
	how := vChoose("how", 3)
	if kind == 2 && how > 0 {
		return // directory listings of the standard library
	}
	q := newReq([]string{"GET", "HEAD"}[vChoose("m", 2)], "/")
	lo, hi := -1, -1
	if vChoose("range", 2) == 1 {
		lo = vConcInt(vInt("lo", 0, 4))
		hi = vConcInt(vInt("hi", 0, 4))
		vAssume(lo <= hi)
		q.Header["Range"] = []string{"bytes=" + string(rune('0'+lo)) + "-" + string(rune('0'+hi))}
	}
	early := false
	var err error
	set := how == 0 && lo < 0 && vChoose("set", 2) == 1
	w := inHandler(q, func(c *water.Context) {
		if set { // what somebody set before does not apply to the download
			c.Header().Set("Cache-Control", "public, max-age=600")
			c.Header().Set("Expires", "600")
			c.Header().Set("Content-Type", "text/html")
			c.Header().Set("Content-Disposition", "inline")
		}
		switch how {
		case 0:
			err = c.Download(dir + name)
			if err != nil {
				vAssert(!c.Written(), "a failed download starts a response")
				vAssert(set && c.Header().Get("Content-Type") == "text/html" && c.Header().Get("Cache-Control") == "public, max-age=600" && len(c.Header()) == 4 || !set && len(c.Header()) == 0, "a failed download leaves its header behind")
				early = true
			}
		case 1:
			c.File(dir + name)
		case 2:
			c.ServeFile(dir + name)
		}
	})
	if kind != 0 {
		if how == 0 {
			vAssert(err != nil && early && len(w.statuses) == 0, "downloading something that is no file is not an error")
		} else {
			vAssert(w.statuses[0] == 404, "a missing file is not answered 404")
		}
		vReach("missing")
		return
	}
	vAssert(err == nil, "downloading a file fails")
	want, st := content, 200
	if lo >= 0 && len(content) > 0 {
		if lo >= len(content) {
			vAssert(w.statuses[0] == 416, "a range outside of the file is not refused")
			return
		}
		if hi >= len(content) {
			hi = len(content) - 1
		}
		want, st = content[lo:hi+1], 206
	}
	if how == 0 {
		vAssert(eqStrs(w.sent["Content-Type"], []string{"application/octet-stream"}), "a download is not declared as binary data")
		vAssert(strings.HasPrefix(w.sent.Get("Content-Disposition"), "attachment;"), "a download is not declared as an attachment")
		vAssert(w.sent.Get("Cache-Control") == "must-revalidate" && w.sent.Get("Expires") == "0", "a download may be cached")
	}
	if q.Method == "HEAD" {
		want = ""
	}
	vAssert(len(w.statuses) == 1 && w.statuses[0] == st, "not exactly one status is committed")
	vAssert(string(w.body) == want, "not the bytes of the file are delivered")
	vAssert(w.sent.Get("Last-Modified") == "Sun, 13 Sep 2020 12:26:40 GMT", "the modification time of the file is not delivered")
	vReach("end")
}

// attachments: any content and time; conditional requests are answered by the time alone
func H_D01_attachment() {
	vNoise()
	content := vStr("content", 0, 3) + strings.Repeat("0123456789", []int{0, 1, 60}[vChoose("long", 3)])
	sec := int64(vInt("sec", 1600000000, 1600000059))
	since := vInt("since", 0, 59)
	q := newReq("GET", "/")
	cond := vChoose("cond", 2) == 1
	if cond {
		q.Header["If-Modified-Since"] = []string{"Sun, 13 Sep 2020 12:27:" + string(rune('0'+since/10)) + string(rune('0'+since%10)) + " GMT"}
	}
	pos := vChoose("pos", 2)
	name, mt := "n.txt", time.Unix(sec, 0)
	if vChoose("plain", 2) == 1 { // no type by the name, no time
		name, mt = "n", time.Time{}
		w := inHandler(q, func(c *water.Context) {
			b := strings.NewReader(content)
			if pos > 0 {
				b.Seek(1, 0)
			}
			c.Attachment(name, mt, b)
		})
		vAssert(len(w.statuses) == 1 && w.statuses[0] == 200 && string(w.body) == content, "not the bytes given are delivered")
		return
	}
	w := inHandler(q, func(c *water.Context) {
		b := strings.NewReader(content)
		if pos > 0 { // wherever the reader stands, all of its content is delivered
			b.Seek(1, 0)
		}
		c.Attachment(name, mt, b)
	})
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	n := int(sec) - 1600000000 + 40
	lm := "Sun, 13 Sep 2020 12:26:"
	if n >= 60 {
		lm, n = "Sun, 13 Sep 2020 12:27:", n-60
	}
	lm += string(rune('0'+n/10)) + string(rune('0'+n%10)) + " GMT"
	vAssert(eqStrs(w.sent["Last-Modified"], []string{lm}), "the modification time given is not delivered")
	if cond && sec <= 1600000020+int64(since) {
		vAssert(w.statuses[0] == 304 && len(w.body) == 0, "an unchanged attachment is sent again")
		vReach("304")
	} else {
		vAssert(w.statuses[0] == 200 && string(w.body) == content, "not the bytes given are delivered")
		vAssert(eqStrs(w.sent["Content-Type"], []string{"text/plain; charset=utf-8"}), "the type of an attachment is not that of its name")
	}
	vReach("end")
}
