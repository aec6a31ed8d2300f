package main

import (
	"bytes"
	"net/http"
	"strings"

	"github.com/meilihao/water"
)

type bodyRC struct {
	*bytes.Reader
	closed int
}

func (b *bodyRC) Close() error { b.closed++; return nil }

func multiReq(body string) *http.Request {
	q := newReq("POST", "/up")
	q.Header["Content-Type"] = []string{"multipart/form-data; boundary=XX"}
	q.Body = &bodyRC{Reader: bytes.NewReader([]byte(body))}
	q.ContentLength = int64(len(body))
	return q
}

func part(name, file, content string) string {
	s := "--XX\r\nContent-Disposition: form-data; name=\"" + name + "\""
	if file != "" {
		s += "; filename=\"" + file + "\""
	}
	return s + "\r\n\r\n" + content + "\r\n"
}

// neighbours puts files beside the destination dir/out; the function it returns asserts that none has changed
func neighbours(dir string) func() {
	l := []string{"out.part", "out.tmp", ".out.tmp", ".out", "out~", "out.bak", "out.new", "out.old", "out.0", "tmp", "upload.tmp", ".out.swp"}
	for _, n := range l {
		vPutAt(dir+"/"+n, "of "+n, 1000)
	}
	return func() {
		for _, n := range l {
			got, _, ok := vGet(dir + "/" + n)
			vAssert(ok && got == "of "+n, "saving touches another file")
		}
	}
}

// any content, any earlier content of the destination, kept in memory or in a temporary file
func H_U01_save() {
	vNoise()
	content := vStr("content", 0, vB(4, 6))
	vAssume(vNot(strings.Contains(content, "--XX"))) // a client picks a boundary that does not occur
	if vChoose("long", 2) == 1 {
		content = strings.Repeat("0123456789", 70) + content
	}
	old := vChoose("old", 4)
	dir := vDir()
	dst := dir + "/out"
	if old == 3 {
		vPutAt(dst, strings.Repeat("z", 800), 1000)
	} else if old > 0 {
		vPutAt(dst, vStr("oldc", old-1, 4*(old-1)+1), 1000)
	}
	near := neighbours(dir)
	opts := []water.Option{}
	if vChoose("disk", 2) == 1 {
		opts = append(opts, water.WithMaxMultipartMemory(0))
	}
	r := water.NewRouter()
	ran := 0
	r.POST("/up", func(c *water.Context) {
		ran++
		c.ParseFormOrMultipartForm()
		_, fh, err := c.FormFile("f")
		if err != nil {
			vFail("the uploaded file is not found")
		}
		err = c.SaveUploadedFile(fh, dst)
		vAssert(err == nil, "saving fails")
		got, mode, ok := vGet(dst)
		vAssert(ok, "no file at the destination")
		vAssert(got == content, "the saved file does not have exactly the uploaded bytes")
		if old == 0 {
			vAssert(mode&0o077 == 0 && mode&0o600 == 0o600, "a newly created file is readable by others than the owner")
		}
		// and again over itself, to another place
		err = c.SaveUploadedFile(fh, dir+"/second")
		got, _, ok = vGet(dir + "/second")
		vAssert(err == nil && ok && got == content, "the saved file does not have exactly the uploaded bytes")
		if c.Request.MultipartForm != nil {
			c.Request.MultipartForm.RemoveAll()
		}
	})
	serve(r.Handler(opts...), multiReq(part("f", "n", content)+"--XX--\r\n"))
	near()
	vAssert(vLs(dir) == ".out .out.swp .out.tmp out out.0 out.bak out.new out.old out.part out.tmp out~ second tmp upload.tmp", "saving leaves another file")
	vAssert(ran == 1, "the handler did not run")
	vReach("end")
}

// several files: each is saved with its own bytes
func H_U01_several() {
	n := 1 + vChoose("n", 3)
	var cs []string
	body := ""
	for i := 0; i < n; i++ {
		cs = append(cs, vStr("c", 0, 2))
		body += part("f", "n", cs[i])
	}
	dir := vDir()
	r := water.NewRouter()
	ran := 0
	r.POST("/up", func(c *water.Context) {
		ran++
		c.ParseFormOrMultipartForm()
		l := c.Request.MultipartForm.File["f"]
		vAssert(len(l) == n, "an uploaded file is missing")
		for i := n - 1; i >= 0; i-- {
			vAssert(c.SaveUploadedFile(l[i], dir+"/"+string(rune('0'+i))) == nil, "saving fails")
		}
	})
	serve(r.Handler(), multiReq(body+"--XX--\r\n"))
	vAssert(ran == 1, "the handler did not run")
	for i := range cs {
		got, _, ok := vGet(dir + "/" + string(rune('0'+i)))
		vAssert(ok && got == cs[i], "the saved file does not have exactly the uploaded bytes")
	}
	vReach("end")
}

// failures to open the upload, to create the destination and to copy are reported
func H_U01_failures() {
	content := vStr("content", 1, 3)
	dir := vDir()
	dst := dir + "/out"
	kind := vChoose("kind", 5)
	near := neighbours(dir)
	opts := []water.Option{}
	switch kind {
	case 0:
		dst = dir + "/missing/out"
	case 1:
		dst = dir
	case 2: // the disk is full
	case 3: // the temporary file of the upload is gone
		opts = append(opts, water.WithMaxMultipartMemory(0))
	case 4:
		vPutAt(dst, "x", 5)
		dst += "/below"
	}
	r := water.NewRouter()
	ran := 0
	r.POST("/up", func(c *water.Context) {
		ran++
		c.ParseFormOrMultipartForm()
		fh := c.Request.MultipartForm.File["f"][0]
		if kind == 3 {
			c.Request.MultipartForm.RemoveAll()
		}
		var err error
		if kind == 2 {
			vFull(func() { err = c.SaveUploadedFile(fh, dst) })
		} else {
			err = c.SaveUploadedFile(fh, dst)
		}
		vAssert(err != nil, "a failure to save is not reported")
	})
	serve(r.Handler(opts...), multiReq(part("f", "n", content)+"--XX--\r\n"))
	near()
	vAssert(ran == 1, "the handler did not run")
	vReach("end")
}
