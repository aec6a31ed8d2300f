package main

import (
	"errors"
	"io"
	"net/http"
	"os"

	"github.com/meilihao/water"
)

// every state of the file, its directory and index, every tag setting
func H_T02_states() {
	kind := vChoose("kind", 7) // missing, stat error, file, dir, dir+index, dir+index with stat error, dir with a directory as index
	content := vStr("content", 0, 2)
	mod := int64(vInt("mod", 1000000000, 1000000300))
	etag := vChoose("etag", 3)
	hasIndex := vChoose("hasIndex", 2) == 1
	slash := vChoose("slash", 2) == 1
	expires := vChoose("expires", 2) == 1
	mode := []os.FileMode{0o644, 0, 0o777 | os.ModeSetuid}[vChoose("mode", vB(1, 3))] // what a file system says about who may open it is its own business
	if mode == 0o644 && content == "" {
		mode = 0o755
	}
	fs := &spyFS{files: map[string]*spyNode{}}
	if kind == 0 || kind == 3 {
		noisy = vChoose("noise", 2) == 1
		fs.err = []error{nil, os.ErrPermission, errors.New("the disk is broken"), io.EOF}[vChoose("err", 4)]
	}
	name := "d"
	if kind <= 2 {
		name = "n.txt"
	}
	add := func(k string, n *spyNode) { // with and without a slash: the spelling of the name is not the point
		fs.files[k] = n
		fs.files["/"+k] = n
	}
	switch kind {
	case 1:
		add(name, &spyNode{name: name, statErr: true})
	case 2:
		add(name, &spyNode{name: name, data: content, mod: mod, mode: mode})
	case 3, 4, 5, 6:
		dn := &spyNode{name: name, dir: true, mod: 5}
		add(name, dn)
		add(name+"/", dn)
		switch kind {
		case 4:
			add("d/i.txt", &spyNode{name: "i.txt", data: content, mod: mod, mode: mode})
		case 5:
			add("d/i.txt", &spyNode{name: "i.txt", statErr: true})
		case 6:
			add("d/i.txt", &spyNode{name: "i.txt", dir: true})
		}
	}
	opt := &water.StaticOptions{Prefix: "/s", FileSystem: fs, ETag: water.ETagType(etag)}
	if hasIndex {
		opt.IndexFile = "i.txt"
	}
	if expires {
		opt.Expires = func() string { return "soon" }
	}
	r := water.NewRouter()
	r.StaticAdvance(opt)
	e := r.Handler()
	m := []string{"GET", "HEAD"}[vChoose("m", 2)]
	path := "/s/" + name
	if slash && kind > 2 {
		path += "/"
	}
	q := newReq(m, path)
	w := serve(e, q)
	fs.allClosed()
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	st := w.statuses[0]
	served := kind == 2 || kind == 4 && slash && hasIndex
	switch {
	case kind < 2:
		vAssert(st == 404 && len(w.body) == 0, "a missing or unreadable file is not answered 404")
	case kind > 2 && !slash:
		vAssert(st == 302 || st == 301 || st == 307 || st == 308, "a directory without trailing slash is not redirected")
		vAssert(w.sent.Get("Location") == "/s/d/", "a directory is redirected elsewhere than to itself with a slash")
	case !served:
		vAssert(st == 404 && len(w.body) == 0, "a directory without a usable index is not answered 404")
	default:
		vAssert(st == 200, "a file is not delivered")
		if m == "GET" {
			vAssert(string(w.body) == content, "not the content of the file is delivered")
		} else {
			vAssert(len(w.body) == 0, "an answer to HEAD has a body")
		}
		if expires {
			vAssert(w.sent.Get("Expires") == "soon", "the expires header is missing")
		}
		tag := w.sent["Etag"]
		if etag == 0 {
			vAssert(len(tag) == 0, "a tag is sent although tags are disabled")
			vReach("plain")
			return
		}
		vAssert(len(tag) == 1 && tag[0] != "", "the tag is missing")
		fn := name
		if kind == 4 {
			fn = "i.txt"
		}
		want := water.GenerateETag(opt.FileSystem.(*spyFS).files[map[bool]string{true: "d/i.txt", false: "n.txt"}[kind == 4]].ModTime(), int64(len(content)))
		if etag == 2 {
			want = water.GenerateETag2(opt.FileSystem.(*spyFS).files[map[bool]string{true: "d/i.txt", false: "n.txt"}[kind == 4]].ModTime(), int64(len(content)), fn)
		}
		vAssert(tag[0] == want, "the tag is not that of the delivered file")
		// conditional requests against the same and a later version of the file
		q2 := newReq(m, path)
		other := vChoose("cond", 4)
		switch other {
		case 0:
			q2.Header["If-None-Match"] = []string{tag[0]}
		case 1:
			q2.Header["If-None-Match"] = []string{tag[0] + "0"}
		case 2:
			q2.Header["If-None-Match"] = []string{vStrOf("inm", 1, 2, "0a-\"")}
		case 3: // another version by now
			q2.Header["If-None-Match"] = []string{tag[0]}
			for _, n := range fs.files {
				if !n.dir && n.mod == mod {
					n.mod = mod + 1
				}
			}
		}
		w2 := serve(e, q2)
		fs.allClosed()
		if other == 0 {
			vAssert(len(w2.statuses) == 1 && w2.statuses[0] == 304 && len(w2.body) == 0, "a matching tag is not answered 304 without a body")
			vReach("304")
		} else {
			vAssert(len(w2.statuses) == 1 && w2.statuses[0] == 200, "another version is answered not-modified")
			if m == "GET" {
				vAssert(string(w2.body) == content, "not the content of the file is delivered")
			}
			t2 := w2.sent.Get("Etag")
			vAssert(t2 != "" && (t2 == want) == (other != 3), "the tag is not that of the delivered file")
		}
	}
	vReach("end")
}

// redirects of directories: the same path with a slash, for any name
func H_T02_redirect() {
	vNoise()
	n := vStr("n", 1, vB(1, 2)) + vStrOf("m", 0, vB(1, 2), " %?#\\a:\xc3")
	for i := 0; i < len(n); i++ {
		vAssume(vAnd(n[i] != '/', n[i] != '.'))
	}
	dn := &spyNode{name: n, dir: true}
	fs := &spyFS{files: map[string]*spyNode{n: dn, "/" + n: dn}}
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: []string{"/s", "/"}[vChoose("root", 2)], FileSystem: fs, IndexFile: "i"})
	e := r.Handler()
	p := "/s/" + n
	w := serve(e, newReq("GET", p))
	if len(w.statuses) == 1 && w.statuses[0] == 404 { // below the root prefix the rest is s/n
		vAssert(len(fs.handed) == 0, "an existing file is answered 404")
		p = "/" + n
		w = serve(e, newReq("GET", p))
	}
	fs.allClosed()
	vAssert(len(w.statuses) == 1 && w.statuses[0] == 302, "a directory without trailing slash is not redirected")
	loc := w.sent["Location"]
	vAssert(len(loc) == 1, "a redirect has no location")
	got, ok := unpercent(loc[0])
	vAssert(ok && got == p+"/", "a directory is redirected elsewhere than to itself with a slash")
	for i := 0; i < len(loc[0]); i++ {
		c := loc[0][i]
		vAssert(vAnd(c > ' ', c < 0x7f, c != '?', c != '#', c != '\\'), "a directory is redirected elsewhere than to itself with a slash")
	}
	vReach("end")
}

func hexVal(b byte) (byte, bool) {
	switch {
	case b >= '0' && b <= '9':
		return b - '0', true
	case b >= 'a' && b <= 'f':
		return b - 'a' + 10, true
	case b >= 'A' && b <= 'F':
		return b - 'A' + 10, true
	}
	return 0, false
}

func unpercent(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			out = append(out, s[i])
			continue
		}
		if i+2 >= len(s) {
			return "", false
		}
		a, ok1 := hexVal(s[i+1])
		b, ok2 := hexVal(s[i+2])
		if !ok1 || !ok2 {
			return "", false
		}
		out = append(out, a<<4|b)
		i += 2
	}
	return string(out), true
}

// files of a host directory: content for every byte, and 404 where there is none
func H_T02_host() {
	vNoise()
	d := vDir()
	content := vStr("content", 0, vB(3, 4))
	vPutAt(d+"/f.txt", content, 1000000000)
	vMkdir(d + "/sub")
	r := water.NewRouter()
	r.Static("/s", d)
	e := r.Handler()
	p := []string{"/s/f.txt", "/s/none", "/s/sub", "/s/sub/", "/s/f.txt/x", "/s/"}[vChoose("p", 6)]
	w := serve(e, newReq("GET", p))
	vAssert(len(w.statuses) == 1, "not exactly one status is committed")
	switch p {
	case "/s/f.txt":
		vAssert(w.statuses[0] == 200 && string(w.body) == content, "not the content of the file is delivered")
		vAssert(w.sent.Get("Content-Type") == "text/plain; charset=utf-8", "the content type of a static file is wrong")
	case "/s/sub":
		vAssert(w.statuses[0] == 302 && w.sent.Get("Location") == "/s/sub/", "a directory without trailing slash is not redirected")
	default:
		vAssert(w.statuses[0] == 404, "a missing file or directory is not answered 404")
	}
	vReach("end")
}

var _ http.FileSystem = (*spyFS)(nil)

// the file served is the one of the very name asked for: no other spelling, case or decoding of it
func H_T02_spelling() {
	fs := &spyFS{files: map[string]*spyNode{}}
	for _, n := range []string{"%41", "A", "a", "%4", "+", " ", "a ", "%2541", "A%", "a/A", "a%2fA", "1.", "1", "a+a", "aa", "A.gz"} {
		fs.files["/"+n] = &spyNode{name: n, data: "this is " + n, mod: 1000000000}
		fs.files[n] = fs.files["/"+n]
	}
	r := water.NewRouter()
	r.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: fs, ETag: water.ETagType(vChoose("etag", 3))})
	name := ""
	if vChoose("fixed", 2) == 1 {
		name = []string{"a/A", "a%2fA", "%2541", "a%2f", "%2fA", "A.gz", "A.br"}[vChoose("name", 7)]
	} else {
		name = vStrOf("n", 1, 3, "%41Aa +.")
		vAssume(name != "." && name != "..") // T01
	}
	q := newReq("GET", "/s/"+name)
	if vChoose("gz", 2) == 1 {
		q.Header["Accept-Encoding"] = []string{"gzip, br"}
	}
	var have *spyNode
	vCalm(func() {
		for k, n := range fs.files {
			if k == name {
				have = n
			}
		}
	})
	w := serve(r.Handler(), q)
	if have == nil {
		vAssert(w.status() == 404 && len(w.body) == 0, "a missing or unreadable file is not answered 404")
	} else {
		vAssert(w.status() == 200 && string(w.body) == have.data, "not the content of the file is delivered")
		vAssert(w.sent.Get("Content-Encoding") == "", "not the content of the file is delivered")
	}
	vReach("end")
}
