package main

import (
	"errors"
	"io"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// spyFS is a file system that records what is asked of it.
type spyFS struct {
	files  map[string]*spyNode
	opens  []string
	handed []*spyFile
	err    error // of files that are not there
}

type spyNode struct {
	name    string
	dir     bool
	data    string
	mod     int64
	statErr bool
	mode    os.FileMode
}

type spyFile struct {
	n      *spyNode
	pos    int64
	closed int
}

func (f *spyFS) Open(name string) (http.File, error) {
	f.opens = append(f.opens, name)
	for k, n := range f.files {
		if k == name {
			h := &spyFile{n: n}
			f.handed = append(f.handed, h)
			return h, nil
		}
	}
	if f.err != nil {
		return nil, f.err
	}
	return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
}

func (f *spyFile) Close() error {
	f.closed++
	return nil
}
func (f *spyFile) Read(b []byte) (int, error) {
	vAssert(f.closed == 0, "a closed file is read")
	if f.pos >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}
func (f *spyFile) Seek(off int64, whence int) (int64, error) {
	vAssert(f.closed == 0, "a closed file is read")
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.n.data))
	}
	f.pos = off
	return off, nil
}
func (f *spyFile) Readdir(int) ([]os.FileInfo, error) { return nil, errors.New("no listing") }
func (f *spyFile) Stat() (os.FileInfo, error) {
	if f.n.statErr {
		return nil, errors.New("cannot stat")
	}
	return f.n, nil
}
func (n *spyNode) Name() string { return n.name }
func (n *spyNode) Size() int64  { return int64(len(n.data)) }
func (n *spyNode) Mode() os.FileMode {
	if n.dir {
		return os.ModeDir | 0o755
	}
	return n.mode
}
func (n *spyNode) ModTime() time.Time { return time.Unix(n.mod, 0) }
func (n *spyNode) IsDir() bool        { return n.dir }
func (n *spyNode) Sys() interface{}   { return nil }

func (f *spyFS) allClosed() {
	for _, h := range f.handed {
		vAssert(h.closed == 1, "an opened file is not closed exactly once")
	}
}

// cut removes the slashes around a name.
func cut(s string) string {
	for s != "" && s[0] == '/' {
		s = s[1:]
	}
	for s != "" && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	return s
}

var staticPrefixes = []string{"", "/", "/s", "s/", "/s/t", "/s/<d>"}

// whatever the path: only the rest behind the prefix (and the index below it) is opened, in the given file system
func H_T01_opens() {
	vNoise()
	pi := vChoose("prefix", 5)
	fs := &spyFS{files: map[string]*spyNode{
		"d":   {name: "d", dir: true},
		"d/":  {name: "d", dir: true},
		"/d/": {name: "d", dir: true},
		"":    {name: "/", dir: true},
		"a":   {name: "a.txt", data: "aa"},
	}}
	opt := &water.StaticOptions{Prefix: staticPrefixes[pi], FileSystem: fs}
	if vChoose("index", 2) == 1 {
		opt.IndexFile = "i.html"
	}
	r := water.NewRouter()
	r.StaticAdvance(opt)
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	rest := vStrOf("rest", 0, vB(7, 8), "/.ads")
	base := []string{"/", "/", "/s/", "/s/", "/s/t/"}[pi]
	serve(e, newReq([]string{"GET", "HEAD"}[vChoose("m", 2)], base+rest))
	vAssert(len(fs.opens) <= 2, "more than the file and its index is opened")
	for i, o := range fs.opens {
		if i == 0 {
			vAssert(cut(o) == cut(rest), "something else than the rest of the path is opened")
			vReach("open")
		} else {
			want := "i.html"
			if c := cleanRest(rest); c != "" {
				want = c + "/i.html"
			}
			vAssert(opt.IndexFile != "" && cut(o) == want, "something else than the index of the directory is opened")
			vReach("index")
		}
	}
	fs.allClosed()
}

// cleanRest: the directory's name as a relative name without dots and double slashes; a leading ".." stays
func cleanRest(s string) string {
	var out []string
	from := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != '/' {
			continue
		}
		seg := s[from:i]
		from = i + 1
		switch {
		case seg == "" || seg == ".":
		case seg == ".." && len(out) > 0 && out[len(out)-1] != "..":
			out = out[:len(out)-1]
		default:
			out = append(out, seg)
		}
	}
	return strings.Join(out, "/")
}

// a directory of the host: nothing outside it is ever delivered
func H_T01_host() {
	vNoise()
	d := vDir()
	vPutAt(d+"/root/a", "inside-a", 1000)
	vPutAt(d+"/root/d/i.html", "inside-i", 1000)
	vPutAt(d+"/root/index.html", "inside-x", 1000)
	vPutAt(d+"/a", "SECRET", 1000)
	vPutAt(d+"/d/i.html", "SECRET", 1000)
	vPutAt(d+"/d/index.html", "SECRET", 1000)
	r := water.NewRouter()
	how := vChoose("how", 3)
	switch how {
	case 0:
		r.Static("/s", d+"/root")
	case 1:
		r.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(d + "/root"), IndexFile: "i.html"})
	case 2:
		r.StaticAdvance(&water.StaticOptions{Prefix: "/s", FileSystem: http.Dir(d + "/root"), IndexFile: "../d/i.html", ETag: water.ETagType2})
	}
	rest := vStrOf("rest", 0, vB(6, 7), "/.ad")
	if vChoose("up", 2) == 1 {
		rest = "../" + rest
	}
	w := serve(r.Handler(), newReq("GET", "/s/"+rest))
	vAssert(!strings.Contains(string(w.body), "SECRET"), "a file outside the configured directory is delivered")
	if len(w.statuses) == 1 && w.statuses[0] == 200 {
		vAssert(strings.HasPrefix(string(w.body), "inside-"), "something else than a file of the directory is delivered")
		vReach("delivered")
	}
	vReach("end")
}

// a single-file route delivers this file and no other
func H_T01_single() {
	vNoise()
	d := vDir()
	vPutAt(d+"/f.txt", "the file", 1000)
	vPutAt(d+"/g.txt", "SECRET", 1000)
	r := water.NewRouter()
	pat := []string{"/f.txt", "/one/<n>", "/any/*"}[vChoose("pat", 3)]
	r.StaticFile(pat, d+"/f.txt")
	r.StaticFile("/missing", d+"/none")
	e := r.Handler()
	p := "/f.txt"
	switch pat {
	case "/one/<n>":
		p = "/one/" + vStrOf("n", 1, vB(4, 5), ".ag%")
	case "/any/*":
		p = "/any/" + vStrOf("n", 0, vB(4, 5), "./ag%")
	}
	m := []string{"GET", "HEAD"}[vChoose("m", 2)]
	w := serve(e, newReq(m, p))
	if len(w.statuses) == 1 && w.statuses[0] == 200 {
		if m == "GET" {
			vAssert(string(w.body) == "the file", "a single-file route delivers something else")
		} else {
			vAssert(len(w.body) == 0, "a single-file route delivers something else")
		}
		vReach("delivered")
	} else {
		vAssert(!strings.Contains(string(w.body), "SECRET"), "a single-file route delivers something else")
		if pat == "/f.txt" {
			vFail("a single-file route does not deliver its file")
		}
	}
	w = serve(e, newReq(m, "/missing"))
	vAssert(w.status() == 404, "a missing file is not answered 404")
	vReach("end")
}
