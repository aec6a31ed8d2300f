import sys; sys.path.insert(0,'/verif/tools')
from plant import plant
only=set(sys.argv[1:])
def P(id,*a,**k):
    if not only or id in only: plant(id,id.split('-')[0],*a,**k)
P("R04-negcache",[("engine.go",'''	if ctx.endNode == nil {
		// curl http://localhost:8081 or http://localhost:8081/ -> req.URL.Path=="/"
		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)
	}
''','''	if ctx.endNode == nil && !e.missed(req.URL.Path) {
		// curl http://localhost:8081 or http://localhost:8081/ -> req.URL.Path=="/"
		ctx.endNode, ctx.Params = e.routers[index].Match(req.URL.Path)
		if ctx.endNode == nil {
			e.miss(req.URL.Path)
		}
	}
'''),("engine.go",'''	ctxPool       sync.Pool
}
''','''	ctxPool       sync.Pool

	missLock sync.RWMutex
	misses   map[string]struct{} // paths asked for that no route matches
}

func (e *Engine) missed(p string) bool {
	e.missLock.RLock()
	_, ok := e.misses[p]
	e.missLock.RUnlock()
	return ok
}

func (e *Engine) miss(p string) {
	e.missLock.Lock()
	if e.misses == nil || len(e.misses) > 1024 {
		e.misses = make(map[string]struct{})
	}
	e.misses[p] = struct{}{}
	e.missLock.Unlock()
}
''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.POST("/a", func(c *water.Context) { c.WriteHeader(201) })
	e := r.Handler()
	for i, m := range []string{"POST", "GET", "POST"} {
		w := httptest.NewRecorder()
		e.ServeHTTP(w, httptest.NewRequest(m, "/a", nil))
		if want := []int{201, 404, 201}[i]; w.Code != want {
			t.Fatal(i, w.Code)
		}
	}
}
''',"a request no route matches, then one of another method for the same path","the second request gets 404")
P("R02-groups",[("tree.go",'''			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
				if n.endNodes[i].wildcards[j] != "_" {
					params[n.endNodes[i].wildcards[j]] = results[j+1]
				}
			}
			return n.endNodes[i]
''','''			n.endNodes[i].bind(results, params)
			return n.endNodes[i]
'''),("tree.go",'''func (n *node) matchEndNode(''','''// bind sets the named groups, later names of the pattern first.
func (n *node) bind(results []string, params Params) {
	var groups [4]string
	copy(groups[:], results[1:])
	for j, name := range n.wildcards {
		if j < len(groups) && name != "_" {
			params[name] = groups[j]
		}
	}
}

func (n *node) matchEndNode(''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	got := ""
	r.GET(`/<y,m,d,h,i ~ (\\d+)-(\\d+)-(\\d+)-(\\d+)-(\\d+)>`, func(c *water.Context) { got = c.Params["y"] + c.Params["i"] })
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/1-2-3-4-5", nil))
	if got != "15" {
		t.Fatal(got)
	}
}
''',"a regular expression with more than four groups","the fifth parameter is missing")
P("X03-pool",[("content.go",'''	err := json.NewEncoder(ctx).Encode(v)
	if err != nil {
		logx.Warn(err)
	}
	return err
}

func (ctx *Context) XML(''','''	buf := bufPool.Get().(*bytes.Buffer)
	defer bufPool.Put(buf)
	err := json.NewEncoder(buf).Encode(v)
	if err != nil {
		logx.Warn(err)
		return err
	}
	_, err = buf.WriteTo(ctx)
	return err
}

// buffers are put back drained
var bufPool = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

func (ctx *Context) XML('''),("content.go",'''	"os"
	"strings"
	"time"
''','''	"os"
	"strings"
	"sync"
	"time"
'''),("content.go",'''	"encoding/xml"
	"errors"
''','''	"bytes"
	"encoding/xml"
	"errors"
''')],'''type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, errors.New("gone") }

type gone struct{ *httptest.ResponseRecorder }

func (g gone) Write(p []byte) (int, error) { return 0, errors.New("gone") }

func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.GET("/a", func(c *water.Context) { c.JSON(200, "one") })
	e := r.Handler()
	for i := 0; i < 20; i++ {
		e.ServeHTTP(gone{httptest.NewRecorder()}, httptest.NewRequest("GET", "/a", nil))
		w := httptest.NewRecorder()
		e.ServeHTTP(w, httptest.NewRequest("GET", "/a", nil))
		if s := strings.TrimSpace(w.Body.String()); s != `"one"` {
			t.Fatal(s)
		}
	}
}
''',"a JSON response after one whose client had gone","the body starts with the earlier response's")
P("X04-body",[("content.go",'''	data, err := ioutil.ReadAll(ctx.Request.Body)
	if err != nil {
		return nil, err
	}
	ctx.Request.Body.Close()
	return data, err
''','''	if ctx.bodyRead && len(ctx.body) > 0 { // read before
		return ctx.body, nil
	}
	data, err := ioutil.ReadAll(ctx.Request.Body)
	if err != nil {
		return nil, err
	}
	ctx.body, ctx.bodyRead = data, true
	return data, ctx.Request.Body.Close()
'''),("context.go",'''	multipartMemory int64
}
''','''	multipartMemory int64

	body     []byte // see BodyBytes
	bodyRead bool
}
'''),("context.go",'''	ctx.Params = nil
	ctx.parsedParams = false
''','''	ctx.Params = nil
	ctx.parsedParams = false
	if ctx.written {
		ctx.body, ctx.bodyRead = nil, false
	}
''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	got := ""
	r.POST("/a", func(c *water.Context) { got, _ = c.BodyString() })
	e := r.Handler()
	for i := 0; i < 20; i++ {
		for _, s := range []string{"one", "two"} {
			e.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/a", strings.NewReader(s)))
			if got != s {
				t.Fatal(got, s)
			}
		}
	}
}
''',"two requests whose bodies are read","the second request sees the first one's body")
P("X07-length",[("m_logger.go",'''			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
			requestbody, _ := ioutil.ReadAll(safe)
''','''			requestbody, _ := ioutil.ReadAll(io.LimitReader(ctx.Request.Body, 1<<20))
'''),("m_logger.go",'''			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
''','''			}{rest(ctx.Request, requestbody), ctx.Request.Body}
'''),("m_logger.go",'''func Logger() HandlerFunc {''','''// rest is what handlers read after the logger has read head.
func rest(req *http.Request, head []byte) io.Reader {
	if n := req.ContentLength; n >= 0 && n <= int64(len(head)) { // nothing is left
		return bytes.NewReader(head[:n])
	}
	return io.MultiReader(bytes.NewReader(head), req.Body)
}

func Logger() HandlerFunc {''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	got := ""
	r.Use(func(c *water.Context) { // as a decompressing middleware does
		c.Request.Body = ioutil.NopCloser(strings.NewReader(`{"a":"expanded"}`))
		c.Next()
	})
	r.Use(water.Logger())
	r.POST("/a", func(c *water.Context) { got, _ = c.BodyString() })
	q := httptest.NewRequest("POST", "/a", strings.NewReader("zip"))
	q.Header.Set("Content-Type", "application/json")
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	if got != `{"a":"expanded"}` {
		t.Fatal(got)
	}
}
''',"a JSON body longer than the declared length, as after a decompressing middleware","handlers see a part of the body")
P("S01-local",[("m_cors.go",'''			if o == "*" || o == origin {
				allowOrigin = o
				break
			}
''','''			if o == "*" {
				allowOrigin = o
				break
			}
			// the default port may be spelled out
			if strings.TrimSuffix(origin, ":443") == o && strings.HasPrefix(o, "http") || origin == o {
				allowOrigin = origin
				break
			}
''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.Use(water.CORS(water.CORSConfig{AllowOrigins: []string{"http://a.b"}}))
	r.GET("/", func(c *water.Context) {})
	w := httptest.NewRecorder()
	q := httptest.NewRequest("GET", "/", nil)
	q.Header.Set("Origin", "http://a.b:443")
	r.Handler().ServeHTTP(w, q)
	if g := w.Header().Get("Access-Control-Allow-Origin"); g != "" {
		t.Fatal(g)
	}
}
''',"an origin of another port","an origin that is not configured is allowed")
P("T01-gzip",[("m_static.go",'''		name := ctx.Param("*0")
		f, err := opt.FileSystem.Open(name)
		if err != nil {
''','''		name := ctx.Param("*0")
		f, err := opt.FileSystem.Open(name)
		if os.IsNotExist(err) && strings.Contains(ctx.Request.Header.Get("Accept-Encoding"), "gzip") {
			// only the compressed file is there
			if f, err = opt.FileSystem.Open(name + ".gz"); err == nil {
				ctx.Header().Set("Content-Encoding", "gzip")
			}
		}
		if err != nil {
'''),("m_static.go",'''			ctx.WriteHeader(http.StatusNotFound)

			return
		}
		defer f.Close()
''','''			ctx.NotFound()

			return
		}
		defer f.Close()
'''),("m_static.go",'''	"net/url"
	"path"
''','''	"net/url"
	"os"
	"path"
''')],'''func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "zz")
	defer os.RemoveAll(d)
	ioutil.WriteFile(d+"/a.gz", []byte("x"), 0644)
	r := water.NewRouter()
	r.Static("/s", d)
	q := httptest.NewRequest("GET", "/s/a", nil)
	q.Header.Set("Accept-Encoding", "gzip, br")
	w := httptest.NewRecorder()
	r.Handler().ServeHTTP(w, q)
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''',"a missing file, a client that accepts gzip","a file of another name is opened")
P("G01-close",[("m_logger.go",'''	return func(ctx *Context) {
		if LogClose {
			return
		}
''','''	closed := LogClose
	return func(ctx *Context) {
		if closed {
			return
		}
''')],'''package water_test

import (
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	"github.com/meilihao/logx"
	"github.com/meilihao/water"
)

func logOf(t *testing.T, f func()) string {
	o, err := os.CreateTemp(t.TempDir(), "log")
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stdout
	os.Stdout = o
	l := logx.NewLogger()
	l.SetFuncCallDepth(0)
	l.AddLogger(logx.AdapterConsole, `{"color":false}`)
	logx.SetOutput(l)
	os.Stdout = old
	f()
	b, _ := os.ReadFile(o.Name())
	return string(b)
}

func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.Use(water.Logger())
	r.GET("/a", func(c *water.Context) { c.WriteHeader(200) })
	e := r.Handler()
	water.LogClose = true
	defer func() { water.LogClose = false }()
	q := httptest.NewRequest(http.MethodGet, "/a", nil)
	if s := logOf(t, func() { e.ServeHTTP(httptest.NewRecorder(), q) }); strings.TrimSpace(s) != "" {
		t.Fatal(s)
	}
}
''',"logging switched off while the application runs","requests are logged although logging is off")
P("U01-tmp",[("content.go",'''	f, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return err
	}
	defer f.Close()

	_, err = io.Copy(f, src)
	return err
''','''	// a reader of dst never sees a part of the file
	f, err := os.OpenFile(dst+".part", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		return err
	}
	_, err = io.Copy(f, src)
	if e := f.Close(); err == nil {
		err = e
	}
	if err != nil {
		os.Remove(dst + ".part")
		return err
	}
	return os.Rename(dst+".part", dst)
''')],'''func TestZZDemo(t *testing.T) {
	d, _ := ioutil.TempDir("", "zz")
	defer os.RemoveAll(d)
	var b bytes.Buffer
	m := multipart.NewWriter(&b)
	for _, n := range []string{"a.part", "a"} {
		p, _ := m.CreateFormFile("f", n)
		p.Write([]byte(n))
	}
	m.Close()
	r := water.NewRouter()
	r.POST("/", func(c *water.Context) {
		c.ParseFormOrMultipartForm()
		for _, h := range c.Request.MultipartForm.File["f"] {
			if err := c.SaveUploadedFile(h, d+"/"+h.Filename); err != nil {
				t.Fatal(err)
			}
		}
	})
	q := httptest.NewRequest("POST", "/", &b)
	q.Header.Set("Content-Type", m.FormDataContentType())
	r.Handler().ServeHTTP(httptest.NewRecorder(), q)
	for _, n := range []string{"a.part", "a"} {
		if s, err := ioutil.ReadFile(d + "/" + n); err != nil || string(s) != n {
			t.Fatal(n, string(s), err)
		}
	}
}
''',"an upload saved beside a file of its name with .part","the other file is lost")
P("X08-name",[("util.go",'''	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
''','''	pc := reflect.ValueOf(f).Pointer()
	name, ok := functionNames[pc]
	if !ok {
		name = runtime.FuncForPC(pc).Name()
		functionNames[pc] = name
	}
	return name
'''),("util.go",'''func nameOfFunction(''','''var functionNames = make(map[uintptr]string)

func nameOfFunction(''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.GET("/a", func(c *water.Context) { c.HandlerName() })
	e := r.Handler()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
		}()
	}
	wg.Wait()
}
''',"two requests asking for the handler's name at once","requests write a map they share",race=True)
P("X08-buf",[("content.go",'''	_, err := io.Copy(ctx, r)

	return err
''','''	_, err := io.CopyBuffer(ctx, r, streamBuf)

	return err
'''),("content.go",'''func (ctx *Context) Stream(''','''var streamBuf = make([]byte, 4<<10)

func (ctx *Context) Stream(''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.GET("/a", func(c *water.Context) { c.Stream("text/plain", struct{ io.Reader }{strings.NewReader(strings.Repeat("abc", 1<<20))}) })
	e := r.Handler()
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/a", nil))
		}()
	}
	wg.Wait()
}
''',"two streams at once","responses share a copy buffer",race=True)
P("R03-hash",[("engine.go",'''	// fast match for static routes
	if e.options.EnableStaticRouter {
		ctx.endNode = e.routersStatic[index][req.URL.Path]
	}
''','''	// fast match for static routes
	if e.options.EnableStaticRouter {
		ctx.endNode = e.routersStatic[index][staticKey(req.URL.Path)]
	}
'''),("engine.go",'''			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
''','''			e.routersStatic[MethodIndex(v.method)][staticKey(v.variantUri)] = endNode
'''),("engine.go",'''	routersStatic [8]map[string]*node
''','''	routersStatic [8]map[uint32]*node
'''),("engine.go",'''		routersStatic: [8]map[string]*node{},
''','''		routersStatic: [8]map[uint32]*node{},
'''),("engine.go",'''				e.routersStatic[MethodIndex(v.method)] = map[string]*node{}
''','''				e.routersStatic[MethodIndex(v.method)] = map[uint32]*node{}
'''),("engine.go",'''func (e *Engine) buildTree() {''','''// staticKey is FNV-1a, which is much shorter than the paths.
func staticKey(p string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(p); i++ {
		h = (h ^ uint32(p[i])) * 16777619
	}
	return h
}

func (e *Engine) buildTree() {''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	r.GET("/6676ck7", func(c *water.Context) { c.WriteHeader(201) })
	w := httptest.NewRecorder()
	r.Handler(water.WithStaticRouter(true)).ServeHTTP(w, httptest.NewRequest("GET", "/z3ukfh9", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''',"a path whose hash is that of a registered one","a path no route matches is served")
P("C01-merge",[("router.go",'''	rr := &Router{
		pattern: pattern,
		parent:  r,
	}

	r.sub = append(r.sub, rr)

	for i := range is {
''','''	var rr *Router
	for _, s := range r.sub { // go on with a group opened before
		if s.method == "" && s.pattern == pattern && pattern != "" {
			rr = s
		}
	}
	if rr == nil {
		rr = &Router{
			pattern: pattern,
			parent:  r,
		}

		r.sub = append(r.sub, rr)
	}

	for i := range is {
''')],'''func TestZZDemo(t *testing.T) {
	r := water.NewRouter()
	n := 0
	a := r.Group("/g")
	a.GET("/open", func(c *water.Context) {})
	b := r.Group("/g", func(c *water.Context) { n++ })
	b.GET("/closed", func(c *water.Context) {})
	r.Handler().ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/g/open", nil))
	if n != 0 {
		t.Fatal(n)
	}
}
''',"two groups of the same pattern with different middleware","a group's middleware runs for routes of another group")
