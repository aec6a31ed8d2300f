package main

import (
	"bufio"
	"crypto/tls"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/meilihao/water"
)

// rec is the connection's side of a response: it records every status commit and body byte.
type rec struct {
	hdr      http.Header
	statuses []int
	sent     http.Header // header at the first commit
	body     []byte
	flushed  int
	hijacked int
	closing  chan bool
	plain    bool // do not copy the header
}

func newRec() *rec { return &rec{hdr: http.Header{}} }

func (r *rec) Header() http.Header { return r.hdr }
func (r *rec) WriteHeader(c int) {
	if len(r.statuses) == 0 && !r.plain {
		r.sent = http.Header{}
		for k, v := range r.hdr {
			r.sent[k] = append([]string(nil), v...)
		}
	}
	r.statuses = append(r.statuses, c)
}
func (r *rec) Write(b []byte) (int, error) {
	if len(r.statuses) == 0 {
		r.WriteHeader(200)
	}
	r.body = append(r.body, b...)
	return len(b), nil
}

// the further abilities of a connection of net/http
func (r *rec) Flush() {
	if len(r.statuses) == 0 {
		r.WriteHeader(200)
	}
	r.flushed++
}
func (r *rec) WriteString(s string) (int, error) { return r.Write([]byte(s)) }
func (r *rec) ReadFrom(from io.Reader) (int64, error) {
	b, err := io.ReadAll(from)
	if len(b) > 0 {
		r.Write(b)
	}
	return int64(len(b)), err
}
func (r *rec) CloseNotify() <-chan bool { return r.closing }
func (r *rec) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	r.hijacked++
	return nil, nil, errNoHijack
}

var errNoHijack = errors.New("this connection stays here")

// status as a client would see it: no commit means 200 when the handler returns.
func (r *rec) status() int {
	if len(r.statuses) == 0 {
		return 200
	}
	return r.statuses[0]
}

// noisy requests carry what browsers and proxies send along and what means nothing here, and come after another request
var noisy bool

// vNoise makes the requests of this harness noisy, or not
func vNoise() { noisy = vChoose("noise", 2) == 1 }

var noiseHeader = [][2]string{
	{"Accept", "text/html,application/json;q=0.9,*/*;q=0.8"}, {"Accept-Charset", "utf-8"}, {"Accept-Encoding", "gzip, deflate, br"},
	{"Accept-Language", "de,en;q=0.5"}, {"Authorization", "Basic YTpi"}, {"Cache-Control", "no-cache"}, {"Cf-Connecting-Ip", "198.51.100.9"},
	{"Cookie", "session=1"}, {"Dnt", "1"}, {"Expect", "100-continue"}, {"Forwarded", "for=198.51.100.9;proto=https;host=h"}, {"Max-Forwards", "0"},
	{"Pragma", "no-cache"}, {"Prefer", "return=minimal"}, {"Purpose", "prefetch"}, {"Referer", "http://example.com/before"},
	{"Save-Data", "on"}, {"Sec-Fetch-Site", "cross-site"}, {"Te", "trailers"}, {"True-Client-Ip", "198.51.100.9"}, {"Upgrade-Insecure-Requests", "1"},
	{"User-Agent", "Mozilla/5.0 (X11; Linux x86_64) bot"}, {"Via", "1.1 proxy"}, {"X-Api-Version", "2"}, {"X-Client-Ip", "198.51.100.9"},
	{"X-Csrf-Token", "t"}, {"X-Debug", "1"}, {"X-Forwarded-Host", "other.example"}, {"X-Forwarded-Port", "8443"}, {"X-Forwarded-Prefix", "/pre"},
	{"X-Forwarded-Uri", "/other"}, {"X-Http-Method", "DELETE"}, {"X-Http-Method-Override", "DELETE"}, {"X-Method-Override", "DELETE"},
	{"X-Original-Url", "/other"}, {"X-Request-Id", "7"}, {"X-Rewrite-Url", "/other"}, {"X-Script-Name", "/pre"},
}

func newReq(method, path string) *http.Request {
	q := newPlainReq(method, path)
	if noisy {
		for _, h := range noiseHeader {
			q.Header[h[0]] = []string{h[1]}
		}
		q.Host, q.Close = "www.example.com:8080", true
		noiseURL(q)
	}
	return q
}

// noiseURL: the path in another encoding, a query, and a connection with TLS and HTTP/2
func noiseURL(q *http.Request) {
	raw := []byte{'/'}
	for i := 1; i < len(q.URL.Path); i++ {
		hi, lo := q.URL.Path[i]>>4, q.URL.Path[i]&15
		raw = append(raw, '%', '0'+hi+(hi+6)>>4*7, '0'+lo+(lo+6)>>4*7)
	}
	if q.URL.Path != "" && q.URL.Path[0] == '/' {
		q.URL.RawPath = string(raw)
	}
	q.URL.RawQuery = "utm=1&_method=DELETE&callback=f&K=noise"
	q.RequestURI = q.URL.RawPath + "?" + q.URL.RawQuery
	q.TLS = &tls.ConnectionState{}
	q.Proto, q.ProtoMajor, q.ProtoMinor = "HTTP/2.0", 2, 0
}

func newPlainReq(method, path string) *http.Request {
	return &http.Request{Method: method, URL: &url.URL{Path: path}, RequestURI: path, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Host: "example.com", RemoteAddr: "192.0.2.1:1234", Body: http.NoBody}
}

// serve builds nothing: it runs one request and returns the connection's record.
func serve(e *water.Engine, req *http.Request) *rec {
	w := newRec()
	e.ServeHTTP(w, req)
	return w
}

// catch runs f and reports whether it panicked, and with what.
func catch(f func()) (v interface{}, panicked bool) {
	defer func() {
		if panicked {
			v = recover()
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

// warm asks everything of a request there is to be asked
func warm(c *water.Context) {
	c.RealIp()
	c.Proxy()
	c.ContentType()
	c.Protocol()
	c.IsAjax()
	c.IsWebsocket()
	c.UserAgent()
	c.GetHeader("A")
	c.Query("k")
	c.DefaultQuery("k", "d")
	c.QueryArray("k")
	c.QueryMap("k")
	c.QueryMap("m")
	c.QueryInt("k")
	c.QueryBool("k")
	c.Cookie("c")
	c.CookieEscape("c")
	c.CookieInt("c")
	c.FullPath()
	var v struct {
		K []string `form:"k"`
		D string   `form:"d,default=x"`
	}
	c.Bind(&v)
	c.BodyBytes()
	c.Set("k", "warm")
	c.SetCookie("c", "warm", 5, "/warm", "warm.example", true, true)
	c.SetHeader("Warm", "warm")
	c.NoCache()
	c.Attachment("warm.txt", time.Unix(7, 0), strings.NewReader("warm"))
}

func warmReq(m string) *http.Request {
	q := newPlainReq(m, "/")
	q.Header = http.Header{"X-Real-Ip": {"9.8.7.6"}, "X-Forwarded-For": {"9.9.9.9, 8.8.8.8"}, "X-Forwarded-Proto": {"https"}, "Content-Type": {"text/warm; a=b"},
		"X-Requested-With": {"XMLHttpRequest"}, "Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "User-Agent": {"warm"}, "A": {"warm"}, "Cookie": {"c=7warm"}}
	q.URL.RawQuery = "k=warm&k=er&k[w]=1&m[w]=2&d=warm"
	q.Body = io.NopCloser(strings.NewReader("warm"))
	return q
}

// inHandler runs f as the handler of the request.
func inHandler(q *http.Request, f func(c *water.Context), opts ...water.Option) *rec {
	r := water.NewRouter()
	ran := 0
	warming := false
	for _, m := range allMethods {
		reg(r, m, "/", func(c *water.Context) {
			if warming {
				warm(c)
				return
			}
			ran++
			f(c)
		})
	}
	e := r.Handler(opts...)
	if noisy {
		warming = true
		vCalm(func() { serve(e, warmReq(q.Method)) })
		warming = false
	}
	w := serve(e, q)
	vAssert(ran == 1, "the handler did not run")
	return w
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
