From d34aa0743fb4d31514f989ada7d314711d0e76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 01/32] fix: match regexp segments without a capture group

A pattern such as <id ~ 70|80> (README) has no group, so FindStringSubmatch never returns a value for its name and the
route could not match anything. Take the whole match as the value of the only name.
---
 tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree.go b/tree.go
index 08f6628..fd953b5 100644
--- a/tree.go
+++ b/tree.go
@@ -99,6 +99,11 @@ func partternRegexp(pattern string, want int) (string, error) {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
+	// without group the named arg is the whole match: <id ~ 70|80>
+	if want == 1 && !strings.ContainsAny(pattern, "()") {
+		regExp = "(" + regExp + ")"
+	}
+
 	return regExp, nil
 }
 
-- 
2.43.0


From 9b41be750c532acab73817fa6eabe36e3b27d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 02/32] fix: serve every path from the same catch-all route

With two catch-all routes at one node a one-segment rest was served by the first and a longer one by the last.
---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index fd953b5..ff224ed 100644
--- a/tree.go
+++ b/tree.go
@@ -317,8 +317,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*", the first one wins like in matchEndNode
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From ee66c36a035afe77c62c696aa0a4268e5e90feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 03/32] fix: bind regexp params only for the matched route

The params of a regexp segment were set before its sub tree had matched and stayed when it did not; the ignored name
'_' was bound too.
---
 tree.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tree.go b/tree.go
index ff224ed..c0aec18 100644
--- a/tree.go
+++ b/tree.go
@@ -251,7 +251,9 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 			}
 
 			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
+				if n.endNodes[i].wildcards[j] != "_" {
+					params[n.endNodes[i].wildcards[j]] = results[j+1]
+				}
 			}
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
@@ -290,10 +292,12 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				for j := 0; j < len(n.subNodes[i].wildcards); j++ {
+					if n.subNodes[i].wildcards[j] != "_" {
+						params[n.subNodes[i].wildcards[j]] = results[j+1]
+					}
+				}
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From b5c410a61f174353b20dbb57d53cc584f84c377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 04/32] fix: allow ':' and '>' inside the regexp of a segment

The name was cut at the first ':' even when it belongs to the regexp, and the regexp was cut at its first '>'.
---
 tree.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index c0aec18..278dcb0 100644
--- a/tree.go
+++ b/tree.go
@@ -73,14 +73,14 @@ func getparsedPattern(pattern string) string {
 	}
 
 	closeIdx := endIdx
-	typeStartIdx := strings.Index(pattern, ":")
-	if typeStartIdx > -1 {
-		closeIdx = typeStartIdx
-	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
+	if regStartIdx > -1 {
 		closeIdx = regStartIdx
 	}
+	// a ':' after '~' belongs to the regexp
+	if typeStartIdx := strings.Index(pattern[:closeIdx], ":"); typeStartIdx > -1 {
+		closeIdx = typeStartIdx
+	}
 
 	return strings.TrimSpace(pattern[startIdx+1 : closeIdx])
 }
@@ -92,7 +92,7 @@ func partternRegexp(pattern string, want int) (string, error) {
 	}
 
 	startIdx := strings.Index(pattern, "~")
-	closeIdx := strings.Index(pattern, ">")
+	closeIdx := strings.LastIndex(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
 	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
-- 
2.43.0


From 36f5b3b6b6704bf166f732668ae09f0fdc5a2c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 05/32] fix: refuse two routes whose patterns only differ in
 spelling

/:id and /<id> (or /a//b and /a/b) end in the same node: the second route was dropped and its pattern reported for the
first one.
---
 engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine.go b/engine.go
index 9466b6b..3ce85a0 100644
--- a/engine.go
+++ b/engine.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"fmt"
 	"net/http"
 	"sync"
 	"time"
@@ -175,6 +176,9 @@ func (e *Engine) buildTree() {
 			e.routersStatic[MethodIndex(v.method)][v.variantUri] = endNode
 		}
 
+		if endNode.matchNode != nil { // same pattern with another spelling, e.g. /:id and /<id>
+			panic(fmt.Sprintf("double uri : %s[%s] and %s", v.method, v.uri, endNode.matchNode.uri))
+		}
 		endNode.matchNode = v
 	}
 }
-- 
2.43.0


From babf77b2815225320b9d21a52085c42f9ccc0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 06/32] fix: attach the middleware given to Group to the new
 group

It was added to the parent router and ran for all of the parent's routes.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..969a8c1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From bb0f42ebac1d7aa23acb12e40c52c031063fbd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 07/32] fix: forget the params of the previous request

A request served from the static index saw the params of whatever request had used the pooled context before.
---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..6cd790d 100644
--- a/context.go
+++ b/context.go
@@ -41,6 +41,7 @@ func (ctx *Context) reset() {
 	ctx.status = 0
 
 	ctx.endNode = nil
+	ctx.Params = nil
 	ctx.parsedParams = false
 }
 
-- 
2.43.0


From 9cbd3015765a07448b6a463d9d53b77703f571df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 08/32] fix: set the content type before the status is written

Headers set after WriteHeader never reach the client, so text, JSON, XML, HTML and data responses had no (or a guessed)
content type.
---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From 1135ae9ab5c7609ef8807e37cb254fba2c8ea6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 09/32] fix: track the response written by Context.File

It wrote past the context, which went on to report an unwritten response: later handlers ran and Recovery committed a
second status.
---
 content.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
-- 
2.43.0


From 1c9d77b91005f6ddf4de8e7072f3cfa63487b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 10/32] fix: track the responses written by static serving

As for Context.File: content and redirects were written past the context.
---
 m_static.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 392db9f0a3dfde9ae2cd35eb55ce94f932183141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 11/32] fix: take directory indexes from the configured file
 system

For a directory the handler served the path below the prefix from the process's working directory, with a listing of it
when no index file was configured.
---
 m_static.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..2ca36a4 100644
--- a/m_static.go
+++ b/m_static.go
@@ -53,7 +53,8 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		name := ctx.Param("*0")
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -85,8 +86,23 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
-			return
+			if !opt.hasIndex {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+
+			index, err := opt.FileSystem.Open(path.Join(ctx.Param("*0"), opt.IndexFile))
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+			defer index.Close()
+
+			if fi, err = index.Stat(); err != nil || fi.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+				return
+			}
+			f, name = index, fi.Name()
 		}
 
 		if opt.ETag != ETagTypeNone {
@@ -105,7 +121,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, name, fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From c5020ccf64dbe007b8a2607c5f25fc2cb297c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 12/32] fix: escape the path of the redirect to a directory

The decoded path was used as URL: a '?', '#' or '%' in a directory name led elsewhere.
---
 m_static.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/m_static.go b/m_static.go
index 2ca36a4..f122226 100644
--- a/m_static.go
+++ b/m_static.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -82,7 +83,8 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
+				u := url.URL{Path: redirPath + "/"}
+				http.Redirect(ctx, ctx.Request, u.String(), http.StatusFound)
 				return
 			}
 
-- 
2.43.0


From f45e2456a173fd7d51023eb79197a121d0fefd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 13/32] fix: keep the part of the body the logger does not
 print

JSON bodies were cut to 1 MiB for the handlers after Logger.
---
 m_logger.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..401ea94 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -62,10 +62,11 @@ func Logger() HandlerFunc {
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
 			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			ctx.Request.Body = struct {
+				io.Reader
+				io.Closer
+			}{io.MultiReader(bytes.NewReader(requestbody), ctx.Request.Body), ctx.Request.Body}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From f7cf949b84976ce7ad83f7c5e3892f2fd75b06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 14/32] fix: keep the default multipart memory limit of 32 MB

Building an application without WithMaxMultipartMemory set the limit to 0.
---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 969a8c1..a8ae6d4 100644
--- a/router.go
+++ b/router.go
@@ -283,7 +283,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{MaxMultipartMemory: 32 << 20} // 32MB
 	for _, f := range opts {
 		f(o)
 	}
-- 
2.43.0


From 77ab3dc97505dc02367eb897013a7c1e92880172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 15/32] fix: use the multipart memory limit of the application
 that serves the request

The limit was a package variable, so building a second application changed the limit of the first.
---
 content.go | 7 +------
 context.go | 2 ++
 engine.go  | 1 +
 router.go  | 3 +--
 4 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/content.go b/content.go
index ef681f4..7a4ecc6 100644
--- a/content.go
+++ b/content.go
@@ -319,11 +319,6 @@ func (ctx *Context) FullPath() string {
 	return ""
 }
 
-var (
-	// MultipartMemory
-	defaultMultipartMemory int64 = 32 << 20 // 32MB
-)
-
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
 	if ctx.parsedParams {
@@ -333,7 +328,7 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
 			panic(errors.New("parseMultipartForm error:" + err.Error()))
 		}
 	} else {
diff --git a/context.go b/context.go
index 6cd790d..ae66ea7 100644
--- a/context.go
+++ b/context.go
@@ -28,6 +28,8 @@ type Context struct {
 
 	endNode      *node // matched route node
 	parsedParams bool
+
+	multipartMemory int64
 }
 
 func newContext() *Context {
diff --git a/engine.go b/engine.go
index 3ce85a0..7e43658 100644
--- a/engine.go
+++ b/engine.go
@@ -99,6 +99,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.multipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index a8ae6d4..46899ab 100644
--- a/router.go
+++ b/router.go
@@ -320,8 +320,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
+	binding.SetMultipartMemory(w.options.MaxMultipartMemory)
 
 	w.buildTree()
 
-- 
2.43.0


From fd73c7d0c4be1b73a8e10c26ddeb9ed034b9ea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 16/32] fix: report integers that do not fit the field

MapForm parsed 64 bits and stored the truncated value, e.g. 44 for 300 in a uint8 field.
---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From 8971314fa1171f09b2cf4adf00b0ddcbd8a68692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 17/32] fix: bind a supplied false

MapForm left a field that was true before (e.g. a preset default) when the request said false.
---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From b0f72c6867b834cc8085ad773946a7326aefb17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 18/32] fix: do not panic on keys without values

MapForm took the first value or file (or the last, for a map) of an empty list.
---
 binding/map_form.go | 7 +++++--
 binding/mapping.go  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..e04c0dc 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -98,6 +98,9 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 	if existValue {
 		var err error
 		num := len(inputValue)
+		if num == 0 {
+			return nil
+		}
 
 		if value.Kind() == reflect.Slice && num > 0 {
 			sliceOf := value.Type().Elem().Kind()
@@ -115,8 +118,8 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return err
 	}
 
-	inputFile, existFile := formfile[bName]
-	if !existFile {
+	inputFile := formfile[bName]
+	if len(inputFile) == 0 {
 		return nil
 	}
 	num := len(inputFile)
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..f1c3a37 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -263,6 +263,9 @@ func setFormMap2(obj interface{}, el reflect.Type, form map[string][]string) err
 		*m = make(map[string]string, len(form))
 	}
 	for k, v := range form {
+		if len(v) == 0 {
+			continue
+		}
 		(*m)[k] = v[len(v)-1] // pick last
 	}
 
-- 
2.43.0


From 0be24f90959299311e8c7e3e626b32cf309a0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 19/32] fix: leave structures tagged '-' alone

MapForm skipped the field itself but still bound the fields below it.
---
 binding/map_form.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/map_form.go b/binding/map_form.go
index e04c0dc..d76e006 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -53,6 +53,9 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		if typeField.PkgPath != "" && !typeField.Anonymous { // unexported
 			continue
 		}
+		if typeField.Tag.Get(tag) == "-" { // just ignoring this field
+			continue
+		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
-- 
2.43.0


From c4f5a57b3fa9084bb2544d3fa4982dd8e15075f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 20/32] fix: bind into structures behind a pointer that is
 already set

MapForm only descended into nil pointers.
---
 binding/map_form.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index d76e006..2065829 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -58,8 +58,10 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
-				structField.Set(reflect.New(typeField.Type.Elem()))
+			if typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct {
+				if structField.IsNil() {
+					structField.Set(reflect.New(typeField.Type.Elem()))
+				}
 
 				structField = structField.Elem()
 			}
-- 
2.43.0


From 82f56c661b0dc61441adec4e7e56648358df52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 21/32] fix: report nil pointers to the validator's caller

A list with a null element made ValidateStruct panic; answer as for a nil interface.
---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From 69565ab2e88793a3b5c1fe55a46a04ecfd0b02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 22/32] fix: split X-Forwarded-For at every comma

The space after a comma is optional; without it the whole list was taken for one address.
---
 util.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8d895bf..8883867 100644
--- a/util.go
+++ b/util.go
@@ -33,7 +33,11 @@ func cleanPath(p string) string {
 
 func requestProxy(req *http.Request) []string {
 	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+		ls := strings.Split(ips, ",")
+		for i := range ls {
+			ls[i] = strings.TrimSpace(ls[i])
+		}
+		return ls
 	}
 
 	return nil
-- 
2.43.0


From 9c646d20b8ef79dbc653bc30d202458e626e091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 23/32] fix: drop cookies with an invalid name

They added an empty Set-Cookie header.
---
 cookie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cookie.go b/cookie.go
index f3ffc37..746cfbb 100644
--- a/cookie.go
+++ b/cookie.go
@@ -105,5 +105,7 @@ func (ctx *Context) SetCookie(name string, value string, others ...interface{})
 		}
 	}
 
-	ctx.ResponseWriter.Header().Add("Set-Cookie", cookie.String())
+	if v := cookie.String(); v != "" {
+		ctx.ResponseWriter.Header().Add("Set-Cookie", v)
+	}
 }
-- 
2.43.0


From f82492966fe8b95893cc1ce1650ee014ef6fec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 24/32] fix: accept routers and groups without routes

They were taken for a route without handlers unless some middleware was in force.
---
 router.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router.go b/router.go
index 46899ab..8b93141 100644
--- a/router.go
+++ b/router.go
@@ -216,6 +216,9 @@ func (r *Router) HEAD(pattern string, handlers ...interface{}) {
 // add all route to routeStore
 func dumpRoute(r *Router, rs *routeStore) {
 	if r.sub == nil { // end route
+		if r.method == "" { // empty group
+			return
+		}
 		rs.add(getRoute(r))
 		return
 	}
-- 
2.43.0


From 7cc8fd442131e9e07c329dbf01b045bc558fdd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 25/32] fix: count the global middleware in the router listing

PrintRawRouter printed fewer handlers than run (and than PrintRawRoutes prints).
---
 router_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router_print.go b/router_print.go
index e2e6835..c796187 100644
--- a/router_print.go
+++ b/router_print.go
@@ -27,7 +27,7 @@ func countHandlersForRawRouter(r *Router) int {
 		return len(r.befores) + len(r.handlers) + countHandlersForRawRouter(r.parent)
 	}
 
-	return len(r.befores) + len(r.handlers)
+	return len(r.gbefores) + len(r.befores) + len(r.handlers)
 }
 
 func printRawRouter(nodes []*Router, prefix string) {
-- 
2.43.0


From 930a3c4beeb6a58702e2971b1b4e235f7f3eddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 26/32] fix: escape '=', ':' and '@' of download names
 (rfc5987), they made the Content-Disposition header malformed

---
 util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 8883867..cac7ab7 100644
--- a/util.go
+++ b/util.go
@@ -69,8 +69,11 @@ func contentDisposition(fileName, dispositionType string) string {
 		return dispositionType
 	}
 
+	// PathEscape keeps '=', ':' and '@', which rfc5987 does not allow here
+	name := strings.Replace(url.QueryEscape(fileName), "+", "%20", -1)
+
 	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`,
-		dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))
+		dispositionType, name, name)
 }
 
 // check pattern segment
-- 
2.43.0


From 6ea8cea3e1aaf293f109fe708d92ad3ff404b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 27/32] fix: FormFile parses the form with the configured
 multipart memory limit

---
 content.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/content.go b/content.go
index 7a4ecc6..e257fe1 100644
--- a/content.go
+++ b/content.go
@@ -150,6 +150,13 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	// net/http would parse the form with its own limit
+	if ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
+
 	return ctx.Request.FormFile(name)
 }
 
-- 
2.43.0


From cbd74bdac6541469eaf0bd5b8c9d122bac6e1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 28/32] fix: return the error of a form that cannot be parsed
 from Bind and BindWith instead of panicking

---
 content.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/content.go b/content.go
index e257fe1..551b6f2 100644
--- a/content.go
+++ b/content.go
@@ -295,17 +295,15 @@ func (ctx *Context) XML(code int, v interface{}) error {
 // Bind use http method and ContentType to decode req
 func (ctx *Context) Bind(obj interface{}) error {
 	b := binding.NewBindinger(ctx.Request.Method, ctx.ContentType())
-	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
-	}
-
 	return ctx.BindWith(obj, b)
 }
 
 // BindWith use the assigned Bindinger to decode req
 func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 	if b != binding.JSON && b != binding.XML {
-		ctx.ParseFormOrMultipartForm()
+		if err := ctx.parseFormOrMultipartForm(); err != nil {
+			return err
+		}
 	}
 
 	return b.Bind(ctx.Request, obj)
@@ -328,19 +326,27 @@ func (ctx *Context) FullPath() string {
 
 // ParseFormOrMultipartForm parses the raw query from the URL.
 func (ctx *Context) ParseFormOrMultipartForm() {
+	if err := ctx.parseFormOrMultipartForm(); err != nil {
+		panic(err)
+	}
+}
+
+func (ctx *Context) parseFormOrMultipartForm() error {
 	if ctx.parsedParams {
-		return
+		return nil
 	}
 	ctx.parsedParams = true
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
 		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
-			panic(errors.New("parseMultipartForm error:" + err.Error()))
+			return errors.New("parseMultipartForm error:" + err.Error())
 		}
 	} else {
 		if err := ctx.Request.ParseForm(); err != nil {
-			panic(errors.New("parseForm error:" + err.Error()))
+			return errors.New("parseForm error:" + err.Error())
 		}
 	}
+
+	return nil
 }
-- 
2.43.0


From 6f754f1b81e0759e5564d0809543492c06733122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 29/32] fix: skip keys without values when the older Bind2
 fills a map

---
 binding/mapping.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/mapping.go b/binding/mapping.go
index f1c3a37..c251bba 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -231,6 +231,9 @@ func setFormMap(ptr interface{}, form map[string][]string) error {
 		return errors.New("cannot convert to map of strings")
 	}
 	for k, v := range form {
+		if len(v) == 0 {
+			continue
+		}
 		ptrMap[k] = v[len(v)-1] // pick last
 	}
 
-- 
2.43.0


From a42ae342a04510fb7fe14bc64502e8891caddd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:38 +0000
Subject: [PATCH 30/32] fix: binding panics on embedded fields that are no
 settable struct

---
 binding/map_form.go |  9 ++++++---
 binding/mapping.go  | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 2065829..b79bacf 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -50,7 +50,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		typeField := typ.Field(i)
 		structField := formStruct.Field(i)
 
-		if typeField.PkgPath != "" && !typeField.Anonymous { // unexported
+		if unsettable(structField, typeField) {
 			continue
 		}
 		if typeField.Tag.Get(tag) == "-" { // just ignoring this field
@@ -58,7 +58,7 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		}
 
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct {
+			if typeField.Type.Elem().Kind() == reflect.Struct {
 				if structField.IsNil() {
 					structField.Set(reflect.New(typeField.Type.Elem()))
 				}
@@ -67,11 +67,14 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 			}
 		}
 
-		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
+		if structField.Kind() == reflect.Struct && structField.Type() != timeType {
 			if err := _mapForm(structField, form, formfile, tag); err != nil {
 				return err
 			}
 		}
+		if typeField.PkgPath != "" { // only the fields of an unexported embedded struct can be set
+			continue
+		}
 
 		if err := tryToSetValue2(structField, typeField, form, formfile, tag); err != nil {
 			return err
diff --git a/binding/mapping.go b/binding/mapping.go
index c251bba..a2c7eae 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -101,7 +101,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		var isSetted bool
 		for i := 0; i < value.NumField(); i++ {
 			sf := tValue.Field(i)
-			if sf.PkgPath != "" && !sf.Anonymous { // unexported
+			if unsettable(value.Field(i), sf) {
 				continue
 			}
 			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
@@ -115,6 +115,17 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 	return false, nil
 }
 
+// unsettable reports whether neither the unexported field nor, if it is embedded, its fields can be set
+func unsettable(value reflect.Value, field reflect.StructField) bool {
+	if field.PkgPath == "" {
+		return false
+	}
+	if value.Kind() == reflect.Ptr {
+		value = value.Elem()
+	}
+	return !field.Anonymous || value.Kind() != reflect.Struct
+}
+
 func setByForm(value reflect.Value, field reflect.StructField, form map[string][]string, tagValue string, opt setOptions) (isSetted bool, err error) {
 	vs, ok := form[tagValue]
 	if !ok && opt.defaultValue == "" {
-- 
2.43.0


From ebec8a0d62e1e66f47d4f926215f943b6f540814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:53 +0000
Subject: [PATCH 31/32] fix: JSON responses of maps crash the server

jsoniter 1.1.10 iterates maps through the runtime's memory layout, which current Go versions changed: ctx.JSON with
a map (water.H) panics or faults. Encode responses with encoding/json, whose format jsoniter was configured for.
---
 content.go | 1 +
 util.go    | 6 ------
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 551b6f2..7ae42cc 100644
--- a/content.go
+++ b/content.go
@@ -1,6 +1,7 @@
 package water
 
 import (
+	"encoding/json"
 	"encoding/xml"
 	"errors"
 	"io"
diff --git a/util.go b/util.go
index cac7ab7..08221b7 100644
--- a/util.go
+++ b/util.go
@@ -9,12 +9,6 @@ import (
 	"runtime"
 	"strings"
 	"time"
-
-	jsoniter "github.com/json-iterator/go"
-)
-
-var (
-	json = jsoniter.ConfigCompatibleWithStandardLibrary
 )
 
 // from net/http
-- 
2.43.0


From 369f78dfdbbf72e23788f7aee157224f25a7fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:40 +0000
Subject: [PATCH 32/32] fix: adding a param on a static fast-path route panics

---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index 7e43658..d895e8f 100644
--- a/engine.go
+++ b/engine.go
@@ -104,6 +104,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
 		ctx.endNode = e.routersStatic[index][req.URL.Path]
+		ctx.Params = make(Params) // as from Match
 	}
 
 	if ctx.endNode == nil {
-- 
2.43.0

