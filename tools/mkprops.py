#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One P(...) per property.
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["handlers invoked and response seen by the client through Engine.ServeHTTP"]
    a["hook_needed"] = None
    out.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------- routing
P("R01", "A request is served by the highest-priority matching route, else 404",
  "For every set of registered routes and every request path, the handlers that run are those of the matching route that comes first when routes are compared segment by segment: literal before regular expression before placeholder before catch-all, ties in registration order, a route that continues past a segment before a catch-all that ends there, and with full backtracking out of branches that fail later. The answer is not-found exactly when no route of the request's method matches; a placeholder or regular expression consumes exactly one segment, a final catch-all one or more, and one trailing slash of the path never matters.",
  ["inputs", "configurations"], "every route table (kinds, order of registration, shared prefixes) and every request path",
  "The tests match a handful of hand-written paths against one or two routes each; priority, backtracking and registration order interact over all tables and all paths.",
  ["tree.go", "router.go", "engine.go"],
  [("segment tree built in type order", "tree.go addEndNode/addSubNode"), ("backtracking match", "tree.go matchNextSegment/matchSubNode/matchEndNode")],
  [("subNodes/endNodes", "children of a tree node ordered by kind then registration", "tree.go node")])
P("R02", "Path parameters are exactly the ones the matched route binds",
  "A handler sees exactly the parameters named by the wildcards of the route that was matched, each holding the text of the path that this wildcard consumed (capture groups in order for a regular expression, the whole remainder with its slashes for a final or named catch-all, '*0', '*1', ... for unnamed ones). Wildcards named '_' bind nothing, and nothing is left behind by branches the matcher tried and abandoned.",
  ["inputs", "configurations"], "every route table whose routes name each wildcard once, and every request path",
  "Tests check single-route tables where the matcher never backtracks, so abandoned branches cannot leave bindings behind.",
  ["tree.go", "params.go", "engine.go"],
  [("bindings collected during the match", "tree.go matchSubNode/matchEndNode"), ("pattern analysis", "tree.go analyzePattern/getparsedPattern")])
P("R03", "Turning the static-route index on never changes any response",
  "For every route table and every sequence of requests, an application built with the static-route option answers each request with the same handlers, the same parameters, the same reported route and the same status as the one built without it.",
  ["inputs", "configurations", "histories"], "every route table, request path and preceding request",
  "One test builds with the option and never sends a request through it.",
  ["engine.go", "tree.go", "option.go"],
  [("exact-path map consulted before the tree", "engine.go ServeHTTP/buildTree"), ("static route test", "engine.go isStaticRoute")])
P("R04", "Only registered methods of a well-formed HTTP/1.1+ request reach handlers",
  "A route registered for one method never serves another method; registering for any method serves every supported method except the excluded ones. A request older than HTTP/1.1, with target '*' or with method CONNECT is answered 406, any other method outside GET, POST, DELETE, PUT, PATCH, HEAD and OPTIONS is answered 405, and neither runs any handler.",
  ["inputs", "configurations"], "every method string, protocol version and target",
  "Tests use GET and POST over HTTP/1.1 only.",
  ["engine.go", "router.go"],
  [("admission test", "engine.go ServeHTTP"), ("method table", "router.go MethodIndex"), ("ANY expansion", "router.go ANY")])
P("R05", "Conflicting or malformed registrations are refused, never silently dropped",
  "Building an application panics when two routes of the same method denote the same pattern (including the two spellings ':name' and '<name>'), when a route's full pattern does not start with '/' or ends with '/' (other than '/' itself), when a handler is nil or of an unsupported type, when a route has no handlers at all, or when a group is asked for what only the root may do (building, global or classic middleware, static serving); otherwise every registered route is kept and is the one served for its own literal path.",
  ["inputs", "configurations"], "every pattern text without empty inner segments and every pair of registrations",
  "No test registers a conflicting or malformed route.",
  ["router.go", "engine.go", "util.go", "tree.go"],
  [("duplicate detection", "router.go routeStore.add"), ("pattern check", "util.go checkSplitPattern, router.go Handler"), ("handler check", "router.go handle, engine.go newHandler")])
P("R06", "Gin-style ':name' and water-style '<name>' patterns are equivalent",
  "Writing a segment as ':name' or as '<name>' yields applications that route every path identically and bind the same parameters; the route reported to the handler is the pattern as it was written, and it belongs to the route whose handlers run (empty when no route matched).",
  ["inputs", "configurations"], "every pattern built from literal, placeholder and catch-all segments and every path",
  "The variant test rewrites one literal pattern and never routes a request with it.",
  ["router.go", "tree.go", "content.go"],
  [("pattern rewriting", "router.go _VariantUri"), ("reported route", "content.go FullPath, engine.go buildTree")])

# ---------------- composition
P("C01", "A route runs global, then enclosing groups' middleware, then its own handlers",
  "For every tree of groups, the chain of a route is the global middleware, then the middleware of the root, of each enclosing group from outermost to innermost, and finally the route's own handlers, each list in registration order and regardless of whether it was registered before or after the route. Middleware of a group, including the ones passed when the group is created, never runs for a route outside that group, and the full pattern is the concatenation of the enclosing patterns.",
  ["configurations", "programs"], "every nesting of groups, every placement and order of middleware registrations",
  "Tests print handler counts of one fixed tree and do not look at which handlers run.",
  ["router.go"],
  [("chain assembly", "router.go getRoute"), ("scoping", "router.go Use/Group/Before")])
P("C02", "Unmatched requests get 404 or the configured not-found chain",
  "With no not-found handlers configured, an unmatched request is answered 404 with no handler run; with some configured, it runs the global middleware followed by these handlers in order, and never route or group middleware; matched requests never run them.",
  ["inputs", "configurations"], "every path, method and not-found configuration",
  "One test covers one not-found handler without global middleware.",
  ["engine.go", "router.go", "option.go"],
  [("fallback", "engine.go ServeHTTP"), ("chain composition", "router.go Handler")])
P("C03", "All accepted handler forms are invoked alike, once, with this request",
  "A handler given as a context function, a value of the handler interface, a standard http.Handler or a standard handler function is invoked exactly once per pass of the chain with this request and a writer whose writes are the response's writes; what it writes counts as written for the rest of the chain.",
  ["inputs", "configurations"], "every handler form, placement in the chain and action",
  "The standard forms are registered but never invoked by a test.",
  ["engine.go"], [("adaptation", "engine.go newHandler/newHandlers")])

# ---------------- request context
P("X01", "Handlers run in order, at most once, and stop once a response is written",
  "For every chain and every behaviour of its handlers (write or not, continue or not, in any order), each handler starts at most once per request and in chain order; code after a continue runs after all the handlers it continued to; a handler is started without an explicit continue only if all earlier ones returned without a written response; and if nobody writes every handler runs.",
  ["programs", "inputs"], "every chain length and every assignment of actions to handlers",
  "Tests run chains where one middleware continues and one handler writes.",
  ["context.go", "engine.go"], [("chain cursor", "context.go run/Next"), ("written flag", "context.go WriteHeader/Write")],
  [("index/written", "cursor into the chain and whether a status was committed", "context.go Context")])
P("X02", "Exactly one status is committed, the first one, and it is the one reported",
  "For every sequence of status and body writes through the request context or its response helpers, including serving files and redirects, the client's connection sees at most one status commit, its code is the first one requested (200 if a body write came first), and the context reports written and this same status from then on; body bytes arrive unchanged and in order.",
  ["programs", "inputs"], "every sequence of write operations, codes from 200 to 599 and bodies",
  "Tests make a single write per request and only look at the final code.",
  ["context.go", "content.go", "m_recovery.go"], [("commit once", "context.go WriteHeader"), ("implicit 200", "context.go Write")])
P("X03", "Response helpers deliver the requested status, content type and body",
  "The text, raw HTML, data, JSON, XML and template helpers make the client receive the given status code, the documented content type (the caller's for data and streams) and exactly the given body or encoder output; when a response was already committed they do not alter its status. The template helpers hand set name, template name, data and status unchanged to the installed renderer.",
  ["inputs"], "every status code from 200 to 599, content type and body",
  "No test looks at the content type a client receives; header changes after the status commit are invisible to clients.",
  ["content.go", "render.go"], [("helpers", "content.go String/Data/HTMLRaw/JSON/XML/Stream, render.go")])
P("X04", "No request ever observes state of an earlier request",
  "Whatever requests were handled before on the same application (matched or not, written or not, static-indexed or not, panicking or not), a request runs the same handlers with the same parameters, environment, status and written flag, parsed form values and reported route as it would as the first request.",
  ["histories", "inputs"], "every sequence of earlier requests and every current request",
  "Every test builds a fresh application and sends unrelated requests; context reuse is never exercised with differing state.",
  ["engine.go", "context.go"], [("reset on reuse", "context.go reset"), ("context pool", "engine.go ServeHTTP")],
  [("ctxPool", "contexts kept between requests", "engine.go Engine")])
P("X05", "A panicking handler becomes a 500 and never escapes the recovery middleware",
  "With the recovery middleware in front, a panic with any non-nil value in any later handler does not propagate to the server; if nothing had been written the client gets 500, if something had been written its status stays, and without a panic an unwritten response becomes 200. With the status set to stable no panic text reaches the client, and the application keeps serving later requests correctly.",
  ["programs", "inputs", "histories"], "every panic value, panic position and amount written before the panic",
  "No test panics in a handler.",
  ["m_recovery.go", "context.go"], [("deferred recover", "m_recovery.go Recovery")])
P("X06", "The per-request environment stores each key once and returns what was stored",
  "For every sequence of operations on the request environment, a key holds the value of its single successful set, setting an existing key panics and leaves it unchanged, reading or typed-reading a missing key fails by panic (or reports absence where the API says so), and the environment starts empty for every request.",
  ["inputs", "histories"], "every sequence of set and get operations over all key texts",
  "No test touches the environment.",
  ["environ.go", "engine.go"], [("set once", "environ.go Set"), ("fresh map", "engine.go ServeHTTP")])
P("X07", "The logging middleware changes neither the request nor the response",
  "With the logging middleware in front, whatever its switches, later handlers read exactly the request body the client sent, complete and in order for any size, and the response is the same as without it.",
  ["inputs", "configurations"], "every body size and chunking, content type and log switch setting",
  "No test reads a body behind the logger.",
  ["m_logger.go"], [("body capture and replacement", "m_logger.go Logger")])
P("X08", "Serving requests never writes state shared between concurrent requests",
  "While a request is served, for every path, method and configuration, the framework writes only objects created for that request (or obtained exclusively for it from a pool, and never after giving it back) except through sync.Once, locks and atomics; routing tables, handler lists, options and package variables are not modified. Hence any interleaving of requests, also of requests that are in their handlers at the same time, behaves like serving them separately.",
  ["schedules", "inputs"], "every interleaving of any number of concurrent requests (through a per-request frame condition; overlapping handlers also directly), every path and configuration",
  "No test serves two requests concurrently, and a race detector only sees the executed schedules.",
  ["engine.go", "context.go", "tree.go", "query.go", "m_cors.go", "m_static.go"], [("immutable tree after build", "engine.go buildTree"), ("exclusive context", "engine.go ctxPool")])

P("X09", "Redirects and status helpers answer with their status and the given target",
  "For every target and request, the redirect helpers answer 301 (moved permanently) or 302 (found) with one Location that denotes the given target relative to the request and never an additional header line; the helpers named after a status commit exactly that status without a body and leave the headers set by handlers alone; the no-cache helper replaces every earlier caching directive and expiry by ones that forbid caching.",
  ["inputs"], "every redirect target and request path, every status and earlier header value",
  "No test calls a redirect or status helper.",
  ["content.go", "context.go"], [("helpers", "content.go MovedPermanently/Found/NotModified/.../Abort/NoCache/SetHeader")])
P("D01", "Downloads and served files deliver exactly the file, or an error",
  "For every content, the download, file and attachment helpers deliver exactly the bytes of the file or content (or of the byte range asked for, 304 without a body when the client's copy is current) with its modification time; a missing file or a directory is reported as an error by a download, with neither a response nor a header left behind, and answered 404 when served; a download is declared as an attachment of binary data that may not be cached, whatever was declared before.",
  ["inputs"], "every file content, range and conditional header, and state of the file",
  "No test downloads anything.",
  ["content.go"], [("download", "content.go Download"), ("serving", "content.go File/ServeFile/Attachment")])

# ---------------- reading requests
P("X10", "Request bodies, forms and uploads are read completely or reported as broken",
  "For every body and every way the connection delivers it, the body accessors return exactly the bytes sent or the connection's error; a form or multipart body that cannot be parsed is reported by binding as an error and by the accessors as a panic, never taken for an empty or partial form; a form file accessor returns the first file uploaded under the name with its content and reports a missing one.",
  ["inputs", "fault_sequences"], "every body text, portioning, read failure and truncation, every file name asked for",
  "No test reads a body through the context or sends a broken form.",
  ["content.go", "query.go", "binding/form.go"], [("body", "content.go BodyBytes/BodyString/ReadCloser"), ("form parsing", "content.go parseFormOrMultipartForm, FormFile")])
P("Q01", "Query values are the trimmed first value, the default applies only when absent",
  "For every form, the query accessor returns the first value of the key with surrounding white space removed and the empty string when the key is absent, the defaulting accessor returns the default exactly when the key is absent, and the array accessors return all values, trimmed, in order; the underlying form is never modified.",
  ["inputs"], "every key, number of values (at least one for a present key) and value text",
  "No test reads a query value.",
  ["query.go", "content.go"], [("accessors", "query.go Query/DefaultQuery/QueryArray/DefaultQueryArray"), ("parse once", "content.go ParseFormOrMultipartForm")])
P("Q02", "Bracketed query keys build exactly the corresponding map",
  "The map accessors return, for every form, exactly one entry per parameter of the form key[sub] with a non-empty sub (text after the first closing bracket does not count), holding its trimmed first value, ignore all other parameters, and the defaulting accessor returns the default exactly when there is none.",
  ["inputs"], "every set of parameter names, no two of which denote the same entry, and values",
  "No test reads a query map.",
  ["query.go"], [("bracket parsing", "query.go QueryMap/DefaultQueryMap")])
P("Q03", "Typed accessors convert exactly or report failure",
  "For every text, the typed accessors of path parameters, query values and cookies return the integer, floating-point number or boolean the text denotes (the nearest floating-point value) when it denotes one in range, and otherwise the fallible ones report an error and the infallible ones never return an unrelated (wrapped or truncated) number: they yield 0/false for malformed text and the nearest bound for out-of-range numbers (infinity for floating point).",
  ["inputs"], "every parameter text",
  "One test reads an integer parameter's happy path for printing only.",
  ["params.go", "query.go", "cookie.go"], [("conversions", "params.go, query.go, cookie.go")])
P("Q04", "The client address is X-Real-IP, else the first forwarded hop, else the peer",
  "For every combination of headers, the reported client address is the X-Real-IP header if present, else the first comma-separated element of the first X-Forwarded-For line (white space removed) if non-empty, else the connection's peer address without its port; the proxy list holds all the forwarded elements in order.",
  ["inputs"], "every header text and peer address of the form host:port",
  "No test looks at the client address.",
  ["util.go", "content.go"], [("address selection", "util.go requestRealIp/requestProxy")])
P("Q05", "Request classification depends only on the documented headers",
  "For every request, the media type is the Content-Type header up to the first space or semicolon; the protocol is a forwarded http or https if so declared, else https exactly for TLS connections; ajax and websocket detection hold exactly for their documented header values, case-insensitively for websocket.",
  ["inputs"], "every header text and connection kind",
  "No test covers these accessors.",
  ["content.go", "util.go"], [("header tests", "content.go Protocol/IsAjax/IsWebsocket/ContentType, util.go filterFlags")])
P("Q06", "Cookies set are the cookies read back, with the requested attributes",
  "For every valid name and value, a cookie set by a handler and returned by a client is read back as the same value, with the attributes given (max age, path defaulting to '/', domain, secure, http-only, same-site) and no others; an invalid name adds nothing to the response, no name or value can add another header or cookie, and setting one cookie leaves the others set before (by another name, path or domain) in the response.",
  ["inputs", "configurations"], "every name, value and attribute combination",
  "No test touches cookies.",
  ["cookie.go"], [("cookie assembly", "cookie.go SetCookie/Cookie")])
P("Q07", "HTML-escaped cookie access never yields active markup",
  "For every cookie value the escaping accessor returns text without any of the characters < > \" ' and with every & part of an entity, and unescaping it gives back the cookie value.",
  ["inputs"], "every cookie value", "No test touches cookies.", ["cookie.go"], [("escaping", "cookie.go CookieEscape")])

# ---------------- responses
P("P01", "Download names survive the Content-Disposition header and cannot break out of it",
  "For every file name, the disposition header of an attachment has the requested type, decoding its extended file name gives back the name, and no name can add a quote, parameter, line or header.",
  ["inputs"], "every file name and disposition type", "No test sends a download.", ["util.go", "content.go"], [("header construction", "util.go contentDisposition")])
P("P02", "Entity tags are equal exactly for equal file versions",
  "The generated entity tags of two files are equal exactly when modification second and size (and, in the second form, name) are equal, so a conditional request is never answered not-modified for a different version.",
  ["inputs"], "every modification time, size and name", "No test computes an entity tag.", ["util.go", "m_static.go"], [("tag format", "util.go GenerateETag/GenerateETag2")])

# ---------------- middleware
P("S01", "CORS grants exactly the configured origins and methods",
  "For every configuration and request, the response allows an origin only if it is '*' by configuration or equals the request's origin and is configured; allowed methods, headers, exposed headers, credentials and max age are exactly the configured ones (the requested headers when none are configured), and responses vary on the origin, preflights answered from the requested headers on those too.",
  ["inputs", "configurations"], "every configuration, method and origin/header text", "No test uses CORS.", ["m_cors.go"], [("origin check", "m_cors.go CORS")])
P("S02", "CORS answers preflights itself with 204 and passes all else through once",
  "An OPTIONS request is answered 204 by the CORS middleware and no later handler runs; every other request continues through the rest of the chain exactly once with its status and body untouched, whether or not the origin is allowed.",
  ["inputs", "configurations"], "every method, origin and configuration", "No test uses CORS.", ["m_cors.go", "context.go"], [("preflight branch", "m_cors.go CORS")])
P("T01", "Static serving opens nothing but names inside its own file system",
  "For every request path, static serving obtains content only by opening, in the file system it was configured with, the part of the path after the prefix (and the index file below it for directories); it never opens files of the host outside of it.",
  ["inputs", "configurations"], "every request path, prefix and file-system content", "Two tests fetch one existing file each.", ["m_static.go", "content.go"], [("open through the configured file system", "m_static.go StaticAdvance")])
P("T02", "Static responses match the file's state: 404, redirect, 304 or content",
  "A missing or unreadable file gives 404; a directory without trailing slash redirects to the same path with it; when tags are enabled a matching If-None-Match gives 304 with no body and any other gives the content with the tag; every opened file is closed exactly once.",
  ["inputs", "fault_sequences", "configurations"], "every path, header (If-None-Match other than '*'), tag mode and open/stat failure", "Two tests check that the status is not 404.", ["m_static.go"], [("branches of the static handler", "m_static.go StaticAdvance")])

# ---------------- binding
P("B01", "The decoder is chosen by method and media type alone",
  "With media types compared as they are spelled, GET requests bind from the form whatever the content type; POST, PUT and PATCH with multipart bind from the multipart form; otherwise JSON and XML media types select JSON and XML and everything else the form.",
  ["inputs"], "every method and content type text", "One test checks three constants.", ["binding/binding.go", "content.go"], [("selection", "binding/binding.go NewBindinger")])
P("B02", "A bound number is the number sent, or binding fails",
  "For every text and every integer, floating-point or boolean field type of a form, query, header or uri target, successful binding stores exactly the value the text denotes (for floating point the nearest value of the field's width; an empty text denotes zero), and a text that is malformed or does not fit the field's width is an error; nothing is truncated, wrapped or ignored, whatever the field held before.",
  ["inputs", "configurations"], "every input text and field type", "Tests bind a few small decimal numbers into matching types.", ["binding/map_form.go", "binding/mapping.go"], [("conversion", "binding/map_form.go setWithProperType2, binding/mapping.go setWithProperType")])
P("B03", "Binding writes only fields whose tag names a key of the input",
  "For every form, Bind changes only exported fields whose tag names a supplied key (or carries a default), replacing at most nil pointers on the way to them; fields without a tag, tagged '-' (including everything below a structure so tagged), unexported fields and fields of other names keep their values. The Bind2 variants bind an untagged field by its own name and make a pointer only when something below it is set.",
  ["inputs", "configurations"], "every form content and target structure", "Tests bind well-formed forms and do not look at fields that must stay untouched.", ["binding/map_form.go", "binding/mapping.go"], [("tag lookup", "binding/map_form.go parseFormName/_mapForm")])
P("B04", "Multi-valued keys fill slices completely and in order; maps get every key",
  "A slice field receives all values of its key, converted, in order; a scalar field receives the first; a string map receives, for every key, its last value and a string-slice map all values.",
  ["inputs"], "every number of values and keys", "Tests bind fixed two-element lists.", ["binding/map_form.go", "binding/mapping.go"], [("slice and map filling", "binding/map_form.go tryToSetValue2, binding/mapping.go setFormMap2")])
P("B05", "A declared default applies exactly when the key is absent",
  "A field with a default option gets the default exactly when its key is absent from the input; a supplied value, even empty, wins over it.",
  ["inputs"], "every presence/absence combination and value text", "Tests bind one form per default.", ["binding/map_form.go"], [("default option", "binding/map_form.go parseFormName/tryToSetValue2")])
P("B06", "Binding succeeds only if decoding and validation both did",
  "For every binding kind, success is reported only after the installed validator accepted the very object that was filled; a decode error is returned without hiding it and a validation error of any element of a bound list is reported; with no validator installed only decoding decides.",
  ["inputs", "configurations", "fault_sequences"], "every decode outcome, validator verdict and list length", "Tests try a few objects with fixed verdicts.", ["binding/validator.go", "binding/form.go", "binding/query.go", "binding/header.go", "binding/uri.go"], [("validate after decode", "binding/*.go Bind"), ("recursion over pointers and lists", "binding/validator.go ValidateStruct")])
P("B07", "No request content can make binding panic",
  "For every form, query, header, uri parameter map or multipart file map, and for lists holding null elements, binding a supported target (with any kind of field, embedded ones included), directly or through the context's Bind and BindWith, returns a result or an error but never panics; a document that was not sent is an error.",
  ["inputs"], "every key set, value count (including none) and text; targets are structures that do not contain themselves and non-nil maps", "Tests feed non-empty well-formed values.", ["binding/map_form.go", "binding/mapping.go", "binding/validator.go"], [("conversion and error paths", "binding/map_form.go, binding/validator.go")])
P("B08", "Uploaded files are bound to their fields, all of them and in order",
  "For a multipart request, a single-file field receives the first file of its key and a list field all of them in order; a key with no file leaves the field alone, and a file for a field that cannot hold it is an error.",
  ["inputs"], "every number of files per key and target kind", "Tests upload one or two files to matching fields.", ["binding/map_form.go", "binding/form.go"], [("file mapping", "binding/map_form.go tryToSetValue2")])
P("B09", "A bound time or duration is the instant the text denotes, or binding fails",
  "For every text and every time field of a form, query, header or uri target, successful binding stores the instant the text denotes in the field's declared layout (RFC 3339 by default, 'unix' and 'unixnano' counting from the epoch) and zone (local unless UTC or a location is declared), the zero time for an empty text in a layout; a text that denotes no such time or an unknown location is an error that leaves other fields alone. Duration fields of the Bind2 family hold exactly the duration denoted.",
  ["inputs"], "every text, layout and zone option of the field, and prior value",
  "Tests bind a few fixed dates with one option each.",
  ["binding/mapping.go", "binding/map_form.go"], [("time fields", "binding/mapping.go setTimeField/setTimeField2/setTimeDuration"), ("options", "binding/map_form.go parseFormName")])
P("B10", "Binding reads the request without changing it; binding again gives the same values",
  "Binding a form, query, header, parameter map or upload, directly or through the context, leaves the data it reads as it was: another target of the same type bound from it gets the same values or the same failure, whatever was bound in between and whatever became of the first target, and the accessors read what they read before. Changing a bound list or map does not change the data it came from.",
  ["inputs", "histories"], "every input, order of bindings and use of the earlier targets",
  "Tests bind each input once into one target.",
  ["binding/mapping.go", "binding/map_form.go", "binding/form.go", "content.go"], [("filling of lists and maps", "binding/map_form.go tryToSetValue2, binding/mapping.go setFormMap2"), ("form of the request", "content.go Bind/BindWith")])
P("A01", "Applications in one process do not influence each other",
  "What an application answers depends only on its own routes, middleware and options: building or serving others in the same process, before or meanwhile, from the same router, with shared handlers, option values or middleware, below a prefix or inside a handler, changes no response, parameter, reported route or chain. (Outside: settings that are documented for the whole process, the renderer, logging switches, the validator and the binders' own multipart limit.)",
  ["configurations", "histories"], "every pair of route tables and option sets, every order of building and requests",
  "Every test uses one application at a time.",
  ["router.go", "engine.go", "option.go", "m_cors.go"], [("building", "router.go Handler"), ("per-application state", "engine.go Engine"), ("captured settings", "m_cors.go CORS")])
P("M01", "The multipart memory limit in force is the configured one, 32 MB by default",
  "The limit used when a multipart form is parsed is the one given when the application was built, and the documented default of 32 MB when none was given; a multipart binder used on its own applies the limit set for its package, 32 MB by default.",
  ["configurations"], "every limit value and its absence", "No test sets the option or looks at the limit.", ["router.go", "option.go", "content.go", "binding/form.go"], [("option propagation", "router.go Handler")])
P("G01", "The access log holds one true record per request",
  "With the logging middleware in front, every request whose chain ends leaves exactly one access record (none when logging is closed), naming its trace id, the status its response was given, the client's address, its method and URL and, exactly when body logging is on and the content type is JSON, the body sent (its first MiB); colours change nothing but the look of the status. A panic caught by the recovery middleware leaves exactly one error record with the panic's value.",
  ["inputs", "histories", "configurations"], "every status, target, header, body and switch setting, and histories of requests", "No test reads the log.", ["m_logger.go", "m_recovery.go", "util.go"], [("access record", "m_logger.go Logger"), ("error record", "m_recovery.go Recovery")])
P("J01", "JSON and XML bodies decode to exactly the value they denote",
  "For every JSON or XML body and target type, binding yields the value the document denotes under the encoding rules of the format, or an error.",
  ["inputs"], "every document and target type", "Tests decode a few small documents.", ["binding/json.go", "binding/xml.go"], [("decoder call", "binding/json.go, binding/xml.go")])
P("U01", "A saved upload has exactly the uploaded bytes",
  "Saving an uploaded file leaves, on success, a file at the destination with exactly the uploaded bytes (replacing older content), readable only by the owner when newly created; no other file is touched; a failure to open, create or copy is reported.",
  ["inputs", "fault_sequences"], "every content and every I/O failure point", "No test saves an upload.", ["content.go"], [("copy", "content.go SaveUploadedFile")])
P("L01", "Route listings show every registered route once with its real chain length",
  "The printed listings contain each registered route of the selected method exactly once, with the number of handlers that run for it, and the tree listing shows every route reachable in the tree.",
  ["configurations"], "every route table", "One test prints listings without checking them.", ["router_print.go"], [("printing", "router_print.go")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "properties")
