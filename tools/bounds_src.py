#!/usr/bin/env python3
# One line per property: the bounds of the quick tier (thorough bounds in brackets) and what is outside.
# Writes bounds.json, which the engine copies into evidence and mkmanifest.py into level_note.
import json, os
B = {
"R01": "route tables of up to 5 routes and 4 segments from pools of literals, regular expressions, placeholders and catch-alls, every order for small tables, literals with special characters; paths of up to 13 segments with all byte values in up to 4 symbolic segments of 0-2 bytes. Outside: larger tables, regular expressions other than those in the pools",
"R02": "tables with up to three competing branches; 0-2 capture groups per segment at each place of it; segments of 1-2 (5) arbitrary bytes; catch-alls with up to 4 segments, 11 cut positions of long ones; two consecutive requests; 10 regular expressions written with the pattern syntax's own characters, segments of 0-3 (4) of these; up to 12 capture groups in one segment",
"R03": "6 tables x histories of two requests of symbolic short segments, methods, not-found handlers and middleware; paths spelling a pattern, deep literal paths",
"R04": "every subset of excluded methods; every method text up to 3 (4) bytes and every one-byte change of the known methods; protocol 0.0 to 3.11; pairs of routes over all methods",
"R05": "2 (3) routes from a pool of 13 patterns in both spellings, directly or split into groups; any pattern text up to 6 (7) bytes over the syntax's characters, two symbolic patterns; every handler position and type; 4 routes kept; 16 segment forms in 12 positions; 5 root-only calls",
"R06": "6 tables with each segment spelled independently, names of 1-3 (4) bytes over letters, digits and the syntax's characters, segments of 0-2 bytes",
"C01": "every sequence of 5 registrations (route, group, middleware, global middleware) on a growing tree; patterns of 0-2 (3) bytes per level; up to 3 levels with up to 4 middleware each; up to two further registrations and a second build; groups of the same prefix",
"C02": "0-2 global middleware, 0-2 not-found handlers, 3 route sets, paths of 3 symbolic short segments, all methods, several applications sharing options",
"C03": "two handlers of every form and behaviour (write, continue, neither), before, at and after the route; bodies of 0-2 bytes, any status",
"X01": "chains of up to 6 (7) handlers, each with up to 3 actions (write, body write, continue) chosen symbolically when it gets there; long chains with two active handlers at symbolic positions",
"X02": "3 (4) write operations of 8 kinds with any status 200-599; all pairs of fixed-status helpers after no, status or body write; served files with conditional and range requests; chains of 4 handlers; connections failing after 0-3 bytes",
"X03": "texts of 0-4 (6) arbitrary bytes, any status 200-599, content types of 0-2 bytes; JSON and XML documents of the harness's shapes with symbolic texts. 18 kinds of values (maps, bytes, raw JSON, own marshalers, nil) as JSON and 8 as XML; a response failing by connection (after 0-11 bytes), encoder or source, by error or panic, before the next one, twice",
"X04": "histories of up to two requests of 11 kinds (parameters, static, writes, panics, environment, parsed forms, not found) before each kind; arbitrary paths of 3 (4) bytes; nested requests; 22 ways to answer, with a connection that fails, before each of the 22",
"X05": "11 panic values x 4 moments x 3 (5) places; symbolic status; secret text of 0-1 bytes looked for in the response",
"X06": "histories of 4 (5) operations over symbolic keys of 0-1 bytes and values of 0-2 bytes; every typed read of every stored type",
"X07": "bodies of 0-3 (5) symbolic bytes and bodies around 1 MiB, 3 portionings, read failures, 4 content types, every switch",
"G01": "4 statuses (all of 200-599 in histories and with colours), 3 methods, paths of 0-1 (2) arbitrary bytes, bodies of 0-2 (3) of 5 characters and of 600 to 1,048,577 bytes, every switch; histories of two requests of 7 kinds on the default router. Times and durations are constant; records are compared without them; logging switched on and off between requests",
"X08": "frame condition over all heap writes of one request from every registered configuration: 5 methods, paths of 3 (4) arbitrary bytes around the routes, all handler actions and middleware switches; a write to an object that existed before the request is confirmed natively by the race detector with two concurrent requests. Besides, requests overlapping in their handlers, in every order of their turns: 2 requests of 7 kinds (arguments, query, panic, cookie, body, binding, late panic) on 4 kinds of paths with 3 to 4 turns each, and 3 (4) requests of 3 turns, must each be answered as alone. Per-request frame implies independence of any interleaving; writes inside stubs (logging, sync.Pool internals) are outside",
"X09": "targets of 6 kinds extended by one arbitrary byte or 0-2 (3) characters of '/.?#a', request paths of 1-2 segments; every status 200-599; header values of 0-2 bytes. Oracle for locations: net/http's own Redirect on the same request",
"X10": "bodies of 0-3 (5) arbitrary bytes (or 600 more) in 3 portionings with 2 ends and failures; 6 kinds of broken forms, multipart bodies cut at every byte; two files and one text per upload, names over two letters",
"D01": "contents of 0-3 (5) arbitrary bytes, byte ranges 0-4, 4 states of the file, modification times over 60 seconds. Directory listings and multi-range requests are outside",
"Q01": "up to 3 (4) values of 0-2 bytes under up to two keys; queries and bodies of 0-3 (4) syntax characters, 6 methods, 4 content types; every Unicode space in 0-4 characters",
"Q02": "up to 3 (4) parameters with names of 0-4 (5) arbitrary bytes, 6 characters of the bracket syntax",
"Q03": "every text of 0-3 (4) bytes; 4 symbolic digits at the end of the numbers around each bound of 8-64 bits; every word around true/false; floating-point texts of 0-4 (5) characters of '19.e-', 12 ranges of both widths with 2 (3) free digits, 22 special words with a free character (floating-point values are concrete: one path per number)",
"Q04": "forwarded lines of 0-5 (7) syntax characters or two elements of 0-2 arbitrary bytes, real-IP of 0-3 bytes, hosts of 0-3 and ports of 1-2 characters",
"Q05": "content types of 2 arbitrary bytes around each known position, forwarded protocols of 0-6 characters, every one-byte change of the ajax and websocket values",
"Q06": "names of 1 (2), values of 0-2 (3) arbitrary bytes; each attribute of each accepted type in every prefix of the argument list; ages -2..3 (1000)",
"Q07": "cookie values of 0-3 (4) arbitrary bytes and 0-4 (5) characters of the markup syntax, quoted or not",
"P01": "names of 0-2 (3) arbitrary bytes and 0-3 (4) characters of the header syntax; 9 odd names on disk",
"P02": "two seconds and sizes symbolic up to 300/5000 (5000/2^20) and a band around 2^34, nanoseconds, names of 0-2 (3) bytes",
"S01": "3 origin lists, methods, headers, exposed headers, credentials, ages; origins of 1-2 (3) characters or arbitrary bytes; consecutive requests of one policy; origins that look like allowed ones",
"S02": "4 places of the middleware, every method, status and body; 3 configurations; panicking and unwritten chains",
"T01": "the rest of the path over '/', '.', '\\\\', letters, NUL and '%' with 0-7 (8) characters, 5 prefixes, with and without index; the host directory's content is the engine's file system",
"T02": "7 states of file/directory/index, 3 tag settings, contents of 0-2 bytes, 300 modification seconds, 4 conditional headers; directory names of 1-2 arbitrary bytes",
"B01": "every media type text up to 20 (34) bytes, every one-byte change and tail of the known ones, every method up to 6 bytes",
"B02": "every text of 0-4 (5) arbitrary bytes for each of 14 field kinds; 3 symbolic digits at each bound of each width; 11 ways of binding; lists of up to 2 elements; the floating-point texts of Q03 for fields of both widths, pointers, named types and lists",
"B03": "every key of 0-2 (3) bytes and every name, tag or path of the target's fields; pairs of keys; 11 ways of binding; Bind2 with nil and set pointers, arrays, names and tags",
"B04": "0-4 (5) values of 0-2 bytes for lists, scalars, pointers, maps; two keys per map, one arbitrary; 11 ways of binding, fresh and filled targets",
"B05": "each of the defaulted fields absent, empty or with a text of 1-2 bytes; every subset of present keys; defaults the field cannot hold",
"B06": "every order of decode success and failure and validator verdict; lists of up to 3 (5) elements with one bad at any position; JSON/XML bodies of 10 shapes with symbolic texts; jsoniter's decoder is modelled by encoding/json",
"B07": "26 kinds of fields x texts of 0-2 (3) bytes x 0-3 values; maps, files and null lists; queries and bodies of 2 (3) syntax characters with 8 content types",
"B08": "0-3 (4) files per key for pointer, list, array and other fields, next to texts; whole uploads with symbolic contents",
"B09": "dates with up to 5 symbolic digits in the places that decide validity, RFC 3339 texts with 3 symbolic digits and 6 zones, integers of 1-2 (3) characters with up to 16 more digits, durations of 0-2 (4) characters with 4 tails; 9 ways of binding. Time zone files are outside (only UTC, local and unknown locations)",
"B10": "three keys with up to two values, one of them of 0-1 (2) arbitrary bytes, two more keys; 11 ways of binding, twice, with three things in between; maps of both kinds; requests of 4 kinds bound twice in a handler with symbolic texts of 0-2 bytes",
"A01": "4 (6) pairs of 4 tables, 3 orders of building and up to 3 requests with a symbolic segment, static index, not-found handlers and global middleware on either; one router built twice with routes added; middleware, handlers and options shared with 0-2 at each level; nested applications; 3 CORS configurations",
"M01": "limits 0-9 (30) bytes against files of up to 11 (40) bytes, 8 ways to parse, one or two applications; the default against the recorded argument of ParseMultipartForm",
"U01": "uploads of 0-4 (6) arbitrary bytes (or 700 more), kept in memory or in a temporary file, 4 earlier contents; up to 3 files; 5 failures, among 12 other files of likely names",
"L01": "up to 3 (4) routes from 8 patterns in a tree of groups with up to 2 middleware per level; symbolic literal of 1-2 bytes; listings of every method",
}
SCALE = {  # harness/scale.go: fixed large sizes with the deciding part symbolic
"R01": "a table of 49 routes and up to 10 segments, one segment symbolic; 150 literal, 40 regular-expression, 20 placeholder and 20 catch-all branches at one place",
"R02": "the same table, and one route of 12 parameters or up to 17 catch-alls",
"R03": "the same table, literal and pattern paths of it",
"R05": "the same table with one duplicate at any place",
"C01": "six nested groups with 0-3 middleware at each level",
"C02": "4 global middleware and up to 12 not-found handlers",
"X01": "chains of 63 to 300 handlers",
"R06": "patterns of 7 to 33 segments",
"B09": "every spelling of the zone tags",
"X03": "bodies of 500 to 70,000 (1,048,581) bytes with a symbolic end",
"X04": "histories of five requests of any kind",
"X05": "a panic at any place of a chain of up to 20",
"X06": "20 keys",
"X10": "bodies of 511 to 1,048,581 bytes",
"D01": "files of 70,000 bytes, whole and in ranges at the buffer's edges",
"Q01": "up to 19 values of a key, 20 keys and 4,000-byte values",
"Q02": "13 entries, names of up to 71 bytes",
"Q04": "up to 12 forwarded hops of 5 forms",
"Q06": "12 cookies, names and values of up to 400 bytes",
"P01": "names of 10 to 300 bytes with an odd character at three places",
"S01": "12 origins, methods and headers, ages over all of int, one byte of an origin symbolic",
"T01": "names of 8 levels and up to 120 bytes, one byte symbolic, a file of 35,001 bytes",
"B03": "histories of three bindings over five types that look alike; a structure of 4 levels and 20 keys",
"B04": "lists of 9, 17 and 40 values, maps of 10 keys",
"B06": "lists of 20 with one bad element anywhere",
"B08": "12 files in one field",
"U01": "uploads of 511 to 70,000 bytes with a symbolic end over a longer file",
"L01": "the listing of the table of 49 routes",
}
for k, v in SCALE.items(): B[k] += "; at scale: " + v
MORE = {  # histories and odd cases
"R01": "literals of 257 and 4,100 bytes; segments for 10 regular expressions around any rune; histories of two requests over 4 tables; a fallback over branches that hold up to 12 (20) catch-alls; escaped paths",
"R02": "histories of two requests over 4 tables",
"R04": "histories of 3 (4) requests of any method over one path; the any-method registration of 8 patterns",
"R05": "routes without handlers in 8 places (groups, nested groups, group closures, not-found handlers)",
"R06": "any character inside a name in either notation; histories of two requests",
"C01": "chains of up to 300 that 1 to 5 groups share out",
"C02": "1 to 40 global middleware with not-found handlers; histories of 3 (4) requests",
"C03": "handlers of the standard library (ServeMux, StripPrefix, RedirectHandler, MaxBytesHandler, NotFoundHandler)",
"D01": "a file that changes between two requests, also within one second",
"T02": "a file that changes between two requests (size, time, content, existence); other spellings of a name",
"X04": "1,100 (2,200) requests in a row, then earlier ones again",
"S01": "2 (3) requests of one policy in any order; a policy's lists changed by the caller afterwards; lists of 1 to 60 asked-for headers in 4 spellings",
"S02": "requests with bodies",
"Q06": "values of up to 9,000 bytes; 8 domains, 8 paths and 9 ages that sites use, with every switch",
"Q07": "three pieces out of 17 that look escaped already",
"X09": "GET, POST and HEAD",
"X10": "files whose names are names of fields",
"B01": "16 media types that resemble known ones",
"B03": "long, dotted, bracketed, camel-case, non-ASCII and spaced names in 13 spellings of the key",
"B04": "filled targets and lists that several fields share",
"B05": "10 defaults with spaces, quotes, escapes and words",
"B06": "bodies of up to 9,000 bytes; targets behind several pointers and interfaces",
"B08": "keys in other spellings",
"B09": "42 texts of other layouts for every field with a free character behind them, 29 spellings of counts and durations",
"L01": "up to 6 of 17 routes that look alike",
}
for k, v in MORE.items(): B[k] += "; further: " + v
common = ["a map of more than 4 entries is iterated in insertion order and its reverse only; smaller maps in every order",
          "runtime, reflect, sync, time, os and logging are modelled by the engine (DESIGN.md, stubs); everything else, including the parts of the standard library water calls, is executed from its SSA",
          "the native Go build of the same harness agrees with the encoding on every replayed path (traces_validated_against_impl)"]
out = {"*": {"assumptions": common}}
for k, v in B.items(): out[k] = {"bounds": "quick (thorough in brackets): " + v}
json.dump(out, open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/bounds.json", "w"), indent=1)
