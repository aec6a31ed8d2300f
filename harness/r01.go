package main

import (
	"strings"

	"github.com/meilihao/water"
)

func pick(name string, pool []seg) seg { return pool[vChoose(name, len(pool))] }

func pat(name string, pool []seg, min, max int) mroute {
	n := min + vChoose(name+"len", max-min+1)
	var r mroute
	for i := 0; i < n; i++ {
		r = append(r, pick(name+"seg", pool))
	}
	return r
}

func distinct(rs []mroute) {
	for i := range rs {
		for j := 0; j < i; j++ {
			vAssume(rs[i].pattern() != rs[j].pattern())
		}
	}
}

// every pair of routes of up to two segments, every short path
func H_R01_pairs() {
	pool := []seg{lit("a"), reDigits("n"), hold("x"), all(""), all("f"), hold("y")}
	pool = pool[:vB(5, 6)]
	rs := []mroute{pat("p", pool, 1, 2), pat("q", pool, 1, 2)}
	distinct(rs)
	checkRoute(rs, "/"+vStr("path", 0, vB(3, 6)))
}

// every ordered choice of four one-segment routes below a common literal or at the root
func H_R01_level() {
	pool := []seg{lit("a"), lit("b"), reDigits("n"), reAlt("k"), hold("x"), hold("y"), all(""), all("f")}
	var rs []mroute
	n := vB(3, 4)
	used := make([]bool, len(pool))
	for i := 0; i < n; i++ {
		k := vChoose("seg", len(pool))
		vAssume(!used[k])
		used[k] = true
		rs = append(rs, mroute{pool[k]})
	}
	checkRoute(rs, "/"+vStr("path", 0, vB(2, 4)))
}

// two-level tables: four routes that share first segments, with backtracking between them
func H_R01_backtrack() {
	first := []seg{lit("a"), reDigits("n"), hold("x"), all("")}
	second := []seg{lit("b"), reDigits("m"), hold("z"), all("f")}
	var rs []mroute
	k := -1
	for i := 0; i < 3; i++ {
		j := vChoose("r", 16)
		if vB(1, 0) == 1 {
			vAssume(j > k) // quick: one registration order for each set of routes
		}
		k = j
		rs = append(rs, mroute{first[j/4], second[j%4]})
	}
	distinct(rs)
	// paths of two or three segments, one or two bytes each
	s1, s2 := vStr("s1", 0, 1), vStr("s2", 0, 1)
	path := "/" + s1 + "/" + s2
	if vB(0, 1) == 1 && vChoose("third", 2) == 1 {
		path += "/" + vStr("s3", 0, 1)
	}
	checkRoute(rs, path)
}

// deeper tables chosen for their interplay; three to four segments
func H_R01_deep() {
	a, b, c := lit("a"), lit("b"), lit("c")
	x, y, n := hold("x"), hold("y"), reDigits("n")
	tables := [][]mroute{
		{{a, b, c}, {a, x, all("")}, {x, b, y}, {all("f")}},
		{{a, n, all("r")}, {a, x, b, c}, {a, x, y}, {a, all("t")}},
		{{x, y, all("")}, {x, b}, {a, all("")}, {a, b, c}},
		{{all(""), b, all("")}, {a, x, y}, {all("rest")}, {a, b, y, c}},
		{{n, x}, {n, all("")}, {x, n, a}, {y, n, all("k")}, {x, a}},
		{{a, b}, {a}, {}, {a, all("")}, {a, b, c, x}},
		{{x, a}, {y, all("")}, {x, b}, {y, a, b}},
		{{a, reTwo("p", "q")}, {a, x}, {a, reTwo("p", "q"), b}, {a, n}},
		{{a, all("m"), b}, {a, all(""), c}, {a, all("g")}, {x, all("")}},
	}
	t := vChoose("table", len(tables))
	rs := tables[t]
	k := vB(3, 5)
	path := ""
	m := 1 + vChoose("nseg", k)
	for i := 0; i < m; i++ {
		path += "/" + vStr("s", 0, vB(1, 2))
	}
	if vChoose("slash", 2) == 1 {
		path += "/"
	}
	checkRoute(rs, path)
}

// literal segments are compared whole and byte for byte, whatever they contain
func H_R01_literal() {
	l := vStr("lit", 1, vB(2, 4))
	for i := 0; i < len(l); i++ {
		vAssume(vNot(vIn(l[i], "/<>*: ~\t\n\v\f\r")))
		vAssume(l[i] < 0x80)
	}
	rs := []mroute{{lit(l)}, {lit("a"), lit(l)}, {lit("a"), hold("x")}, {lit(l), all("f")}}
	vAssume(l != "a")
	checkRoute(rs, "/"+vStr("path", 0, vB(4, 6)))
}

// long segments and long tails (no length at which the rules change)
func H_R01_long() {
	long := "abcdefghijklmnopqrstuvwxyz0123456789"
	var l string
	switch vChoose("len", 5) {
	case 3:
		l = strings.Repeat(long, 8)[:257]
	case 4:
		l = strings.Repeat(long, 117)[:4100]
	case 0:
		l = long[:9]
	case 1:
		l = long[:17]
	case 2:
		l = long + long
	}
	rs := []mroute{{lit(l)}, {lit(l), hold("x")}, {hold("h"), lit("b")}, {lit(l), lit("c"), all("f")}, {lit("p"), lit(l)}, {hold("k"), lit(l), lit("d")}, {all("rest")}}
	b := []byte(l)
	k := []int{0, 7, len(l) / 2, len(l) - 1}[vChoose("pos", 4)]
	b[k] = vByte("byte")
	path := "/" + string(b)
	if vChoose("pre", 2) == 1 {
		path = "/p" + path
	}
	for i, n := 0, vChoose("tail", 4); i < n; i++ {
		path += "/" + vStr("s", 1, 1)
	}
	if vChoose("slash", 2) == 1 {
		path += "/"
	}
	checkRoute(rs, path)
}

// segments of several bytes that a regular expression may match, in front of others and last
func H_R01_regexp() {
	any2 := seg{text: "<w ~ ^(x.)$>", kind: kRe, names: []string{"w"}, re: func(s string) []string {
		if len(s) > 1 && s[0] == 'x' && oneRune(s[1:]) && s[1] != '\n' {
			return []string{s}
		}
		return nil
	}}
	rs := [][]mroute{
		{{reDigits("n"), lit("b")}, {reDigits("n")}, {hold("x"), lit("b")}, {any2}, {hold("y")}},
		{{reAlt("k"), lit("b")}, {any2, lit("b")}, {all(""), lit("b")}, {reTwo("p", "q")}, {reAlt("k")}},
		{{reTwo("p", "q"), lit("b")}, {reDigits("m"), lit("b")}, {lit("a"), reTwo("p", "q")}, {lit("7")}, {any2}},
	}[vChoose("table", 3)]
	s := ""
	switch vChoose("shape", 4) {
	case 0:
		s = vStr("s", 1, vB(2, 3))
	case 1:
		s = "7" + vStr("s", 1, vB(2, 3))
	case 2:
		s = vStr("s", 1, 1) + "zddhub" + vStr("t", 0, 1)
	case 3:
		s = "x" + vStr("s", 1, vB(2, 3))
	}
	checkRoute(rs, []string{"/", "/a/"}[vChoose("in", 2)]+s+[]string{"", "/", "/b"}[vChoose("rest", 3)])
}

// oneRune: one character of UTF-8, or one byte that is none
func oneRune(s string) bool {
	if len(s) == 1 {
		return true
	}
	if len(s) == 2 {
		return vAnd(s[0] >= 0xc2, s[0] <= 0xdf, s[1] >= 0x80, s[1] <= 0xbf)
	}
	return false
}

// every segment count: a catch-all takes any number of segments
func H_R01_depth() {
	rs := []mroute{{lit("a"), all("")}, {lit("a"), lit("b"), lit("c"), lit("d"), lit("e"), lit("f"), lit("g"), hold("x")}, {hold("x"), lit("b"), all("t")}}
	names := []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m"}
	n := 1 + vChoose("nseg", len(names))
	alt := vChoose("alt", n)
	path := ""
	for i := 0; i < n; i++ {
		s := names[i]
		if i == alt {
			s = vStr("s", 0, 1)
		}
		path += "/" + s
	}
	if vChoose("slash", 2) == 1 {
		path += "/"
	}
	checkRoute(rs, path)
}

var _ = water.NewRouter

// siblings of one kind inside a route: the one registered first is tried first, the next one when it fails later
func H_R01_ties() {
	first := []seg{reDigits("n"), reAlt("k"), hold("x"), hold("y"), all(""), all("m"), lit("7")}
	second := []seg{lit("b"), hold("z"), all("f")}
	var rs []mroute
	for i, n := 0, vB(2, 3); i < n; i++ {
		j := vChoose("r", len(first)*len(second))
		rs = append(rs, mroute{first[j/len(second)], second[j%len(second)]})
	}
	distinct(rs)
	path := "/" + vStr("s1", 0, 1) + "/" + vStr("s2", 0, 1)
	if vChoose("third", 2) == 1 {
		path += "/" + vStr("s3", 0, 1)
	}
	checkRoute(rs, path)
}

// a path sent with escapes is matched as what they denote
func H_R01_escaped() {
	rs := []mroute{{lit("a"), hold("x")}, {lit("ab")}, {hold("y"), lit("a b"), hold("z")}, {reDigits("n")}, {all("f")}}[:2+vChoose("n", 4)]
	s := vStr("s", 1, 2)
	path := []string{"/" + s, "/a/" + s, "/" + s + "/a b/b"}[vChoose("shape", 3)]
	raw := ""
	for i := 0; i < len(path); i++ {
		if i == 0 || path[i] != 'a' && path[i] != '/' && i != len(path)-1 && path[i] > ' ' && path[i] < 127 && path[i] != '%' {
			raw += path[i : i+1]
		} else {
			raw += "%" + string("0123456789ABCDEF"[path[i]>>4]) + string("0123456789abcdef"[path[i]&15])
		}
	}
	a := buildApp(rs, water.WithStaticRouter(vChoose("static", 2) == 1))
	q := newReq("GET", path)
	q.URL.RawPath, q.RequestURI = raw, raw
	want, _ := refRoute(rs, path)
	w := serve(a.e, q)
	if want < 0 {
		vAssert(a.runs == 0 && w.status() == 404, "a handler ran although no route matches the path")
	} else {
		vAssert(a.runs == 1 && a.hit == want, "the request was not served by the highest-priority matching route")
	}
	vReach("end")
}

// several catch-alls in one route, next to routes that end earlier
func H_R01_globs() {
	n := 2 + vChoose("n", vB(10, 18))
	var r mroute
	path := ""
	k := vConcInt(vInt("k", 0, n-1))
	for i := 0; i < n; i++ {
		r = append(r, all(""))
		if i == k {
			s := vStr("v", 1, 1)
			vAssume(s != "/")
			path += "/" + s
		} else {
			path += "/v"
		}
	}
	rs := []mroute{r}
	switch vChoose("other", 4) {
	case 1:
		rs = append(rs, mroute{all(""), lit("w")}, mroute{hold("x"), hold("y")})
	case 2:
		rs = []mroute{append(append(mroute{}, r...), lit("end")), {all("")}}
	case 3:
		rs = append(rs, append(append(mroute{}, r[:n-1]...), lit("v")))
	}
	path += []string{"", "/end", "/more/and/more"}[vChoose("more", 3)]
	checkRoute(rs, path)
}

// any number of branches of each kind at one place, one of which matches at first and fails later
func H_R01_fallback() {
	var rs []mroute
	next := lit([]string{"x", "y"}[vChoose("next", 2)])
	for i := []int{0, 1, 3, 4, 2}[vChoose("lits", vB(3, 5))]; i > 0; i-- {
		rs = append(rs, mroute{lit("abcde"[i : i+1]), lit("x")})
	}
	if vChoose("re", 2) == 1 {
		rs = append(rs, mroute{reDigits("n"), next})
	}
	for i := vChoose("holds", 3); i > 0; i-- {
		rs = append(rs, mroute{hold("h" + "ab"[i-1:i]), lit("xy"[i-1 : i])})
	}
	switch vChoose("globs", 4) {
	case 1:
		rs = append(rs, mroute{all("f")})
	case 2:
		rs = append(rs, mroute{all(""), lit("y")})
	case 3:
		rs = append(rs, mroute{all("g"), next}, mroute{all("f")}, mroute{hold("end")})
	}
	if vChoose("deep", 2) == 1 { // the same below a literal, a placeholder and a catch-all
		d := []seg{lit("d"), hold("d"), all("d")}[vChoose("below", 3)]
		for i := range rs {
			rs[i] = append(mroute{d}, rs[i]...)
		}
	}
	path := "/" + []string{"b", "7", "q", "d"}[vChoose("first", vB(3, 4))] + "/" + []string{"x", "y", "q", "b"}[vChoose("second", 4)]
	if len(rs) > 0 && len(rs[0]) > 0 && vChoose("third", 2) == 1 {
		path += "/" + vStr("s", 1, 1)
	}
	if len(rs) == 0 {
		return
	}
	checkRoute(rs, path)
}
