package main

import (
	"strings"

	"github.com/meilihao/water"
)

func checkBinding(rs []mroute, path string, opts ...water.Option) {
	a := buildApp(rs, opts...)
	want, bs := refRoute(rs, path)
	a.get(path)
	vAssume(want >= 0 && a.hit == want) // which route is served is R01
	vReach("matched")
	checkParams(a.params, bs, "")
}

// abandoned branches of every kind in front of the route that finally matches
func H_R02_abandoned() {
	// every wildcard of a table has its own name, so whatever is left behind is seen
	a, b := lit("a"), lit("b")
	first := []seg{a, reDigits("n"), reAlt("k"), reTwo("p", "q"), hold("x"), all(""), all("g")}
	second := []seg{b, reDigits("m"), hold("z"), all("")}
	i, j := vChoose("first1", len(first)), vChoose("first2", len(first))
	s := vChoose("second", len(second))
	l := lit("never")
	rs := []mroute{{first[i], second[s], l}, {first[j], hold("v"), hold("w")}, {first[j], all("t")}, {all("all")}}
	vAssume(i < 6 || j < 6)
	path := "/" + vStr("s1", 0, 1) + "/" + vStr("s2", 0, 1)
	switch vChoose("more", 3) {
	case 1:
		path += "/" + vStr("s3", 0, 1)
	case 2:
		path += "/never"
	}
	checkBinding(rs, path)
}

// two groups in one segment, anywhere in it; groups may be empty
func H_R02_groups() {
	rs := []mroute{{lit("d"), reTwo("p", "q")}, {lit("d"), reTwo("r", "_"), lit("t")}, {hold("x"), reTwo("_", "u"), all("")}, {hold("y"), hold("z")}}
	n := vB(5, 7)
	s := vStrOf("seg", 0, n, "zdhub")
	path := "/" + string([]byte{vByte("first")}) + "/" + s
	switch vChoose("more", 3) {
	case 1:
		path += "/t"
	case 2:
		path += "/" + vStr("rest", 0, 2)
	}
	vAssume(path[1] != '/')
	checkBinding(rs, path)
}

// placeholders and regular expressions take the whole text of their segment, all bytes
func H_R02_text() {
	rs := []mroute{{lit("u"), hold("x"), hold("y"), reDigits("n")}, {lit("u"), hold("_"), hold("z")}, {lit("u"), all("rest")}}
	path := "/u/" + vStr("s1", 0, vB(3, 5))
	switch vChoose("more", 3) {
	case 1:
		path += "/" + vStr("s2", 0, 2)
	case 2:
		path += "/" + vStr("s2", 0, 1) + "/" + vStr("s3", 0, 2)
	}
	checkBinding(rs, path)
}

// catch-alls: named, unnamed and ignored ones, in the middle and at the end, numbered in order
func H_R02_glob() {
	pool := []seg{all(""), all("f"), all("_"), hold("x"), lit("a")}
	n := 1 + vChoose("len", 3)
	var r mroute
	for i := 0; i < n; i++ {
		k := vChoose("seg", len(pool))
		if i == n-1 {
			vAssume(k < 3)
		}
		if k == 1 || k == 3 { // names differ
			for _, o := range r {
				vAssume(o.text != pool[k].text)
			}
		}
		r = append(r, pool[k])
	}
	m := 1 + vChoose("nseg", 5)
	path := ""
	alt := vChoose("alt", m)
	for i := 0; i < m; i++ {
		s := "a"
		if i == alt {
			s = vStr("s", 0, 2)
		} else if i%2 == 1 {
			s = "bc"
		}
		path += "/" + s
	}
	if vChoose("slash", 2) == 1 {
		path += "/"
	}
	checkBinding([]mroute{r, {lit("zz"), hold("q")}}, path)
}

// a long remainder and long segments are bound whole
func H_R02_long() {
	long := strings.Repeat("0123456789", 7)
	cut := []int{1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70}[vChoose("cut", 11)]
	b := []byte(long[:cut])
	b[vChoose("pos", 2)*(cut-1)] = vByte("byte")
	s := string(b)
	rs := []mroute{{lit("l"), hold("x")}, {lit("m"), all("f")}, {lit("n"), reDigits("d"), all("")}}
	path := []string{"/l/", "/m/", "/n/"}[vChoose("table", 3)] + s
	if vChoose("more", 2) == 1 {
		path += "/" + s
	}
	checkBinding(rs, path)
}

// one parameter map per request: what a handler keeps from one request is not changed by a later one
func H_R02_fresh() {
	vNoise()
	rs := []mroute{{lit("u"), hold("x")}, {hold("a"), hold("b"), hold("c")}, {all("rest")}}
	ap := buildApp(rs)
	p1, p2 := "/u/"+vStr("s1", 0, 1), "/v/"+vStr("s2", 0, 1)+"/c"
	w1, b1 := refRoute(rs, p1)
	ap.get(p1)
	vAssume(w1 >= 0 && ap.hit == w1)
	kept := ap.params
	ap.get(p2)
	vReach("second")
	checkParams(kept, b1, "after a later request: ")
}

// regular expressions written with the characters patterns are made of
func H_R02_regexp() {
	two := func(l, r string) func(s string) []string { // ^(l.r)$
		return func(s string) []string {
			if len(s) == len(l)+1+len(r) && s[:len(l)] == l && s[len(l)+1:] == r && s[len(l)] != '\n' {
				return []string{s}
			}
			return nil
		}
	}
	cut := func(mid string) func(s string) []string { // ^(x*)mid(x*)$
		return func(s string) []string {
			i := strings.Index(s, mid)
			if i < 0 {
				return nil
			}
			l, r := s[:i], s[i+1:]
			if strings.Trim(l, "x") != "" || strings.Trim(r, "x") != "" {
				return nil
			}
			return []string{l, r}
		}
	}
	pool := []seg{
		{text: "<a ~ ^(x~.)$>", re: two("x~", "")},
		{text: "<a ~ ^(.>x)$>", re: two("", ">x")},
		{text: "<a ~ ^(x:.)$>", re: two("x:", "")},
		{text: "<a:t ~ ^(.:x)$>", re: two("", ":x")},
		{text: "< a  ~  ^(x.<)$ >", re: two("x", "<")},
		{text: "<a ~ ^(?P<n>x.>)$>", re: two("x", ">")},
		{text: "<a ~ ^x.~$>", re: two("x", "~")},
		{text: "< a , b ~ ^(x*):(x*)$>", names: []string{"a", "b"}, re: cut(":")},
		{text: "<b,a ~ ^(x*)~(x*)$>", names: []string{"b", "a"}, re: cut("~")},
		{text: "<_, b:t ~ ^(x*)>(x*)$>", names: []string{"_", "b"}, re: cut(">")},
	}
	k := vChoose("re", len(pool))
	x := pool[k]
	x.kind = kRe
	if x.names == nil {
		x.names = []string{"a"}
	}
	rs := []mroute{{lit("r"), x}, {x, lit("s")}, {lit("r"), hold("c")}}
	s := vStrOf("seg", 0, vB(3, 4), "x~:<>,y")
	path := "/r/" + s
	if vChoose("end", 2) == 1 {
		path = "/" + s + "/s"
	}
	checkBinding(rs, path)
}

// one segment with up to twelve groups, in the middle of a route and at its end
func H_R02_many() {
	n := vChoose("n", vB(12, 14)) + 1
	at := vChoose("at", n)
	skip := []int{-1, 0, n - 1}[vChoose("skip", 3)]
	sub := vChoose("sub", 2) == 1
	digit := vStrOf("digit", 1, 2, "0123456789")
	names, exp, text := "", "", ""
	var want []string
	for i := 0; i < n; i++ {
		v := num(i * 7)
		if i == at {
			v = digit
		}
		want = append(want, v)
		if i > 0 {
			names, exp, text = names+",", exp+"-", text+"-"
		}
		if i == skip {
			names += "_"
		} else {
			names += "g" + num(i)
		}
		exp += "([0-9]+)"
		text += v
	}
	r := water.NewRouter()
	pat, path := "/<"+names+" ~ ^"+exp+"$>", "/"+text
	if sub {
		pat, path = pat+"/<tail>", path+"/end"
	}
	ran := false
	r.GET(pat, func(c *water.Context) {
		ran = true
		k := 0
		for i := range want {
			v, ok := c.Params["g"+num(i)]
			vAssert(ok == (i != skip), "a named part is not bound, or an unnamed one is")
			if ok {
				k++
				vAssert(v == want[i], "a parameter is not the part of the path it names")
			}
		}
		if sub {
			k++
			vAssert(c.Param("tail") == "end", "a parameter is not the part of the path it names")
		}
		vAssert(len(c.Params) == k, "parameters appear that the route does not name")
	})
	serve(r.Handler(), newReq("GET", path))
	vAssert(ran, "the route does not match")
	vReach("end")
}
