package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/meilihao/water"
)

// listing counts the lines of a listing.
func listing(s string) map[string]int {
	m := map[string]int{}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		m[l]++
	}
	return m
}

// listApp: routes in nested groups, each with known chain length
type listApp struct {
	e     *water.Engine
	lines []string // of the complete listing
	by    map[string][]string
	uris  map[string]int // method+uri: handlers counted by actually serving a request
}

var listPats = []string{"/", "/a", "/a/b", "/<id>", "/a/<x>/c", "/n/<n ~ \\d+>", "/all/*", "/:gin/y"}

func H_L01_listings() {
	nb, nu := vChoose("nb", 2), vChoose("nu", 2)
	pass := func(c *water.Context) {}
	many := func(n int) []interface{} {
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, pass)
		}
		return l
	}
	r := water.NewRouter()
	if nb > 0 {
		r.Before(many(nb)...)
	}
	if nu > 0 {
		r.Use(many(nu)...)
	}
	var all []string
	by := map[string][]string{}
	add := func(g *water.Router, prefix, m, pat string, own, outer int) {
		reg(g, m, pat, many(own)...)
		uri := prefix + pat
		ms := []string{m}
		if m == "" {
			ms = []string{"GET", "POST", "DELETE", "PUT", "PATCH"}
		}
		for _, x := range ms {
			all = append(all, fmt.Sprintf("[%-7s : %d] %s", x, outer+own, uri))
			by[x] = append(by[x], fmt.Sprintf("[%3d] %s", outer+own, uri))
		}
	}
	n := vChoose("n", 3)
	var used []string
	for i := 0; i < n; i++ {
		p := listPats[vChoose("pat", len(listPats)-i*vB(4, 2))]
		m := []string{"GET", "", "OPTIONS", "POST"}[vChoose("m", vB(3-i, 4-i))]
		for _, u := range used {
			vAssume(u != p)
		}
		used = append(used, p)
		add(r, "", m, p, 1+vChoose("own", 2), nb+nu)
	}
	ng := vChoose("group", 3-n*vB(1, 0))
	if ng > 0 {
		gu := vChoose("gu", 2)
		r.Group("/g", func(g *water.Router) {
			if gu > 0 {
				g.Use(many(gu)...)
			}
			add(g, "/g", "GET", "/x", 1, nb+nu+gu)
			if ng == 2 {
				g.Group("/h", func(h *water.Router) {
					h.Use(many(2)...)
					add(h, "/g/h", "PUT", "/<y>", 1, nb+nu+gu+2)
				})
			}
		})
	}
	e := r.Handler(water.WithStaticRouter(nb == 1))
	got := vCapture(func() { e.PrintRawAllRoutes() })
	want := "no route\n"
	if len(all) > 0 {
		want = strings.Join(all, "\n") + "\n"
	}
	vAssert(got == want, "the listing does not show every route once with the length of its chain, in the order of registration")
	m := []string{"GET", "POST", "PUT", "OPTIONS", "HEAD", "PATCH"}[vChoose("list", vB(4, 6))]
	l := by[m]
	got = vCapture(func() { e.PrintRawRoutes(m) })
	if len(l) == 0 {
		vAssert(got == "no route\n", "routes of another method are listed")
	} else {
		lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
		sort.Slice(l, func(i, j int) bool { return l[i][6:] < l[j][6:] })
		vAssert(eqStrs(lines, l), "the listing of a method does not show each of its routes once with the length of its chain")
	}
	// the tree: every route's last piece with its chain length
	got = vCapture(func() { e.PrintRouterTree(m) })
	if len(l) == 0 {
		vAssert(got == "no route\n", "routes of another method are in the tree listing")
	} else {
		ends := 0
		for _, x := range strings.Split(strings.TrimSuffix(got, "\n"), "\n") {
			if strings.HasSuffix(x, "]") && strings.Contains(x, " [") {
				ends++
			}
		}
		vAssert(ends == len(l), "the tree listing does not show every route")
	}
	// the raw tree: one line per route and group
	got = vCapture(func() { e.PrintRawRouter() })
	routes := 0
	for _, x := range strings.Split(got, "\n") {
		if strings.HasSuffix(x, "]") {
			routes++
		}
	}
	vAssert(routes == len(all), "the router listing does not show every route")
	for _, a := range all {
		i := strings.Index(a, "] ")
		head := a[:i+1]
		vAssert(strings.Contains(got, " "+head+"\n"), "the router listing does not show a route with the length of its chain")
	}
	vReach("end")
}

// the number listed is the number of handlers that run
func H_L01_real() {
	vNoise()
	nb, nu, gu, own := vChoose("nb", 3), vChoose("nu", 3), vChoose("gu", 3), 1+vChoose("own", 3)
	ran := 0
	count := func(c *water.Context) { ran++ }
	many := func(n int) []interface{} {
		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, count)
		}
		return l
	}
	r := water.NewRouter()
	if nb > 0 {
		r.Before(many(nb)...)
	}
	if nu > 0 {
		r.Use(many(nu)...)
	}
	lit := vStrOf("lit", 1, 2, "abz")
	mi := vChoose("m", len(allMethods))
	r.Group("/g", func(g *water.Router) {
		if gu > 0 {
			g.Use(many(gu)...)
		}
		reg(g, allMethods[mi], "/"+lit, many(own)...)
	})
	e := r.Handler()
	serve(e, newReq(allMethods[mi], "/g/"+lit))
	vAssert(ran == nb+nu+gu+own, "not every handler of the chain ran")
	got := vCapture(func() { e.PrintRawAllRoutes() })
	vAssert(got == fmt.Sprintf("[%-7s : %d] %s\n", allMethods[mi], ran, "/g/"+lit), "the listed chain length is not the number of handlers that run")
	got = vCapture(func() { e.PrintRawRoutes(allMethods[mi]) })
	vAssert(got == fmt.Sprintf("[%3d] %s\n", ran, "/g/"+lit), "the listed chain length is not the number of handlers that run")
	got = vCapture(func() { e.PrintRouterTree(allMethods[mi]) })
	vAssert(strings.Contains(got, lit) && strings.Contains(got, fmt.Sprintf("[%3d]\n", ran)), "the listed chain length is not the number of handlers that run")
	got = vCapture(func() { e.PrintRawRouter() })
	vAssert(strings.Contains(got, fmt.Sprintf(" [%-7s : %d]\n", allMethods[mi], ran)), "the listed chain length is not the number of handlers that run")
	vReach("end")
}

// routes that look alike are all listed: letter cases, trailing slashes, names, escapes
func H_L01_alike() {
	pass := func(c *water.Context) {}
	pats := []string{"/a", "/A", "/aa", "/a-b", "/a_b", "/<id>/x", "/%41", "/a.b", "/ä", "/Ä", "/a0", "/a00", "/b/a", "/B/A", "/B/a", "/b/A"}
	r := water.NewRouter()
	k := vChoose("from", len(pats))
	n := 2 + vChoose("n", 4)
	var all, l []string
	for i := 0; i < n; i++ {
		p := pats[(k+i)%len(pats)]
		own := 1 + i%2
		hs := []interface{}{pass, pass}[:own]
		reg(r, "GET", p, hs...)
		all = append(all, fmt.Sprintf("[%-7s : %d] %s", "GET", own, p))
		l = append(l, fmt.Sprintf("[%3d] %s", own, p))
	}
	e := r.Handler(water.WithStaticRouter(vChoose("static", 2) == 1))
	got := vCapture(func() { e.PrintRawAllRoutes() })
	vAssert(got == strings.Join(all, "\n")+"\n", "the listing does not show every route once with the length of its chain, in the order of registration")
	got = vCapture(func() { e.PrintRawRoutes("GET") })
	have := listing(got)
	vAssert(len(have) == n, "the listing of a method does not show each of its routes once with the length of its chain")
	for _, x := range l {
		vAssert(have[x] == 1, "the listing of a method does not show each of its routes once with the length of its chain")
	}
	got = vCapture(func() { e.PrintRawRouter() })
	vAssert(strings.Count(got, "[GET ") == n, "the raw tree does not show every route")
	got = vCapture(func() { e.PrintRouterTree("GET") })
	ends := 0
	for _, x := range strings.Split(strings.TrimSuffix(got, "\n"), "\n") {
		if strings.HasSuffix(x, "]") && strings.Contains(x, " [") {
			ends++
		}
	}
	vAssert(ends == n, "the tree listing does not show every route")
	vReach("end")
}
