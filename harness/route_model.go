package main

import (
	"strconv"
	"strings"

	"github.com/meilihao/water"
)

// A reference model of routing, written from the documented rules: it looks at every route separately and then
// picks the best matching one; it shares nothing with the tree the framework builds.

const (
	kLit = iota
	kRe
	kHold
	kAll
)

type seg struct {
	text  string
	kind  int
	names []string
	re    func(s string) []string // captures, nil when it does not match
}

func lit(s string) seg { return seg{text: s, kind: kLit} }
func hold(n string) seg {
	return seg{text: "<" + n + ">", kind: kHold, names: []string{n}}
}
func ginHold(n string) seg {
	return seg{text: ":" + n, kind: kHold, names: []string{n}}
}
func all(n string) seg { return seg{text: "*" + n, kind: kAll, names: []string{n}} }

// <n ~ ^([0-9]+)$>
func reDigits(n string) seg {
	return seg{text: "<" + n + " ~ ^([0-9]+)$>", kind: kRe, names: []string{n}, re: func(s string) []string {
		ok := len(s) > 0
		for i := 0; i < len(s); i++ {
			ok = vAnd(ok, s[i] >= '0', s[i] <= '9')
		}
		if !ok {
			return nil
		}
		return []string{s}
	}}
}

// <n ~ 7|8> : no capture group, the matched text itself, anywhere in the segment (leftmost)
func reAlt(n string) seg {
	return seg{text: "<" + n + " ~ 7|8>", kind: kRe, names: []string{n}, re: func(s string) []string {
		for i := 0; i < len(s); i++ {
			if s[i] == '7' {
				return []string{"7"}
			}
			if s[i] == '8' {
				return []string{"8"}
			}
		}
		return nil
	}}
}

// <p,q ~ z(d*)h(u)b> : two groups, leftmost match anywhere in the segment
func reTwo(p, q string) seg {
	return seg{text: "<" + p + "," + q + " ~ z(d*)h(u)b>", kind: kRe, names: []string{p, q}, re: func(s string) []string {
		for i := 0; i < len(s); i++ {
			if s[i] != 'z' {
				continue
			}
			j := i + 1
			for j < len(s) && s[j] == 'd' {
				j++
			}
			if j+2 < len(s) && s[j] == 'h' && s[j+1] == 'u' && s[j+2] == 'b' {
				return []string{s[i+1 : j], "u"}
			}
		}
		return nil
	}}
}

type mroute []seg

func (r mroute) pattern() string {
	if len(r) == 0 {
		return "/"
	}
	s := ""
	for _, x := range r {
		s += "/" + x.text
	}
	return s
}

type binding_ struct{ k, v string }

// match of one route alone: ok and the bound parameters.
func (r mroute) match(segs []string) (bool, []binding_) {
	if len(r) == 0 {
		r = mroute{lit("")}
	}
	n := len(segs)
	if n < len(r) {
		return false, nil
	}
	last := r[len(r)-1]
	if n > len(r) && last.kind != kAll {
		return false, nil
	}
	var bs []binding_
	glob := 0
	for i, x := range r {
		final := i == len(r)-1
		switch x.kind {
		case kLit:
			if x.text != segs[i] {
				return false, nil
			}
		case kRe:
			c := x.re(segs[i])
			if c == nil {
				return false, nil
			}
			for j, nm := range x.names {
				if nm != "_" {
					bs = append(bs, binding_{nm, c[j]})
				}
			}
		case kHold:
			if x.names[0] != "_" {
				bs = append(bs, binding_{x.names[0], segs[i]})
			}
		case kAll:
			v := segs[i]
			nm := x.names[0]
			if final || nm != "" {
				v = strings.Join(segs[i:], "/")
			}
			if nm == "" {
				nm = "*" + strconv.Itoa(glob)
			}
			if nm != "_" {
				bs = append(bs, binding_{nm, v})
			}
			glob++
		}
	}
	return true, bs
}

// before reports whether route a has priority over b on a path of n segments both match.
func before(rs []mroute, a, b int, n int) bool {
	for k := 0; ; k++ {
		x, y := segAt(rs[a], k), segAt(rs[b], k)
		xEnd, yEnd := k == len(rs[a])-1 || len(rs[a]) == 0, k == len(rs[b])-1 || len(rs[b]) == 0
		if xEnd != yEnd {
			return yEnd // the one that continues comes first
		}
		if x.kind != y.kind {
			return x.kind < y.kind
		}
		if x.text != y.text {
			return firstWith(rs, rs[a], k) < firstWith(rs, rs[b], k)
		}
		if xEnd {
			return a < b
		}
	}
}

func segAt(r mroute, k int) seg {
	if len(r) == 0 {
		return lit("")
	}
	return r[k]
}

// firstWith: the first route that starts with r's first k+1 segments, ending there or not just as r does.
func firstWith(rs []mroute, r mroute, k int) int {
	for i, o := range rs {
		if len(o) <= k || (len(o) == k+1) != (len(r) == k+1) {
			continue
		}
		same := true
		for j := 0; j <= k; j++ {
			if o[j].text != r[j].text {
				same = false
			}
		}
		if same {
			return i
		}
	}
	return len(rs)
}

func pathSegs(path string) []string {
	p := strings.TrimPrefix(path, "/")
	p = strings.TrimSuffix(p, "/")
	return strings.Split(p, "/")
}

// refRoute: index of the route that must serve path, -1 for none.
func refRoute(rs []mroute, path string) (int, []binding_) {
	segs := pathSegs(path)
	best := -1
	var bb []binding_
	for i := range rs {
		ok, bs := rs[i].match(segs)
		if ok && (best < 0 || before(rs, i, best, len(segs))) {
			best, bb = i, bs
		}
	}
	return best, bb
}

// app is an application with one recording handler per route.
type app struct {
	e      *water.Engine
	hit    int
	runs   int
	params water.Params
	full   string
}

func buildApp(rs []mroute, opts ...water.Option) *app {
	a := &app{hit: -1}
	r := water.NewRouter()
	for i := range rs {
		i := i
		r.GET(rs[i].pattern(), func(ctx *water.Context) {
			a.hit = i
			a.runs++
			a.params = ctx.Params
			a.full = ctx.FullPath()
			ctx.WriteHeader(299)
		})
	}
	a.e = r.Handler(opts...)
	return a
}

func (a *app) get(path string) *rec {
	a.hit, a.runs, a.params, a.full = -1, 0, nil, ""
	return serve(a.e, newReq("GET", path))
}

func checkParams(p water.Params, want []binding_, pre string) {
	vAssert(len(p) == len(want), pre+"a parameter is missing or left over")
	for _, b := range want {
		v, ok := p[b.k]
		vAssert(ok, pre+"a parameter of the matched route is missing")
		vAssert(v == b.v, pre+"a parameter does not hold the text its wildcard consumed")
	}
}

func checkRoute(rs []mroute, path string) {
	a := buildApp(rs)
	want, bs := refRoute(rs, path)
	w := a.get(path)
	vObs("hit", a.hit)
	if want < 0 {
		vReach("none")
		vAssert(a.runs == 0, "a handler ran although no route matches the path")
		vAssert(w.status() == 404, "an unmatched path is not answered 404")
		return
	}
	vReach("matched")
	vAssert(a.runs > 0, "no handler ran although a route matches the path")
	vAssert(a.hit == want, "the request was not served by the highest-priority matching route")
	vAssert(a.runs == 1, "the handler did not run exactly once")
	vAssert(w.status() == 299, "the status is not the one of the matched route")
	_ = bs
}
