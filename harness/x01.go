package main

import (
	"github.com/meilihao/water"
)

type chainEv struct {
	k byte // S start, E end, N before Next, R after Next, W write
	i int
}

// run a chain of n handlers with the given scripts (strings over W: write, N: continue) and judge the trace.
func checkChain(scripts []string, split int) {
	var tr []chainEv
	n := len(scripts)
	r := water.NewRouter()
	mk := func(i int) interface{} {
		return func(c *water.Context) {
			tr = append(tr, chainEv{'S', i})
			for j := 0; j < len(scripts[i]); j++ {
				op := scripts[i][j]
				if op == '.' {
					break
				}
				switch op {
				case 'W':
					c.WriteHeader(200 + i)
					tr = append(tr, chainEv{'W', i})
				case 'B':
					c.Write(nil)
					tr = append(tr, chainEv{'W', i})
				case 'N':
					tr = append(tr, chainEv{'N', i})
					c.Next()
					tr = append(tr, chainEv{'R', i})
				}
			}
			tr = append(tr, chainEv{'E', i})
		}
	}
	var own []interface{}
	for i := range scripts {
		if i < split {
			r.Use(mk(i))
		} else {
			own = append(own, mk(i))
		}
	}
	r.GET("/", own...)
	e := r.Handler()
	serve(e, newReq("GET", "/"))

	started, ended := make([]int, n), make([]int, n)
	last, written, anyWrite := -1, false, false
	for k, ev := range tr {
		switch ev.k {
		case 'S':
			started[ev.i]++
			vAssert(started[ev.i] == 1, "a handler starts more than once")
			vAssert(ev.i > last, "handlers do not start in chain order")
			if k == 0 {
				vAssert(ev.i == 0, "the chain does not start with its first handler")
			} else if tr[k-1].k != 'N' {
				vAssert(!written, "a handler is started without a continue although the response is written")
				vAssert(ev.i == last+1, "a handler is skipped although nothing was written")
			} else if !written {
				vAssert(ev.i == last+1, "a handler is skipped although nothing was written")
			}
			last = ev.i
		case 'E':
			ended[ev.i]++
		case 'W':
			written, anyWrite = true, true
		case 'R':
			for i := ev.i + 1; i < n; i++ {
				vAssert(started[i] == ended[i], "code after a continue runs before the continued handlers returned")
				if !written {
					vAssert(ended[i] == 1, "a continue returns before all later handlers ran although nothing was written")
				}
			}
			// at the first continue of the furthest handler the next one runs
			if ev.i+1 < n && !anyBefore(tr, k, ev.i+1) {
				vAssert(started[ev.i+1] == 1, "a continue does not run the next handler")
			}
		}
	}
	vAssert(started[0] == 1, "the first handler does not run")
	if !anyWrite {
		for i := range scripts {
			vAssert(ended[i] == 1, "nobody wrote but a handler did not run")
		}
	}
}

// anyBefore: some continue of a handler below i returned before event k (so i may have been passed over).
func anyBefore(tr []chainEv, k, i int) bool {
	for _, e := range tr[:k] {
		if e.k == 'R' && e.i < i {
			return true
		}
	}
	return false
}

// every behaviour of a chain: what each handler does next is a symbolic byte, read only when the handler gets there
func H_X01_chains() {
	n := 1 + vChoose("n", vB(5, 6))
	s := make([]string, n)
	for i := range s {
		k := vB(2, 2)
		if i == 0 || i == n-1 {
			k = vB(2, 3)
		}
		s[i] = vStrOf("s", k, k, "WN.")
	}
	checkChain(s, 1+len(s)/3-1)
	vReach("end")
}

// longer behaviours of short chains
func H_X01_long() {
	n := 1 + vChoose("n", 3)
	s := make([]string, n)
	for i := range s {
		k := vB(3, 4)
		s[i] = vStrOf("s", k, k, "WNB.")
	}
	checkChain(s, n/2)
	vReach("end")
}

// long chains with few active handlers, at symbolic positions
func H_X01_deep() {
	n := vB(9, 16)
	s := make([]string, n)
	i, j, k := vInt("i", 0, n-1), vInt("j", 0, n-1), vInt("k", 0, n-1)
	a, b := vStrOf("a", 2, 2, "WN."), vStrOf("b", 2, 2, "WN.")
	for x := range s {
		if x == i {
			s[x] += a
		}
		if x == j {
			s[x] += b
		}
		if x == k {
			s[x] += "B"
		}
	}
	checkChain(s, n/2)
	vReach("end")
}

// whether a write happened is decided by data: status and body are symbolic
func H_X01_data() {
	vNoise()
	r := water.NewRouter()
	b := vStr("b", 0, 2)
	c1, c2 := vBool("c1"), vBool("c2")
	log := ""
	r.GET("/<x>", func(c *water.Context) {
		log += "1"
		if c1 {
			c.Header()["Content-Type"] = []string{"x/y"}
			c.Write([]byte(b))
		}
	}, func(c *water.Context) {
		log += "2"
		if c2 {
			c.Next()
			log += "4"
		}
	}, func(c *water.Context) { log += "3"; c.String(201, b) })
	w := serve(r.Handler(), newReq("GET", "/"+vStr("p", 1, 1)))
	vAssume(w.status() != 404)
	switch {
	case c1:
		vAssert(log == "1", "a handler is started without a continue although the response is written")
	case c2:
		vAssert(log == "1234", "handlers do not run in order")
	default:
		vAssert(log == "123", "handlers do not run in order")
	}
	vReach("end")
}
