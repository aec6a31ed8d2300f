package main

import (
	"github.com/meilihao/water"
)

type envEnt struct {
	k string
	v interface{}
}

func envGet(m []envEnt, k string) (interface{}, bool) {
	for _, e := range m {
		if e.k == k {
			return e.v, true
		}
	}
	return nil, false
}

// sameVal compares values of the types used below.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return a == nil && b == nil
}

// every sequence of operations over symbolic keys against a list model
func H_X06_history() {
	r := water.NewRouter()
	ran := 0
	r.GET("/", func(c *water.Context) {
		ran++
		vAssert(len(c.Environ) == 0, "the environment is not empty at the start of a request")
		var m []envEnt
		n := vB(3, 4)
		off := vChoose("kinds", 4)
		for i := 0; i < n; i++ {
			k := vStr("k", 0, 1)
			old, has := envGet(m, k)
			switch vChoose("op", 6) {
			case 0, 1:
				var v interface{}
				switch (i + off) % 4 {
				case 0:
					v = int(vI64("v"))
				case 1:
					v = vStr("sv", 0, 1)
				case 2:
					v = vBool("bv")
				}
				var p bool
				if vChoose("via", 2) == 0 {
					_, p = catch(func() { c.Set(k, v) })
				} else {
					_, p = catch(func() { c.Environ.Set(k, v) })
				}
				vAssert(p == has, "setting a key does not panic exactly when it exists")
				if !has {
					m = append(m, envEnt{k, v})
				}
			case 2:
				var g interface{}
				_, p := catch(func() { g = c.Get(k) })
				vAssert(p == !has, "reading a key does not panic exactly when it is missing")
				if has {
					vAssert(sameVal(g, old), "a key does not hold the value of its set")
				}
			case 3:
				g, ok := c.GetMaybe(k)
				vAssert(ok == has, "absence is not reported correctly")
				vAssert(sameVal(g, old), "a key does not hold the value of its set")
			case 4:
				var g interface{}
				_, p := catch(func() { g = c.Environ.Get(k) })
				vAssert(p == !has, "reading a key does not panic exactly when it is missing")
				if has {
					vAssert(sameVal(g, old), "a key does not hold the value of its set")
				}
			case 5:
				vAssert(c.Environ.Has(k) == has, "absence is not reported correctly")
			}
		}
		vAssert(len(c.Environ) == len(m), "the environment holds other keys than the ones set")
		for _, e := range m {
			g, ok := c.GetMaybe(e.k)
			vAssert(ok && sameVal(g, e.v), "a key does not hold the value of its set")
		}
	})
	e := r.Handler()
	serve(e, newReq("GET", "/"))
	vAssert(ran == 1, "the handler did not run")
	vReach("end")
}

// typed reads return the stored value of that type and panic otherwise
func H_X06_typed() {
	r := water.NewRouter()
	r.GET("/", func(c *water.Context) {
		u := vU64("u")
		s := vStr("s", 0, 2)
		b := vBool("b")
		var v interface{}
		st := vChoose("stored", 8)
		switch st {
		case 0:
			v = b
		case 1:
			v = int(u)
		case 2:
			v = int64(u)
		case 3:
			v = uint(u)
		case 4:
			v = u
		case 5:
			v = 1.5
		case 6:
			v = s
		case 7:
			v = int32(u)
		}
		key := "k"
		c.Set(key, v)
		rd := vChoose("read", 7)
		if vChoose("missing", 2) == 1 {
			key = "other"
		}
		ok := false
		_, p := catch(func() {
			switch rd {
			case 0:
				ok = c.Environ.GetBool(key) == b
			case 1:
				ok = c.Environ.GetInt(key) == int(u)
			case 2:
				ok = c.Environ.GetInt64(key) == int64(u)
			case 3:
				ok = c.Environ.GetUint(key) == uint(u)
			case 4:
				ok = c.Environ.GetUint64(key) == u
			case 5:
				ok = c.Environ.GetFloat64(key) == 1.5
			case 6:
				ok = c.Environ.GetString(key) == s
			}
		})
		if key == "k" && rd == st {
			vAssert(!p && ok, "a typed read does not return the stored value")
		} else {
			vAssert(p, "a typed read of a missing key or another type does not panic")
		}
		vAssert(len(c.Environ) == 1, "a typed read changes the environment")
	})
	serve(r.Handler(), newReq("GET", "/"))
	vReach("end")
}

// the environment belongs to one request
func H_X06_requests() {
	vNoise()
	r := water.NewRouter()
	r.Use(func(c *water.Context) {
		vAssert(len(c.Environ) == 0, "the environment is not empty at the start of a request")
		c.Set("mw", 1)
	})
	r.GET("/a", func(c *water.Context) { c.Set(c.Request.Header.Get("K"), 1) })
	r.GET("/b/<x>", func(c *water.Context) { c.Environ["direct"] = 2 })
	r.GET("/p", func(c *water.Context) { c.Set("mw", 2) })
	e := r.Handler(water.WithNoFoundHandlers(func(c *water.Context) {
		vAssert(len(c.Environ) == 0, "the environment is not empty at the start of a request")
		c.Set("nf", true)
	}), water.WithStaticRouter(vChoose("static", 2) == 1))
	for i := 0; i < 3; i++ {
		q := newReq("GET", []string{"/a", "/b/1", "/p", "/none"}[vChoose("p", 4)])
		k := vStrOf("k", 1, 1, "abm")
		q.Header["K"] = []string{k}
		_, p := catch(func() { serve(e, q) })
		vAssert(p == (q.URL.Path == "/p"), "setting a key does not panic exactly when it exists")
	}
	vReach("end")
}
