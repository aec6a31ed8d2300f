package main

import (
	"time"

	"github.com/meilihao/water"
)

// modification second: any value around several magnitudes, also before 1970
func stamp(name string, m int) int64 {
	switch m {
	case 0:
		return int64(vInt(name, 0, 300))
	case 1:
		return int64(vInt(name, 1600000000, 1900000000))
	case 2:
		return int64(vInt(name, -300, 300))
	}
	return int64(vInt(name, 1<<32-20, 1<<32+20))
}

// the first form: equal exactly for the same second and size
func H_P02_tag1() {
	ma, mb := vChoose("ma", 4), vChoose("mb", 4)
	a, b := stamp("a", ma), stamp("b", mb)
	na, nb := vInt("na", 0, 999999999), vInt("nb", 0, 999999999)
	x, y := int64(vInt("x", 0, vB(5000, 1<<20))), int64(vInt("y", 0, vB(5000, 1<<20)))
	ta, tb := water.GenerateETag(time.Unix(a, int64(na)), x), water.GenerateETag(time.Unix(b, int64(nb)), y)
	vAssert((ta == tb) == vAnd(a == b, x == y), "entity tags are equal for different versions, or different for equal ones")
	vReach("end")
}

// large sizes and times
func H_P02_large() {
	a, b := int64(vInt("a", 1<<34, 1<<35-1)), int64(vInt("b", 1<<34, 1<<35-1))
	x, y := vI64("x"), vI64("y")
	vAssume(vAnd(x >= 1<<59, y >= 1<<59))
	ta, tb := water.GenerateETag(time.Unix(a, 0), x), water.GenerateETag(time.Unix(b, 5), y)
	vAssert((ta == tb) == vAnd(a == b, x == y), "entity tags are equal for different versions, or different for equal ones")
	vReach("end")
}

// the second form: the name counts, too
func H_P02_tag2() {
	m := vChoose("m", 3)
	a, b := stamp("a", m), stamp("b", m)
	x, y := int64(vInt("x", 0, vB(300, 5000))), int64(vInt("y", 0, vB(300, 5000)))
	p, q := vStr("p", 0, vB(2, 3)), vStr("q", 0, vB(2, 3))
	ta, tb := water.GenerateETag2(time.Unix(a, 0), x, p), water.GenerateETag2(time.Unix(b, 0), y, q)
	vAssert((ta == tb) == vAnd(a == b, x == y, p == q), "entity tags are equal for different versions, or different for equal ones")
	vReach("end")
}

// a tag is text that can be sent in a header
func H_P02_text() {
	a, x := stamp("a", vChoose("m", 4)), int64(vInt("x", 0, 1<<40))
	p := vStr("p", 0, 2)
	for _, t := range []string{water.GenerateETag(time.Unix(a, 0), x), water.GenerateETag2(time.Unix(a, 0), x, p)} {
		vAssert(t != "", "an entity tag is empty")
		for i := 0; i < len(t); i++ {
			vAssert(vAnd(t[i] > 0x20, t[i] < 0x7f), "an entity tag has a character that is not allowed in a header")
		}
	}
	vReach("end")
}
