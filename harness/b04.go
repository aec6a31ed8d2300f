package main

import (
	"strconv"

	"github.com/meilihao/water/binding"
)

type bLists struct {
	S  string   `form:"k" uri:"k" header:"k"`
	L  []string `form:"k" uri:"k" header:"k"`
	P  *string  `form:"k" uri:"k" header:"k"`
	In struct {
		L []string `form:"k" uri:"k" header:"k"`
	}
	O []string  `form:"o" uri:"o" header:"o"`
	Q []*string `form:"k" uri:"k" header:"k"`
}

type bLists2 struct { // Bind2 reads structure fields as JSON and has no lists of pointers
	S string   `form:"k" uri:"k" header:"k"`
	L []string `form:"k" uri:"k" header:"k"`
	P *string  `form:"k" uri:"k" header:"k"`
	O []string `form:"o" uri:"o" header:"o"`
}

func bVals(name string, max, size int) []string {
	vals := []string{}
	for i, n := 0, vChoose(name, max)+1; i < n; i++ {
		v := vStr(name+strconv.Itoa(i), 0, size)
		if size == 0 {
			v = strconv.Itoa(i)
		}
		vals = append(vals, v)
	}
	return vals
}

// all values in order for lists, the first for single fields, whatever the lists held before
func H_B04_lists() {
	how := vChoose("how", bSources)
	legacy := how >= 5 && how <= 8 || how == 10
	size := 1
	if how >= 9 {
		size = 0
	}
	vals := bVals("v", vB(4, 6), size)
	old := []string{"a", "b", "c", "d", "e"}[:vChoose("old", 2)*5]
	old2 := append([]string{}, old...)
	const msg = "a list field does not hold all values of its key in order"
	m := map[string][]string{"k": vals}
	if vChoose("other", 2) == 1 {
		m["o"] = []string{"x", "y"}
	}
	given := append([]string{}, vals...)
	var s string
	var p *string
	if vChoose("setp", 2) == 1 { // a pointer that is set already
		x := "old"
		p = &x
	}
	var l, o []string
	if legacy {
		t := bLists2{S: "old", P: p, L: old, O: old}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		s, p, l, o = t.S, t.P, t.L, t.O
	} else {
		t := bLists{S: "old", P: p, L: old, O: old}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		s, p, l, o = t.S, t.P, t.L, t.O
		vAssert(eqStrs(t.In.L, given), msg)
		vAssert(len(t.Q) == len(given), msg)
		for i := range t.Q {
			vAssert(t.Q[i] != nil && *t.Q[i] == given[i], msg)
		}
	}
	vAssert(eqStrs(l, given), msg)
	vAssert(s == given[0] && p != nil && *p == given[0], "a single field does not hold the first value of its key")
	if m["o"] != nil {
		vAssert(eqStrs(o, []string{"x", "y"}), msg)
	} else {
		vAssert(eqStrs(o, old2), "a list no key names was changed")
	}
	vAssert(eqStrs(vals, given), "binding changed the values of the request")
	vReach("end")
}

// lists of numbers and truth values
func H_B04_converted() {
	how := vChoose("how", bSources)
	type conv struct {
		I []int    `form:"n" uri:"n" header:"n"`
		U []uint16 `form:"n" uri:"n" header:"n"`
		S []string `form:"n" uri:"n" header:"n"`
		B []bool   `form:"b" uri:"b" header:"b"`
		F int64    `form:"n" uri:"n" header:"n"`
	}
	n := vChoose("n", vB(4, 5)) + 1
	var nums, bools []string
	var want []int
	var wantB []bool
	for i := 0; i < n; i++ {
		d := vInt("d"+strconv.Itoa(i), 0, 9)
		want = append(want, i*10+d)
		nums = append(nums, strconv.Itoa(i)+string([]byte{byte('0' + d)}))
		b := vChoose("b"+strconv.Itoa(i), 2) == 1
		wantB = append(wantB, b)
		bools = append(bools, strconv.FormatBool(b))
	}
	var t conv
	vAssert(bindVia(how, &t, map[string][]string{"n": nums, "b": bools}) == nil, "binding fails")
	const msg = "a list does not hold all values of its key, converted and in order"
	vAssert(len(t.I) == n && len(t.U) == n && len(t.S) == n && len(t.B) == n, msg)
	for i := 0; i < n; i++ {
		vAssert(t.I[i] == want[i] && int(t.U[i]) == want[i] && t.S[i] == nums[i] && t.B[i] == wantB[i], msg)
	}
	vAssert(int(t.F) == want[0], "a single field does not hold the first value of its key")
	vReach("end")
}

// maps receive every key: the last value, or all of them
func H_B04_maps() {
	how := []int{0, 1, 2, 3, 4, 9, 5, 6, 10}[vChoose("how", vB(6, 9))]
	legacy := how >= 5 && how <= 8 || how == 10
	vAssume(!legacy || how != 7)
	m := map[string][]string{}
	given := map[string][]string{}
	keys := []string{"A", "Bb"}
	if vChoose("symk", 2) == 1 && how != 3 && how < 9 {
		k := vStr("k", 0, 2)
		vAssume(vAnd(vAnd(k != "A", k != "Bb"), k != "0"))
		keys = append(keys, k)
	}
	for i, k := range keys {
		if n := vChoose("n"+strconv.Itoa(i), 3); n > 0 {
			for j := 0; j < n; j++ {
				m[k] = append(m[k], strconv.Itoa(j)+vStr("v"+strconv.Itoa(i)+strconv.Itoa(j), 0, 1))
			}
			given[k] = append([]string{}, m[k]...)
		}
	}
	void := vChoose("void", 2) == 1 && how < 9
	if void { // a key without any value keeps no other from the map
		m["0"] = []string{}
	}
	old := vChoose("old", 3)
	const msg = "a map does not hold every key with the values sent"
	if vChoose("single", 2) == 1 {
		var t map[string]string
		if old > 0 || legacy {
			t = map[string]string{}
		}
		if old == 2 {
			t["A"], t["Z"] = "old", "old"
		}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		for _, k := range keys {
			v := given[k]
			if v == nil {
				continue
			}
			g, ok := t[k]
			vAssert(ok && g == v[len(v)-1], msg)
		}
		if void {
			delete(t, "0")
		}
		n := len(given)
		if old == 2 {
			n++
			if given["A"] == nil {
				n++
				vAssert(t["A"] == "old", msg)
			}
			if given["Z"] == nil {
				vAssert(t["Z"] == "old", msg)
			} else {
				n--
			}
		}
		vAssert(len(t) == n, msg)
	} else {
		var t map[string][]string
		if old > 0 || legacy {
			t = map[string][]string{}
		}
		if old == 2 {
			t["A"], t["Z"] = []string{"old", "x"}, nil
		}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		for _, k := range keys {
			if given[k] != nil {
				vAssert(eqStrs(t[k], given[k]), msg)
			}
		}
		if void {
			delete(t, "0")
		}
		n := len(given)
		if old == 2 {
			n++
			if given["A"] == nil {
				n++
				vAssert(eqStrs(t["A"], []string{"old", "x"}), msg)
			}
			if given["Z"] != nil {
				n--
			}
		}
		vAssert(len(t) == n, msg)
	}
	vReach("end")
}

// MapForm fills maps for every tag name alike
func H_B04_mapform() {
	tag := []string{"form", "uri", "header", "x", ""}[vChoose("tag", 5)]
	k, v, w := vStr("k", 0, 2), vStr("v", 0, 2), vStr("w", 0, 1)
	t := map[string]string{}
	u := map[string][]string{}
	vAssert(binding.MapForm(&t, map[string][]string{k: {v, w}}, nil, tag) == nil && len(t) == 1 && t[k] == w, "the map does not hold the last value")
	vAssert(binding.MapForm(&u, map[string][]string{k: {v, w}}, nil, tag) == nil && len(u) == 1 && eqStrs(u[k], []string{v, w}), "the map does not hold all values")
	vReach("end")
}

// targets that are filled already, also with lists that other fields share: a named field takes the new values, also
// empty ones, and nothing else changes
func H_B04_filled() {
	how := vChoose("how", bSources)
	type shared struct {
		A []string `form:"a" uri:"a" header:"a"`
		B []string `form:"b" uri:"b" header:"b"`
		I []int    `form:"i" uri:"i" header:"i"`
		J []int    `form:"j" uri:"j" header:"j"`
	}
	n := vChoose("n", 4) + 1
	var vals, nums []string
	for i := 0; i < n; i++ {
		vals = append(vals, vStr("v"+strconv.Itoa(i), 0, 1))
		nums = append(nums, "7")
	}
	room := vChoose("room", 2) == 1
	list, ints := []string{"x", "y"}, []int{1, 2}
	if room {
		list, ints = append(make([]string, 0, 9), "x", "y"), append(make([]int, 0, 9), 1, 2)
	}
	t := shared{A: list, B: list, I: ints, J: ints[:1]}
	m := map[string][]string{"a": append([]string{}, vals...), "i": nums}
	vAssert(bindVia(how, &t, m) == nil, "binding fails")
	vAssert(eqStrs(t.A, vals) && len(t.I) == n && t.I[0] == 7, "a list field does not hold all values of its key in order")
	vAssert(eqStrs(list, []string{"x", "y"}) && eqStrs(t.B, list) && ints[0] == 1 && ints[1] == 2, "binding one field changes a list that another one holds")
	vAssert(len(t.J) == 1 && t.J[0] == 1, "a list no key names was changed")
	t.A[0] = "changed"
	vAssert(eqStrs(m["a"], vals), "binding changed the values of the request")
	vReach("end")
}

// maps that hold something: every key sent takes its new value, also an empty one, the others stay
func H_B04_filled_maps() {
	how := []int{0, 1, 2, 3, 4, 9, 5, 6, 10}[vChoose("how", 9)]
	n := vChoose("n", 3) + 1
	var vals []string
	for i := 0; i < n; i++ {
		vals = append(vals, vStr("v"+strconv.Itoa(i), 0, 1))
	}
	m := map[string][]string{"A": vals}
	if vChoose("single", 2) == 1 {
		t := map[string]string{"A": "old", "Z": "kept"}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		vAssert(len(t) == 2 && t["A"] == vals[n-1] && t["Z"] == "kept", "a map does not hold every key with the values sent")
	} else {
		old := []string{"old", "older", "oldest"}
		t := map[string][]string{"A": old, "Z": {"kept"}}
		vAssert(bindVia(how, &t, m) == nil, "binding fails")
		vAssert(len(t) == 2 && eqStrs(t["A"], vals) && eqStrs(t["Z"], []string{"kept"}), "a map does not hold every key with the values sent")
		vAssert(eqStrs(old, []string{"old", "older", "oldest"}), "binding one field changes a list that another one holds")
	}
	vReach("end")
}
