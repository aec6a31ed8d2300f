package main

type bDefIn struct {
	N string `form:"n,default=nested" uri:"n,default=nested" header:"n,default=nested"`
}

type bDef struct {
	S  string   `form:"s,default=abc" uri:"s,default=abc" header:"s,default=abc"`
	I  int      `form:"i,default=7" uri:"i,default=7" header:"i,default=7"`
	U  uint8    `form:"u,other,default=9,x=y" uri:"u,other,default=9,x=y" header:"u,other,default=9,x=y"`
	B  bool     `form:"b,default=true" uri:"b,default=true" header:"b,default=true"`
	P  *string  `form:"p,default=ptr" uri:"p,default=ptr" header:"p,default=ptr"`
	L  []string `form:"l,default=one" uri:"l,default=one" header:"l,default=one"`
	E  string   `form:"e,default=x=1" uri:"e,default=x=1" header:"e,default=x=1"`
	NS string   `form:"ns,default=" uri:"ns,default=" header:"ns,default="`
	NT string   `form:"nt,defaults=5,dflt" uri:"nt,defaults=5,dflt" header:"nt,defaults=5,dflt"`
	In bDefIn
	bDefEmb
}

type bDefEmb struct {
	M int16 `form:"m,default=-3" uri:"m,default=-3" header:"m,default=-3"`
}

// every field present or absent in turn with every short text, over a fresh or an already filled target
func H_B05_each() {
	how := vChoose("how", bSources)
	keys := []string{"s", "i", "u", "b", "p", "l", "e", "ns", "nt", "n", "m", "none"}
	k := vChoose("k", len(keys))
	val := ""
	if vChoose("empty", 2) == 0 {
		switch keys[k] {
		case "i", "u", "m":
			val = vStrOf("d", 1, 2, "0123456789")
		case "b":
			val = []string{"true", "false", "0", "1"}[vChoose("bool", 4)]
		default:
			val = vStr("v", 1, 2)
		}
	}
	t := bDef{}
	if vChoose("old", 2) == 1 {
		o := "old"
		t = bDef{S: "o", I: 1, U: 1, B: false, P: &o, L: []string{"o", "o"}, E: "o", In: bDefIn{"o"}, bDefEmb: bDefEmb{1}}
	}
	t.NS, t.NT = "o", "o"
	vAssert(bindVia(how, &t, map[string][]string{keys[k]: {val}}) == nil, "binding fails")
	txt := func(name, got, def string) {
		if keys[k] == name {
			vAssert(got == val, "a supplied value does not win over the default")
		} else {
			vAssert(got == def, "an absent key does not get its default")
		}
	}
	num := func(name string, got, def int) {
		if keys[k] == name {
			v, _, _ := refInt(val)
			vAssert(int64(got) == v, "a supplied value does not win over the default")
		} else {
			vAssert(got == def, "an absent key does not get its default")
		}
	}
	txt("s", t.S, "abc")
	num("i", t.I, 7)
	num("u", int(t.U), 9)
	num("m", int(t.M), -3)
	if keys[k] == "b" {
		v, _ := refBool(val)
		vAssert(t.B == v, "a supplied value does not win over the default")
	} else {
		vAssert(t.B, "an absent key does not get its default")
	}
	vAssert(t.P != nil, "an absent key does not get its default")
	txt("p", *t.P, "ptr")
	vAssert(len(t.L) == 1, "a list with a default does not hold one value")
	txt("l", t.L[0], "one")
	txt("e", t.E, "x=1")
	txt("ns", t.NS, "o") // an empty default is none, and other options are no defaults
	txt("nt", t.NT, "o")
	txt("n", t.In.N, "nested")
	vReach("end")
}

// any combination of present and absent keys
func H_B05_subsets() {
	how := []int{0, 5, 3, 2, 7, 1, 9}[vChoose("how", vB(5, 7))]
	keys := []string{"s", "i", "b", "p", "n", "m"}
	m := map[string][]string{}
	var has [6]bool
	for i, k := range keys {
		if vChoose("h"+k, 2) == 1 {
			has[i] = true
			m[k] = []string{[]string{"", "0"}[vChoose("v"+k, vB(1, 2))]}
		}
	}
	t := bDef{}
	vAssert(bindVia(how, &t, m) == nil, "binding fails")
	str := func(i int, def string) string {
		if has[i] {
			return m[keys[i]][0]
		}
		return def
	}
	vAssert(t.S == str(0, "abc") && t.P != nil && *t.P == str(3, "ptr") && t.In.N == str(4, "nested"), "a default is applied to a supplied key or not to an absent one")
	want := 7
	if has[1] {
		want = 0
	}
	vAssert(t.I == want && t.B == !has[2], "a default is applied to a supplied key or not to an absent one")
	if has[5] {
		vAssert(t.M == 0, "a default is applied to a supplied key")
	} else {
		vAssert(t.M == -3, "a default is not applied to an absent key")
	}
	vReach("end")
}

// a default that the field cannot hold is an error exactly when it is needed
func H_B05_bad() {
	how := vChoose("how", bSources)
	var t struct {
		I int8 `form:"i,default=300" uri:"i,default=300" header:"i,default=300"`
	}
	m := map[string][]string{}
	given := vChoose("given", 2) == 1
	if given {
		m["i"] = []string{vStrOf("d", 0, 2, "0123456789")}
	} else if vChoose("else", 2) == 1 {
		m["j"] = []string{"1"}
	}
	t.I = 5
	err := bindVia(how, &t, m)
	vAssert((err == nil) == given, "the default is not taken exactly when the key is absent")
	vReach("end")
}

type bDefTexts struct {
	A string   `form:"a,default= x  y " uri:"a,default= x  y " header:"A,default= x  y "`
	B string   `form:"b,default='q'" uri:"b,default='q'" header:"B,default='q'"`
	C string   `form:"c,default=%41&b=1;" uri:"c,default=%41&b=1;" header:"C,default=%41&b=1;"`
	D []string `form:"d,default=a b;c" uri:"d,default=a b;c" header:"D,default=a b;c"`
	E string   `form:"e,default=null" uri:"e,default=null" header:"E,default=null"`
	F string   `form:"f,default=é日" uri:"f,default=é日" header:"F,default=é日"`
	G *int     `form:"g,default=-0" uri:"g,default=-0" header:"G,default=-0"`
	H float64  `form:"h,default=1e3" uri:"h,default=1e3" header:"H,default=1e3"`
	I string   `form:"i,default=default" uri:"i,default=default" header:"I,default=default"`
	J *bool    `form:"j,default=false" uri:"j,default=false" header:"J,default=false"`
}

// defaults of every kind are taken to the letter
func H_B05_texts() {
	how := vChoose("how", bSources)
	one := true
	m := map[string][]string{}
	given := vChoose("given", 11)
	keys := []string{"a", "b", "c", "d", "e", "f", "i"}
	v := vStr("v", 0, 1)
	if given < len(keys) {
		m[keys[given]] = []string{v}
	}
	pick := func(i int, def string) string {
		if i == given {
			return v
		}
		return def
	}
	t := bDefTexts{J: &one}
	vAssert(bindVia(how, &t, m) == nil, "binding fails")
	vAssert(t.A == pick(0, " x  y ") && t.B == pick(1, "'q'") && t.C == pick(2, "%41&b=1;") && len(t.D) == 1 && t.D[0] == pick(3, "a b;c") && t.E == pick(4, "null") && t.F == pick(5, "é日") && t.I == pick(6, "default"), "a default is not taken as declared")
	vAssert(t.G != nil && *t.G == 0 && t.H == 1000 && t.J != nil && !*t.J, "a default is not taken as declared")
	vReach("end")
}
