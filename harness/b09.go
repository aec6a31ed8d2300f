package main

import (
	"strconv"
	"time"

	"github.com/meilihao/water/binding"
)

type bTimes struct {
	Def   time.Time   `form:"def" uri:"def" header:"Def"`
	Day   time.Time   `form:"day" uri:"day" header:"Day" time_format:"2006-01-02"`
	Utc   time.Time   `form:"utc" uri:"utc" header:"Utc" time_format:"2006-01-02" time_utc:"1"`
	Zone  time.Time   `form:"zone" uri:"zone" header:"Zone" time_format:"2006-01-02" time_location:"UTC"`
	NoUtc time.Time   `form:"noutc" uri:"noutc" header:"Noutc" time_format:"2006-01-02" time_utc:"false"`
	Bad   time.Time   `form:"bad" uri:"bad" header:"Bad" time_format:"2006-01-02" time_location:"No/Where"`
	Ptr   *time.Time  `form:"ptr" uri:"ptr" header:"Ptr" time_format:"2006-01-02" time_utc:"true"`
	List  []time.Time `form:"list" uri:"list" header:"List" time_format:"2006-01-02" time_utc:"1"`
	Unix  time.Time   `form:"unix" uri:"unix" header:"Unix" time_format:"unix"`
	UnixN time.Time   `form:"unixn" uri:"unixn" header:"Unixn" time_format:"unixNano"`
}

// the fields of bTimes: their key, layout and zone (0 local, 1 UTC, 2 unknown)
var bTimeKeys = []string{"def", "day", "utc", "zone", "noutc", "bad", "ptr", "list"}
var bTimeZone = []int{0, 0, 1, 1, 0, 2, 1, 1}

func (t *bTimes) at(k int) *time.Time {
	switch k {
	case 0:
		return &t.Def
	case 1:
		return &t.Day
	case 2:
		return &t.Utc
	case 3:
		return &t.Zone
	case 4:
		return &t.NoUtc
	case 5:
		return &t.Bad
	case 6:
		return t.Ptr
	}
	if len(t.List) == 0 {
		return nil
	}
	return &t.List[len(t.List)-1]
}

var prior = time.Unix(12345, 678)

func checkTime(how, k int, s string) {
	old := time.Local
	time.Local = time.FixedZone("HERE", 5400)
	defer func() { time.Local = old }()
	t := &bTimes{Def: prior, Day: prior, Utc: prior, Zone: prior, NoUtc: prior, Bad: prior, List: []time.Time{prior}, Unix: prior, UnixN: prior}
	if vChoose("ptr", 2) == 1 {
		p := prior
		t.Ptr = &p
	}
	vals := []string{s}
	if k == 7 && vChoose("two", 2) == 1 {
		vals = []string{"2001-02-03", s}
	}
	err := bindVia(how, t, map[string][]string{bTimeKeys[k]: vals})
	layout, loc := "2006-01-02", time.Local
	if k == 0 {
		layout = time.RFC3339
	}
	if bTimeZone[k] == 1 {
		loc = time.UTC
	}
	var want time.Time
	ok := true
	if s != "" {
		var e error
		want, e = time.ParseInLocation(layout, s, loc)
		ok = e == nil && bTimeZone[k] != 2
	}
	vAssert((err == nil) == ok, "a text that denotes a time is refused, or one that does not is accepted")
	if err == nil {
		got := t.at(k)
		vAssert(got != nil && got.Equal(want), "a bound time is not the instant the text denotes")
		_, o1 := got.Zone()
		_, o2 := want.Zone()
		vAssert(o1 == o2, "a bound time is in another zone than the declared one")
		vAssert(k != 7 || len(t.List) == len(vals), "a list of times is incomplete")
		vReach("bound")
	} else {
		vReach("refused")
	}
	for i := range bTimeKeys {
		if i != k && i != 6 {
			vAssert(t.at(i).Equal(prior), "another time field is changed")
		}
	}
}

// dates: every text over digits, dash and a letter in the places that matter
func H_B09_days() {
	how := vChoose("how", 9)
	k := 1 + vChoose("field", len(bTimeKeys)-1)
	s := ""
	switch vChoose("shape", 4) {
	case 0:
		s = "20" + vStrOf("y", 2, 2, "0149") + "-0" + vStrOf("m", 1, 1, "0129x") + "-" + vStrOf("d", 2, 2, "01239")
	case 1:
		s = vStrOf("s", 0, 1, "2- ")
	case 2:
		s = "2020-1" + vStrOf("m", 1, 1, "0123") + "-3" + vStrOf("d", 1, 1, "012")
	case 3:
		s = "2020-02-29" + vStrOf("tail", 0, 1, " T0Z")
	}
	checkTime(how, k, s)
	vReach("end")
}

// the default layout, with its zone
func H_B09_rfc3339() {
	how := vChoose("how", 9)
	s := "2020-02-29T" + vStrOf("h", 2, 2, "0129") + ":00:5" + vStrOf("s", 1, 1, "09x") + []string{"Z", "+01:30", "-0", "", ".5Z", "z"}[vChoose("zone", 6)]
	if vChoose("short", 2) == 1 {
		s = vStrOf("t", 0, vB(2, 3), "now0:") + []string{"", "x", "0:00", "now"}[vChoose("tail", 4)]
	}
	checkTime(how, 0, s)
	vReach("end")
}

// seconds and nanoseconds since the epoch: the number sent, whatever its sign and size
func H_B09_unix() {
	how := vChoose("how", 9)
	nano := vChoose("nano", 2) == 1
	s := vStrOf("s", 1, vB(2, 3), "019-x") + []string{"", "000000000", "999999999", "0000000000000000"}[vChoose("tail", 4)]
	t := &bTimes{Unix: prior, UnixN: prior}
	key := "unix"
	if nano {
		key = "unixn"
	}
	err := bindVia(how, t, map[string][]string{key: {s}})
	n, e := strconv.ParseInt(s, 10, 64)
	vAssert((err == nil) == (e == nil), "a text that denotes a time is refused, or one that does not is accepted")
	if err == nil {
		if nano {
			vAssert(t.UnixN.Equal(time.Unix(n/1000000000, n%1000000000)), "a bound time is not the instant the text denotes")
			vAssert(t.Unix.Equal(prior), "another time field is changed")
		} else {
			vAssert(t.Unix.Unix() == n && t.Unix.Nanosecond() == 0, "a bound time is not the instant the text denotes")
			vAssert(t.UnixN.Equal(prior), "another time field is changed")
		}
		vReach("bound")
	} else {
		vAssert(t.Unix.Equal(prior) && t.UnixN.Equal(prior), "a refused time changes the field")
	}
	vReach("end")
}

type bDur struct {
	D time.Duration   `form:"d" uri:"d" header:"D"`
	P *time.Duration  `form:"p" uri:"p" header:"P"`
	L []time.Duration `form:"l" uri:"l" header:"L"`
}

// durations bound by Bind2 (and Uri.Bind's sibling): the duration the text denotes
func H_B09_duration() {
	how := []int{5, 6, 7, 8, 10}[vChoose("how", 5)]
	s := vStrOf("s", 0, vB(2, 4), "09-+msh") + []string{"", "ms", "h", "9223372036s"}[vChoose("tail", 4)]
	k := vChoose("field", 3)
	t := &bDur{D: 5}
	err := bindVia(how, t, map[string][]string{[]string{"d", "p", "l"}[k]: {s}})
	want, e := time.ParseDuration(s)
	vAssert((err == nil) == (e == nil), "a text that denotes a duration is refused, or one that does not is accepted")
	if err == nil {
		got := t.D
		if k == 1 {
			got = *t.P
		} else if k == 2 {
			got = t.L[0]
		}
		vAssert(got == want, "a bound duration is not the one the text denotes")
		vAssert(k == 0 || t.D == 5, "another field is changed")
		vReach("bound")
	} else {
		vAssert(t.D == 5, "a refused duration changes the field")
	}
	vReach("end")
}

type bZones struct {
	T0 time.Time `form:"t0" uri:"t0" header:"t0" time_format:"2006-01-02" time_utc:"1"`
	T1 time.Time `form:"t1" uri:"t1" header:"t1" time_format:"2006-01-02" time_utc:"t"`
	T2 time.Time `form:"t2" uri:"t2" header:"t2" time_format:"2006-01-02" time_utc:"T"`
	T3 time.Time `form:"t3" uri:"t3" header:"t3" time_format:"2006-01-02" time_utc:"TRUE"`
	T4 time.Time `form:"t4" uri:"t4" header:"t4" time_format:"2006-01-02" time_utc:"true"`
	T5 time.Time `form:"t5" uri:"t5" header:"t5" time_format:"2006-01-02" time_utc:"True"`
	F0 time.Time `form:"f0" uri:"f0" header:"f0" time_format:"2006-01-02" time_utc:"0"`
	F1 time.Time `form:"f1" uri:"f1" header:"f1" time_format:"2006-01-02" time_utc:"f"`
	F2 time.Time `form:"f2" uri:"f2" header:"f2" time_format:"2006-01-02" time_utc:"F"`
	F3 time.Time `form:"f3" uri:"f3" header:"f3" time_format:"2006-01-02" time_utc:"FALSE"`
	F4 time.Time `form:"f4" uri:"f4" header:"f4" time_format:"2006-01-02" time_utc:"false"`
	F5 time.Time `form:"f5" uri:"f5" header:"f5" time_format:"2006-01-02" time_utc:"False"`
	L0 time.Time `form:"l0" uri:"l0" header:"l0" time_format:"2006-01-02" time_location:"Local"`
	L1 time.Time `form:"l1" uri:"l1" header:"l1" time_format:"2006-01-02" time_utc:"f" time_location:"UTC"`
	L2 time.Time `form:"l2" uri:"l2" header:"l2" time_format:"2006-01-02" time_location:""`
}

// every spelling of the tags that declare the zone
func H_B09_zones() {
	old := time.Local
	time.Local = time.FixedZone("HERE", 5400)
	defer func() { time.Local = old }()
	how := vChoose("how", 9)
	m := map[string][]string{}
	day := vStrOf("d", 1, 1, "123456789")
	for _, k := range []string{"t0", "t1", "t2", "t3", "t4", "t5", "f0", "f1", "f2", "f3", "f4", "f5", "l0", "l1", "l2"} {
		m[k] = []string{"2020-01-0" + day}
	}
	var t bZones
	vAssert(bindVia(how, &t, m) == nil, "a text that denotes a time is refused, or one that does not is accepted")
	for _, x := range []time.Time{t.T0, t.T1, t.T2, t.T3, t.T4, t.T5, t.L1} {
		_, off := x.Zone()
		vAssert(off == 0 && x.Day() == int(day[0]-'0') && x.Hour() == 0, "a bound time is in another zone than the declared one")
	}
	for _, x := range []time.Time{t.F0, t.F1, t.F2, t.F3, t.F4, t.F5, t.L0, t.L2} {
		_, off := x.Zone()
		vAssert(off == 5400 && x.Day() == int(day[0]-'0') && x.Hour() == 0, "a bound time is in another zone than the declared one")
	}
	vReach("end")
}

var _ = binding.Form

// the spellings of other layouts, and words for times: only what fits the declared layout is a time
func H_B09_layouts() {
	how := vChoose("how", 9)
	texts := []string{"2020-02-29", "2020-02-29 10:20:30", "2020-02-29T10:20:30", "2020-02-29T10:20", "2020-02-29T10:20:30Z", "2020-02-29t10:20:30z", "2020-02-29T10:20:30+0100", "2020-02-29T10:20:30.123456789Z",
		"20200229", "2020/02/29", "29.02.2020", "02/29/2020", "29 Feb 2020", "Sat, 29 Feb 2020 10:20:30 GMT", "Saturday, 29-Feb-20 10:20:30 GMT", "Sat Feb 29 10:20:30 2020", "10:20", "10:20:30", "2020-02", "2020", "2020-2-29", "2020-W09-6",
		"1582971630", "1582971630000", "0", "-1", "null", "nil", "undefined", "now", "today", "none", "NaN", "0000-00-00", "0001-01-01", "0000-01-01", "9999-12-31", "10000-01-01", "2020-02-29\x00", "\t2020-02-29", "2020-02-29\n", "٢٠٢٠-٠٢-٢٩"}
	s := texts[vChoose("text", len(texts))]
	if vChoose("tail", 2) == 1 {
		s += vStrOf("t", 1, 1, " Z0-+.")
	}
	checkTime(how, vChoose("field", len(bTimeKeys)), s)
	vReach("end")
}

// the same for counts of seconds and durations
func H_B09_counts() {
	how := []int{5, 6, 7, 8, 10}[vChoose("how", 5)]
	texts := []string{"12", "12.0", "1e3", "0x10", "1_000", " 12", "12 ", "+12", "१२", "12s", "1.5h", "1h30m", "1d", "1w", "PT1H", "00:10", "5 s", "5S", "1µs", "1us", "", "null", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1582971630000", "0.5", "infinity"}
	s := texts[vChoose("text", len(texts))]
	if vChoose("dur", 2) == 1 {
		t := &bDur{D: 5}
		err := bindVia(how, t, map[string][]string{"d": {s}})
		want, e := time.ParseDuration(s)
		vAssert((err == nil) == (e == nil), "a text that denotes a duration is refused, or one that does not is accepted")
		vAssert(err != nil || t.D == want, "a bound duration is not the one the text denotes")
	} else {
		t := &bTimes{Unix: prior}
		err := bindVia(how, t, map[string][]string{"unix": {s}})
		n, e := strconv.ParseInt(s, 10, 64)
		vAssert((err == nil) == (e == nil), "a text that denotes a time is refused, or one that does not is accepted")
		if err == nil {
			vAssert(t.Unix.Unix() == n, "a bound time is not the instant the text denotes")
		}
	}
	vReach("end")
}
