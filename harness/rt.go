// Package main holds the verification harnesses: ordinary Go programs over the public API of water. The functions
// of this file are the harness interface; the engine replaces them by symbolic inputs, assumptions and assertions,
// and natively they read a concrete input vector and report what happened.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"syscall"
	"time"

	"github.com/meilihao/logx"
)

type vEntry struct {
	N string `json:"n"`
	K string `json:"k"`
	V string `json:"v"`
	S []int  `json:"s"`
}

type vStop struct{ status, msg string }

var (
	vIn_    []vEntry
	vPos    int
	vObsL   []string
	vTier   string
	vCnt    map[string]int
	vClean  []func()
	vFailed string
)

func vNext(name, kind string) vEntry {
	vCnt[name]++
	n := name
	if k := vCnt[name]; k > 1 {
		n = fmt.Sprintf("%s#%d", name, k)
	}
	if vPos >= len(vIn_) {
		panic(vStop{"mismatch", "input vector exhausted at " + n})
	}
	e := vIn_[vPos]
	vPos++
	if e.N != n || e.K != kind {
		panic(vStop{"mismatch", fmt.Sprintf("wanted %s %s, vector has %s %s", kind, n, e.K, e.N)})
	}
	return e
}

func vNum(name, kind string) uint64 {
	u, err := strconv.ParseUint(vNext(name, kind).V, 10, 64)
	if err != nil {
		panic(vStop{"mismatch", err.Error()})
	}
	return u
}

func vByte(name string) byte  { return byte(vNum(name, "byte")) }
func vBool(name string) bool  { return vNum(name, "bool") != 0 }
func vI64(name string) int64  { return int64(vNum(name, "u64")) }
func vU64(name string) uint64 { return vNum(name, "u64") }
func vInt(name string, lo, hi int) int {
	v := int(vNum(name, "u64"))
	vAssume(lo <= v && v <= hi)
	return v
}
func vChoose(name string, n int) int { return int(vNum(name, "choose")) }
func vStr(name string, min, max int) string {
	e := vNext(name, "string")
	b := make([]byte, len(e.S))
	for i, x := range e.S {
		b[i] = byte(x)
	}
	if len(b) < min || len(b) > max {
		panic(vStop{"mismatch", "string length"})
	}
	return string(b)
}
func vStrOf(name string, min, max int, alphabet string) string {
	s := vStr(name, min, max)
	for i := 0; i < len(s); i++ {
		vAssume(vIn(s[i], alphabet))
	}
	return s
}
func vAssume(c bool) {
	if !c {
		panic(vStop{"assume", ""})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		panic(vStop{"violation", msg})
	}
}
func vFail(msg string)    { panic(vStop{"violation", msg}) }
func vReach(label string) {}
func vLimit() int64       { return -1 }
func vSym() bool          { return false }
func vConcInt(x int) int  { return x }
func vFrameBegin()        {}
func vFrameEnd() string   { return "" }
func vB(quick, thorough int) int {
	if vTier == "thorough" {
		return thorough
	}
	return quick
}
func vAnd(l ...bool) bool {
	for _, x := range l {
		if !x {
			return false
		}
	}
	return true
}
func vOr(l ...bool) bool {
	for _, x := range l {
		if x {
			return true
		}
	}
	return false
}
func vNot(x bool) bool { return !x }
func vIteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}
func vIn(b byte, set string) bool {
	for i := 0; i < len(set); i++ {
		if set[i] == b {
			return true
		}
	}
	return false
}
func vObs(label string, v interface{}) { vObsL = append(vObsL, label+"="+vShow(v)) }

func vShow(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case string:
		return fmt.Sprintf("%q", v)
	case bool:
		return fmt.Sprint(v)
	case int:
		return fmt.Sprint(uint64(v))
	case int64:
		return fmt.Sprint(uint64(v))
	case int32:
		return fmt.Sprint(uint32(v))
	case int16:
		return fmt.Sprint(uint16(v))
	case int8:
		return fmt.Sprint(uint8(v))
	case uint, uint8, uint16, uint32, uint64, float64:
		return fmt.Sprint(v)
	case []byte:
		return fmt.Sprint(v)
	case []string:
		s := "["
		for i, x := range v {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprintf("%q", x)
		}
		return s + "]"
	case []int:
		s := "["
		for i, x := range v {
			if i > 0 {
				s += " "
			}
			s += fmt.Sprint(uint64(x))
		}
		return s + "]"
	}
	return fmt.Sprintf("%T", v)
}

type vResult struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func vRun(h string, in []vEntry, tier string) (r vResult) {
	vIn_, vPos, vObsL, vTier, vCnt = in, 0, nil, tier, map[string]int{}
	noisy = false
	f := harnesses[h]
	if f == nil {
		return vResult{Status: "mismatch", Msg: "no harness " + h}
	}
	defer func() {
		e := recover()
		for i := len(vClean) - 1; i >= 0; i-- {
			vClean[i]()
		}
		vClean = nil
		if e != nil {
			if s, ok := e.(vStop); ok {
				r = vResult{Status: s.status, Msg: s.msg, Obs: vObsL}
			} else {
				r = vResult{Status: "panic", Msg: fmt.Sprintf("uncaught panic: %v", e), Obs: vObsL}
			}
		}
	}()
	f()
	return vResult{Status: "ok", Obs: vObsL}
}

func main() {
	if len(os.Args) != 5 {
		os.Exit(3)
	}
	f, err := os.Open(os.Args[2])
	if err != nil {
		os.Exit(3)
	}
	out, err := os.Create(os.Args[4])
	if err != nil {
		os.Exit(3)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var q struct {
			H      string   `json:"h"`
			Inputs []vEntry `json:"inputs"`
			Tier   string   `json:"tier"`
		}
		if err := json.Unmarshal(sc.Bytes(), &q); err != nil {
			os.Exit(3)
		}
		r := vRun(q.H, q.Inputs, q.Tier)
		if vFailed != "" && r.Status == "ok" {
			r.Status, r.Msg = "violation", vFailed
		}
		vFailed = ""
		b, _ := json.Marshal(r)
		b = append(b, '\n')
		out.Write(b)
	}
	out.Close()
}

// --- files and standard output: natively a scratch directory and a redirected os.Stdout

// vDir makes a scratch directory.
func vDir() string {
	d, err := os.MkdirTemp("", "vdir")
	if err != nil {
		panic(vStop{"mismatch", err.Error()})
	}
	vClean = append(vClean, func() { os.RemoveAll(d) })
	return d
}

// vPutAt writes a file (with its directories) and sets its modification second.
func vPutAt(name, content string, sec int64) {
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		panic(vStop{"mismatch", err.Error()})
	}
	os.Chtimes(name, time.Unix(sec, 0), time.Unix(sec, 0))
}

// vLink makes a symbolic link to a file that exists.
func vLink(to, name string) {
	if err := os.Symlink(to, name); err != nil {
		panic(vStop{"mismatch", err.Error()})
	}
}

func vMkdir(name string) { os.MkdirAll(name, 0o755) }

// vGet reads a file: content, permission bits, existence.
func vGet(name string) (string, uint32, bool) {
	st, err := os.Stat(name)
	if err != nil || st.IsDir() {
		return "", 0, false
	}
	b, err := os.ReadFile(name)
	return string(b), uint32(st.Mode().Perm()), err == nil
}

// vLs lists a directory.
func vLs(name string) string {
	es, _ := os.ReadDir(name)
	s := ""
	for i, e := range es {
		if i > 0 {
			s += " "
		}
		s += e.Name()
	}
	return s
}

// vCapture returns what f prints to standard output.
func vCapture(f func()) string {
	t, err := os.CreateTemp("", "vout")
	if err != nil {
		panic(vStop{"mismatch", err.Error()})
	}
	old := os.Stdout
	os.Stdout = t
	defer func() { os.Stdout = old; os.Remove(t.Name()) }()
	f()
	b, _ := os.ReadFile(t.Name())
	t.Close()
	return string(b)
}

var logTime = regexp.MustCompile(`(?m)^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (\[[DIWE]\] )`)

// vFull runs f while no file takes any more bytes (a file size limit of this process stands for the full disk)
func vFull(f func()) {
	var old syscall.Rlimit
	signal.Ignore(syscall.SIGXFSZ)
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil || syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 0, Max: old.Max}) != nil {
		panic(vStop{"mismatch", "no file size limit"})
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// vCalm runs f; the iterations over maps in it are in one order each (other harnesses explore the orders)
func vCalm(f func()) { f() }

// vLogs returns what is logged while f runs: "[level] message" lines, without the logger's own time stamps.
func vLogs(f func()) string {
	return logTime.ReplaceAllString(vCapture(func() {
		l := logx.NewLogger()
		l.SetFuncCallDepth(0)
		l.AddLogger(logx.AdapterConsole, `{"color":false}`)
		logx.SetOutput(l)
		defer func() {
			n := logx.NewLogger()
			n.AddLogger(logx.AdapterConsole)
			logx.SetOutput(n)
		}()
		f()
	}), "$1")
}
