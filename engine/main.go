package main

// Loading, orchestration, native replay, evidence.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = env("GOSYM_REPO", "/repo") // a scratch copy, for trying planted bugs
	verifDir = env("GOSYM_VERIF", "/verif")
)

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func (P *program) fn(pkg, name string) *ssa.Function {
	p := P.byPath[pkg]
	if p == nil {
		panic(pathEnd{kind: "unsupported", msg: "package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathEnd{kind: "unsupported", msg: "no function " + pkg + "." + name})
	}
	return f
}

func (P *program) namedType(pkg, name string) types.Type {
	p := P.byPath[pkg]
	if p == nil {
		panic(pathEnd{kind: "unsupported", msg: "package not loaded: " + pkg})
	}
	t := p.Type(name)
	if t == nil {
		panic(pathEnd{kind: "unsupported", msg: "no type " + pkg + "." + name})
	}
	return t.Type()
}

type session struct {
	dir     string // scratch
	modfile string
	overlay string
	files   map[string][]byte
	env     []string
	verbose bool
}

func newSession() (*session, error) {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	s := &session{dir: d, files: map[string][]byte{}}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, n))
		if err != nil {
			return s, err
		}
		if err := os.WriteFile(filepath.Join(d, n), b, 0o644); err != nil {
			return s, err
		}
	}
	s.modfile = filepath.Join(d, "go.mod")
	m, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*.go"))
	repl := map[string]string{}
	for _, f := range m {
		b, err := os.ReadFile(f)
		if err != nil {
			return s, err
		}
		v := filepath.Join(repoDir, "zzverif", filepath.Base(f))
		s.files[v] = b
		repl[v] = f
	}
	var reg strings.Builder
	reg.WriteString("package main\n\nvar harnesses = map[string]func(){\n")
	for _, f := range m {
		for _, l := range strings.Split(string(s.files[filepath.Join(repoDir, "zzverif", filepath.Base(f))]), "\n") {
			if strings.HasPrefix(l, "func H_") {
				n, _, _ := strings.Cut(l[5:], "(")
				fmt.Fprintf(&reg, "\t%q: %s,\n", n, n)
			}
		}
	}
	reg.WriteString("}\n")
	rf := filepath.Join(d, "reg.go")
	if err := os.WriteFile(rf, []byte(reg.String()), 0o644); err != nil {
		return s, err
	}
	s.files[filepath.Join(repoDir, "zzverif", "reg.go")] = []byte(reg.String())
	repl[filepath.Join(repoDir, "zzverif", "reg.go")] = rf
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	s.overlay = filepath.Join(d, "overlay.json")
	if err := os.WriteFile(s.overlay, j, 0o644); err != nil {
		return s, err
	}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOSYM") {
			continue
		}
		s.env = append(s.env, e)
	}
	s.env = append(s.env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GOSUMDB=off")
	return s, nil
}

func (s *session) close() {
	if s != nil && strings.HasPrefix(s.dir, os.TempDir()) && strings.Contains(s.dir, "gosym") {
		os.RemoveAll(s.dir)
	}
}

func (s *session) load() (*program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: append(append([]string{}, s.env...), "GOEXPERIMENT=nojsonv2"), Overlay: s.files, BuildFlags: []string{"-modfile=" + s.modfile}}
	pk, err := packages.Load(cfg, "./zzverif")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs[:min(len(errs), 8)], "; "))
	}
	prog, sp := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	P := &program{prog: prog, byPath: map[string]*ssa.Package{}, harness: sp[0]}
	for _, p := range prog.AllPackages() {
		P.byPath[p.Pkg.Path()] = p
	}
	P.rtErr = P.byPath["runtime"].Type("errorString").Type()
	return P, nil
}

func (s *session) buildNative() (string, error) {
	bin := filepath.Join(s.dir, "native")
	c := exec.Command("go", "build", "-modfile="+s.modfile, "-overlay="+s.overlay, "-o", bin, "./zzverif")
	c.Dir = repoDir
	c.Env = s.env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

const racePrefix = "shared state is written"

// buildRace builds the harnesses with the race detector, which confirms writes to shared memory.
func (s *session) buildRace() (string, error) {
	bin := filepath.Join(s.dir, "native-race")
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	c := exec.Command("go", "build", "-race", "-modfile="+s.modfile, "-overlay="+s.overlay, "-o", bin, "./zzverif")
	c.Dir = repoDir
	c.Env = append(append([]string{}, s.env...), "CGO_ENABLED=1")
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("race build: %v: %s", err, out)
	}
	return bin, nil
}

// --- native runs

// scratch is the directory the native runs work in. They execute code of the tree under check, so
// when the check runs as root they run as the unprivileged user nobody, for whom nothing but this
// directory (and what is open to everybody) can be written.
func (s *session) scratch() (string, *syscall.Credential) {
	d := filepath.Join(s.dir, "run")
	os.MkdirAll(d, 0o755)
	if os.Geteuid() != 0 {
		return d, nil
	}
	os.Chmod(s.dir, 0o755)
	os.Chown(d, 65534, 65534)
	return d, &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}
}

type natReq struct {
	H      string           `json:"h"`
	Inputs []map[string]any `json:"inputs"`
	Tier   string           `json:"tier"`
}

type natRes struct {
	Status string   `json:"status"` // ok, assume, violation, panic, mismatch, crash, timeout
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

// runNative executes the vectors in the natively compiled harness; a crash is attributed to the vector that ran.
func (s *session) runNative(bin string, reqs []natReq, perVec time.Duration) []natRes {
	res := make([]natRes, len(reqs))
	for i := 0; i < len(reqs); {
		f, _ := os.CreateTemp(s.dir, "vec")
		f.Chmod(0o644)
		run, cred := s.scratch()
		w := bufio.NewWriter(f)
		for _, r := range reqs[i:] {
			b, _ := json.Marshal(r)
			w.Write(b)
			w.WriteByte('\n')
		}
		w.Flush()
		f.Close()
		outf := filepath.Join(run, filepath.Base(f.Name())+".out")
		c := exec.Command(bin, "-batch", f.Name(), "-out", outf)
		c.Dir = run
		c.Env = append(append([]string{}, s.env...), "GOMAXPROCS=2", "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+run, "HOME="+run)
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: cred}
		var errb strings.Builder
		c.Stderr = &limitWriter{w: &errb, n: 1 << 16}
		limit := perVec + time.Duration(len(reqs)-i)*200*time.Millisecond
		if err := c.Start(); err != nil {
			for k := i; k < len(reqs); k++ {
				res[k] = natRes{Status: "error", Msg: err.Error()}
			}
			return res
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		timedOut, stalled := false, false
		tick := time.NewTicker(200 * time.Millisecond)
		last, lastSize := time.Now(), int64(-1)
		start := time.Now()
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-tick.C:
				if st, err := os.Stat(outf); err == nil && st.Size() != lastSize {
					lastSize = st.Size()
					last = time.Now()
				}
				if stalled = time.Since(last) > perVec; stalled || time.Since(start) > limit {
					timedOut = true
					syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
					<-done
					break wait
				}
			}
		}
		tick.Stop()
		b, _ := os.ReadFile(outf)
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			if l == "" {
				continue
			}
			var r natRes
			if json.Unmarshal([]byte(l), &r) != nil {
				break
			}
			if i+n < len(res) {
				res[i+n] = r
			}
			n++
		}
		os.Remove(f.Name())
		os.Remove(outf)
		i += n
		if i < len(reqs) {
			if timedOut {
				res[i] = natRes{Status: "skipped"} // a loaded machine: no statement about the rest
				if stalled {
					res[i] = natRes{Status: "timeout", Msg: "no answer within " + perVec.String()}
					if len(reqs) > 1 { // confirmed on its own
						if res[i] = s.runNative(bin, reqs[i:i+1], 30*time.Second)[0]; res[i].Status != "timeout" {
							i++
							continue
						}
					}
				}
				for k := i + 1; k < len(reqs); k++ {
					res[k] = natRes{Status: "skipped"}
				}
				return res
			} else {
				m := errb.String()
				if len(m) > 2000 {
					m = m[:2000]
				}
				res[i] = natRes{Status: "crash", Msg: m}
			}
			i++
		}
	}
	return res
}

type limitWriter struct {
	w *strings.Builder
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(b)
	}
	return len(b), nil
}

// --- one harness

type hReport struct {
	Name        string         `json:"harness"`
	Paths       int            `json:"paths"`
	Branches    int            `json:"branch_points"`
	Instrs      int64          `json:"ssa_instructions"`
	Queries     int            `json:"solver_queries"`
	CacheHits   int            `json:"query_cache_hits"`
	SolverS     float64        `json:"solver_s"`
	Asserts     int            `json:"assertions_checked"`
	AssertQ     int            `json:"assertion_queries"`
	Ended       map[string]int `json:"path_ends"`
	Incomplete  map[string]int `json:"incomplete,omitempty"`
	Exhaustive  bool           `json:"exhaustive_within_bounds"`
	Funcs       int            `json:"functions_encoded"`
	Validated   int            `json:"paths_replayed_natively"`
	FallbackRun int            `json:"aborted_paths_run_natively"`
	Reached     []string       `json:"reached"`
	WallS       float64        `json:"wall_s"`
	MaxDec      int            `json:"longest_path_decisions"`
}

type found struct {
	h   string
	v   Violation
	nat natRes
}

func dummyPath(w *worker) *path {
	return &path{w: w, pcSet: map[int]bool{}, m: model{}, nvar: map[string]int{}, reached: map[string]bool{}, limit: 1 << 40}
}

func (w *worker) initProgram(P *program, tier string) {
	w.in = newInterp(P, w)
	w.in.tier = tier
	w.p = dummyPath(w)
	w.in.path = w.p
	for _, n := range []string{modPath, modPath + "/binding"} {
		if p := P.byPath[n]; p != nil {
			w.in.ensureInit(w.in.pkgOf(p))
		}
	}
	w.in.ensureInit(w.in.pkgOf(P.harness))
	w.in.path = nil
}

func mkWorkers(P *program, n int, tier string, bin []string) []*worker {
	ws := make([]*worker, n)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tc := newTermCtx()
			w := &worker{id: i, tc: tc, notes: map[string]int{}}
			w.solver = newSolver(tc, bin)
			w.initProgram(P, tier)
			ws[i] = w
		}()
	}
	wg.Wait()
	return ws
}

func (w *worker) reset(ex *Explorer) {
	w.ex = ex
	w.branches, w.asserts, w.assertQ = 0, 0, 0
	w.notes = map[string]int{}
	w.solver.queries, w.solver.cacheHits, w.solver.unknowns, w.solver.time, w.solver.errs = 0, 0, 0, 0, nil
	w.in.funcsRun = map[string]int{}
	w.in.funcGen++
	if w.tc.n > 3_000_000 {
		// start over with a fresh term table
		w.solver.close()
		tier, P, bin := w.in.tier, w.in.P, w.solver.bin
		w.tc = newTermCtx()
		w.solver = newSolver(w.tc, bin)
		w.initProgram(P, tier)
	}
}

func runHarness(ws []*worker, f *ssa.Function, seed int64, budget time.Duration) *Explorer {
	ex := newExplorer(seed, budget)
	for _, w := range ws {
		w.reset(ex)
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					ex.mu.Lock()
					ex.errs = append(ex.errs, fmt.Sprintf("worker: %v\n%s", r, debug.Stack()))
					ex.stop = true
					ex.active--
					ex.mu.Unlock()
					ex.cond.Broadcast()
				}
			}()
			w.run(func(in *interp) { in.callSSA(f, nil) })
			w.finish()
		}()
	}
	// wake waiting workers at the deadline
	stop := make(chan bool)
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				ex.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(stop)
	return ex
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "run only harnesses containing this")
	tier := flag.String("tier", "", "quick or thorough")
	budgetF := flag.Int("budget", 0, "seconds")
	nw := flag.Int("j", 0, "workers")
	verbose := flag.Bool("v", false, "verbose")
	replay := flag.String("replay", "", "replay a violation file natively")
	solver := flag.String("solver", "", "solver command")
	prof := flag.String("prof", "", "cpu profile")
	list := flag.Bool("list", false, "list harnesses")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.StringVar(&repoDir, "repo", repoDir, "repository")
	flag.StringVar(&verifDir, "verif", verifDir, "verification directory")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	debug.SetGCPercent(900)
	mem := int64(10)
	if v, err := strconv.ParseInt(os.Getenv("GOSYM_MEM"), 10, 64); err == nil && v > 0 {
		mem = v
	}
	debug.SetMemoryLimit(mem << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := 2
	func() {
		s, err := newSession()
		defer s.close()
		if err != nil {
			fmt.Println("ERROR", err)
			return
		}
		s.verbose = *verbose
		if *replay != "" {
			code = doReplay(s, *replay)
			return
		}
		bin := []string{"z3", "-in"}
		if *solver != "" {
			bin = strings.Fields(*solver)
		}
		if *nw == 0 {
			*nw = min(8, runtime.NumCPU())
		}
		code = check(s, *prop, *only, *tier, seed, *budgetF, *nw, *verbose, *list, *noev, bin)
	}()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func doReplay(s *session, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var r struct {
		Property string
		Harness  string
		Inputs   []map[string]any
		Tier     string
		Message  string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	build := s.buildNative
	if strings.HasPrefix(r.Message, racePrefix) {
		build = s.buildRace
	}
	bin, err := build()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for i := 0; i < 20; i++ {
		res := s.runNative(bin, []natReq{{r.Harness, r.Inputs, r.Tier}}, 20*time.Second)[0]
		fmt.Printf("replay %s: %s %s\n", r.Harness, res.Status, res.Msg)
		if bad(res) {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
			return 1
		}
	}
	return 0
}

func bad(r natRes) bool {
	switch r.Status {
	case "violation", "panic", "crash", "timeout":
		return true
	}
	return false
}

func check(s *session, prop, only, tier string, seed int64, budget, nw int, verbose, list, noev bool, solver []string) int {
	start := time.Now()
	var bin string
	var berr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); bin, berr = s.buildNative() }()
	P, err := s.load()
	wg.Wait()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if berr != nil {
		fmt.Println("ERROR", berr)
		return 2
	}
	loadS := time.Since(start).Seconds()
	var hs []*ssa.Function
	for n, m := range P.harness.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "H_") {
			continue
		}
		if prop != "" && !strings.HasPrefix(n, "H_"+prop+"_") {
			continue
		}
		if only != "" && !strings.Contains(n, only) {
			continue
		}
		hs = append(hs, f)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name() < hs[j].Name() })
	if list {
		for _, f := range hs {
			fmt.Println(f.Name())
		}
		return 0
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 2
	}
	if budget == 0 {
		budget = 120
		if tier == "thorough" {
			budget = 700
		}
	}
	total := time.Duration(budget) * time.Second
	ws := mkWorkers(P, nw, tier, solver)
	if verbose {
		fmt.Printf("loaded in %.1fs, initialised at %.1fs; init notes: %d\n", loadS, time.Since(start).Seconds(), len(ws[0].in.initErrs))
		for _, e := range ws[0].in.initErrs {
			if os.Getenv("GOSYM_INIT") == "" {
				break
			}
			fmt.Println("  ", e)
		}
	}
	labels := reachLabels(P)
	known := loadKnown(prop)
	deadline := time.Now().Add(total)
	var reps []hReport
	var bads []found
	var unrepro []found
	allFuncs := map[string]int{}
	var samples []any
	var assumptions []string
	var diverged []string
	exitErr := ""
	var states, trans, validated, asserts, queries int
	var solverS float64
	exhaustive := true
	for i, f := range hs {
		left := time.Until(deadline)
		b := left / time.Duration(len(hs)-i)
		// unused time of quick harnesses is handed on; a harness may take up to three fair shares
		if b*3 < left {
			b *= 3
		} else if i < len(hs)-1 {
			b = left / 2
		} else {
			b = left
		}
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		t0 := time.Now()
		ex := runHarness(ws, f, seed, b)
		hr := hReport{Name: f.Name(), Paths: ex.paths, Branches: ex.branches, Instrs: ex.instrs, Queries: ex.queries, CacheHits: ex.cacheHits, SolverS: round(ex.solverTime.Seconds()),
			Asserts: ex.asserts, AssertQ: ex.assertQ, Ended: ex.ended, Incomplete: ex.incomplete, Funcs: len(ex.funcs), MaxDec: ex.maxDec}
		for _, e := range ex.errs {
			hr.Incomplete["solver: "+e]++
			if strings.HasPrefix(e, "worker:") {
				exitErr = e
			}
		}
		if ex.timedOut {
			hr.Incomplete["time budget reached: remaining paths not explored"]++
		}
		hr.Exhaustive = len(hr.Incomplete) == 0 && len(ex.viol) == 0
		for k := range ex.reached {
			hr.Reached = append(hr.Reached, k)
		}
		sort.Strings(hr.Reached)
		// confirm violations on the real code
		raceRuns, raceOK := map[string]int{}, map[string]bool{}
		for _, v := range ex.viol {
			var nat natRes
			ok := false
			vbin, tries := bin, 12
			if strings.HasPrefix(v.Msg, racePrefix) {
				if raceRuns[v.Msg]++; raceRuns[v.Msg] > 2 || len(raceRuns) > 10 || raceOK[f.Name()] {
					continue
				}
				rb, err := s.buildRace()
				if err != nil { // without the race detector nothing is confirmed
					unrepro = append(unrepro, found{f.Name(), v, natRes{Status: "error", Msg: err.Error()}})
					continue
				}
				vbin = rb
				tries = 2
			}
			for try := 0; try < tries && !ok; try++ {
				nat = s.runNative(vbin, []natReq{{f.Name(), v.Inputs, tier}}, 20*time.Second)[0]
				ok = bad(nat)
			}
			if ok {
				raceOK[f.Name()] = true
				bads = append(bads, found{f.Name(), v, nat})
			} else {
				unrepro = append(unrepro, found{f.Name(), v, nat})
			}
		}
		// cross validation of completed paths
		var reqs []natReq
		for _, r := range ex.samples {
			reqs = append(reqs, natReq{f.Name(), r.inputs, tier})
		}
		res := s.runNative(bin, reqs, 20*time.Second)
		for k, r := range res {
			switch {
			case r.Status == "skipped":
			case bad(r):
				// the real code fails where the encoding saw no failure
				bads = append(bads, found{f.Name(), Violation{Msg: r.Msg, Kind: "native", Inputs: ex.samples[k].inputs}, r})
				diverged = append(diverged, fmt.Sprintf("%s: native run fails (%s %s) on a path the encoding passed", f.Name(), r.Status, r.Msg))
			case r.Status == "ok" && equalStr(r.Obs, ex.samples[k].obs):
				hr.Validated++
			default:
				diverged = append(diverged, fmt.Sprintf("%s: native %s %s %v, encoding %v, inputs %s", f.Name(), r.Status, r.Msg, r.Obs, ex.samples[k].obs, js(ex.samples[k].inputs)))
			}
		}
		// aborted paths: run their inputs on the real code so that they are at least exercised
		reqs = reqs[:0]
		for _, r := range ex.fallback {
			reqs = append(reqs, natReq{f.Name(), r.inputs, tier})
		}
		hung := false
		for _, b := range bads {
			hung = hung || b.nat.Status == "timeout"
		}
		for k := 0; k < len(reqs) && !hung; k += 50 { // one confirmed hang is enough: each costs its whole time limit
			j := k + 50
			if j > len(reqs) {
				j = len(reqs)
			}
			for i, r := range s.runNative(bin, reqs[k:j], 20*time.Second) {
				if r.Status == "skipped" {
					continue
				}
				hr.FallbackRun++
				if bad(r) {
					if r.Status == "timeout" {
						hung = true
						r.Msg = "the code under test does not come to an end"
					}
					bads = append(bads, found{f.Name(), Violation{Msg: r.Msg, Kind: "native", Inputs: ex.fallback[k+i].inputs}, r})
				}
			}
		}
		if len(bads) > 0 && os.Getenv("GOSYM_FIRST") != "" { // for mutation runs: one violation is enough
			break
		}
		for _, l := range labels[f.Name()] {
			if ex.reached[l] == 0 && len(ex.viol) == 0 && !ex.timedOut {
				hr.Incomplete["vacuity: label not reached: "+l]++
				hr.Exhaustive = false
				if verbose {
					fmt.Println("VACUOUS", f.Name(), l)
				}
			}
		}
		if ex.ended["done"] == 0 && len(ex.viol) == 0 {
			hr.Incomplete["vacuity: no path reached the end"]++
			hr.Exhaustive = false
		}
		hr.WallS = round(time.Since(t0).Seconds())
		reps = append(reps, hr)
		for k, n := range ex.funcs {
			allFuncs[k] += n
		}
		for k := 0; k < len(ex.samples) && k < 2; k++ {
			samples = append(samples, map[string]any{"harness": f.Name(), "inputs": ex.samples[k].inputs, "observations": ex.samples[k].obs})
		}
		states += ex.paths
		trans += ex.branches
		validated += hr.Validated
		asserts += ex.asserts
		queries += ex.queries
		solverS += ex.solverTime.Seconds()
		exhaustive = exhaustive && hr.Exhaustive
		if verbose {
			j, _ := json.Marshal(hr)
			fmt.Println(string(j))
		}
	}
	for _, w := range ws {
		w.solver.close()
	}
	// reports
	nviol := 0
	seen := map[string]bool{}
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)
	for _, b := range bads {
		msg := b.nat.Msg
		if b.v.Kind != "native" {
			msg = b.v.Msg
		}
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			msg = msg[:i]
		}
		if k := known.match(b.h, msg); k != "" {
			if !seen["K"+k] {
				seen["K"+k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			continue
		}
		if seen[b.h+msg] {
			continue
		}
		seen[b.h+msg] = true
		nviol++
		if nviol > 8 {
			continue
		}
		file := filepath.Join(verifDir, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, nviol))
		j, _ := json.MarshalIndent(map[string]any{"Property": prop, "Harness": b.h, "Tier": tier, "Inputs": b.v.Inputs, "Message": b.v.Msg, "Location": b.v.Loc, "Native": b.nat}, "", " ")
		os.WriteFile(file, j, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		fmt.Printf("  %s: %s | native: %s %s | inputs %s\n", b.h, b.v.Msg, b.nat.Status, firstLine(b.nat.Msg), readable(b.v.Inputs))
	}
	for _, u := range unrepro {
		fmt.Printf("UNCONFIRMED %s: %s (native %s %s) @ %s inputs %s\n", u.h, u.v.Msg, u.nat.Status, firstLine(u.nat.Msg), u.v.Loc, readable(u.v.Inputs))
	}
	for i, d := range diverged {
		if i < 10 {
			fmt.Println("DIVERGENCE", d)
		}
	}
	fl := make([]string, 0, len(allFuncs))
	water := 0
	for k := range allFuncs {
		if strings.Contains(k, modPath) && !strings.Contains(k, harnessPath) {
			water++
			fl = append(fl, k)
		}
	}
	sort.Strings(fl)
	assumptions = append(assumptions, assumptionsFor(prop)...)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive": exhaustive, "functions_encoded_of_water": fl, "functions_encoded_total": len(allFuncs), "harnesses": reps,
		"assertions_checked": asserts, "solver_queries": queries, "solver_s": round(solverS), "bounds": boundsFor(prop), "unconfirmed_counterexamples": len(unrepro), "divergences": len(diverged),
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": nviol}
	if !noev && only == "" {
		j, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), j, 0o644); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d branch_points=%d queries=%d solver_s=%.1f validated=%d water_functions=%d exhaustive=%v unconfirmed=%d divergences=%d violations=%d wall_s=%.1f\n",
		prop, tier, len(hs), states, trans, queries, solverS, validated, water, exhaustive, len(unrepro), len(diverged), nviol, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if exitErr != "" {
		fmt.Println("ENGINE", exitErr)
		if states == 0 {
			return 2
		}
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func js(v any) string { b, _ := json.Marshal(v); return string(b) }

func readable(in []map[string]any) string {
	var l []string
	for _, e := range in {
		if b, ok := e["s"].([]int); ok {
			bb := make([]byte, len(b))
			for i, x := range b {
				bb[i] = byte(x)
			}
			l = append(l, fmt.Sprintf("%v=%q", e["n"], bb))
		} else {
			l = append(l, fmt.Sprintf("%v=%v", e["n"], e["v"]))
		}
	}
	return strings.Join(l, " ")
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func equalStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// reachLabels finds the constant arguments of vReach in each harness (and the helpers it calls within the harness package).
func reachLabels(P *program) map[string][]string {
	r := map[string][]string{}
	for n, m := range P.harness.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "H_") {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for _, a := range f.AnonFuncs {
				walk(a)
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					g := c.Common().StaticCallee()
					if g == nil || g.Pkg != P.harness {
						continue
					}
					if g.Name() == "vReach" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok {
							s, _ := constStr(k)
							r[n] = append(r[n], s)
						}
						continue
					}
					if !strings.HasPrefix(g.Name(), "H_") {
						continue
					}
					walk(g)
				}
			}
		}
		walk(f)
	}
	return r
}

func constStr(k *ssa.Const) (string, bool) {
	s, ok := constValue(k).(string)
	return s, ok
}

// --- known findings

type knownList struct{ l [][3]string } // harness, substring of the message, text

func loadKnown(prop string) *knownList {
	k := &knownList{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// finding: property=<id> harness=<h> match="<substring>" <text>
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		var h, mt string
		if !strings.HasPrefix(rest, "harness=") {
			continue
		}
		h, rest, _ = strings.Cut(strings.TrimPrefix(rest, "harness="), " ")
		if !strings.HasPrefix(rest, "match=\"") {
			continue
		}
		mt, rest, _ = strings.Cut(strings.TrimPrefix(rest, "match=\""), "\" ")
		k.l = append(k.l, [3]string{h, mt, rest})
	}
	return k
}

func (k *knownList) match(h, msg string) string {
	for _, e := range k.l {
		if e[0] == h && e[1] != "" && strings.Contains(msg, e[1]) {
			return e[2]
		}
	}
	return ""
}

type bounds struct {
	Bounds      string   `json:"bounds"`
	Assumptions []string `json:"assumptions"`
}

var boundsTab map[string]bounds

func loadBounds() {
	if boundsTab != nil {
		return
	}
	boundsTab = map[string]bounds{}
	b, err := os.ReadFile(filepath.Join(verifDir, "bounds.json"))
	if err == nil {
		json.Unmarshal(b, &boundsTab)
	}
}

func boundsFor(p string) string { loadBounds(); return boundsTab[p].Bounds }
func assumptionsFor(p string) []string {
	loadBounds()
	return append(boundsTab["*"].Assumptions, boundsTab[p].Assumptions...)
}
