package main

// One solver process per worker, SMT-LIB2 over a pipe, incremental with global declarations.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

type Solver struct {
	tc     *TermCtx
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	nvars  int // variables declared
	bin    []string

	queries   int
	cacheHits int
	unknowns  int
	time      time.Duration
	log       io.Writer
	errs      []string
}

type cacheEnt struct {
	res satRes
	one uint64
	m   map[string]uint64
}

// sharedCache holds decided constraint sets for all workers. The key is a 256-bit structural hash; sets over a
// single variable are identified up to the variable's name.
type qcache struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[hash4]cacheEnt
	}
}

type hash4 [4]uint64

var sharedCache = newQcache()

func newQcache() *qcache {
	c := &qcache{}
	for i := range c.sh {
		c.sh[i].m = map[hash4]cacheEnt{}
	}
	return c
}

func (c *qcache) get(k hash4) (cacheEnt, bool) {
	s := &c.sh[k[0]&63]
	s.mu.Lock()
	defer s.mu.Unlock()
	e, ok := s.m[k]
	return e, ok
}

func (c *qcache) put(k hash4, e cacheEnt) {
	s := &c.sh[k[0]&63]
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.m) > 200000 {
		s.m = map[hash4]cacheEnt{}
	}
	s.m[k] = e
}

// sliceKey: order-insensitive combination of the hashes of the (distinct) constraints.
func sliceKey(cs []*Term, anon bool) hash4 {
	var k hash4
	for _, c := range cs {
		h := c.h
		if anon {
			h = c.ha
		}
		k[0] += mix(h[0])
		k[1] += mix(h[1] ^ 0x5555)
		k[2] ^= mix(h[0] + 0x77)
		k[3] ^= mix(h[1] + 0x99)
	}
	k[0] += uint64(len(cs))
	if anon {
		k[1] ^= 0xabcdef
	}
	return k
}

func newSolver(tc *TermCtx, bin []string) *Solver {
	s := &Solver{tc: tc, bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.nvars = 0
	for _, t := range s.tc.tab {
		t.defined = false
	}
	for _, t := range s.tc.nary {
		t.defined = false
	}
	fmt.Fprint(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprint(s.in, "(set-option :timeout 20000)\n")
	}
	fmt.Fprint(s.in, "(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(t *Term) {
	for s.nvars < len(s.tc.vars) {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", s.nvars, sortOf(s.tc.vars[s.nvars].w))
		s.nvars++
	}
	if t.defined || t.op == opConst || t.op == opVar {
		return
	}
	for _, x := range t.a {
		s.define(x)
	}
	t.defined = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), t.body())
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

// Check decides the conjunction of cs (already a closed slice); on sat the model covers their variables.
func (s *Solver) Check(cs []*Term) (satRes, model) {
	var vars []int32
	for _, c := range cs {
		vars = mergeVars(vars, c.vars)
	}
	key := sliceKey(cs, len(vars) == 1)
	if e, ok := sharedCache.get(key); ok {
		s.cacheHits++
		if e.res != sat {
			return e.res, nil
		}
		m := model{}
		for _, v := range vars {
			if len(vars) == 1 {
				m[v] = e.one
			} else {
				m[v] = e.m[s.tc.names[v]]
			}
		}
		return sat, m
	}
	t0 := time.Now()
	for _, c := range cs {
		s.define(c)
	}
	fmt.Fprint(s.in, "(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	fmt.Fprint(s.in, "(check-sat)\n")
	s.in.Flush()
	l := s.readLine()
	s.queries++
	res := unknown
	var m model
	switch l {
	case "sat":
		res = sat
		m = model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, " v%d", v)
			}
			sb.WriteString("))\n")
			s.in.WriteString(sb.String())
			s.in.Flush()
			s.readModel(m, len(vars))
		}
	case "unsat":
		res = unsat
	case "unknown", "timeout":
	default:
		s.errs = append(s.errs, l)
	}
	if strings.HasPrefix(l, "(error") {
		s.close()
		s.start()
	} else {
		fmt.Fprint(s.in, "(pop 1)\n")
	}
	s.time += time.Since(t0)
	if res == unknown {
		s.unknowns++
	} else {
		e := cacheEnt{res: res}
		if res == sat {
			if len(vars) == 1 {
				e.one = m[vars[0]]
			} else {
				e.m = make(map[string]uint64, len(vars))
				for _, v := range vars {
					e.m[s.tc.names[v]] = m[v]
				}
			}
		}
		sharedCache.put(key, e)
	}
	return res, m
}

func (s *Solver) readModel(m model, n int) {
	depth := 0
	var sb strings.Builder
	for {
		l := s.readLine()
		if strings.HasPrefix(l, "(error") {
			s.errs = append(s.errs, l)
			return
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 {
			break
		}
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(sb.String()))
	for i := 0; i < len(toks); i++ {
		if toks[i] != "(" || i+2 >= len(toks) || !strings.HasPrefix(toks[i+1], "v") {
			continue
		}
		idx, err := strconv.Atoi(toks[i+1][1:])
		if err != nil {
			continue
		}
		v := toks[i+2]
		switch {
		case v == "true":
			m[int32(idx)] = 1
		case v == "false":
			m[int32(idx)] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[int32(idx)] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[int32(idx)] = u
		case v == "(" && i+4 < len(toks) && toks[i+3] == "_": // (_ bvN w)
			u, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+4], "bv"), 10, 64)
			m[int32(idx)] = u
		default:
			s.errs = append(s.errs, "cannot parse value "+v)
		}
	}
}
