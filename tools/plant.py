#!/usr/bin/env python3
"""Makes and confirms a planted bug: plant(id, prop, edits, demo, needs, what).
edits: [(file, old, new)]; demo: body of a Go test file (package water_test) that must pass on the
unchanged tree and fail with the change. Everything runs in a scratch copy under /tmp."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = "4a7e813"
DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for the case in demo_test.go; runs with the repository as working directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r -- "$tmp"' EXIT
cp go.mod "$tmp/go.mod" && cp go.sum "$tmp/go.sum" || exit 2
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod TMPDIR="$tmp"
go test -vet=off -count=1 -timeout 120s RACE-modfile="$tmp/go.mod" -overlay "$tmp/overlay.json" -run '^TestZZDemo$' .
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(cwd):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return sorted(STABLE - ok)
def plant(id, prop, edits, demo, needs, what, race=False, helpers=True):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    src = demo if demo.startswith("package") else HEAD + demo
    open(d + "/demo_test.go", "w").write(src)
    open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        w = tmp + "/repo"
        sh(["git", "clone", "-q", "/repo", w], "/")
        r0 = sh(["bash", d + "/demo.sh"], w)
        if r0.returncode: print(id, "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:]); return False
        for f, old, new in edits:
            p = w + "/" + f; s = open(p).read()
            if s.count(old) != 1: print(id, "EDIT: %d occurrences of %r in %s" % (s.count(old), old, f)); return False
            open(p, "w").write(s.replace(old, new))
        fm = [f for f, _, _ in edits if sh(["gofmt", "-l", f], w).stdout.strip() and not sh(["sh", "-c", "git show HEAD:%s | gofmt -l" % f], w).stdout.strip()]
        diff = sh(["git", "diff"], w).stdout
        orig = {}
        for f, _, _ in edits: orig[f] = set(sh(["git", "show", BASE + ":" + f], w).stdout.splitlines())
        cur, hit = None, False
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("-") and l[1:].strip() and l[1:] in orig.get(cur, ()): hit = True
        if not hit: print(id, "WARNING: no original line is changed")
        b = sh(["go", "build", "./..."], w)
        if b.returncode: print(id, "DOES NOT BUILD\n", b.stdout); return False
        miss = tests(w)
        if miss: print(id, "BREAKS TESTS", miss[:5]); return False
        r1 = sh(["bash", d + "/demo.sh"], w)
        if r1.returncode == 0: print(id, "DEMO PASSES WITH THE CHANGE"); return False
        if "--- FAIL" not in r1.stdout and "panic" not in r1.stdout and "DATA RACE" not in r1.stdout: print(id, "DEMO BROKEN?\n", r1.stdout[-1500:]); return False
        open(d + "/patch.diff", "w").write(diff)
        print(id, "ok", "(gofmt: %s)" % fm if fm else "")
        return True
    finally:
        shutil.rmtree(tmp)
HEAD = '''package water_test

import (
	"errors"
	"io"
	"io/ioutil"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"
	"bytes"
	"sync"
	"fmt"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"
)

var _ = []interface{}{errors.New, ioutil.ReadAll, multipart.NewWriter, url.Parse, os.Open, filepath.Join, reflect.DeepEqual, strings.Trim, time.Now, bytes.NewReader, fmt.Sprint, binding.Form, io.EOF, sync.NewCond}

func do(e http.Handler, method, target string, edit ...func(*http.Request)) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, target, nil)
	for _, f := range edit {
		f(req)
	}
	w := httptest.NewRecorder()
	e.ServeHTTP(w, req)
	return w
}

func text(s string) func(*water.Context) { return func(c *water.Context) { c.String(200, s) } }

'''
