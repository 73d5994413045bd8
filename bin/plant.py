#!/usr/bin/env python3
"""plant.py SPEC.py...: development tool.  Each SPEC.py defines BUGS, a list of dicts
   id, property, edits=[(file, old, new)...], test (body of an in-package Go test file), needs, breaks.
Applies each in a scratch copy of /repo, confirms: builds, stable tests pass, demo fails with / passes without,
removed lines are the original repository's.  Writes /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
BASE = os.environ.get("VF_BASE")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOSUMDB="off",
           GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
def sh(c, cwd=None, t=300):
    p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# Runs the demonstration test beside this script inside package termemu of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/ov.json"
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
sed -i "s#$here/demo_test.go.txt#$tmp/demo_test.go#" "$tmp/ov.json"
go test -vet=off -count=1 -timeout 120s RACEFLAG-overlay "$tmp/ov.json" -run '^TestZZDemo$' .
'''
PRE = '''package termemu

import (
	"bytes"
	"testing"
)

'''
HELP = '''
// zzBackend serves bytes and swallows what is written.
type zzBackend struct {
	in  *bytes.Reader
	out bytes.Buffer
}

func (b *zzBackend) Read(p []byte) (int, error)  { return b.in.Read(p) }
func (b *zzBackend) Write(p []byte) (int, error) { return b.out.Write(p) }
func (b *zzBackend) SetSize(w, h int) error      { return nil }

// zzTerm makes a terminal of size w x h without a read loop; grid selects the cell grid.
func zzTerm(f Frontend, w, h int, mode TextReadMode, grid bool) (*terminal, *zzBackend) {
	if f == nil {
		f = &EmptyFrontend{}
	}
	be := &zzBackend{in: bytes.NewReader(nil)}
	t := newTerminal(f, be, mode)
	if grid {
		t.mainScreen, t.altScreen = newGridScreen(f), newGridScreen(f)
	}
	_ = t.Resize(w, h)
	return t, be
}

func zzFeed(t *terminal, s string) {
	gr := NewGraphemeReaderWithMode(bytes.NewReader([]byte(s)), t.textReadMode)
	for t.ptyReadOne(gr) == nil {
	}
}
'''
orig = sh("git rev-list --max-parents=0 HEAD", "/repo")[1].split()[0]
fixes = sh("git log --format=%H --grep=^fix:", "/repo")[1].split()
only = set(os.environ.get("ONLY", "").split()) 
bad = 0
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        wt = "/tmp/plantwt"
        shutil.rmtree(wt, ignore_errors=True)
        sh(f"git -C /repo worktree prune; git clone -q /repo {wt}")
        def fail(m):
            global bad; bad += 1
            print(f"{b['id']}: FAIL {m}"); 
        ok = True
        for f, old, new in b["edits"]:
            p = f"{wt}/{f}"; s = open(p).read()
            if s.count(old) != 1: fail(f"{f}: old text occurs {s.count(old)} times: {old[:60]!r}"); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        d = os.environ.get("SEEDED", "/verif/seeded") + f"/{b['id']}"
        tmpd = "/tmp/plantd"; shutil.rmtree(tmpd, ignore_errors=True); os.makedirs(tmpd)
        rc, out = sh("gofmt -l $(git diff --name-only)", wt)
        if out.strip(): print(b["id"], "gofmt:", out.strip()); sh("gofmt -w $(git diff --name-only)", wt)
        patch = sh("git diff", wt)[1]
        open(f"{tmpd}/patch.diff", "w").write(patch)
        test = b["test"]
        imports = b.get("imports", [])
        imp = sorted(set(["bytes", "testing"] + imports))
        src = "package termemu\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imp) + ")\n" + HELP + "\n" + test
        open(f"{tmpd}/demo_test.go.txt", "w").write(src)
        open(f"{tmpd}/demo.sh", "w").write(DEMO.replace("RACEFLAG", "-race " if b.get("race") else ""))
        os.chmod(f"{tmpd}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{tmpd}/meta.json", "w"), indent=1)
        # original lines
        files = sh("git diff --name-only", wt)[1].split()
        removed_ok = False
        for f in files:
            hunks = re.findall(r"^@@ -(\d+)(?:,(\d+))? \+", sh(f"git diff -U0 {f}", wt)[1], re.M)
            for st, n in hunks:
                n = int(n) if n else 1
                if n == 0: continue
                bl = sh(f"git blame -l -s -L {st},+{n} HEAD -- {f}", wt)[1]
                for l in bl.splitlines():
                    h = l.split()[0].lstrip("^")
                    if not any(x.startswith(h) for x in fixes): removed_ok = True
        if not removed_ok: fail("changes no original line"); continue
        rc, out = sh("go build ./...", wt)
        if rc: fail("build: " + out); continue
        rc, out = sh(f"{tmpd}/demo.sh", wt)
        if rc == 0: fail("demo passes with the patch"); continue
        if "build failed" in out or "panic: test timed out" in out and not b.get("hang"): fail("demo: " + out[:800]); continue
        why = [l for l in out.splitlines() if l.strip()][:3]
        fl = False
        for i in range(2):
            rc, out = sh("go test -vet=off -count=1 -timeout 5m ./...", wt)
            if rc: fl = True; fail("tests: " + out[:600]); break
        if fl: continue
        sh("git checkout -q -- .", wt)
        rc, out = sh(f"{tmpd}/demo.sh", wt)
        if rc: fail("demo fails unpatched: " + out[:800]); continue
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmpd, d)
        print(b["id"], "ok |", " / ".join(why)[:200])
shutil.rmtree("/tmp/plantwt", ignore_errors=True)
sys.exit(bad > 0)
