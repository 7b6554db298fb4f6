#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the plants in plants/*.py and confirms each in
a scratch copy: it compiles, the stable tests pass, and the demonstration
passes without it and fails with it.

  plant.py [ID...]      (without arguments: those that have no folder yet)
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, textwrap
here = os.path.dirname(os.path.abspath(__file__))
seeded = os.path.join(os.path.dirname(here), "seeded")
BASE = "c57ad2b"
DEMO = r'''#!/bin/bash
# Runs the demonstration against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/usr/lib/go-1.21/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR=$scratch
cat > "$scratch/overlay.json" <<E
{"Replace": {"$repo/@PKG@/zz_demo_test.go": "$here/demo_test.go"}}
E
cd "$repo/@PKG@" && go test -overlay "$scratch/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' .
'''
def run(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(here, "plants", "p*.py"))):
        spec = importlib.util.spec_from_file_location("p", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for p in m.PLANTS:
            assert p["id"] not in out, p["id"]
            out[p["id"]] = p
    return out

ENV = dict(os.environ, HOME="/root", PATH="/usr/lib/go-1.21/bin:" + os.environ["PATH"], GOTOOLCHAIN="local",
           GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")

def stable(scratch):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = run("go test -json -vet=off -count=1 -timeout 10m ./... $(find _benchmarks _examples -name '*.go' -printf './%h\\n' | sort -u | grep -v cli_direct)", cwd=scratch, env=ENV)
    got = set()
    bad = set()
    for l in r.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            (got if e["Action"] == "pass" else bad).add(e["Package"] + "/" + e["Test"])
    return sorted(want - (got - bad))

def make(p):
    d = os.path.join(seeded, p["id"])
    scratch = "/tmp/w/plant-%d" % os.getpid()
    shutil.rmtree(scratch, ignore_errors=True)
    r = run(["git", "clone", "-q", "/repo", scratch]); assert r.returncode == 0, r.stdout
    try:
        os.makedirs(d, exist_ok=True)
        for f, old, new in p["edits"]:
            fp = os.path.join(scratch, f)
            s = open(fp).read()
            if s.count(old) != 1:
                return "edit matches %d times in %s: %r" % (s.count(old), f, old)
            open(fp, "w").write(s.replace(old, new))
        g = run("gofmt -l " + " ".join(sorted({f for f, _, _ in p["edits"]})), cwd=scratch, env=ENV)
        if g.stdout.strip():
            run("gofmt -w " + g.stdout.replace("\n", " "), cwd=scratch, env=ENV)
        diff = run(["git", "diff"], cwd=scratch).stdout
        # removed lines have to be the original repository's
        blame = {}
        own = 0
        cur = None
        import re
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
                blame = [x.split()[0].lstrip("^") for x in run(["git", "blame", "-s", "HEAD", "--", cur], cwd=scratch).stdout.splitlines()]
            m = re.match(r"@@ -(\d+)", l)
            if m:
                n = int(m.group(1)); continue
            if l.startswith(("---", "+++", "diff", "index")): continue
            if l.startswith("-"):
                if blame[n-1][:7] == BASE[:7] or BASE.startswith(blame[n-1][:7]): own += 1
                else: return "changes a line of a fix: %s" % l
                n += 1
            elif l.startswith(" "): n += 1
        if own == 0 and not p.get("addonly"):
            return "changes no original line"
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        pkg = p.get("pkg", ".")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("/@PKG@", "" if pkg == "." else "/" + pkg))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo_test.go"), "w").write(p["test"])
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = run("go build ./...", cwd=scratch, env=ENV)
        if r.returncode: return "does not build: " + r.stdout
        r = run([os.path.join(d, "demo.sh")], cwd=scratch)
        if r.returncode == 0: return "demo passes with the patch"
        if "FAIL" not in r.stdout or "[build failed]" in r.stdout: return "demo fails oddly: " + r.stdout
        msg = r.stdout
        run(["git", "checkout", "--", "."], cwd=scratch)
        r = run([os.path.join(d, "demo.sh")], cwd=scratch)
        if r.returncode: return "demo fails without the patch: " + r.stdout[-3000:]
        r = run(["git", "apply", os.path.join(d, "patch.diff")], cwd=scratch)
        if r.returncode: return "does not apply: " + r.stdout
        miss = stable(scratch)
        if miss: return "stable tests fail: %s" % miss
        return None
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    ps = load()
    ids = sys.argv[1:] or [i for i in ps if not os.path.isdir(os.path.join(seeded, i))]
    bad = 0
    for i in ids:
        try:
            e = make(ps[i])
        except Exception as x:
            e = repr(x)
        print(i, "ok" if e is None else "BAD: " + e, flush=True)
        if e:
            bad = 1
            shutil.rmtree(os.path.join(seeded, i), ignore_errors=True)
    sys.exit(bad)
