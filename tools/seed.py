#!/usr/bin/env python3
"""Make or recheck a planted bug.

seed.py add ID PROP PKG FILE <<spec   (see below)   applies an edit to a scratch copy and stores the bug
seed.py demo ID ...                                 demo only: passes on /repo, fails with the patch
seed.py run ID ...                                  applies the patch to /repo, runs its check, undoes it
"""
import json, os, subprocess, sys, shutil, tempfile, glob
V = "/verif"
R = "/repo"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")

DEMO = '''#!/bin/bash
# runs demo_test.go inside the package; nothing is written outside a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
root=$(pwd)
pkg=%s
{
  printf '{"Replace": {"%%s": "%%s"' "$root/$pkg/zz_demo_test.go" "$here/demo_test.go.txt"
  for f in "$root/$pkg"/*_test.go; do [ -e "$f" ] && printf ', "%%s": ""' "$f"; done
  printf '}}'
} > "$work/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$work/overlay.json" -run '^TestDemo$' "./$pkg"
'''

def sh(cmd, cwd=R, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def scratch():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    w = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", R, w], check=True)
    return d, w

STABLE = ["./fontconfig/cmd", "./fontconfig/lang", "./fribidi", "./pango", "./pango/fcfonts"]

def stable(w):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = set()
    def walk(x):
        if isinstance(x, str):
            names.add(x)
        elif isinstance(x, dict):
            for k, y in x.items():
                names.add(k); walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(base)
    bad = []
    for pkg in STABLE:
        ip = "github.com/benoitkugler/textprocessing" + pkg[1:]
        ts = sorted(n.rsplit("/", 1)[1] for n in names if n.startswith(ip + "/") and "/" not in n[len(ip)+1:])
        ts += sorted(n.split("::")[-1] for n in names if n.startswith(ip + "::"))
        if not ts:
            continue
        binf = os.path.join(os.path.dirname(w), "t.test")
        r = sh(["go", "test", "-c", "-vet=off", "-o", binf, pkg], cwd=w)
        if r.returncode != 0:
            return ["compile " + pkg + r.stdout]
        for t in ts:
            r = sh([binf, "-test.run", "^%s$" % t], cwd=os.path.join(w, pkg))
            if r.returncode != 0:
                bad.append(pkg + "/" + t)
    return bad

def demo(id, w):
    return sh(["bash", os.path.join(V, "seeded", id, "demo.sh")], cwd=w, timeout=300)

def verify(id):
    d, w = scratch()
    try:
        r = demo(id, w)
        if r.returncode != 0:
            return "demo fails on the unchanged tree:\n" + r.stdout[-3000:]
        r = sh(["git", "apply", os.path.join(V, "seeded", id, "patch.diff")], cwd=w)
        if r.returncode != 0:
            return "patch does not apply: " + r.stdout
        r = sh(["go", "build", "./..."], cwd=w)
        if r.returncode != 0:
            return "does not build: " + r.stdout
        r = demo(id, w)
        if r.returncode == 0:
            return "demo passes with the patch"
        if "build failed" in r.stdout:
            return "demo does not build: " + r.stdout
        bad = stable(w)
        if bad:
            return "stable tests fail: %s" % bad
        return "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(id):
    meta = json.load(open(os.path.join(V, "seeded", id, "meta.json")))
    assert not sh(["git", "status", "--porcelain"]).stdout.strip(), "/repo is dirty"
    r = sh(["git", "apply", os.path.join(V, "seeded", id, "patch.diff")])
    assert r.returncode == 0, r.stdout
    try:
        r = sh(["python3", "check.py", meta["property"]], cwd=V, timeout=1200)
    finally:
        sh(["git", "checkout", "--", "."])
    out = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "FAILED", "note", "ok"))]
    print(id, meta["property"], "rc=%d" % r.returncode, *[l[:160] for l in out if not l.startswith("FAILED")], "| obligations:", len([l for l in out if l.startswith("FAILED")]), "|", " ; ".join(l[:90] for l in out if l.startswith("FAILED"))[:260], flush=True)

def add(spec):
    """spec: dict id property pkg edits=[(file, old, new)] demo needs breaks"""
    id = spec["id"]
    dst = os.path.join(V, "seeded", id)
    os.makedirs(dst, exist_ok=True)
    d, w = scratch()
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d occurrences of %r" % (id, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        sh(["gofmt", "-l", "."], cwd=w)
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    open(os.path.join(dst, "demo.sh"), "w").write(DEMO % spec["pkg"])
    os.chmod(os.path.join(dst, "demo.sh"), 0o755)
    open(os.path.join(dst, "demo_test.go.txt"), "w").write(spec["demo"])
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    print(id, verify(id), flush=True)

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + "/seeded/*/meta.json"))
    if sys.argv[1] == "demo":
        for i in ids:
            print(i, verify(i), flush=True)
    elif sys.argv[1] == "run":
        for i in ids:
            run(i)
