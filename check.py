#!/usr/bin/env python3
"""Decides one property: check.py ID [--thorough] (see DESIGN.md)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MOD = "github.com/benoitkugler/textprocessing/"

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e

def build():
    """build the verifier (std library only)"""
    out = os.path.join(VERIF, "bin", "vcg")
    src = [os.path.join(VERIF, "vcg", f) for f in os.listdir(os.path.join(VERIF, "vcg"))]
    if os.path.exists(out) and all(os.path.getmtime(f) <= os.path.getmtime(out) for f in src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    subprocess.run(["go", "build", "-o", tmp, "."], cwd=os.path.join(VERIF, "vcg"), env=env(), check=True)
    os.replace(tmp, out)
    return out

def harness(prop, pkg, tier, replay, work):
    """bounded run of the executable contract against the real code"""
    pkgdir = os.path.join(REPO, pkg)
    pkgname = os.path.basename(pkg)
    src = os.path.join(VERIF, "replay", pkg)
    kit = os.path.join(work, pkg.replace("/", "_") + "_kit.go")
    with open(os.path.join(VERIF, "replay", "verifkit.go.tmpl")) as f:
        text = f.read().replace("package PKG", "package " + pkgname)
    with open(kit, "w") as f:
        f.write(text)
    rep = {os.path.join(pkgdir, "verifkit_verif_test.go"): kit}
    for f in sorted(os.listdir(src)):
        if f in (prop + "_verif_test.go", "common_verif_test.go"):
            rep[os.path.join(pkgdir, f)] = os.path.join(src, f)
    # the repository's own tests are left out of the harness binary
    for f in os.listdir(pkgdir):
        if f.endswith("_test.go"):
            rep[os.path.join(pkgdir, f)] = ""
    ov = os.path.join(work, pkg.replace("/", "_") + "_overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    e = env()
    e["VERIF_TIER"] = tier
    e["VERIF_REPLAY_OUT"] = replay
    limit = 600 if tier == "thorough" else 150
    cmd = ["go", "test", "-vet=off", "-v", "-count=1", "-timeout", "%ds" % limit, "-overlay", ov, "-run", "^TestVerif%s" % prop, "./" + pkg]
    try:
        r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 120)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    cases = sum(int(n) for n in re.findall(r"VERIFKIT name=.* cases=(\d+)", out))
    # a run that is stopped by the go test timeout or a fatal error is a failure too
    if rc != 0 and "[build failed]" not in out and not os.path.exists(replay):
        with open(replay, "w") as f:
            f.write("harness %s of %s stopped:\n%s\n" % (prop, pkg, out[-6000:]))
    return rc, cases, out, "[build failed]" in out

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(VERIF, "checks.json")))[prop]
    vcg = build()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + ".replay.txt")
    for f in (replay, os.path.join(evdir, prop + ".json")):
        if os.path.exists(f):
            os.remove(f)
    work = tempfile.mkdtemp(prefix="verif_" + prop)
    try:
        code = decide(prop, tier, seed, conf, vcg, replay, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def decide(prop, tier, seed, conf, vcg, replay, work, t0):
    report = os.path.join(work, "report.json")
    cmd = [vcg, "-prop", prop, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-out", report,
           "-scale", "3" if tier == "thorough" else "1", "-retry", "3", "-budget", "2400" if tier == "thorough" else "400"]
    ve = env()
    if tier == "thorough":
        ve["VCG_SMOKE"] = "1" # a longer search for contradictory hypotheses
    p = subprocess.Popen(cmd, env=ve, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    # the executable contracts
    cases, hout, hfail = 0, [], False
    hbuild = False
    for pkg in conf.get("harness", []):
        rc, n, out, bf = harness(prop, pkg, tier, replay, work)
        cases += n
        if rc != 0:
            hfail = hfail or not bf
            hbuild = hbuild or bf
            hout.append(out[-4000:])
    # once a failing input is at hand the verifier only has to name obligations
    stopped = False
    try:
        vout, _ = p.communicate(timeout=75 if hfail else None)
    except subprocess.TimeoutExpired:
        p.kill()
        vout, _ = p.communicate()
        stopped = True
    rep = None
    if os.path.exists(report):
        rep = json.load(open(report))
    failed = []   # (obligation, text)
    if stopped and rep is None:
        print("note: the verifier was stopped, a failing input has been found")
    elif rep is None or rep.get("error"):
        failed.append(("verifier", (rep or {}).get("error") or vout[-3000:]))
    else:
        for m in rep.get("missing") or []:
            failed.append((m, "function under contract not found"))
        for fn in rep["functions"] or []:
            if fn.get("error"):
                failed.append((fn["name"], "obligations cannot be generated: " + fn["error"]))
            for v in fn.get("vacuous") or []:
                failed.append((fn["name"] + ":vacuous", v))
            for o in fn.get("obligations") or []:
                if not o["ok"]:
                    failed.append((fn["name"] + "/" + o["name"], o["text"] + "\n" + (o.get("out") or "")))
    known = known_findings(prop)
    violations = [f for f in failed if f[0] not in known]
    for f in failed:
        if f[0] in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[f[0]]))
    if hbuild and not violations:
        # the harness no longer compiles against the code: the proof alone decides
        print("note: the bounded harness does not build against the current tree")
    for f in violations[:20]:
        print("FAILED %s: %s" % (f[0], f[1][:300].replace("\n", " | ")))
    code = 0
    found = hfail and os.path.exists(replay)
    if violations or hfail:
        code = 1
        with open(replay, "a") as f:
            for v in violations:
                f.write("failed obligation: %s\n%s\n" % v)
            if hbuild:
                f.write("\n".join(hout))
            if found:
                f.write("\nreplay: VERIF_CASE=<case> go test -overlay <see /verif/check.py> -run TestVerif%s ./%s\n" % (prop, " ./".join(conf.get("harness", []))))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
    write_evidence(prop, tier, seed, conf, rep, violations, hfail, cases, cmd, t0)
    if code == 0:
        print("ok %s: %s obligations discharged, %d bounded cases, %.1f s" % (prop, rep["discharged"], cases, time.time() - t0))
    return code

def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) obligation=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out

def write_evidence(prop, tier, seed, conf, rep, violations, hfail, cases, cmd, t0):
    fns, trusted, assumptions = [], set(), set()
    if rep and rep.get("functions"):
        for fn in rep["functions"]:
            obs = fn.get("obligations") or []
            fns.append({"name": fn["name"], "kind": fn.get("kind"), "obligations": len(obs), "discharged": sum(1 for o in obs if o["ok"]),
                        "inlined": fn.get("inlined") or [], "solver_ms": sum(o.get("ms", 0) for o in obs)})
            for a in fn.get("assumptions") or []:
                (trusted if a.startswith(("extern", "trusted", "lemma")) else assumptions).add(a)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": rep["obligations"] if rep and not rep.get("error") else 0,
            "discharged": rep["discharged"] if rep and not rep.get("error") else 0,
            "checker_cmd": " ".join(cmd),
            "trusted_base": ["vcg (/verif/vcg): verification condition generator for Go", "go/types", "z3 5.3.2", "z3 4.8.12", "cvc5 1.1.2"] + sorted(trusted),
            "functions_under_contract": fns,
            "discharged_by": (rep or {}).get("discharged_by", {}),
            "solver_ms": (rep or {}).get("solver_ms", {}),
            "bounded_cases": cases,
            "bounded_note": "executable contracts run against the real code on generated inputs; never counted as proved",
        },
        "assumptions": sorted(assumptions) + conf.get("assumptions", []) + [
            "int and uint (64 bit) arithmetic is mathematical; narrower integers wrap as in Go",
            "floating point values are mathematical reals",
            "no data race: functions run without concurrent mutation of their arguments",
            "allocation never fails; loops marked so in the list above are proved partially (termination not proved)",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations) + (1 if hfail else 0),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

if __name__ == "__main__":
    if sys.argv[1:] == ["--build"]:
        build()
    else:
        main()
