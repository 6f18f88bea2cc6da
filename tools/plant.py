#!/usr/bin/env python3
"""Plants bugs: plant.py SPEC.py [id...] writes /verif/seeded/<id>, confirms each
in a scratch copy of /repo (builds, stable tests pass, demo 0 without and nonzero
with the patch) and then runs the property's check on /repo with the patch
applied and undone straight afterwards. A spec file holds SEEDS, a list of
dict(id, prop, edits=[(file, old, new)...], pkg, demo, needs, breaks)."""
import json, os, shutil, subprocess, sys, runpy
WT = os.environ.get("SEEDWT", "/tmp/seedwt")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod",
           GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
DEMO = '''#!/bin/bash
# Exit 0: the property holds in this demonstration; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
[ -d /opt/veriftools/go1.27.3/bin ] && PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
overlay=$(mktemp)
trap 'rm -f "$overlay"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seeded_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$overlay"
%(env)sgo test %(flags)s-vet=off -overlay "$overlay" -count=1 -timeout 120s -run '^TestSeededDemo$' ./%(pkg)s
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def stable_ok(cwd):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd, timeout=150)
    passed = set()
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            passed.add(d["Package"] + "/" + d["Test"])
    missing = stable - passed
    return not missing, sorted(missing)[:5]


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)


def one(s, checks=True):
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    fresh()
    for f, old, new in s["edits"]:
        p = os.path.join(WT, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "edit matches %d times in %s: %r" % (t.count(old), f, old[:60])
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "diff"], WT).stdout
    if not diff:
        return "empty"
    touched = False
    for f, _, _ in s["edits"]:
        base = set(run(["git", "show", "9f083ed:" + f], WT).stdout.splitlines())
        touched |= any(l[1:] in base and len(l[1:].strip()) > 2 for l in run(["git", "diff", "-U0", f], WT).stdout.splitlines()
                       if l.startswith("-") and not l.startswith("---"))
    if not touched:
        return "changes no original line"
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg=s["pkg"], flags="-race " if s.get("race") else "",
                                        env="GOARCH=%s CGO_ENABLED=0 " % s["arch"] if s.get("arch") else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = run(["go", "build", "./..."], WT)
    if r.returncode:
        return "does not build: " + r.stdout[:500]
    ok, missing = stable_ok(WT)
    if not ok:
        ok, missing = stable_ok(WT)
        if not ok:
            return "tests fail: %s" % missing
    for i in range(3):
        r = run([d + "/demo.sh"], WT, timeout=300)
        if r.returncode == 0:
            return "demo passes with the patch"
    if "demo_test.go" in r.stdout and "build failed" in r.stdout:
        return "demo does not build:\n" + r.stdout[:800]
    run(["git", "checkout", "--", "."], WT)
    for i in range(3):
        r = run([d + "/demo.sh"], WT, timeout=300)
        if r.returncode:
            return "demo fails without the patch:\n" + r.stdout[-1500:]
    if not checks:
        return "confirmed"
    return "confirmed; " + caught(s["id"], s["prop"])


def caught(id, prop):
    r = run(["git", "apply", "/verif/seeded/%s/patch.diff" % id], "/repo")
    if r.returncode:
        return "does not apply: " + r.stdout
    try:
        r = run(["./check", prop], "/verif")
    finally:
        run(["git", "checkout", "--", "."], "/repo")
    msg = [l for l in r.stdout.splitlines() if " case " in l]
    return "%s by %s: %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "NO ANSWER"), prop, (msg or [r.stdout[-300:]])[0][:200])


def main():
    if sys.argv[1] == "--caught":  # run the checks against seeded bugs again
        for id in sys.argv[2:] or sorted(os.listdir("/verif/seeded")):
            m = json.load(open("/verif/seeded/%s/meta.json" % id))
            print(id, caught(id, m["property"]), flush=True)
        return
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    for s in spec:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        print(s["id"], one(s), flush=True)
    shutil.rmtree(WT, ignore_errors=True)


if __name__ == "__main__":
    main()
