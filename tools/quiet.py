#!/usr/bin/env python3
"""Runs the checks on edits that keep the behaviour: quiet.py [id...]. Copies under /tmp only."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:]
sys.argv = ["mutants.py", "/dev/null"]
import importlib.util
spec = importlib.util.spec_from_file_location("m", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutants.py"))
m = importlib.util.module_from_spec(spec)
m.__name__ = "m"
spec.loader.exec_module(m)
from refactors import REFACTORS
m.ENV.pop("VERIF_SCALE")
base = m.prepare(int(os.environ.get("QSLOT", "99")))
t = open(base + "/verif/check").read().replace("timeout = 60", "timeout = 700 - t_build")
open(base + "/verif/check", "w").write(t)
for rid, edits in REFACTORS:
    if ids and rid not in ids:
        continue
    subprocess.run(["git", "-C", base + "/repo", "checkout", "-q", "--", "."], check=True)
    props = []
    for f, old, new in edits:
        p = os.path.join(base, "repo", f)
        s = open(p).read()
        if old.startswith("*"):
            s = s.replace(old[1:], new)
        elif old == "":
            s += new
        else:
            assert s.count(old) >= 1, (rid, f, old)
            s = s.replace(old, new, 1)
        open(p, "w").write(s)
        for k, v in m.PROPS.items():
            if k in f:
                props += [x for x in v if x not in props]
                break
    rc, out = m.run(["go", "build", "./..."], base + "/repo")
    if rc:
        print(rid, "does not build", out[-1500:])
        continue
    rc, out = m.run(["bash", "-c", "go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files' | tail -15"], base + "/repo", 300)
    if "FAIL" in out:
        print(rid, "fails tests", out)
        continue
    bad = []
    for p in props:
        rc, out = m.run(["./check", p], base + "/verif", 900)
        if rc or "VIOLATION" in out:
            bad.append("%s rc=%d\n%s" % (p, rc, out[-1200:]))
    print(rid, "quiet:" if not bad else "ALARM:", *(props if not bad else bad), flush=True)
subprocess.run(["rm", "-rf", base])
