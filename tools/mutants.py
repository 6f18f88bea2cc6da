#!/usr/bin/env python3
"""Measures the checks with small automatic changes: mutants.py OUT.jsonl FILE...
[--workers N] [--scale PERCENT] [--only SUBSTR] [--sample K].

Works on copies of /repo and of this folder under /tmp only. A change that does
not compile or that fails a stable test of its package is dropped; for the rest
the checks of the file's properties run until one reports a violation."""
import json, os, random, re, shutil, subprocess, sys, threading
from queue import Queue, Empty

PROPS = {
    "gconcurrent/mr/": ["C03", "C04"], "gconcurrent/sync/": ["C01", "C02", "C42"], "gconstraints/errors.go": ["C05", "C03", "C04", "C42"],
    "gconstraints/": ["C33"], "gheap/": ["C17", "C35", "C38"], "glist/": ["C18", "C19", "C35", "C38", "C41", "C42"],
    "gmap/": ["C21", "C37", "C39", "C42"], "gpool/": ["C32", "C39", "C42"],
    "gqueue/": ["C19", "C35", "C38", "C41", "C42"], "gring/": ["C20", "C41", "C42"], "gset/": ["C21", "C37", "C39", "C42"], "gslice/": ["C22", "C37"],
    "grbt/": ["C15", "C16", "C35", "C39", "C41", "C42"], "gskiplist/": ["C14", "C35", "C36", "C41", "C42"],
    "gnumerics/": ["C33"], "fastrand/": ["C31"], "unsafex/": ["C34"], "bitset/": ["C12", "C13", "C37", "C39", "C41"],
    "cachex/cache.go": ["C10", "C11", "C41"], "cachex/file.go": ["C08", "C09", "C39", "C40", "C38", "C42"],
    "cachex/lrucache.go": ["C06", "C07", "C35", "C38", "C39", "C42"],
    "cryptox/": ["C23", "C24", "C25", "C42"], "password/": ["C30"], "stringx/": ["C26", "C27", "C28", "C29", "C37", "C42"],
}
args = sys.argv[1:]


def opt(name, default):
    if name in args:
        i = args.index(name)
        v = args[i + 1]
        del args[i:i + 2]
        return v
    return default


WORKERS, SCALE = int(opt("--workers", "4")), opt("--scale", "25")
SAMPLE, ONLY, REDO = int(opt("--sample", "0")), opt("--only", ""), opt("--redo", "")
OUT, FILES = args[0], args[1:]
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod",
           GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", VERIF_SCALE=SCALE, VERIF_SEED="1", VERIF_TIER="quick")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock = threading.Lock()


def run(cmd, cwd, timeout=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


def prepare(i):
    base = "/tmp/mut%d" % i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    os.makedirs(base + "/verif")
    for f in ("check", "registry.py", "known_findings.json", "harness"):
        subprocess.run(["cp", "-a", "/verif/" + f, base + "/verif/"], check=True)
    for f in ("check", "harness/go.mod"):
        p = base + "/verif/" + f
        t = open(p).read().replace('"/repo"', '"%s/repo"' % base).replace("=> /repo", "=> %s/repo" % base)
        t = t.replace('"/repo/" in first', '"%s/repo/" in first' % base).replace("timeout = 700 - t_build", "timeout = 60")
        open(p, "w").write(t)
    return base


def judge(base, m):
    path = os.path.join(base, "repo", m["file"])
    src = open(path, "rb").read()
    new = src[:m["start"]] + m["text"].encode() + src[m["end"]:]
    pkg = "./" + os.path.dirname(m["file"])
    open(path, "wb").write(new)
    try:
        rc, out = run(["go", "build", pkg], base + "/repo")
        if rc:
            return "nobuild", ""
        rc, out = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "30s", pkg], base + "/repo", 60)
        passed, names = set(), "github.com/miniLCT/gosb/" + pkg[2:] + "/"
        for l in out.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("Action") == "pass" and d.get("Test"):
                passed.add(d["Package"] + "/" + d["Test"])
        if {s for s in STABLE if s.startswith(names) and "/" not in s[len(names):]} - passed:
            return "tests", ""
        notes = []
        for k, props in PROPS.items():
            if k in m["file"]:
                for p in props:
                    rc, out = run(["./check", p], base + "/verif", 120)
                    if rc == 1 and "VIOLATION property=" + p in out:
                        return "caught", p
                    if rc != 0:
                        notes.append("%s rc=%s %s" % (p, rc, out[-600:]))
                break
        return ("noanswer" if notes else "missed"), "\n".join(notes)
    finally:
        open(path, "wb").write(src)


def worker(i, q):
    base = prepare(i)
    while True:
        try:
            m = q.get_nowait()
        except Empty:
            break
        verdict, note = judge(base, m)
        with lock:
            open(OUT, "a").write(json.dumps(dict(m, verdict=verdict, note=note)) + "\n")
    shutil.rmtree(base, ignore_errors=True)


def main():
    ms = []
    if REDO:
        ms = [json.loads(l) for l in open(REDO)]
        ms = [m for m in ms if m["verdict"] in ("missed", "noanswer") and (not FILES or m["file"] in FILES)]
    else:
        tool = "/tmp/mutate.bin"
        subprocess.run(["go", "build", "-o", tool, "./cmd/mutate"], cwd="/verif/harness", env=ENV, check=True)
        for f in FILES:
            rc, out = run([tool, f], "/repo")
            ms += json.loads(out) or []
    ms = [m for m in ms if ONLY in m["what"]]
    if SAMPLE and len(ms) > SAMPLE:
        ms = random.Random(1).sample(ms, SAMPLE)
    open(OUT, "w")
    q = Queue()
    for m in ms:
        q.put(m)
    ts = [threading.Thread(target=worker, args=(i, q)) for i in range(WORKERS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    res = [json.loads(l) for l in open(OUT)]
    count = {}
    for r in res:
        count[r["verdict"]] = count.get(r["verdict"], 0) + 1
    print(OUT, count)


if __name__ == "__main__":
    main()
