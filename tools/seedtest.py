#!/usr/bin/env python3
"""seedtest.py valid|catch|all [ID...]   try the planted changes in /verif/seeded.
valid: in a scratch copy, the patch applies, builds, passes the existing tests; the demonstration passes without and fails with it.
catch: with the patch applied to /repo (and undone afterwards), does the check of its property report it?"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V, R = "/verif", "/repo"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def valid(i):
    d, w = "%s/%s" % (os.environ.get("SEEDS", V + "/seeded"), i), tempfile.mkdtemp(prefix="seed")
    try:
        p = w + "/repo"
        shutil.copytree(R, p, symlinks=True)
        clean = sh("bash %s/demo.sh" % d, p)
        if clean.returncode:
            return "demo fails on the clean tree: " + (clean.stdout + clean.stderr)[-300:]
        a = sh("git apply %s/patch.diff" % d, p)
        if a.returncode:
            return "does not apply: " + a.stderr
        t = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", p)
        ok = sum(l.endswith("... ok") for l in t.stdout.splitlines())
        if t.returncode or ok != 68:
            return "tests: %d ok\n%s%s" % (ok, t.stdout[-500:], t.stderr[-800:])
        b = sh("bash %s/demo.sh" % d, p)
        return "valid" if b.returncode not in (0, 2) else "demo does not fail (%d) %s" % (b.returncode, (b.stdout + b.stderr)[-300:])
    finally:
        shutil.rmtree(w)


def catch(i):
    d = "%s/%s" % (os.environ.get("SEEDS", V + "/seeded"), i)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git status --porcelain", R).stdout
    a = sh("git apply %s/patch.diff" % d, R)
    try:
        t = time.time()
        c = sh("VERIF_TIER=quick VERIF_SEED=1 python3 check.py " + prop, V)
        lines = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        hit = c.returncode == 1 and any("property=%s " % prop in l for l in lines)
        return "%s by %s in %d s%s" % ("CAUGHT" if hit else "MISSED", prop, time.time() - t, "" if hit else " (exit %d) %s" % (c.returncode, (c.stdout + c.stderr)[-400:]))
    finally:
        sh("git checkout -- .", R)


mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
if mode in ("valid", "all"):
    with ThreadPoolExecutor(4) as ex:
        for i, v in zip(ids, ex.map(valid, ids)):
            print(i, v, flush=True)
if mode in ("catch", "all"):
    for i in ids:
        print(i, catch(i), flush=True)
