"""Building the harness, running it, running TLC."""
import fcntl
import hashlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building

def _files(top):
    for d, _, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            yield os.path.join(d, f)


def _digest():
    h = hashlib.sha256()
    paths = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")]
    paths += list(_files(os.path.join(REPO, "src"))) + list(_files(os.path.join(VERIF, "harness", "src")))
    paths += [os.path.join(VERIF, "harness", "Cargo.toml")]
    for p in paths:
        if os.path.exists(p):
            with open(p, "rb") as f:
                data = f.read()
            h.update(("%s %d\n" % (p, len(data))).encode())
            h.update(data)
    return h.hexdigest()[:16]


def build(profile="dev"):
    """The harness, compiled against /repo's current tree.  Keyed by content: cargo's own
    freshness goes by modification times."""
    os.makedirs(BUILD, exist_ok=True)
    key = _digest() + "-" + profile
    exe = os.path.join(BUILD, "harness-" + key)
    with open(os.path.join(BUILD, "lock-" + profile), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            target = os.path.join(BUILD, "target-" + key)
            env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
            env.pop("RUSTFLAGS", None)
            cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
            if profile != "dev":
                cmd += ["--profile", profile]
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
            if r.returncode != 0:
                shutil.rmtree(target, ignore_errors=True)
                raise ToolError("harness does not build:\n" + r.stderr[-3000:])
            sub = "debug" if profile == "dev" else profile
            tmp = exe + ".tmp%d" % os.getpid()
            shutil.copy2(os.path.join(target, sub, "dumb-crypto-harness"), tmp)
            os.rename(tmp, exe)
            shutil.rmtree(target, ignore_errors=True)
            old = sorted((f for f in os.listdir(BUILD) if f.startswith("harness-") and f.endswith(profile)),
                         key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
            for f in old[:-4]:
                os.unlink(os.path.join(BUILD, f))
    return exe


# ---------------------------------------------------------------- running plans

class Session:
    def __init__(self, sid, lines):
        self.sid, self.lines = sid, lines


def run_plan(exe, sessions, workdir, name, mode="seq", limit=300, memory=None):
    """Run the sessions; returns {sid: record}.  A session the process died or hung in gets an
    event `abort` or `hang`, which no action of the specification explains."""
    plan = os.path.join(workdir, name + ".plan")
    out = os.path.join(workdir, name + ".out")
    with open(plan, "w") as f:
        for s in sessions:
            f.write("S %s\n" % s.sid)
            f.write("\n".join(s.lines) + "\n")

    def limits():
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    p = subprocess.Popen([exe, "--plan", plan, "--out", out, "--mode", mode], preexec_fn=limits,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    errs = []
    t = threading.Thread(target=lambda: errs.append(p.stderr.read()))
    t.start()
    died, size, since = None, -1, time.time()
    while True:
        try:
            p.wait(timeout=0.02 if time.time() - since < 1 else 0.25)
            break
        except subprocess.TimeoutExpired:
            now = os.path.getsize(out) if os.path.exists(out) else 0
            if now != size:
                size, since = now, time.time()
            if time.time() - since > limit:      # no session finished for that long
                died = "hang"
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    t.join()
    if died is None and p.returncode != 0:
        if p.returncode == 3:
            raise ToolError("plan %s: %s" % (name, "".join(errs)[-500:]))
        died = "abort"
    got = {}
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                if line.endswith("]}\n"):
                    got[line[8:line.index('"', 8)]] = line.rstrip("\n")
    def there(s):        # a mesh has a record for each of its histories
        return s.sid in got or s.sid + "/0" in got
    missing = [s for s in sessions if not there(s)]
    if died is None and missing:
        raise ToolError("plan %s: sessions without a record" % name)
    if died:
        order = list(reversed(sessions)) if mode == "rev" else sessions
        first = next((s for s in order if not there(s)), order[-1])
        got[first.sid] = json.dumps({"sid": first.sid, "ev": [
            {"op": died, "r": died, "out": [], "text": 1, "during": first.lines[-1][:200], "rc": p.returncode}]},
            separators=(",", ":"))
    return got


# ---------------------------------------------------------------- TLC

class _Cores:
    """At most 8 TLC workers at a time; a run takes all of its workers at once."""
    def __init__(self, n):
        self.free, self.cond = n, threading.Condition()

    def take(self, n):
        with self.cond:
            self.cond.wait_for(lambda: self.free >= n)
            self.free -= n

    def give(self, n):
        with self.cond:
            self.free += n
            self.cond.notify_all()


CORES = _Cores(8)


def tlc(module, cfg, workdir, workers=2, env=None, extra=(), timeout=800, heap="3g"):
    """Run TLC on spec/<module>.tla with the configuration text or file `cfg`."""
    name = "%s-%d-%d" % (module, threading.get_ident() % 100000, int(time.time() * 1e6) % 10 ** 9)
    if "\n" in cfg:
        path = os.path.join(workdir, name + ".cfg")
        with open(path, "w") as f:
            f.write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    meta = os.path.join(workdir, name + ".meta")
    cmd = ["java", "-XX:+UseSerialGC" if workers <= 2 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Djava.io.tmpdir=" + workdir, "-cp", CP, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-nowarning", "-workers", str(workers), "-config", path] + list(extra) + [module + ".tla"]
    held = min(workers, 8)
    CORES.take(held)
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s exceeded %d s" % (module, timeout))
    finally:
        CORES.give(held)
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def counts(text):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", text)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def model_check(module, cfg, workdir, workers=2, timeout=800, heap="3g"):
    """A design-level run: must finish without an error."""
    rc, out = tlc(module, cfg, workdir, workers, timeout=timeout, heap=heap)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("model %s (%s) fails:\n%s" % (module, cfg, out[-3000:]))
    g, d = counts(out)
    depth = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return {"model": module, "config": cfg if "\n" not in cfg else "inline", "generated": g, "distinct": d,
            "depth": int(depth[-1]) if depth else 0}


APALACHE = {
    "MC_Arith": [("--init=Init", "--inv=All", "--length=0")],
    "MC_Bounds": [("--init=Init", "--inv=All", "--length=0")],
    "MC_Lengths": [("--cinit=CInit", "--init=Init", "--inv=Inv", "--length=0"),
                   ("--cinit=CInit", "--init=IndInit", "--inv=Inv", "--length=1"),
                   ("--cinit=CInit", "--init=IndInit", "--inv=Consequences", "--length=0")],
}


def symbolic(module, workdir, timeout=600):
    """A design-level statement about all integers, by Apalache."""
    for k, args in enumerate(APALACHE[module]):
        out = os.path.join(workdir, "%s-%d" % (module, k))
        cmd = ["apalache-mc", "check", "--out-dir=" + out] + list(args) + [module + ".tla"]
        CORES.take(1)
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, JVM_ARGS="-Xmx3g -Djava.io.tmpdir=" + workdir),
                               capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("Apalache on %s exceeded %d s" % (module, timeout))
        finally:
            CORES.give(1)
            shutil.rmtree(out, ignore_errors=True)
        if r.returncode != 0 or "The outcome is: NoError" not in r.stdout:
            raise ToolError("Apalache on %s %s fails:\n%s" % (module, " ".join(args), r.stdout[-3000:] + r.stderr[-1000:]))
    return {"model": module, "config": "Apalache: " + "; ".join(" ".join(a) for a in APALACHE[module]), "generated": 0,
            "distinct": 0, "depth": 0}


TRACE_CFG = "SPECIFICATION TraceSpec\nALIAS Shown\nCHECK_DEADLOCK TRUE\n"


def validate(lines, workdir, name, workers=8, timeout=800):
    """Are these session records behaviours of the specification?
    Returns (rejection or None, states generated, distinct states)."""
    path = os.path.join(workdir, name + ".ndjson")
    with open(path, "w") as f:
        for l in lines:
            f.write(l + "\n")
    rc, out = tlc("Trace", TRACE_CFG, workdir, workers, env={"TRACE": path}, timeout=timeout, heap="6g")
    g, d = counts(out)
    if "Deadlock reached" in out:
        tid = int(re.findall(r"/\\ tid = (\d+)", out)[-1])
        l = int(re.findall(r"/\\ l = (\d+)", out)[-1])
        want = re.findall(r'/\\ want = "(.*)"', out)
        return {"tid": tid - 1, "l": l - 1, "want": want[-1].replace('\\"', '"') if want else ""}, g, d
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("trace validation %s fails to run:\n%s" % (name, out[-3000:]))
    expected = sum(len(json.loads(x)["ev"]) + 1 for x in lines)
    if d != expected:
        raise ToolError("trace validation %s: %d states, %d expected" % (name, d, expected))
    os.unlink(path)
    return None, g, d


def generate(cfg, workdir, walks=None, depth=None, seed=1, module="Gen"):
    """Call histories from Gen.tla or GenApi.tla: one per transition of the quotient, or random walks."""
    text = "SPECIFICATION Spec\nCONSTANTS\n" + "".join("  %s = %s\n" % kv for kv in cfg.items())
    text += '  Depth = %d\n  Mode = "%s"\n' % (depth or 1000, "walk" if walks else "all")
    text += "ACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
    extra = []
    if walks:
        extra = ["-simulate", "num=%d" % walks, "-depth", str(depth + 1), "-seed", str(seed)]
    else:
        text += "VIEW Abstract\n"
    rc, out = tlc(module, text, workdir, workers=1, extra=extra)
    if not walks and (rc != 0 or "No error" not in out):
        raise ToolError("generation fails:\n" + out[-2000:])
    hs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^<<"H", "(.*)">>$', out, re.M)]
    if not hs:
        raise ToolError("generation gives nothing:\n" + out[-2000:])
    if walks:       # TLC prints every successor at a walk's end: keep one for each walk
        ends = {}
        for h in hs:
            ends.setdefault(json.dumps(h[:-1]), []).append(h)
        rng = random.Random(seed)
        hs = [rng.choice(v) for v in ends.values()]
    g, d = counts(out)
    return hs, {"model": module, "config": "%s %s" % (cfg.get("Kind", cfg.get("Kinds")), "walks" if walks else "transitions"),
                "generated": g or len(hs), "distinct": d, "depth": depth or 0, "histories": len(hs)}
