#!/usr/bin/env python3
"""check.py PROPERTY          decide one property (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE     run a recorded violation again
   check.py --build           build the harness"""
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.dont_write_bytecode = True
import props  # noqa: E402
import tools  # noqa: E402


def shorten(x, n=24):
    """events for the evidence file: long byte lists cut"""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > n:
            return [shorten(v, n) for v in x[:n]] + ["... %d in all" % len(x)]
        return [shorten(v, n) for v in x]
    return x


class Violation(Exception):
    def __init__(self, session, record, l, want, mode, profile="dev", beside=()):
        self.session, self.record, self.l, self.want, self.mode = session, record, l, want, mode
        self.profile, self.beside = profile, beside


class Run:
    """One check: its property's plans executed and validated, its models explored."""

    def __init__(self, prop, tier, seed, workdir):
        self.prop, self.tier, self.seed, self.dir = prop, tier, seed, workdir
        self.rng = random.Random("%s/%s/%d" % (prop, tier, seed))
        self.generated = self.distinct = self.validated = self.executed = self.calls = 0
        self.models, self.samples, self.notes = [], [], []
        self.ops = {}
        self.pool = ThreadPoolExecutor(24)

    def count(self, g, d):
        self.generated += g
        self.distinct += d

    def model(self, module, cfg=None, **kw):
        if module in tools.APALACHE:
            return self.pool.submit(tools.symbolic, module, self.dir)
        return self.pool.submit(tools.model_check, module, cfg or module + ".cfg", self.dir, **kw)

    # ------------------------------------------------------------------
    def execute(self, batch, name):
        """-> {sid: [distinct records]}, {sid: session}"""
        sessions = {s.sid: s for s in batch["sessions"]}
        logs, how = {}, {}
        for k, (mode, profile) in enumerate(batch.get("runs", [("seq", "dev")])):
            got = tools.run_plan(tools.build(profile), batch["sessions"], self.dir, "%s-%d" % (name, k), mode,
                                 limit=batch.get("limit", 240), memory=batch.get("memory"))
            self.executed += len(got)
            for sid, line in got.items():
                # copies of a session (sid~2, sid~3) must answer as the original does
                base = re.sub(r"~\d+", "", sid)
                body = line.replace('{"sid":"%s"' % sid, '{"sid":"%s"' % base, 1)
                if body not in logs.setdefault(base, []):
                    logs[base].append(body)
                    how[body] = (sid, mode, profile, batch["sessions"])
        return sessions, logs, how

    def judge(self, sessions, lines, how, name, workers=8):
        rej, g, d = tools.validate(lines, self.dir, name, workers=workers)
        self.count(g, d)
        if rej:
            rec = json.loads(lines[rej["tid"]])
            sid, mode, profile, beside = how[lines[rej["tid"]]]
            raise Violation(sessions[sid.split("/")[0]], rec, rej["l"], rej["want"], mode, profile, beside)
        self.validated += len(lines)

    def canary(self, lines):
        """The validation rejects a record in which one reply byte is changed."""
        cand = [x for x in lines if len(x) < 20000]
        self.rng.shuffle(cand)
        for line in cand:
            rec = json.loads(line)
            spots = [i for i, e in enumerate(rec["ev"]) if e["r"] == "ok" and e.get("out") and e["op"] != "scrypt.witness"]
            spots = [i for i in spots if e_first_digest(rec["ev"], i)]
            if not spots:
                continue
            i = self.rng.choice(spots)
            out = rec["ev"][i]["out"]
            k = self.rng.randrange(len(out))
            out[k] ^= 1 << self.rng.randrange(8)
            rej, g, d = tools.validate([json.dumps(rec, separators=(",", ":"))], self.dir, "canary", workers=1)
            if not rej or rej["l"] != i:
                raise tools.ToolError("a corrupted record (%s, event %d) was not rejected there" % (rec["sid"], i))
            return
        # outcome lists: corrupt those instead
        for line in cand:
            rec = json.loads(line)
            for i, e in enumerate(rec["ev"]):
                if e.get("outs"):
                    e["outs"][0]["out"][0] ^= 1
                    rej, g, d = tools.validate([json.dumps(rec, separators=(",", ":"))], self.dir, "canary", workers=1)
                    if not rej or rej["l"] != i:
                        raise tools.ToolError("a corrupted outcome was not rejected")
                    return
        raise tools.ToolError("no record to corrupt")

    def note_ops(self, lines):
        for line in lines:
            for part in line.split('"op":"')[1:]:
                op = part[:part.index('"')]
                self.ops[op] = self.ops.get(op, 0) + 1
                self.calls += 1

    def go(self):
        plan = props.PROPS[self.prop](self)
        built = self.pool.submit(tools.build)
        jobs = [self.model(m, **kw) for m, kw in plan.models]
        built.result()
        pending = []
        for n, batch in enumerate(plan.batches):
            pending.append((batch, self.pool.submit(self.execute, batch, "b%d" % n)))
        everything, sess, how = [], {}, {}
        try:
            for batch, f in pending:
                s, logs, h = f.result()
                sess.update(s)
                how.update(h)
                lines = [x for v in logs.values() for x in v]
                for sid, v in logs.items():
                    if len(v) > 1:
                        self.notes.append("session %s: %d different outcomes" % (sid, len(v)))
                everything += lines
            self.note_ops(everything)
            # long records first, so that the workers finish together
            everything.sort(key=lambda x: -len(x))
            can = self.pool.submit(self.canary, list(everything))
            step = 4000
            for i in range(0, len(everything), step):
                self.judge(sess, everything[i:i + step], how, "t%d" % i)
            can.result()
        finally:
            for j in jobs:
                r = j.result()
                self.count(r["generated"], r["distinct"])
                self.models.append(r)
        for g in plan.generated:
            self.models.append(g)
            self.count(g["generated"], g["distinct"])
        pick = sorted(everything, key=len)
        for line in (pick[len(pick) // 3], pick[len(pick) // 2], pick[-1]):
            self.samples.append(shorten(json.loads(line)))
        return plan

    def evidence(self, t0, violations, plan_note=""):
        cov = {
            "states": self.distinct, "transitions": self.generated,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or [{"note": "stopped at a violation"}],
            "sessions_executed": self.executed, "calls_recorded": self.calls, "calls_by_kind": self.ops,
            "models": self.models, "what": plan_note,
        }
        if self.notes:
            cov["notes"] = self.notes[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": violations,
                       "assumptions": ASSUMPTIONS}, f, indent=1)
            f.write("\n")


ASSUMPTIONS = [
    "TLC and the CommunityModules operators (bitwise operators, folds, JSON input) evaluate TLA+ correctly",
    "the harness (/verif/harness) records the arguments it passes and the replies it gets",
    "inputs not executed behave like those executed: see DESIGN.md for how inputs are chosen",
]


def e_first_digest(ev, i):
    """digests after the first on one object are unspecified, so no place for a canary"""
    e = ev[i]
    if not e["op"].endswith(".digest"):
        return True
    return not any(x["op"] == e["op"] and x.get("o") == e["o"] for x in ev[:i])


def report(v, prop):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, v.session.sid.replace("~", "_")))
    ev = v.record["ev"][v.l] if v.l < len(v.record["ev"]) else None
    with open(path, "w") as f:
        json.dump({"property": prop, "sid": v.session.sid, "mode": v.mode, "profile": v.profile, "plan": v.session.lines,
                   "event_index": v.l, "event": ev, "specified": v.want, "record": v.record,
                   "beside": [[s.sid, s.lines] for s in v.beside]}, f)
        f.write("\n")
    print("session %s, call %d: %s" % (v.session.sid, v.l + 1, json.dumps(shorten(ev, 40))[:900]))
    print("specified: %s" % v.want[:600])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def main():
    args = sys.argv[1:]
    if args == ["--build"]:
        tools.build()
        tools.build("release")
        tools.build("plain")
        return 0
    work = tempfile.mkdtemp(prefix="dcv-")
    try:
        if args[0] == "--replay":
            rep = json.load(open(args[1]))
            s = tools.Session("replay", rep["plan"])
            mode, exe = rep.get("mode", "seq"), tools.build(rep.get("profile", "dev"))
            # alone; then beside copies of itself; then as it was, among the others of its batch
            tries = [("seq", [s])]
            if mode not in ("seq", "rev"):
                tries += [(mode, [tools.Session("replay~%d" % k, rep["plan"]) for k in range(1, 65)])] * 5
            if rep.get("beside"):
                tries += [(mode, [tools.Session(*x) for x in rep["beside"]])] * 3
            own = rep["sid"].split("~")[0]
            for mode, ss in tries:
                got = tools.run_plan(exe, ss, work, "replay", mode)
                lines = sorted({re.sub(r"~\d+", "", x) for sid, x in got.items() if re.split("[~/]", sid)[0] in ("replay", own)})
                rej, _, _ = tools.validate(lines, work, "replay")
                if rej:
                    report(Violation(s, json.loads(lines[rej["tid"]]), rej["l"], rej["want"], mode, rep.get("profile", "dev")), rep["property"])
                    return 1
            print("the recorded history is now explained by the specification")
            return 0
        prop = args[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        t0 = time.time()
        run = Run(prop, tier, seed, work)
        try:
            plan = run.go()
        except Violation as v:
            report(v, prop)
            run.samples = [shorten({"violation": v.record["ev"][v.l] if v.l < len(v.record["ev"]) else None})]
            run.evidence(t0, 1)
            return 1
        run.evidence(t0, 0, plan.what)
        print("%s holds on everything explored: %d histories validated (%d calls), %d states, %d transitions, %.0f s"
              % (prop, run.validated, run.calls, run.distinct, run.generated, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except tools.ToolError as e:
        print("check error: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
