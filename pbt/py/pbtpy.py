"""Runs a property of the Python layer: Hypothesis draws JSON-able cases, a body checks each of them; the last failing (shrunk)
case becomes the replay file.  The cases are split over child processes, so that a crash of the extension module is a
reported failure with the case that caused it, and not the end of the check."""
import argparse
import collections
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback


class Failed(Exception):
    def __init__(self, key, msg):
        super().__init__("[%s] %s" % (key, msg))
        self.key = key


def check(cond, key, msg, *args):
    if not cond:
        raise Failed(key, msg % args if args else msg)


class Ctx:
    def __init__(self, scratch):
        self.scratch_root = scratch
        self.labels = collections.Counter()
        self._nontrivial = False
        self._dirs = []

    def label(self, name):
        self._seen.add(name)

    def nontrivial(self, cond=True):
        self._nontrivial = self._nontrivial or bool(cond)

    def folder(self):
        """A new folder, removed after the case."""
        d = tempfile.mkdtemp(prefix="case.", dir=self.scratch_root)
        self._dirs.append(d)
        return d

    def begin(self):
        self._nontrivial = False
        self._seen = set()

    def end(self):
        for n in self._seen:
            self.labels[n] += 1
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class Prop:
    def __init__(self, id, rule, strategy, body, quick, thorough, assumptions=()):
        self.id, self.rule, self.strategy, self.body = id, rule, strategy, body
        self.quick, self.thorough, self.assumptions = quick, thorough, list(assumptions)


CHILDREN = 7


def _known(path, pid):
    keys = []
    if path and os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) >= 3 and w[0] == "finding:" and w[1] == "property=" + pid and w[2].startswith("key="):
                keys.append(w[2][4:])
    return keys


def _child(prop, a):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings

    ctx = Ctx(a.scratch)
    out = {"evaluations": 0, "nontrivial": [], "samples": [], "known": {}}
    current = os.path.join(a.scratch, "current")
    known = _known(a.known, prop.id)
    stop = time.time() + a.wall
    last = {}

    def run(case):
        if time.time() > stop and not last:
            return
        if last and time.time() > last["t0"] + a.shrink:
            if case != last["case"]:
                return  # the time for shrinking is over: nothing smaller is found from here on
        text = json.dumps(case)
        with open(current, "w") as f:
            f.write(text)
        out["evaluations"] += 1
        ctx.begin()
        try:
            prop.body(case, ctx)
        except Failed as e:
            if e.key in known:
                out["known"][e.key] = str(e)
                return
            if not last:
                last["t0"] = time.time()
            last.update(case=case, msg=str(e))
            raise
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            if not last:
                last["t0"] = time.time()
            last.update(case=case, msg=traceback.format_exc()[-1500:])
            raise
        finally:
            ctx.end()
        if ctx._nontrivial:
            out["nontrivial"].append(hashlib.sha1(text.encode()).hexdigest()[:16])
            if len(out["samples"]) < 2 and len(text) < 1500:
                out["samples"].append(text)

    if a.replay:
        try:
            run(json.load(open(a.replay))["case"])
        except Failed:
            pass
        except Exception:
            pass
    else:
        test = seed(a.seed * 1000 + a.child)(settings(
            max_examples=max(1, a.cases), database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck.all()), phases=(Phase.generate, Phase.shrink))(given(prop.strategy)(run)))
        try:
            test()
        except BaseException as e:  # noqa: B902
            if not last:
                out["error"] = traceback.format_exc()[-3000:]
            elif isinstance(e, KeyboardInterrupt):
                raise
    if last:
        out["failure"] = {"case": last["case"], "msg": last["msg"]}
    out["labels"] = dict(ctx.labels)
    with open(os.path.join(a.scratch, "result"), "w") as f:
        json.dump(out, f)


def main(prop):
    p = argparse.ArgumentParser()
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--evidence")
    p.add_argument("--replay-dir", default="replays")
    p.add_argument("--known")
    p.add_argument("--replay")
    p.add_argument("--cases", type=int)
    p.add_argument("--wall", type=float)
    p.add_argument("--shrink", type=float, default=40)
    p.add_argument("--child", type=int)
    p.add_argument("--scratch")
    a = p.parse_args()
    if a.cases is None:
        a.cases = prop.quick if a.tier == "quick" else prop.thorough
    if a.wall is None:
        a.wall = 240 if a.tier == "quick" else 3000
    if a.child is not None:
        return _child(prop, a)

    t0 = time.time()
    root = os.environ.get("PBT_SCRATCH") or tempfile.mkdtemp(prefix="pbtpy.")
    procs = []
    n = 1 if a.replay else CHILDREN
    env = dict(os.environ, OMP_NUM_THREADS="2")
    for k in range(n):
        d = os.path.join(root, "child%d" % k)
        os.makedirs(d)
        cmd = [sys.executable, os.path.abspath(sys.argv[0]), "--seed", str(a.seed), "--tier", a.tier, "--cases", str(-(-a.cases // n)), "--wall", str(a.wall),
               "--shrink", str(a.shrink), "--child", str(k), "--scratch", d]
        if a.known:
            cmd += ["--known", a.known]
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        err = open(os.path.join(d, "stderr"), "w")
        procs.append((subprocess.Popen(cmd, stdout=None if os.environ.get("PBT_STDOUT") else subprocess.DEVNULL, stderr=None if os.environ.get("PBT_STDERR") else err, env=env, start_new_session=True), d))
    limit = t0 + a.wall + a.shrink + 120
    total = {"evaluations": 0, "samples": [], "known": {}}
    labels, hashes, failures = collections.Counter(), [], []
    for proc, d in procs:
        hung = False
        try:
            proc.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(proc.pid, signal.SIGKILL)
            proc.wait()
        res = os.path.join(d, "result")
        if not os.path.exists(res):
            cur = os.path.join(d, "current")
            why = "the process hung" if hung else "the process ended with status %d: %s" % (proc.returncode, open(os.path.join(d, "stderr")).read()[-1500:])
            if not os.path.exists(cur) or (proc.returncode > 0 and not hung):
                print("%s: %s" % (prop.id, why), file=sys.stderr)
                return 4
            failures.append({"case": json.load(open(cur)), "msg": why})
            continue
        r = json.load(open(res))
        if "error" in r:
            print(r["error"], file=sys.stderr)
            return 4
        total["evaluations"] += r["evaluations"]
        labels.update(r["labels"])
        hashes += r["nontrivial"]
        total["samples"] += r["samples"]
        total["known"].update(r["known"])
        if "failure" in r:
            failures.append(r["failure"])
    for k, what in total["known"].items():
        print("KNOWN-FINDING: property=%s %s" % (prop.id, what.splitlines()[0]))
    if a.replay:
        if failures:
            print(failures[0]["msg"])
            print("VIOLATION property=%s replay=%s" % (prop.id, a.replay))
            return 1
        print("%s: the replayed case holds" % prop.id)
        return 0
    wall = time.time() - t0
    if a.evidence:
        ev = {"property": prop.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": len(set(hashes)), "nontrivial": len(hashes), "cases_planned": a.cases,
                           "rule": prop.rule, "labels": dict(sorted(labels.items())), "samples": total["samples"][:4]},
              "assumptions": prop.assumptions, "wall_s": round(wall, 3), "violations": len(failures)}
        with open(a.evidence, "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d cases, %d of them non-trivial and distinct, %.1f s" % (prop.id, total["evaluations"], len(set(hashes)), wall))
    if failures:
        f = min(failures, key=lambda x: len(json.dumps(x["case"])))
        os.makedirs(a.replay_dir, exist_ok=True)
        path = os.path.join(a.replay_dir, "%s-%s.json" % (prop.id, hashlib.sha1(json.dumps(f["case"]).encode()).hexdigest()[:12]))
        with open(path, "w") as fh:
            json.dump({"property": prop.id, "message": f["msg"], "case": f["case"]}, fh, indent=1)
        print(f["msg"])
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    return 0
