#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [options of the engine]: builds from /repo's working tree and decides one property."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import vbuild  # noqa: E402

# flavour of the build of each C++ check; the default is "plain"
FLAVOUR = {"C11": "asanwrap", "C29": "asan", "C16": "tsan"}
FUZZ = ("C11",)
# cases (quick, thorough) which are repeated under ThreadSanitizer with an OpenMP runtime that it understands
RACE = {"C09": (700, 20000), "C12": (500, 20000), "C13": (500, 20000), "C17": (200, 6000)}
# cases (quick, thorough) which are repeated under valgrind, which sees uses of memory that has not been initialised
MEMCHECK = {"C29": (400, 12000)}
PYTHON = ("C24", "C25", "C26", "C31")


def common(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(V, d), exist_ok=True)
    return ["--seed", seed, "--tier", tier, "--evidence", os.path.join(V, "evidence", pid + ".json"),
            "--replay-dir", os.path.join(V, "replays"), "--known", os.path.join(V, "known_findings.txt")]


def main():
    pid, extra = sys.argv[1], sys.argv[2:]
    args = common(pid)
    env = dict(os.environ, OMP_WAIT_POLICY="passive", ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:quarantine_size_mb=16:allocator_may_return_null=0:max_allocation_size_mb=2048",
               UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=1")
    env.pop("OMP_NUM_THREADS", None)
    env["MALLOC_PERTURB_"] = "165"  # fresh and freed memory is filled
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    scratch = tempfile.mkdtemp(prefix="capi-" + pid + ".")
    env["PBT_SCRATCH"] = scratch
    try:
        return run(pid, args + extra, env)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, args, env):
    if pid in PYTHON:
        pkg = vbuild.build_python_package()
        try:
            env["PYTHONPATH"] = pkg
            env["PYTHONDONTWRITEBYTECODE"] = "1"
            return subprocess.run([vbuild.PY, os.path.join(V, "checks", pid + ".py")] + args, env=env, cwd=pkg).returncode
        finally:
            shutil.rmtree(pkg, ignore_errors=True)
    if pid in FUZZ and "--replay" in args and not args[args.index("--replay") + 1].endswith(".replay"):
        return fuzz(pid, env, args[args.index("--replay") + 1])
    main_cpp = os.path.join(V, "checks", pid + ".cpp")
    if "--replay" in args and "-race-" in os.path.basename(args[args.index("--replay") + 1]):
        return subprocess.run([vbuild.build("race", [main_cpp])[main_cpp]] + args, env=env, cwd=V).returncode
    if "--replay" in args and "-memcheck-" in os.path.basename(args[args.index("--replay") + 1]):
        prog = vbuild.build("bare", [main_cpp])[main_cpp]
        return subprocess.run(VALGRIND + [prog] + args, env=dict(env, PBT_SLOW="20"), cwd=V).returncode
    prog = vbuild.build(FLAVOUR.get(pid, "plain"), [main_cpp])[main_cpp]
    rc = subprocess.run([prog] + args, env=env, cwd=V).returncode
    if rc == 0 and pid in RACE and "--replay" not in args:
        rc = race(pid, main_cpp, args, env)
    if rc == 0 and pid in MEMCHECK and "--replay" not in args:
        rc = memcheck(pid, main_cpp, args, env)
    if rc == 0 and pid in FUZZ and args[args.index("--tier") + 1] == "thorough" and "--replay" not in args:
        rc = fuzz(pid, env, None)
    return rc


def race(pid, main_cpp, args, env):
    """The same check on fewer cases, with ThreadSanitizer watching the threads of the code."""
    try:
        prog = vbuild.build("race", [main_cpp])[main_cpp]
    except SystemExit:
        print("%s: no run under ThreadSanitizer, as the program does not build with the substitute of the OpenMP runtime" % pid)
        return 0
    return stage([prog], args, env, "race-", RACE[pid], "under_thread_sanitizer")


VALGRIND = ["valgrind", "-q", "--leak-check=no", "--error-exitcode=66", "--exit-on-first-error=yes"]


def memcheck(pid, main_cpp, args, env):
    """The same check on fewer cases, under valgrind."""
    if shutil.which("valgrind") is None:
        return 0
    env = dict(env, PBT_SLOW="20")
    env.pop("MALLOC_PERTURB_")
    prog = vbuild.build("bare", [main_cpp])[main_cpp]
    return stage(VALGRIND + [prog], args, env, "memcheck-", MEMCHECK[pid], "under_valgrind")


def stage(prog, args, env, tag, cases, name):
    """A further run of the check; the evidence of the first one is extended by what it covered."""
    ev = os.path.join(env["PBT_SCRATCH"], "stage.json")
    main_ev = [b for a, b in zip(args, args[1:]) if a == "--evidence"][-1]
    args = list(args) + ["--tag", tag, "--cases", str(cases[args[args.index("--tier") + 1] == "thorough"]), "--evidence", ev]
    rc = subprocess.run(prog + args, env=env, cwd=V).returncode
    with open(ev) as f:
        r = json.load(f)
    with open(main_ev) as f:
        d = json.load(f)
    d["coverage"][name] = {k: r["coverage"][k] for k in ("evaluations", "nontrivial", "discarded")}
    d["wall_s"] += r["wall_s"]
    d["violations"] += r["violations"]
    with open(main_ev, "w") as f:
        json.dump(d, f, indent=1)
    return rc


def fuzz(pid, env, replay):
    """The coverage-guided part of a thorough run: libFuzzer, with the seeds which the target itself writes."""
    src = os.path.join(V, "fuzz", pid + "_fuzz.cpp")
    prog = vbuild.build("fuzz", [src])[src]
    opts = ["-rss_limit_mb=3000", "-malloc_limit_mb=1000", "-timeout=60", "-verbosity=1"]
    if replay:
        p = subprocess.run([prog] + opts + [replay], env=env, stdout=subprocess.DEVNULL)
        if p.returncode:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1 if p.returncode else 0
    corpus = os.path.join(env["PBT_SCRATCH"], "corpus")
    os.makedirs(corpus)
    seconds = int(os.environ.get("VERIF_FUZZ_SECONDS", "1500"))
    keep = os.path.join(V, "replays", pid + "-fuzz-")
    procs = []
    for k in range(6):  # all share the corpus folder
        log = open(os.path.join(env["PBT_SCRATCH"], "fuzz%d.log" % k), "w")
        e = dict(env)
        if k == 0:
            e["CAPI_SEED_DIR"] = corpus
        procs.append((subprocess.Popen([prog] + opts + ["-max_total_time=%d" % seconds, "-max_len=4096", "-reload=1", "-print_final_stats=1",
                                                        "-seed=%d" % (int(args_seed()) * 100 + k), "-artifact_prefix=" + keep, corpus], env=e, stdout=log, stderr=log), log.name))
    bad, runs = None, 0
    for p, log in procs:
        p.wait()
        text = open(log, errors="replace").read()
        for line in text.splitlines():
            if line.startswith("stat::number_of_executed_units:"):
                runs += int(line.split()[-1])
            if "Test unit written to" in line:
                bad = line.split()[-1]
        if p.returncode and not bad:
            print(text[-3000:], file=sys.stderr)
            return 4
    ev = os.path.join(V, "evidence", pid + ".json")
    d = json.load(open(ev))
    d["coverage"]["libfuzzer_executions"] = runs
    d["coverage"]["libfuzzer_corpus"] = len(os.listdir(corpus))
    d["violations"] = 1 if bad else 0
    json.dump(d, open(ev, "w"), indent=1)
    print("%s: %d libFuzzer executions, %d inputs kept for new coverage" % (pid, runs, len(os.listdir(corpus))))
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, bad))
        return 1
    return 0


def args_seed():
    return os.environ.get("VERIF_SEED", "1")


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:  # not a violation
        import traceback
        traceback.print_exc()
        sys.exit(7)
