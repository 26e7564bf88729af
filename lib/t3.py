"""Bounded stand-ins and replays: the harness crate over the compiled library."""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from common import *
import common

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(BUILD, "t3")
BUILT = {}


def build(ctx):
    if BUILT:
        return BUILT
    profiles = [("debug", [])]
    if ctx.prop == "C06":
        profiles.append(("release", ["--release"]))
    procs = []
    for name, flags in profiles:
        # two target directories: the builds can run at the same time
        tgt = os.path.join(TARGET, name + "-dir") if name != "debug" else TARGET
        log = tempfile.TemporaryFile()
        p = subprocess.Popen(["cargo", "build", "--offline", "--locked"] + flags, cwd=HARNESS,
                             env=env(CARGO_TARGET_DIR=tgt), stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((name, tgt, p, log))
    t = time.time()
    for name, tgt, p, log in procs:
        try:
            rc = p.wait(timeout=max(5, 600 - (time.time() - t)))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            rc = None
        if rc != 0:
            log.seek(0)
            out = log.read().decode("utf8", "replace")
            sys.stderr.write(out[-6000:])
            raise NoAnswer("the harness does not build against /repo (" + name + ")")
        BUILT[name] = os.path.join(tgt, name, "jbkv")
    BUILT["seconds"] = time.time() - t
    return BUILT


def call(ctx, tier, case=None, limit=None, deeper=False):
    b = build(ctx)
    d = tempfile.mkdtemp(prefix="jbkv-")
    try:
        out, prog, scratch = (os.path.join(d, x) for x in ("out.json", "progress", "scratch"))
        os.mkdir(scratch)
        cmd = [b["debug"], "check", ctx.prop, "--tier", tier,
               "--seed", str(ctx.seed + (1000003 if deeper else 0)), "--out", out]
        if case is not None:
            cmd += ["--case", case]
        e = env(JBKV_PROGRESS=prog, JBKV_SCRATCH=scratch, TMPDIR=scratch,
                JBKV_RELEASE_BIN=b.get("release", ""))
        rc, o, secs = common.run(cmd, limit or ctx.left(), environ=e)
        rep = None
        if rc in (0, 1) and os.path.exists(out):
            rep = json.load(open(out))
        running = []
        if rep is None and os.path.exists(prog):
            started = []
            for line in open(prog, errors="replace"):
                k, i = line.rstrip("\n").split(" ", 1)
                if k == "S":
                    started.append(i)
                elif i in started:
                    started.remove(i)
            running = started
        return rc, rep, running, o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def bounded(ctx, deeper=False):
    r = Result()
    tier = "thorough" if (deeper or ctx.thorough) else "quick"
    limit = min(ctx.left(), 150) if deeper and not ctx.thorough else None
    rc, rep, running, o = call(ctx, tier, limit=limit, deeper=deeper)
    if rep is None and deeper:
        return r
    if rep is None:
        # the process was killed: by a memory fault, an abort... of which case?
        how = "no end" if rc is None else f"exit {rc}"
        for c in running:
            rc1, rep1, _, o1 = call(ctx, tier, case=c, limit=180, deeper=deeper)
            if rep1 is None:
                r.violations.append(Violation(ctx.prop, "bounded", c,
                                              f"the process does not survive this case ({'no end' if rc1 is None else f'exit {rc1}'}): {o1[-1500:]}"))
            elif rep1["violations"]:
                r.violations += [Violation(ctx.prop, "bounded", v["case"], v["message"]) for v in rep1["violations"]]
        if not r.violations:
            # once more, in full: a crash that does not come back alone may come back together
            rc, rep, running2, o = call(ctx, tier, deeper=deeper)
            if rep is None:
                if rc == -9 or rc is None and not running2:
                    raise NoAnswer(f"the bounded run was killed ({how})")
                r.violations.append(Violation(ctx.prop, "bounded", "*",
                                              f"the process does not survive the cases ({how}), running: {running2 or running}: {o[-1500:]}"))
                return r
        else:
            return r
    r.evaluations = rep["evaluations"]
    for v in rep["violations"]:
        r.violations.append(Violation(ctx.prop, "bounded", v["case"], v["message"]))
    r.report = {
        "label": "bounded stand-in, not counted as proved",
        "evaluations": rep["evaluations"], "skipped_out_of_time": rep["skipped"],
        "distinct_situations": rep["distinct"], "situations": rep["marks"],
        "samples": rep["samples"][:8], "seconds": rep["wall"], "build_seconds": round(BUILT["seconds"], 1),
    }
    r.assumptions = ["bounded runs: the cases are those of /verif/harness/src/props for this seed and tier only"]
    return r


def replay(ctx, d):
    case = None if d["case"] == "*" else d["case"]
    for deeper in (False, True):
        rc, rep, running, o = call(ctx, "thorough" if deeper else d["tier"], case=case, limit=600, deeper=deeper)
        if rep is None:
            print("the process does not survive", rc, running, o[-2000:])
            return 1
        for v in rep["violations"]:
            print(v["case"], v["message"])
        if rep["violations"]:
            return 1
    print("holds")
    return 0




def run(ctx, deeper=False):
    if os.environ.get('JBKV_SKIP_T3'):  # for work on the proofs only
        r = Result()
        r.report = {'note': 'skipped'}
        return r
    return bounded(ctx, deeper)
