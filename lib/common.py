import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JBKV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4


class NoAnswer(Exception):
    pass


def env(**more):
    e = dict(os.environ)
    e.update(
        HOME=e.get("HOME") or "/root",
        PATH="/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:/root/.cargo/bin:" + e.get("PATH", ""),
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    )
    for k in ("RUSTFLAGS", "LD_LIBRARY_PATH", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(more)
    return e


def run(cmd, timeout, cwd=None, environ=None, out=None):
    """(rc, output, seconds); rc None: timeout. The whole process group goes with it."""
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=environ or env(), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        rc = None
    o = o.decode("utf8", "replace")
    return rc, o, time.time() - t


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.start = time.time()
        # a check gets 900 s; thorough runs are not limited by the gate
        self.deadline = self.start + (5400 if self.thorough else 780)

    def left(self):
        return max(5, self.deadline - time.time())


class Violation:
    def __init__(self, prop, kind, case, message, found=True, extra=None):
        self.prop, self.kind, self.case, self.message = prop, kind, case, message
        self.found, self.extra = found, extra or {}

    def ident(self):
        return f"{self.kind}/{self.case}: {self.message}"

    def save(self, ctx):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha256((self.kind + self.case).encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.prop}-{h}.json")
        json.dump({"property": self.prop, "kind": self.kind, "case": self.case, "seed": ctx.seed,
                   "tier": ctx.tier, "message": self.message, "failing_input_found": self.found,
                   "extra": self.extra,
                   "rerun": f"python3 {VERIF}/check.py replay {p}"}, open(p, "w"), indent=1)
        return p


def replay(path):
    import t3, t2
    d = json.load(open(path))
    ctx = Ctx(d["property"], d["tier"], d["seed"])
    print(d["message"])
    if d["kind"] == "bounded":
        return t3.replay(ctx, d)
    if d["kind"] == "contract":
        return t2.replay(ctx, d)
    print("no concrete input; failed obligation:", d["case"])
    return 1


def setup():
    ok = True
    for c in (["cargo", "--version"], ["cargo", "kani", "--version"], ["verus", "--version"]):
        rc, o, _ = run(c, 60)
        print(" ".join(c), "->", o.strip().splitlines()[:1])
        ok = ok and rc == 0
    return 0 if ok else 1


def evidence(ctx, r1, r2, r3, nviol, wall):
    level = "proof"
    for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if c["property"] == ctx.prop:
            level = c["level"]
    e = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "wall_s": round(wall, 2), "violations": nviol,
        "coverage": {
            "obligations": r1.obligations + r2.obligations,
            "discharged": r1.discharged + r2.discharged,
            "undecided": r1.undecided + r2.undecided,
            "checker_cmd": "; ".join(x for x in (r1.cmd, r2.cmd) if x),
            "trusted_base": r1.trusted + r2.trusted,
            "backends": {
                "verus (Z3)": r1.report,
                "kani (CBMC, CaDiCaL/MiniSat)": r2.report,
            },
            "functions_under_contract": sorted(set(r1.functions + r2.functions)),
            "solver_seconds": round(r1.seconds + r2.seconds, 2),
            "bounded": r3.report,
            "evaluations": r3.evaluations,
            "distinct_nontrivial": r3.report.get("distinct_situations", 0),
            "rule": "bounded cases are generated from the seed by /verif/harness/src/props; a case counts as "
                    "non-trivial by the situations it reports having exercised (see bounded.situations); "
                    "distinct_nontrivial counts the different situations seen in this run",
            "samples": r3.report.get("samples", []),
        },
        "assumptions": r1.assumptions + r2.assumptions + r3.assumptions,
    }
    p = os.path.join(VERIF, "evidence", f"{ctx.prop}.json")
    json.dump(e, open(p, "w"), indent=1)


class Result:
    def __init__(self):
        self.obligations = self.discharged = 0
        self.failed = []      # [{name, output, ...}]
        self.undecided = []
        self.functions = []
        self.trusted = []
        self.assumptions = []
        self.report = {}
        self.cmd = ""
        self.seconds = 0.0
        self.violations = []
        self.evaluations = 0
