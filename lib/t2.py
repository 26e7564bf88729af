"""T2: contracts on the functions of /repo, compiled into the crate through the cfg(jubako_verif) hook and
discharged by Kani (CBMC) for all values of their inputs."""
import threading
from common import *

SRC = os.path.join(VERIF, "contracts", "kani")
T2 = os.path.join(BUILD, "t2")


class Contract:
    def __init__(self, file, name, props, what, text, first, last, tags):
        self.file, self.name, self.props, self.what, self.text = file, name, props, what, text
        self.first, self.last, self.tags = first, last, tags
        mod = file[:-3].split("__")
        if mod[-1] == "mod":
            mod = mod[:-1]
        self.path = "::".join(([] if mod == ["root"] else mod) + ["verif", name])
        self.bounded = next((t for t in tags if t.startswith("bounded")), None)
        self.thorough = "thorough" in tags
        # the contract says how a private function uses its callees: code that honours the property may
        # be written otherwise, so a counterexample to it alone does not count as a failing input
        self.internal = "internal" in tags


HEAD = re.compile(r"^//@ ((?:C\d\d )*C\d\d)((?: [a-z]+(?:\[[^\]]*\])?)*): ([^:]+(?:::[^:]+)*?): (.*)$")


def contracts():
    """All contracts of /verif/contracts/kani, and the lines of every file."""
    out, files = [], {}
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".rs"):
            continue
        lines = open(os.path.join(SRC, f)).read().split("\n")
        files[f] = lines
        i = 0
        while i < len(lines):
            if lines[i].startswith("//@"):
                m = HEAD.match(lines[i])
                if not m:
                    raise NoAnswer(f"{f}:{i + 1}: malformed contract header")
                props, tags, what, text = m.groups()
                start = i
                while not lines[i].startswith("contract!"):
                    i += 1
                while lines[i] != "}":
                    i += 1
                body = "\n".join(lines[start:i + 1])
                name = re.search(r"^    fn (\w+)\(\)", body, re.M).group(1)
                tags = re.findall(r"[a-z]+(?:\[[^\]]*\])?", tags)
                out.append(Contract(f, name, props.split(), what, text, start, i, tags))
            i += 1
    return out, files


def hooks():
    rc, o, _ = run(["grep", "-rhoP", r'verif_hook!\("\K[^"]+', os.path.join(REPO, "src")], 30)
    return o.split()


def write_includes(inc, keep, files, all_contracts, blank):
    """The include directory: the helpers of every file and the kept contracts (line numbers preserved)."""
    os.makedirs(inc, exist_ok=True)
    for h in set(hooks()) | set(files):
        if h not in files or h in blank:
            body = ""
        else:
            lines = list(files[h])
            mine = [c for c in all_contracts if c.file == h]
            if h != "root.rs" and not any(c in keep for c in mine):
                # nothing of this file is needed, unless another file uses its helpers
                if not any(l.startswith("// shared") for l in lines):
                    lines = []
            for c in mine:
                if c not in keep and lines:
                    lines[c.first:c.last + 1] = [""] * (c.last + 1 - c.first)
            body = "\n".join(lines)
        p = os.path.join(inc, h)
        if not os.path.exists(p) or open(p).read() != body:
            open(p, "w").write(body)


def kani_env(inc):
    e = env(JUBAKO_VERIF_DIR=inc, RUSTFLAGS="--cfg jubako_verif")
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


class Job:
    pass


def start(ctx):
    job = Job()
    allc, files = contracts()
    job.contracts = [c for c in allc if ctx.prop in c.props and (ctx.thorough or not c.thorough)]
    job.all, job.files = allc, files
    job.dropped, job.results, job.log, job.proc, job.stop = {}, {}, "", None, False
    job.inc = os.path.join(T2, "inc-" + ctx.prop)
    job.seconds = 0
    job.thread = threading.Thread(target=work, args=(ctx, job), daemon=True)
    if job.contracts:
        job.thread.start()
    return job


def popen(job, cmd, cwd, e, limit):
    """like common.run, but can be stopped from abandon()"""
    job.proc = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                start_new_session=True)
    t = threading.Timer(limit, lambda: kill(job))
    t.start()
    o, _ = job.proc.communicate()
    t.cancel()
    return job.proc.returncode, o.decode("utf8", "replace")


def kill(job):
    import signal
    if job.proc and job.proc.poll() is None:
        try:
            os.killpg(job.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def kani_cmd(contracts_, htime, extra=()):
    cmd = ["cargo", "kani", "--no-default-features", "--lib", "--target-dir", os.path.join(T2, "target"),
           "-Z", "stubbing", "-Z", "unstable-options", "--harness-timeout", f"{htime}s",
           *extra, "--exact"]
    for c in contracts_:
        cmd += ["--harness", c.path]
    return cmd


def work(ctx, job):
    t0 = time.time()
    try:
        keep, blank = list(job.contracts), set()
        if not set(hooks()) >= {c.file for c in keep}:
            for c in [c for c in keep if c.file not in hooks()]:
                job.dropped[c.name] = "the hook of its file is gone"
                keep.remove(c)
        for _ in range(14):
            if job.stop or not keep:
                return
            write_includes(job.inc, keep, job.files, job.all, blank)
            left = max(20, ctx.left() - 60)
            rc, o = popen(job, kani_cmd(keep, 900 if ctx.thorough else 200,
                                        ["-j", str(JOBS), "--output-format", "terse"]), REPO, kani_env(job.inc), left)
            job.log = o
            if "Checking harness" in o:
                break
            # compilation errors in contracts: those are undecided, the others go on
            bad = set()
            for m in re.finditer(r"^error.*?\n(?:.*\n){0,14}?\s*--> (\S+?):(\d+):\d+", o, re.M):
                bad.add((m.group(1), int(m.group(2))))
            hit = False
            for f, line in bad:
                if os.path.dirname(os.path.abspath(os.path.join(REPO, f))) != job.inc:
                    continue
                f = os.path.basename(f)
                for c in [c for c in keep if c.file == f and c.first < line <= c.last + 1]:
                    job.dropped[c.name] = "does not compile against this code"
                    keep.remove(c)
                    hit = True
            if not hit:
                for f, line in bad:
                    if os.path.dirname(os.path.abspath(os.path.join(REPO, f))) == job.inc and os.path.basename(f) != "root.rs":
                        f = os.path.basename(f)
                        for c in [c for c in keep if c.file == f]:
                            job.dropped[c.name] = "does not compile against this code"
                            keep.remove(c)
                        blank.add(f)
                        hit = True
            if not hit:
                errs = re.findall(r"^error.*", o, re.M)[:3]
                for c in keep:
                    job.dropped[c.name] = "no proof run: " + " / ".join(errs or [o.strip()[-200:]])
                return
        parse(job)
    except Exception as e:  # noqa: an error of the machinery decides nothing
        job.error = repr(e)
    finally:
        job.seconds = time.time() - t0


def parse(job):
    cur, th = {}, "0"
    by = {c.path: c for c in job.contracts}
    for l in job.log.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", l)
        if m:
            th, l = m.groups()
        m = re.search(r"Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[th] = job.results.setdefault(m.group(1), {"checks": 0, "fails": [], "covers": None, "verdict": None, "time": 0.0})
            continue
        r = cur.get(th)
        if r is None:
            continue
        m = re.search(r"\*\* (\d+) of (\d+) failed(?: \((\d+) unreachable\))?", l)
        if m:
            r["checks"], r["nfailed"] = int(m.group(2)), int(m.group(1))
        m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            r["covers"] = (int(m.group(1)), int(m.group(2)))
        m = re.match(r"Failed Checks: (.*)", l)
        if m:
            r["fails"].append(m.group(1))
        elif l.startswith(" File:") and r["fails"]:
            r["fails"][-1] += " |" + l
        m = re.match(r"VERIFICATION:- (\w+)", l)
        if m:
            r["verdict"] = m.group(1)
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            r["time"] = float(m.group(1))
        if "timed out" in l:
            r["verdict"] = r["verdict"] or "TIMEOUT"


TOOL = ("unwinding assertion", "is not currently supported by Kani", "call to foreign", "recursion unwinding", "unsupported")


def abandon(job):
    if job:
        job.stop = True
        kill(job)


def finish(ctx, job):
    r = Result()
    if not job.contracts:
        return nothing("no contract of this back end")
    job.thread.join(max(10, ctx.left() - 20))
    if job.thread.is_alive():
        abandon(job)
        job.thread.join(10)
        parse(job)
    r.cmd = "cargo kani (see lib/t2.py), contracts of /verif/contracts/kani in the crate through cfg(jubako_verif)"
    times, bounded, done = {}, [], []
    for c in job.contracts:
        res = job.results.get(c.path)
        fn = f"{c.what} [{c.file[:-3].replace('__', '/')}.rs]"
        if c.name in job.dropped:
            r.undecided.append(f"{c.name}: {job.dropped[c.name]}")
            continue
        if not res or res["verdict"] is None:
            r.undecided.append(f"{c.name}: no result (time or tool limit) {getattr(job, 'error', '')}")
            continue
        if res["verdict"] == "SUCCESSFUL":
            if not res["checks"] or (res["covers"] and res["covers"][0] < res["covers"][1]):
                r.undecided.append(f"{c.name}: vacuous ({res['checks']} checks, covers {res['covers']})")
                continue
            if c.bounded:
                bounded.append({"contract": c.name, "bound": c.bounded, "checks": res["checks"], "seconds": res["time"]})
            else:
                r.obligations += res["checks"]
                r.discharged += res["checks"]
            done.append(c)
            r.functions.append(fn + (" (" + c.bounded + ")" if c.bounded else ""))
            times[c.name] = {"checks": res["checks"], "seconds": round(res["time"], 1), "contract": c.text}
            r.seconds += res["time"]
            continue
        real = [f for f in res["fails"] if not any(t in f for t in TOOL)]
        if res["verdict"] == "FAILED" and real:
            if not c.bounded:
                r.obligations += res["checks"]
                r.discharged += res["checks"] - res.get("nfailed", 1)
            r.failed.append({"name": f"kani:{c.name}", "contract": c.text, "function": fn, "path": c.path,
                             "output": f"contract {c.name} ({c.text}) fails: " + "; ".join(real)[:1500]})
        else:
            r.undecided.append(f"{c.name}: {res['verdict']} {'; '.join(res['fails'])[:200]}")
    r.report = {"contracts_discharged": len([c for c in done if not c.bounded]), "details": times,
                "bounded_contracts": bounded, "wall_seconds": round(job.seconds, 1)}
    r.trusted = ["Kani 0.68 translation of MIR, CBMC 6.11 and its SAT solver; rustc's MIR for the crate",
                 "stubs: alloc::fmt::format and Backtrace::capture (text of error messages only)"]
    r.assumptions = ["T2 contracts hold for sequential code (Kani has no threads); termination of the "
                     "contracted functions is not proved beyond the unwinding assertions"]
    job.done = done
    return r


def nothing(why):
    r = Result()
    r.report = {"note": why}
    return r


def values_of(log):
    """the counterexamples of a --concrete-playback=print log"""
    out = []
    for m in re.finditer(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", log, re.S):
        vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(1))
        out.append([bytes(int(x) for x in v.replace(" ", "").split(",") if x) for v in vals])
    return out


def native(name, inc, vals):
    """run the contract on concrete values in the real code; returns (failed, output)"""
    e = env(JUBAKO_VERIF_DIR=inc, RUSTFLAGS="--cfg jubako_verif", JBKV_VALUES=",".join(v.hex() for v in vals),
            CARGO_TARGET_DIR=os.path.join(T2, "native"))
    rc, o, _ = run(["cargo", "test", "--offline", "--no-default-features", "--lib", name, "--", "--exact", "--nocapture"],
                   300, REPO, e)
    ran = re.search(r"running 1 test", o) is not None
    return ran and rc != 0 and "FAILED" in o, o


def replay_failures(ctx, failed):
    out = []
    allc, files = contracts()
    for f in failed[:3]:
        c = next((c for c in allc if c.path == f["path"]), None)
        if c is None or ctx.left() < 90:
            continue
        inc = os.path.join(T2, "inc-replay")
        write_includes(inc, [c], files, allc, set())
        cmd = kani_cmd([c], 150, ["-Z", "concrete-playback", "--concrete-playback=print"])
        rc, o, _ = run(cmd, min(200, ctx.left() - 60), REPO, kani_env(inc))
        cex = values_of(o)
        f["counterexamples"] = [[v.hex() for v in vals] for vals in cex[:5]]
        for vals in cex[:6]:
            bad, log = native(c.path, inc, vals)
            if bad:
                msg = re.search(r"panicked at (.*\n.*)", log)
                out.append(Violation(ctx.prop, "contract", c.path,
                                     f"{c.text}; counterexample run on the real code: {msg.group(1) if msg else ''}",
                                     found=not c.internal, extra={"values": [v.hex() for v in vals], "verifier": f["output"]}))
                break
    return out


def replay(ctx, d):
    allc, files = contracts()
    c = next(c for c in allc if c.path == d["case"])
    inc = os.path.join(T2, "inc-replay")
    write_includes(inc, [c], files, allc, set())
    bad, log = native(c.path, inc, [bytes.fromhex(v) for v in d["extra"]["values"]])
    print(log[-1500:])
    return 1 if bad else 0
