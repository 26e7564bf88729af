#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough       run the check of a property
   check.py replay FILE                   run the input of a replay file again
   check.py setup                         nothing but a sanity check of the tools
See DESIGN.md. Exit 0: held. Exit 1 + VIOLATION line: broken. Exit 2: no answer (build or tool error)."""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common, t3, t2, t1  # noqa


def known_findings():
    out = []
    p = os.path.join(common.VERIF, "known_findings.txt")
    for line in open(p):
        line = line.rstrip("\n")
        if line.startswith("KNOWN-FINDING: "):
            head, _, match = line.partition(" match=")
            prop = head.split("property=")[1].split()[0]
            out.append((prop, match, head))
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return common.setup()
    if sys.argv[1] == "replay":
        return common.replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2:] or ["quick"])[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
    ctx = common.Ctx(prop, tier, seed)
    try:
        # the bounded runs first: they are fast and give concrete inputs
        job2 = t2.start(ctx)
        job1 = t1.start(ctx)
        r3 = t3.run(ctx)
        if r3.violations:
            t2.abandon(job2)
            r2, r1 = t2.nothing("not finished: a concrete violation was found"), t1.nothing("not run")
        else:
            r1 = t1.finish(ctx, job1)
            r2 = t2.finish(ctx, job2)
    except common.NoAnswer as e:
        print(f"NO ANSWER: {e}")
        return 2
    violations = list(r3.violations)
    # a failed obligation: look for a concrete input
    failed = r1.failed + r2.failed
    if failed and not violations:
        violations += t2.replay_failures(ctx, r2.failed)
        if not any(v.found for v in violations):
            # (a counterexample to the contract of a private function: is the property itself broken?)
            deeper = t3.run(ctx, deeper=True)
            violations = deeper.violations or violations
        if not violations:
            violations = [common.Violation(prop, "obligation", f["name"], f["output"], found=False, extra=f) for f in failed]
        else:
            for v in violations:
                v.extra["failed_obligations"] = [f["name"] for f in failed]
    elif not violations and any("not finished" not in u and "time limit" not in u for u in r1.undecided + r2.undecided):
        # the code changed in a way the proofs do not follow: the bounded runs go deeper
        violations = t3.run(ctx, deeper=True).violations
    known = known_findings()
    fresh, seen = [], set()
    for v in violations:
        k = next((h for p, m, h in known if p == prop and m and m in v.ident()), None)
        if k:
            if k not in seen:
                print(k)
            seen.add(k)
        else:
            fresh.append(v)
    for v in fresh[:5]:
        path = v.save(ctx)
        print(f"violated: {v.case}: {v.message[:600]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if v.found else " no-failing-input-found"))
    common.evidence(ctx, r1, r2, r3, len(fresh), time.time() - start)
    print(f"{prop} {tier}: proof obligations {r1.obligations + r2.obligations}, discharged "
          f"{r1.discharged + r2.discharged}, undecided {len(r1.undecided) + len(r2.undecided)}; bounded "
          f"evaluations {r3.evaluations}; {len(fresh)} violations; {time.time() - start:.1f}s")
    for u in (r1.undecided + r2.undecided)[:20]:
        print(f"undecided: {u}")
    return 1 if fresh else 0


if __name__ == "__main__":
    sys.exit(main())
