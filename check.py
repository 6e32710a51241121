#!/usr/bin/env python3
"""check.py <property id> [--thorough]: decide one property of /repo's current tree"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
sys.setrecursionlimit(20000)


def known_findings():
    """property -> list of (key, text) that are recorded as genuine and unrepaired"""
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property="):
                pid, key, text = l[len("finding: property="):].split(" ", 2)
                out.setdefault(pid, []).append((key, text))
    return out


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    from ctx import Ctx, Missing, Report
    import rules
    rep = Report(pid)
    fn, level = rules.table()[pid]
    try:
        ctx = Ctx(tier)
        fn(ctx, rep)
    except Missing as e:
        rep.undec("anchor missing: %s" % e)
        print("UNDECIDED anchor missing: %s" % e)
    kf = known_findings().get(pid, [])
    viol = []
    for key, msg, where in rep.violations:
        k = [t for kk, t in kf if kk == key]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
        else:
            viol.append((key, msg, where))
    cov = {
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "undecided": len(rep.undecided),
        "explanation": rules.EXPLAIN.get(pid, ""),
        "counts": rep.counts,
        "samples": rep.samples[:20],
        "undecided_list": rep.undecided[:40],
    }
    if level == "proof":
        cov["checker_cmd"] = "python3 check.py %s" % pid
        cov["trusted_base"] = rules.TRUSTED
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": level, "coverage": cov, "assumptions": rules.ASSUME + rep.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (pid, rep.obligations, rep.discharged, len(rep.undecided), len(viol), time.time() - t0))
    if os.environ.get("BCALC_VERBOSE"):
        for u in rep.undecided:
            print("  undecided:", u)
        for k, v in sorted(rep.counts.items()):
            print("  count:", k, v)
    if viol:
        rp = os.path.join(HERE, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as fh:
            for key, msg, where in viol:
                fh.write("%s\n  at %s\n  %s\n\n" % (key, where, msg))
        for key, msg, where in viol[:12]:
            print("  violated: %s [%s]" % (msg, where))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)  # freeing the terms of a long analysis one by one takes minutes
