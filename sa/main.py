"""check driver: main.py <property id>"""
import importlib
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def main():
    pid = sys.argv[1]
    mir = sys.argv[2]
    t0 = time.time()
    from ctx import Ctx, Run
    from engine import MissingAnchor, Limit
    import rules
    fn, meta = rules.RULES[pid]
    ctx = Ctx(mir)
    R = Run(pid, ctx.p)
    R.repo = os.environ.get("VERIF_REPO", "/repo")
    try:
        fn(R, ctx)
    except MissingAnchor as ex:
        R.req(False, "anchor", str(ex), "the construct that carries this property could not be found in the current source")
    except Limit as ex:
        R.req(False, "bound", str(ex), "the analysis must cover the whole function")
    known = {}
    kf = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(kf):
        for x in json.load(open(kf)).get("findings", []):
            if x["property"] == pid:
                known[x["key"]] = x
    new = [v for k, v in R.viol.items() if k not in known]
    for k, v in R.viol.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    EV = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(EV, exist_ok=True)
    cov = {
        "explanation": meta["how"],
        "obligations_checked": R.obl,
        "obligations_discharged": R.ok,
        "by_rule": {k: {"checked": a, "discharged": b} for k, (a, b) in sorted(R.by.items())},
        "counts": R.cov,
        "samples": R.samples,
        "functions_in_program": len(ctx.p.raw),
        "functions_followed": sorted(f for f in R.fns)[:400],
        "functions_followed_count": len(R.fns),
        "unmodelled_calls": sorted(R.notes),
        "known_findings": sorted(k for k in R.viol if k in known),
    }
    ev = {
        "property": pid,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": cov,
        "assumptions": meta.get("assumes", rules.ASSUMES),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d violations (%.1fs)" % (pid, R.obl, R.ok, len(new), time.time() - t0))
    if new:
        rp = os.path.join(EV, pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:25]:
            print("  [%s] %s: %s%s (x%d)" % (v["rule"], v["construct"], v["requirement"], " at " + v["where"] if v["where"] else "", v["count"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def run():
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    threading.stack_size(1 << 29)
    sys.setrecursionlimit(60000)
    t = threading.Thread(target=run)
    t.start()
    t.join()
