#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's source."""
import argparse
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known_findings(prop):
    """listed findings: 'known: property=<id> key=<obligation>@@<where-prefix> <text>' (suppress), 'fixed: ...' (ignored)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % prop):
                rest = ln.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out.append((key.replace("key=", "", 1), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    t0 = time.time()
    from nidnsa import core
    from nidnsa.props import REG
    importlib.import_module("nidnsa.props.all")
    info = REG[a.prop]
    ctx = core.Ctx(a.prop, a.tier)
    for e in ctx.proj.errors:
        print("note: file does not parse:", e)
    info["fn"](ctx)
    known = known_findings(a.prop)
    viol = []
    for v in ctx.violations:
        k = "%s@@%s" % (v["obligation"], v["where"].split(":")[0])
        hit = [t for kk, t in known if kk == k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, hit[0]))
        else:
            viol.append(v)
    nd = sum(1 for o in ctx.obligations if o["status"] == "discharged")
    n = len(ctx.obligations)
    # a property with no obligation left is a broken check, not a pass
    if n == 0:
        viol.append({"obligation": "no obligation generated", "where": "nidn", "what": "nothing left to analyse: every anchor of the property vanished"})
    print("property %s: %s" % (a.prop, info["rule"]))
    print("analysed %d functions, %d call sites; %d obligations, %d discharged, %d violated, %d undecided" % (
        len(ctx.analysed), ctx.calls, n, nd, len(ctx.violations), len(ctx.undecided)))
    for u in ctx.undecided:
        print("UNDECIDED: %s: %s" % (u["obligation"], u["why"][:600]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rep = os.path.join(HERE, "evidence", "%s.violations.json" % a.prop)
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of the source under %s, nothing executed. Rule: %s" % (ctx.repo, info["rule"]),
            "obligations": n, "discharged": nd, "undecided": len(ctx.undecided), "functions_analysed": len(ctx.analysed), "call_sites": ctx.calls,
            "counts": ctx.counts, "samples": ctx.samples[:6] or [o["obligation"] for o in ctx.obligations[:6]],
            "obligation_list": [{"obligation": o["obligation"], "status": o["status"]} for o in ctx.obligations][:400],
            "functions": sorted(ctx.analysed)[:200],
        },
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 3),
        "assumptions": info.get("assumptions", []) + ctx.assumptions,
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if os.path.exists(rep):
        os.remove(rep)
    if viol:
        with open(rep, "w") as fh:
            json.dump(viol, fh, indent=1)
        for v in viol[:8]:
            print("violated: %s\n   at %s\n   %s" % (v["obligation"], v["where"], v["what"][:900]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rep))
        return 1
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]

    def body():
        rc[0] = main()

    # signal.alarm needs the main thread, deep recursion a large stack: fork a child with a raised stack limit
    import resource
    if os.environ.get("NIDNSA_CHILD") != "1":
        try:
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            want = 1 << 30
            if hard != resource.RLIM_INFINITY:
                want = min(want, hard)
            resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        except (ValueError, OSError):
            pass
        os.environ["NIDNSA_CHILD"] = "1"
        os.environ.setdefault("PYTHONHASHSEED", "0")
        os.execv(sys.executable, [sys.executable] + sys.argv)
    body()
    sys.stdout.flush()
    os._exit(rc[0])
