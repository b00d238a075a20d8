#!/usr/bin/env python3
"""run.py <property> quick|thorough      decide one property on /repo's current source"""
import json
import multiprocessing
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "checks"))
sys.dont_write_bytecode = True

import core  # noqa: E402
import registry  # noqa: E402

SCS = []
LIMIT = {}
FOUND = multiprocessing.Value("d", 0.0)  # when the first violation was found: from then on there are 90 seconds for others


def work(i):
    left = LIMIT["deadline"] - time.time()
    if FOUND.value:
        left = min(left, FOUND.value + 90 - time.time())
    if left < 2:
        return i, {"sid": SCS[i].sid, "status": "undecided", "problems": [], "undecided": ["overall time limit"], "outcomes": 0,
                   "definite": 0, "steps": 0, "wall": 0, "funcs": []}
    r = core.decide(SCS[i], min(LIMIT["each"], left))
    if r["status"] == "violated" and not FOUND.value and SCS[i].sid not in LIMIT["known"]:
        FOUND.value = time.time()
    return i, r


def known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                # finding: property=ID scenario=SID  <what fails>
                rest = ln.split(" ", 2)[2]
                sid, what = rest.split(" ", 1)
                out.append((sid.split("=", 1)[1], what))
    return out


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    prop = registry.get(pid)
    try:
        E = core.engine()
    except core._interp.AnchorMissing as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    LIMIT["deadline"] = t0 + (600 if tier == "quick" else 780)
    LIMIT["each"] = 60 if tier == "quick" else 240
    LIMIT["known"] = {s for s, _ in known(pid)}
    SCS.extend(s for s in prop.scenarios(tier) if only is None or only in s.sid)
    ids = [s.sid for s in SCS]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    # long ones first would need a cost model; a small chunk size balances well enough
    n = min(8, os.cpu_count() or 1, max(1, len(SCS)))
    res = [None] * len(SCS)
    if n == 1:
        for i in range(len(SCS)):
            res[i] = work(i)[1]
    else:
        with multiprocessing.get_context("fork").Pool(n) as pool:
            for i, r in pool.imap_unordered(work, range(len(SCS)), chunksize=max(1, min(8, len(SCS) // (4 * n)))):
                res[i] = r
    kn = known(pid)
    viol, found, und, anchor = [], [], [], []
    for r in res:
        if r["status"] == "anchor":
            anchor.append(r)
        if r["status"] == "violated":
            k = [w for s, w in kn if s == r["sid"]]
            if k:
                found.append((r, k[0]))
            else:
                viol.append(r)
        elif r["status"] == "undecided":
            und.append(r)
    funcs = sorted(set(f for r in res for f in r["funcs"] if f.startswith("fn:spine_json_lib") or f.startswith("spine_json_lib")))
    wall = time.time() - t0
    nout = sum(r["outcomes"] for r in res)
    held = [r for r in res if r["status"] == "held"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "wall_s": round(wall, 2),
        "assumptions": prop.assumptions,
        "violations": len(viol),
        "coverage": {
            "explanation": prop.explain,
            "rule": prop.rule,
            "scenarios_total": len(res),
            "scenarios_held": len(held),
            "scenarios_undecided": [{"scenario": r["sid"], "why": r["undecided"][:2]} for r in und][:60],
            "samples": [{"scenario": r["sid"], "outcomes": r["outcomes"], "definite": r["definite"], "steps": r["steps"], "status": r["status"]} for r in res[:: max(1, len(res) // 12)]][:14],
            "abstract_outcomes": nout, "abstract_evaluation_steps": sum(r["steps"] for r in res),
            "functions_analysed": [f.replace("fn:", "") for f in funcs],
            "call_sites_analysed": len(set(c for r in res for c in r.get("calls", []))),
            "violating": [{"scenario": r["sid"], "construct": p["construct"], "problem": p["text"][:600], "path_conditions": p["path"][:12]} for r in viol for p in r["problems"][:2]][:30],
            "checker_cmd": "python3 /verif/run.py %s %s" % (pid, tier),
            "trusted_base": ["absint/: the abstract interpreter (during development its results on concrete documents were compared with CPython)",
                             "checks/: the specification of the property, written independently of the package"],
        },
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d scenarios, %d abstract outcomes, %d functions of the package analysed: %d held, %d undecided, %d violated (%.1fs)"
          % (pid, tier, len(res), nout, len(funcs), len(held), len(und), len(viol), wall))
    for r in und[:6]:
        print("  undecided %s: %s" % (r["sid"], "; ".join(r["undecided"][:2])[:300]))
    for r, w in found:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, r["sid"], w))
    if anchor:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, anchor[0]["undecided"]))
    if viol:
        rp = os.path.join(ROOT, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            for r in viol:
                f.write("scenario %s\n" % r["sid"])
                for p in r["problems"]:
                    f.write("  construct: %s\n    %s\n    path: %s\n" % (p["construct"], p["text"], "; ".join(p["path"]) or "unconditional"))
        for r in viol[:8]:
            for p in r["problems"][:2]:
                print("  violated at %s\n    scenario %s: %s   [path: %s]" % (p["construct"], r["sid"], p["text"][:400], "; ".join(p["path"])[:200] or "unconditional"))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if anchor:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
