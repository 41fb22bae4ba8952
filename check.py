#!/usr/bin/env python3
"""check.py <property id> [--repo DIR] [--tier quick|thorough]

Decides one property of /repo's current source by static analysis.  Exit 0: held; exit 1 with a
VIOLATION line: broken; exit 2: the analysis itself is broken (an anchor vanished, nothing parsed).
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from gpsa.loader import Tree          # noqa: E402
from gpsa import run, props, rules    # noqa: E402

EQ, UNK, DIFF = 0, 1, 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    ref = Tree(os.path.join(HERE, "reference"))
    cur = Tree(a.repo)
    if not cur.modules:
        print("analysis broken: no module of the package could be parsed")
        return 2
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {(k["rule"], k["construct"]): k for k in known["findings"] if k["property"] == pid}
    tier = "thorough" if a.tier == "thorough" else "quick"
    ag = run.agreement(ref, cur, props.selector(pid), props.OBS.get(pid), 2400 if tier == "thorough" else 420)
    viol, undecided, ents, obs_n, eq_n = [], [], 0, 0, 0
    files = set()
    for r in ag:
        ents += 1
        files.add(r["file"])
        for obs, v, why, rr, cc in r["results"]:
            obs_n += 1
            if v == EQ:
                eq_n += 1
            elif v == DIFF:
                viol.append({"rule": "agreement", "construct": r["entry"] + ": " + obs, "file": r["file"], "line": r["line"],
                             "message": why, "reviewed": rr, "current": cc})
            else:
                undecided.append("%s: %s: %s" % (r["entry"], obs, why))
    rulestat = {}
    for name in props.RULES.get(pid, []):
        fn = rules.RULES[name]
        try:
            found, n, what = fn(cur)
        except Exception as ex:
            undecided.append("rule %s not evaluated: %r" % (name, ex))
            continue
        rulestat[name] = {"instances": n, "what": what, "findings": len(found)}
        floor = rules.FLOOR.get(name, 0)
        if n < floor:
            undecided.append("rule %s: only %d instances recognised (%d on the reviewed tree)" % (name, n, floor))
        for f in found:
            viol.append({"rule": name, "construct": f.construct, "file": f.file, "line": f.line, "message": f.message, "reviewed": "", "current": ""})
    new = []
    for v in viol:
        k = known.get((v["rule"], v["construct"]))
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            new.append(v)
    if ents == 0:
        print("analysis broken: no entry point of this property found")
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Value-graph analysis of /repo's source (parsed this run): every entry point the property rests on is "
                           "reduced to a normalised value graph (return value, attribute writes, in-place results, effects) and each "
                           "observable compared with that of the reviewed reference; plus the repository-specific rules listed under 'rules'.",
            "rule": "an observable is violated when its value graph provably computes something else than the reviewed one; "
                    "undecided observables are listed, not reported",
            "modules_parsed": len(cur.modules),
            "functions_in_package": cur.count_functions(),
            "files": sorted(files),
            "entry_points": ents, "observables": obs_n, "observables_equal": eq_n,
            "observables_undecided": len([u for u in undecided if not u.startswith("rule ")]),
            "undecided": undecided[:40],
            "rules": rulestat,
            "samples": [r["entry"] for r in ag[:: max(1, len(ag) // 8)]][:8],
        },
        "assumptions": props.ASSUMPTIONS,
        "violations": len(new),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if a.v:
        for u in undecided:
            print("undecided:", u)
    print("%s: %d entry points, %d observables, %d equal, %d undecided, %d violations; rules: %s (%.1f s)" % (
        pid, ents, obs_n, eq_n, len(undecided), len(new), {k: v["instances"] for k, v in rulestat.items()}, time.time() - t0))
    if new:
        rp = os.path.join(HERE, "evidence", "%s.violations.txt" % pid)
        with open(rp, "w") as f:
            for v in new:
                txt = "%s:%s [%s] %s: %s" % (v["file"], v["line"], v["rule"], v["construct"], v["message"])
                print(txt[:700])
                f.write(txt + "\n")
                if v["reviewed"] or v["current"]:
                    f.write("    reviewed: %s\n    current:  %s\n" % (v["reviewed"], v["current"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
