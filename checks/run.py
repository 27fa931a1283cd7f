"""Entry point of every check: python3 -m checks.run <property-id>"""
import fnmatch
import json
import re
import os
import signal
import sys
import time
import traceback

from . import lib


def main(argv):
    pid = argv[0]
    from . import registry
    sys.setrecursionlimit(20000)
    rep = lib.Report(pid)
    spec = registry.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    rep.tier = tier
    kf = known(pid)
    rep.known = lambda key, msg: finding(kf, key, msg) is not None
    err = None
    try:
        eng = registry.engine(lib.dump())
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, max(30, 640 - (time.time() - rep.t0)), 20)
        for f in spec["fns"]:
            try:
                f(rep, eng)
            except registry.Anchor as e:
                rep.und("anchor:" + f.__name__, str(e))
            except Exception as e:      # a defect of the analysis never counts as an answer
                w = traceback.extract_tb(e.__traceback__)[-1]
                rep.und("internal:" + f.__name__, "%r at %s:%s" % (e, os.path.basename(w.filename), w.lineno))
        signal.setitimer(signal.ITIMER_REAL, 0)
    except lib.Fatal as e:
        print("ERROR property=%s %s" % (pid, e))
        err = str(e)
    return finish(rep, spec, err)


def late(sig, frame):
    """the time for one check is nearly used up: what is still open stays undecided"""
    from engine.interp import Budget
    raise Budget("out of time")


def known(pid):
    p = os.path.join(lib.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def finding(kf, key, msg):
    """the listed finding that a violation is an instance of"""
    for f in kf:
        if fnmatch.fnmatchcase(key, f["key"]) and re.match(f["says"], msg):
            return f
    return None


def write_evidence(rep, spec, kf, viol, status, err, nd, tot):
    ev = {
        "property": rep.prop, "tier": rep.tier if rep.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the compiler's MIR of the current /repo tree (nothing is executed). " + " ".join(rep.rules),
            "obligations": tot, "discharged": len(rep.good), "undecided": len(rep.undec),
            "abstract_paths": rep.paths,
            "functions_analysed": len(rep.funcs), "functions": sorted(rep.funcs)[:200],
            "undecided_obligations": dict(list(sorted(rep.undec.items()))[:60]),
            "samples": [{"obligation": k, "verdict": "holds"} for k in list(sorted(rep.good))[:12]] + rep.samples[:12],
            "obligation_names": sorted(rep.good)[:400],
            "known_findings_seen": sorted({f["what"] for k, items in rep.viol.items() for i in items for f in [finding(kf, k, i["message"])] if f}),
            "status": status, "error": err,
        },
        "assumptions": spec.get("assumes", []) + ASSUME,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(viol),
    }
    ev["coverage"].update(rep.meta)
    with open(os.path.join(lib.VERIF, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


ASSUME = ["rustc's MIR for the checked configuration (debug assertions on) represents the source",
          "library models of std/indexmap/string-interner/scroll/goblin containers and writers in engine/models.py are faithful"]


def finish(rep, spec, err):
    pid = rep.prop
    kf = known(pid)
    viol = []
    seen = set()
    for k, items in sorted(rep.viol.items()):
        rest = []
        for i in items:
            f = finding(kf, k, i["message"])
            if f is None:
                rest.append(i)
            elif id(f) not in seen:
                seen.add(id(f))
                print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        if rest:
            viol.append((k, rest))
    nd = len(rep.good) + len(rep.viol)
    tot = nd + len([u for u in rep.undec if u not in rep.good and u not in rep.viol])
    floor = spec.get("floor", 1)
    for u, w in sorted(rep.undec.items()):
        print("UNDECIDED %s: %s" % (u, w))
    status = 0
    if viol:
        status = 1
    elif err or nd < floor:
        status = 3
    os.makedirs(os.path.join(lib.VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(lib.VERIF, "evidence", pid + ".violation.json")
    if os.path.exists(replay):
        os.unlink(replay)
    write_evidence(rep, spec, kf, viol, status, err, nd, tot)
    if viol:
        with open(replay, "w") as f:
            json.dump([{"key": k, "items": v} for k, v in viol], f, indent=1)
        for k, items in viol:
            for it in items[:3]:
                print("  %s: %s [%s]" % (it["obligation"], it["message"], it["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif status == 3:
        print("NO-ANSWER property=%s: %s" % (pid, err or "only %d obligations decided (floor %d)" % (nd, floor)))
    else:
        print("OK property=%s obligations=%d/%d undecided=%d functions=%d" % (pid, nd, tot, len(rep.undec), len(rep.funcs)))
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
