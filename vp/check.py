#!/usr/bin/env python3
"""python3 vp/check.py <property> [--tier quick|thorough] [--case SUBSTR] [--debug]

Decides one property of /repo's current working tree.  Exit 0: held on everything
explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken; other: error.
"""
import argparse
import concurrent.futures as cf
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as E  # noqa: E402
import cases as C   # noqa: E402


def load_findings(prop):
    out = []
    try:
        with open(os.path.join(E.VERIF, "known_findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    case = line.split("case=", 1)[1].split()[0]
                    out.append((case, line.strip().split(" ", 3)[3]))
    except OSError:
        pass
    return dict(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default="")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--jobs", type=int, default=E.NCPU)
    a = ap.parse_args()
    if a.debug:
        os.environ["VP_DEBUG"] = "1"
    tier = "thorough" if a.tier == "thorough" else "quick"
    deadline = 780 if tier == "quick" else 3 * 3600
    eng = E.Engine(a.prop, deadline)
    t0 = time.time()
    meta = C.PROPS[a.prop]
    cases = [c for c in meta["cases"] if (tier == "thorough" or c.tier == "quick") and a.case in c.name]
    if tier == "thorough":
        for c in cases:
            c.timeout *= 6
    findings = load_findings(a.prop)
    rows, violations, undecided, errors, known = [], [], [], [], []
    witnesses = dict(run=0, reached=0, native_ok=0, failed=[])
    samples = []

    def row(case, r):
        d = dict(case=case.name, stage=r.get("stage"), verdict=r["verdict"], backend=r["backend"],
                 unwind=case.unwind, solver_s=round(r.get("t_decision procedure", 0.0), 2),
                 symex_s=round(r.get("t_Symex", 0.0), 2), steps=r.get("steps", 0),
                 vccs=r.get("vccs", 0), tries=r.get("tries"))
        if r["verdict"] == "sat":
            d.update(assertion=r["desc"], at=r["loc"], reproduced=r.get("reproduced"))
        rows.append(d)

    def handle(case, r):
        """returns True when the case needs stage 2"""
        row(case, r)
        if case.reach:          # "this behaviour must be possible": sat is the good answer
            if r["verdict"] == "unsat":
                return "unreachable"
            return None
        if r["verdict"] == "unsat":
            return None
        if r["verdict"] == "sat" and r.get("reproduced"):
            if case.name in findings:
                known.append((case.name, findings[case.name]))
                return None
            f = eng.save_replay(case, r["extra"], r, r["native"])
            violations.append((case.name, r["desc"], f))
            return None
        return "stage2"

    def do(case, stage, late=False):
        return case, eng.decide(case, stage, late)

    try:
        eng.build_repo()
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            futs = {}
            for c in sorted(cases, key=lambda c: -c.cost):
                futs[ex.submit(do, c, 1)] = ("decide", c)
            wit = [c for c in cases if c.witness and (tier == "thorough" or c.witness == "quick")]
            for c in wit:
                futs[ex.submit(lambda c=c: (c, eng.witness(c)))] = ("witness", c)
            later = []
            pend = set(futs)
            while pend:
                done, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    kind, c = futs[f]
                    try:
                        case, r = f.result()
                    except E.Stop:
                        undecided.append((c.name, kind, "deadline"))
                        continue
                    if kind == "witness":
                        witnesses["run"] += 1
                        if r["verdict"] == "sat":
                            witnesses["reached"] += 1
                            witnesses["native_ok"] += 1 if r.get("native_ok") else 0
                            if len(samples) < 3:
                                samples.append(dict(case=c.name, harness=c.src, defs=c.defs, kind="reachability witness replayed natively",
                                                    inputs=["%x" % v for v in r["inputs"][:24]], native_ok=r.get("native_ok")))
                        if not (r["verdict"] == "sat" and r.get("native_ok")):
                            witnesses["failed"].append(dict(case=c.name, verdict=r["verdict"], native=(r.get("native") or "")[:300]))
                        continue
                    st = r["stage"]
                    if r.get("late"):
                        g = ex.submit(do, c, 1, True)
                        futs[g] = ("decide", c)
                        pend.add(g)
                        continue
                    nxt = handle(c, r)
                    if violations:
                        eng.stop_all()
                    elif nxt == "unreachable":
                        undecided.append((c.name, "reach", "expected behaviour is unreachable"))
                        f2 = eng.save_replay(c, r["extra"], dict(r, desc=c.reach, inputs=[]), "the solver proved this outcome impossible")
                        violations.append((c.name, c.reach, f2))
                        eng.stop_all()
                    elif nxt == "stage2":
                        if r.get("errors") and r["verdict"] == "error":
                            errors.append((c.name, r["errors"]))
                        if st == 1 and c.stage2:
                            g = ex.submit(do, c, 2)
                            futs[g] = ("decide", c)
                            pend.add(g)
                        else:
                            undecided.append((c.name, "stage%d" % st, r["verdict"]))
                if violations:
                    for f in pend:
                        f.cancel()
                    break
    except E.Stop:
        pass
    except Exception:
        traceback.print_exc()
        eng.cleanup()
        return 3
    eng.cleanup()
    st = eng.stat
    wall = time.time() - t0
    for s in rows[:3]:
        samples.append(dict(kind="solver query", **s))
    ev = dict(
        property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=meta.get("level", "model_checking"),
        coverage=dict(
            states=st["steps"], transitions=st["assignments"],
            traces_validated_against_impl=st["replays_ok"],
            samples=samples,
            meaning="states = SSA steps of the symbolic executions; transitions = assignments handed to the solver after slicing; traces = solver models replayed through the native build",
            rule="one solver query per case; a case is a harness plus concrete sizes with every element/parameter named in `symbolic` left free",
            cases=len(cases), cases_decided=len([c for c in cases if c.name in {r["case"] for r in rows}]) - len({u[0] for u in undecided}),
            queries=st["queries"], unsat=st["unsat"], sat=st["sat"], timeouts=st["timeout"], solver_errors=st["error"],
            verification_conditions=st["vccs"], conditions_reaching_solver=st["vccs_solver"],
            solver_seconds=round(st["solver_s"], 2), symex_seconds=round(st["symex_s"], 2),
            functions_encoded=sorted(eng.functions),
            symbolic=meta["symbolic"], bounds=meta["bounds"], outside=meta["outside"],
            undecided=[list(u) for u in undecided], errors=[[n, str(e)[:300]] for n, e in errors],
            known_findings=[k[0] for k in known],
            vacuity=witnesses, per_case=rows),
        assumptions=C.COMMON_ASSUMPTIONS + meta.get("assumptions", []),
        wall_s=round(wall, 2), violations=len(violations))
    if meta.get("level") == "fault_enumeration":
        ev["coverage"]["evaluations"] = st["queries"]
        ev["coverage"]["distinct_nontrivial"] = len({r["case"] for r in rows if r["steps"]})
    os.makedirs(os.path.join(E.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(E.VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, text in known:
        print("KNOWN-FINDING: property=%s case=%s %s" % (a.prop, n, text))
    for n, desc, f in violations:
        print("case %s: %s" % (n, desc))
        print("VIOLATION property=%s replay=%s" % (a.prop, f))
    if not violations:
        print("property %s: %d cases, %d queries (%d unsat), %.1fs solver, %.1fs wall, undecided %d, witnesses %d/%d" % (
            a.prop, len(cases), st["queries"], st["unsat"], st["solver_s"], wall, len(undecided), witnesses["native_ok"], witnesses["run"]))
        slow = sorted(rows, key=lambda r: -sum(t["seconds"] for t in r["tries"]))[:4]
        print("slowest: " + "; ".join("%s %s" % (r["case"], ",".join("%s:%s:%.1f" % (t["backend"], t["verdict"], t["seconds"]) for t in r["tries"])) for r in slow))
        for u in undecided:
            print("undecided: %s %s %s" % u)
        for w in witnesses["failed"]:
            print("witness-failed: %s" % w)
    sys.stdout.flush()
    return 1 if violations else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
