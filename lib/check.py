"""check <PROPERTY> [quick|thorough]   decide one property against /repo's current tree
check --replay <file>                  re-run a reported counterexample natively
check --list                           list harnesses"""
import os, sys, json, time, importlib, re
from concurrent.futures import ThreadPoolExecutor, as_completed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Harness, Work, VERIF, run_harness

def load():
    import specs
    return specs.SPECS, specs.ASSUMPTIONS

def known_findings():
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m: out[(m.group(1), m.group(2))] = m.group(3)
    return out

def main():
    argv = sys.argv[1:]
    specs, assumptions = load()
    if argv and argv[0] == "--list":
        for p in sorted(specs):
            for h in specs[p]: print(p, h.name, "quick" if h.quick else "thorough-only")
        return 0
    if argv and argv[0] == "--replay":
        l = open(argv[1]).read().splitlines()
        name = re.match(r"# property harness (\S+)", l[0]).group(1)
        h = [h for p in specs for h in specs[p] if h.name == name][0]
        w = Work()
        try:
            if not isinstance(h, Harness): return h.replay(w, argv[1])
            gb, d, hd = engine.build_goto(w, h)
            rep, rc, msg, rf = engine.native_replay(w, h, d, hd, [x for x in l if x[:1] in "id" and not x.startswith("#")], os.path.join(w.dir, "o"))
            print("reproduced" if rep else "not reproduced", rc, msg); return 1 if rep else 0
        finally: w.close()
    prop = argv[0]
    only = None
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[1:]:
        if a in ("quick", "thorough"): tier = a
        else: only = a
    t0 = time.time()
    hs = [h for h in specs[prop] if (h.quick if tier == "quick" else h.thorough)]
    if only: hs = [h for h in hs if re.search(only, h.name)]
    outdir = os.path.join(VERIF, "evidence", "replay", prop)
    os.makedirs(outdir, exist_ok=True)
    kf = known_findings()
    w = Work(); results = []
    try:
        jobs = int(os.environ.get("VERIF_JOBS", "8"))
        with ThreadPoolExecutor(jobs) as ex:
            futs = {ex.submit(run_harness if isinstance(h, Harness) else h.run, *( (w, h, outdir, tier) if isinstance(h, Harness) else (w, outdir, tier) )): h for h in hs}
            for f in as_completed(futs):
                h = futs[f]; r = f.result(); results.append((h, r))
                print("[%s] %-28s %-12s %6.1fs  solver %.1fs  vccs %s %s" % (prop, h.name, r["status"], r.get("wall_s", 0), r.get("solver_s", 0), r.get("vccs", "-"), r.get("detail", "")[:600]), flush=True)
    finally:
        w.close()
    rc = 0; nviol = 0; seen = 0
    for h, r in results:
        if r["status"] == "violation":
            v = r["violations"][0]
            key = (prop, getattr(h, "known", ""))
            if getattr(h, "known", "") and key in kf:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[key])); seen += 1
                continue
            nviol += 1; rc = 1
            print("  %s: %s" % (h.name, v["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    inconc = [(h.name, r["detail"]) for h, r in results if r["status"] == "inconclusive"]
    if rc == 0 and (inconc or not results): rc = 2
    results.sort(key=lambda x: x[0].name)
    fns = sorted(set(f for _, r in results for f in r["functions"]))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=assumptions.get(prop, []) + sorted(set(h.stubs_note for h, _ in results if getattr(h, "stubs_note", ""))),
              coverage=dict(
                  explanation="Solver-based bounded checking: the functions listed were re-encoded from the current source on this run (CBMC goto programs, or LLVM IR translated to SMT for real arithmetic) and every assertion was decided by a SAT/SMT solver over all values within the stated bounds; counterexamples are replayed natively before being reported. Nothing is claimed outside the bounds.",
                  functions_encoded=fns, harnesses_decided=sum(r["status"] == "ok" for _, r in results), harnesses_inconclusive=[n for n, _ in inconc],
                  known_findings_reproduced=seen,
                  queries=sum(r["queries"] for _, r in results), verification_conditions=sum(r["vccs"] for _, r in results),
                  symbolic_execution_steps=sum(r["steps"] for _, r in results), solver_seconds=round(sum(r["solver_s"] for _, r in results), 2),
                  samples=[dict(harness=h.name, status=r["status"], bounds=h.bounds, unwind=r.get("unwind"), sizes=r.get("cfg"), assertions=r["checked"], vccs=r["vccs"], vccs_sent_to_solver=r.get("remaining_vccs"),
                                queries=r["queries"], solver_s=round(r["solver_s"], 2), steps=r["steps"], witnesses_reached=[n for n, s in r["reach"] if s != "SUCCESS"], detail=r["detail"]) for h, r in results]))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("[%s] %s: %d harnesses, %d violations, %d inconclusive, %.1f s" % (prop, tier, len(results), nviol, len(inconc), time.time() - t0))
    return rc

sys.exit(main())
