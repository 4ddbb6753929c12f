"""dbg.py HARNESS [substring of failing check]: print the counterexample's assignments (development aid)"""
import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, specs
h = [h for p in specs.SPECS for h in specs.SPECS[p] if h.name == sys.argv[1]][0]
w = engine.Work()
gb, d, hd = engine.build_goto(w, h)
rc, out, err, dt = engine.run(engine.cbmc_cmd(h, gb, h.unwind, ["--trace"]))
for o in engine.parse_json(out) or []:
    for r in o.get("result", []):
        if r["status"] != "SUCCESS": print(r["status"], r["property"], r["description"])
    for r in o.get("result", []):
        if r["status"] != "SUCCESS" and "trace" in r and (len(sys.argv) < 3 or sys.argv[2] in r["description"]) and not r["description"].startswith("REACH"):
            for s in r["trace"]:
                if s["stepType"] in ("assignment", "function-call", "failure") and not s.get("hidden"):
                    l = s.get("sourceLocation", {})
                    if s["stepType"] == "assignment": print(l.get("function"), l.get("line"), s["lhs"], "=", str(s["value"].get("data", s["value"]))[:200])
                    else: print(s["stepType"], s.get("function", {}).get("displayName", ""), l.get("line"))
            w.close(); sys.exit()
w.close()
