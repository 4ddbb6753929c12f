"""once.py HARNESS [timeout] [extra cbmc flags]: one raw CBMC run, text output tail (development aid)"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, specs, subprocess
h = [h for p in specs.SPECS for h in specs.SPECS[p] if h.name == sys.argv[1]][0]
w = engine.Work(); gb, d, hd = engine.build_goto(w, h)
c = [x for x in engine.cbmc_cmd(h, gb, h.unwind) if x != "--json-ui"] + sys.argv[3:]
try: subprocess.run(c, timeout=int(sys.argv[2]) if len(sys.argv) > 2 else 240)
except subprocess.TimeoutExpired: print("TIMEOUT")
w.close()
