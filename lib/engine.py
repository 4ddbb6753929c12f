"""Solver-based checking engine: encodes the current /repo sources with goto-cc/CBMC, decides each harness
with a SAT/SMT back end, and replays every counterexample against the natively compiled real code.

A property's check is a list of Harness objects (see specs/*.py). Outcome per harness:
  ok            every P:/memory assertion unsatisfiable-to-violate within the bounds, every REACH witness reachable
  violation     the solver found an assignment and the native replay reproduced it
  inconclusive  anything else (timeout, out of memory, unreachable witness, non-reproducing trace): never reported as success
"""
import os, re, sys, json, time, shutil, subprocess, tempfile, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
from dataclasses import dataclass, field

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HDIR = os.path.join(VERIF, "harness")

# Scaled-down sizes used by structural harnesses; each harness may override. Stated in the evidence as bounds.
SMALL = dict(ATOMS_MAX=100, ATOMIC_TERM_LEN_MAX=8, COMPOUND_TERM_SIZE_MAX=16, ATOMS_HASHTABLE_BUCKETS=16,
             NARSESE_LEN_MAX=64, CONCEPTS_MAX=4, CYCLING_BELIEF_EVENTS_MAX=4, CYCLING_GOAL_EVENTS_MAX=4,
             CYCLING_GOAL_EVENTS_LAYERS=3, OPERATIONS_MAX=3, STAMP_SIZE=4, TABLE_SIZE=3,
             OCCURRENCE_TIME_INDEX_SIZE=4, UNIFICATION_DEPTH=15)

CORE = ["Cycle", "Decision", "Event", "Globals", "HashTable", "Inference", "InvertedAtomIndex", "Memory", "NAL", "NAR",
        "Narsese", "OccurrenceTimeIndex", "PriorityQueue", "Stack", "Stamp", "Stats", "Table", "Term", "Truth", "Usage",
        "Variable"]

@dataclass
class Harness:
    name: str
    src: str                       # file in /verif/harness
    entry: str = "h"               # entry function
    cfg: dict = field(default_factory=dict)     # Config.h overrides (None => real configuration)
    small: bool = True             # start from SMALL
    unwind: int = 70
    unwindset: str = ""
    hunwind: int = 70              # bound for the harness's own loops (all concrete), separate from the code under test
    stub: tuple = ()               # functions replaced by the harness in both modes (environment / abstracted callee)
    contract: tuple = ()           # functions replaced only in the encoding, by a summary decided by another harness
    defs: tuple = ()
    mem: bool = False              # bounds/pointer checks decide too
    checks: tuple = ()             # extra cbmc checks
    flags: tuple = ()
    timeout: int = 400
    quick: bool = True
    thorough: bool = True
    modules: tuple = ()            # extra modules beyond CORE (RuleTable, Shell, UDPNAR, ...)
    only: tuple = ()               # restrict to these modules (instead of CORE)
    bounds: str = ""
    stubs_note: str = ""
    object_bits: int = 12
    known: str = ""                # known-finding id this harness is expected to reproduce
    includes: tuple = ()           # .c files of /repo/src included textually by the harness (static functions)
    retry_unwind: int = 2
    san: bool = True
    pool: tuple = ()               # atom names the symbolic terms range over; ids are taken from the natively run initialisation
    syms: tuple = ()               # internal symbols the harness can exploit if present (defines HAVE_<sym>)
    premises: tuple = ()           # shapes of the rule table's two premises (position -> ("L", k) for a leaf of the first three pool atoms, or the atom's name): rule blocks that cannot match are left out of the encoding
    fun_unwind: dict = field(default_factory=dict)   # bounds for all loops of a function (initialisation loops over whole tables)
    solver: str = "cadical"        # "minisat", "cadical", "kissat" or CBMC solver flags

class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vh_")
        self.lock = threading.Lock()
        self.src = {}
        self.obj = {}
        self.locks = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def run(cmd, timeout=None, **kw):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace"), time.time() - t0

def cfg_of(h):
    c = dict(SMALL) if h.small else {}
    c.update(h.cfg)
    return c

def _keylock(w, key):
    with w.lock:
        return w.locks.setdefault(key, threading.Lock())

def source_tree(w, cfg):
    """Copy of /repo/src with Config.h sizes overridden (appended #undef/#define), shared per configuration."""
    key = hashlib.sha1(json.dumps(cfg, sort_keys=True).encode()).hexdigest()[:12]
    with _keylock(w, ("src", key)):
        if key in w.src:
            return key, w.src[key]
        d = os.path.join(w.dir, key)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
        rt = os.path.join(d, "src", "RuleTable.c")
        if os.path.exists(rt):
            os.remove(rt)
        p = os.path.join(d, "src", "Config.h")
        s = open(p).read()
        i = s.rindex("#endif")
        s = s[:i] + "".join("#undef %s\n#define %s %s\n" % (k, k, v) for k, v in sorted(cfg.items())) + s[i:]
        open(p, "w").write(s)
        # CBMC 6.11 rewrites (&s.array[i])->field[0] wrongly when i is symbolic, s has further members and field is an
        # array that is not the first member of the element: lay out Term with its atoms first (field order only).
        p = os.path.join(d, "src", "Term.h")
        s = open(p).read()
        m = re.search(r"typedef struct\s*\{([^}]*)\}\s*Term;", s)
        if m:
            f = re.search(r"^[ \t]*Atom atoms\[[^;]*;[^\n]*\n", m.group(1), re.M)
            if f: s = s[:m.start(1)] + "\n" + f.group(0) + m.group(1).replace(f.group(0), "", 1) + s[m.end(1):]
        open(p, "w").write(s)
        os.makedirs(os.path.join(d, "gb"))
        w.src[key] = d
        return key, d

def rule_table(w, d):
    """Generate RuleTable.c the way the real build does (stage 1, real configuration)."""
    with _keylock(w, "rt"):
        dst = os.path.join(w.dir, "RuleTable.c")
        if not os.path.exists(dst):
            s1 = os.path.join(w.dir, "stage1")
            if not os.path.exists(s1):
                srcs = [os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c") and f != "RuleTable.c"]
                srcs += [os.path.join(REPO, "src", "NetworkNAR", f) for f in os.listdir(os.path.join(REPO, "src", "NetworkNAR")) if f.endswith(".c")]
                od = os.path.join(w.dir, "s1o"); os.makedirs(od, exist_ok=True)
                def cc(f):
                    o = os.path.join(od, os.path.basename(f) + ".o")
                    return run(["gcc", "-std=c99", "-D_POSIX_C_SOURCE=199506L", "-DSTAGE=1", "-O0", "-w", "-pthread", "-c", f, "-o", o]), o
                with ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(cc, srcs))
                for r, o in rs:
                    if r[0]: raise RuntimeError("stage 1 build failed: " + r[2][-800:])
                r = run(["gcc"] + [o for _, o in rs] + ["-lm", "-lpthread", "-o", s1])
                if r[0]: raise RuntimeError("stage 1 link failed: " + r[2][-800:])
            rc, out, err, _ = run([s1, "NAL_GenerateRuleTable"], timeout=60)
            if rc: raise RuntimeError("rule table generation failed")
            open(dst, "w").write(out)
    t = os.path.join(d, "src", "RuleTable.c")
    with _keylock(w, ("rtc", d)):
        if not os.path.exists(t):
            shutil.copy(dst, t)

def modules_of(h):
    return list(h.only) if h.only else CORE + list(h.modules)

def mod_path(d, m):
    p = os.path.join(d, "src", m + ".c")
    return p if os.path.exists(p) or m == "RuleTable" else os.path.join(d, "src", "NetworkNAR", m + ".c")

def all_modules(d, mods):
    """Include source files unknown to the spec (a refactoring may add one)."""
    known = set(CORE) | {"RuleTable", "Shell", "main", "UDPNAR", "UDP", "Metric"}
    extra = [f[:-2] for f in sorted(os.listdir(os.path.join(d, "src"))) if f.endswith(".c") and f[:-2] not in known]
    return mods + extra

def goto_objs(w, d, mods):
    def one(m):
        o = os.path.join(d, "gb", m + ".gb")
        with _keylock(w, ("gb", o)):
            if not os.path.exists(o):
                rc, out, err, _ = run(["goto-cc", "-std=gnu99", "-DSTAGE=2", "-I" + os.path.join(d, "src"), "-I" + os.path.join(d, "src", "NetworkNAR"),
                                       "-c", mod_path(d, m), "-o", o])
                if rc or not os.path.exists(o):
                    raise RuntimeError("goto-cc failed on %s: %s" % (m, (out + err)[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, mods))

def have_syms(h, d):
    out = []
    if h.syms:
        txt = ""
        for base, _, fs in os.walk(os.path.join(d, "src")):
            for f in fs:
                if f.endswith(".c"): txt += open(os.path.join(base, f), errors="replace").read()
        out = ["-DHAVE_" + x for x in h.syms if re.search(r"^(?!\s*(static|//)).*\b%s\b" % x, txt, re.M)]
    return out

def pool_header(w, h, d, hd):
    """vh_pool.h: ids of the pool's atom names, obtained by running the real initialisation natively."""
    if not h.pool: return
    od = os.path.join(d, "plain")
    lib = os.path.join(d, "plain.a")
    with _keylock(w, ("plain", d)):
        if not os.path.exists(lib):
            os.makedirs(od, exist_ok=True)
            def cc(m):
                o = os.path.join(od, m + ".o")
                r = run(["gcc", "-std=gnu99", "-DSTAGE=1", "-O0", "-w", "-I" + os.path.join(d, "src"), "-I" + os.path.join(d, "src", "NetworkNAR"), "-c", mod_path(d, m), "-o", o])
                if r[0]: raise RuntimeError("native compile failed: " + r[2][-600:])
                return o
            with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, all_modules(d, CORE)))
            run(["ar", "rcs", lib] + objs)
    src, exe = os.path.join(hd, "pool.c"), os.path.join(hd, "pool")
    lst = ",".join('"%s"' % n.replace("\\", "\\\\").replace('"', '\\"') for n in h.pool)
    open(src, "w").write('#include <stdio.h>\n#include "Narsese.h"\nvoid NAL_GenerateRuleTable(void);\nint main() { Narsese_INIT(); const char *n[] = {%s}; for(int i=0; i<%d; i++) printf("%%d\\n", (int) Narsese_AtomicTermIndex((char*) n[i])); return 0; }\n' % (lst, len(h.pool)))
    r = run(["gcc", "-std=gnu99", "-DSTAGE=1", "-w", "-I" + os.path.join(d, "src"), src, lib, "-lm", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
    if r[0]: raise RuntimeError("native link failed: " + r[2][-600:])
    r = run([exe], timeout=20)
    ids = r[1].split()
    if r[0] or len(ids) != len(h.pool): raise RuntimeError("initialisation failed natively")
    e = "".join("#define vh_eachpool_%d\n" % i for i in ())
    open(os.path.join(hd, "vh_pool.h"), "w").write("#define POOLN %d\n#define VH_POOL_IDS %s\n#define VH_POOL_NAMES %s\n#define VH_POOL_C0 %s\n#define VH_POOL_C1 %s\n" % (
        len(ids), ",".join(ids), lst, ",".join(str(ord(n[0])) for n in h.pool), ",".join(str(ord(n[1])) if len(n) > 1 else "0" for n in h.pool)))

BLOCK_PREFIX = re.compile(r"^\s*(\{|Term substitutions\[[^;]*\] = \{0\}; Term subtree = \{0\};|subtree = Term_ExtractSubterm\(&term[12], \d+\);|if\(\(substitutions\[\d+\]\.atoms\[0\]!=0 && !Term_Equal\(&substitutions\[\d+\], &subtree\)\) \|\| Narsese_copulaEquals\(subtree\.atoms\[0\], SET_TERMINATOR\)\)\{ goto RULE_%d; \}|substitutions\[\d+\] = subtree;|if\(!?doublePremise\) \{ goto RULE_%d; \}|if\(term[12]\.atoms\[\d+\] != \d+\)\{ goto RULE_%d; \}|)\s*$".replace("%d", r"\d+"))
def slice_rules(txt, premises, ids, leaves, nmax):
    """Leave out rule blocks whose structural test fails for every filling of the premise shapes. A block goes only if every
    statement before that test is one known to have no other effect and every jump goes to the next block."""
    if re.search(r"\bterm[12](\.atoms\[[^]]*\])?\s*=[^=]|\b(doublePremise)\s*=[^=]", txt.split("RuleTable_Apply(", 1)[-1].split("Term RuleTable_Reduce(")[0].split("{", 1)[1]): return txt, 0
    parts = re.split(r"^(RULE_\d+):[ \t]*\n", txt, flags=re.M)
    out, n = [parts[0]], 0
    for i in range(1, len(parts) - 2, 2):
        lab, body, nxt = parts[i], parts[i+1], parts[i+2]
        dead = False
        for l in body.split("\n"):
            if not BLOCK_PREFIX.match(l) or any(x != nxt for x in re.findall(r"goto (RULE_\d+)", l)): break
            m = re.match(r"\s*if\((!?)doublePremise\)", l)
            if m: dead = (m.group(1) == "!") == (len(premises) == 1)
            m = re.match(r"\s*if\(term([12])\.atoms\[(\d+)\] != (\d+)\)", l)
            if m and int(m.group(2)) < nmax:
                lay = premises[int(m.group(1)) - 1] if int(m.group(1)) <= len(premises) else {}
                x = lay.get(int(m.group(2)))
                can = {0} if x is None else set(ids[a] for a in leaves) if isinstance(x, tuple) else {ids[x]}
                dead = int(m.group(3)) not in can
            if dead: break
        out.append("%s:\n%s" % (lab, "{ goto %s; }\n" % nxt if dead else body)); n += dead
    out.append("%s:\n%s" % (parts[-2], parts[-1]))
    return "".join(out), n

def build_goto(w, h):
    key, d = source_tree(w, cfg_of(h))
    if "RuleTable" in h.modules or "RuleTable" in h.only:
        rule_table(w, d)
    mods = [m for m in all_modules(d, modules_of(h)) if m not in h.includes]
    objs = goto_objs(w, d, mods)
    tag = re.sub(r"\W", "_", h.name)
    hd = os.path.join(d, "h_" + tag); os.makedirs(hd, exist_ok=True)
    lib, lib2, gb = (os.path.join(hd, x) for x in ("lib.gb", "lib2.gb", "all.gb"))
    pool_header(w, h, d, hd)
    if h.premises:
        ids = dict(zip(h.pool, map(int, re.search(r"VH_POOL_IDS (.*)", open(os.path.join(hd, "vh_pool.h")).read()).group(1).split(","))))
        txt, n = slice_rules(open(os.path.join(d, "src", "RuleTable.c")).read(), h.premises, ids, h.pool[:3], int(cfg_of(h)["COMPOUND_TERM_SIZE_MAX"]))
        rt = os.path.join(hd, "RuleTable.c"); open(rt, "w").write(txt); o = os.path.join(hd, "RuleTable.gb")
        rc, out, err, _ = run(["goto-cc", "-std=gnu99", "-DSTAGE=2", "-I" + os.path.join(d, "src"), "-c", rt, "-o", o])
        if rc: raise RuntimeError("goto-cc failed on the rule table: " + (out + err)[-1500:])
        objs = [o if m == "RuleTable" else x for m, x in zip(mods, objs)]
    inc = ["-I" + os.path.join(d, "src"), "-I" + os.path.join(d, "src", "NetworkNAR"), "-I" + HDIR, "-I" + hd]
    steps = [["goto-cc"] + objs + ["-o", lib]]
    rm = ["Globals_assert"] + list(h.stub) + list(h.contract)
    a = []
    for r in rm:
        a += ["--remove-function-body", r]
    steps.append(["goto-instrument"] + a + [lib, lib2])
    defs = ["-D" + x for x in h.defs] + have_syms(h, d)
    steps.append(["goto-cc", "-std=gnu99", "-DSTAGE=2"] + defs + inc + ["-c", os.path.join(HDIR, h.src), "-o", os.path.join(hd, "h.gb")])
    steps.append(["goto-cc", "-std=gnu99", "-DSTAGE=2"] + defs + inc + ["-c", os.path.join(HDIR, "vh_rt.c"), "-o", os.path.join(hd, "rt.gb")])
    steps.append(["goto-cc", lib2, os.path.join(hd, "h.gb"), os.path.join(hd, "rt.gb"), "-o", gb])
    for s in steps:
        rc, out, err, _ = run(s)
        if rc:
            raise RuntimeError("%s failed: %s" % (s[0], (out + err)[-1500:]))
    return gb, d, hd

_loops = {}
def harness_loops(h, gb):
    if gb not in _loops:
        rc, out, err, _ = run(["goto-instrument", "--show-loops", gb])
        ls = list(re.finditer(r"^Loop ((\S+)\.\d+):\s*\n\s*file (\S+) ", out, re.M))
        _loops[gb] = ",".join(["%s:%d" % (m.group(1), h.hunwind) for m in ls if m.group(3).startswith(HDIR)] + ["%s:%d" % (m.group(1), h.fun_unwind[m.group(2)]) for m in ls if m.group(2) in h.fun_unwind])
    return _loops[gb]

def cbmc_cmd(h, gb, unwind, extra=()):
    c = ["cbmc", gb, "--function", h.entry, "--unwind", str(unwind), "--unwinding-assertions", "--object-bits", str(h.object_bits),
         "--no-malloc-may-fail", "--json-ui", "--verbosity", "8", "--drop-unused-functions"]
    us = [x for x in (h.unwindset, harness_loops(h, gb)) if x]
    if us:
        c += ["--unwindset", ",".join(us)]
    c += ["--no-standard-checks"]
    if h.mem:
        c += ["--bounds-check", "--pointer-check"]
    sv = os.environ.get("VERIF_SOLVER", h.solver)
    if sv == "cadical": c += ["--sat-solver", "cadical"]
    elif sv == "kissat": c += ["--external-sat-solver", "kissat"]
    elif sv != "minisat": c += sv.split()
    c += list(h.checks) + list(h.flags) + list(extra)
    return c

def parse_json(out):
    """CBMC's --json-ui output; tolerate truncation."""
    try:
        return json.loads(out)
    except Exception:
        return None

def functions_encoded(gb, entry, d):
    rc, out, err, _ = run(["goto-instrument", "--call-graph", gb])
    g = {}
    for l in out.splitlines():
        m = re.match(r"^(\S+) -> (\S+)$", l)
        if m:
            g.setdefault(m.group(1), set()).add(m.group(2))
    seen, todo = set(), [entry]
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f); todo += list(g.get(f, ()))
    return seen

def repo_functions(d):
    names = set()
    for base, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            if f.endswith(".c"):
                for m in re.finditer(r"^[A-Za-z_][\w \*]*?\b(\w+)\([^;{]*\)\s*\n?\{", open(os.path.join(base, f), errors="replace").read(), re.M):
                    names.add(m.group(1))
    return names

def nd_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("sourceLocation", {}).get("function", "") in ("nd_long", "nd_double"):
            lhs = st.get("lhs", "")
            v = st.get("value", {})
            if lhs == "ND_LOG":
                b = v.get("binary")
                if b is not None:
                    x = int(b, 2)
                    if x >= 1 << (len(b) - 1): x -= 1 << len(b)
                    vals.append("i%d" % x)
                else:
                    vals.append("i%s" % re.sub(r"[uUlL]+$", "", str(v.get("data", "0"))))
            elif lhs == "ND_LOGD":
                vals.append("d%016x" % int(v.get("binary", "0"), 2))
    return vals

def native_replay(w, h, d, hd, vals, outdir):
    """Compile the same harness with the real (scaled) sources under ASan and feed it the solver's values."""
    exe = os.path.join(hd, "replay")
    if not os.path.exists(exe):
        od = os.path.join(hd, "no"); os.makedirs(od, exist_ok=True)
        mods = [m for m in all_modules(d, modules_of(h)) if m not in h.includes]
        inc = ["-I" + os.path.join(d, "src"), "-I" + os.path.join(d, "src", "NetworkNAR"), "-I" + HDIR, "-I" + hd]
        san = ["-fsanitize=address,bounds"] if h.san else []
        base = ["gcc", "-std=gnu99", "-DSTAGE=2", "-DREPLAY", "-g", "-O0", "-w", "-fno-builtin", "-fno-inline"] + san + inc
        defs = ["-D" + x for x in h.defs] + have_syms(h, d)
        files = [mod_path(d, m) for m in mods]
        def cc(f):
            o = os.path.join(od, os.path.basename(f) + ".o")
            r = run(base + (defs if f.startswith(HDIR) else []) + ["-c", f, "-o", o])
            if r[0]: raise RuntimeError("native compile failed: " + r[2][-1200:])
            if not f.startswith(HDIR):
                weak = []
                for s in ["Globals_assert"] + list(h.stub):
                    weak += ["--weaken-symbol=" + s]
                run(["objcopy"] + weak + [o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, [os.path.join(HDIR, h.src), os.path.join(HDIR, "vh_rt.c")] + files))
        ent = os.path.join(od, "entry.c")
        open(ent, "w").write("void %s(void); void vh_entry(void) { %s(); }\n" % (h.entry, h.entry))
        objs.append(cc(ent))
        r = run(["gcc"] + san + objs + ["-lm", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
        if r[0]: raise RuntimeError("native link failed: " + r[2][-1500:])
    os.makedirs(outdir, exist_ok=True)
    rf = os.path.join(outdir, "%s.replay" % re.sub(r"\W", "_", h.name))
    open(rf, "w").write("# property harness %s entry %s cfg %s defs %s\n# replay: /verif/bin/check --replay <this file>\n" % (h.name, h.entry, json.dumps(cfg_of(h)), json.dumps(list(h.defs))) + "\n".join(vals) + "\n")
    env = dict(os.environ, VH_REPLAY=rf, ASAN_OPTIONS="detect_leaks=0:exitcode=76:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")
    sc = tempfile.mkdtemp(prefix="rep_", dir=w.dir)
    rc, out, err, _ = run([exe], timeout=60, env=env, cwd=sc, stdin=subprocess.DEVNULL)
    msg = ""
    for l in err.splitlines():
        if l.startswith("REPLAY-VIOLATION"): msg = l[17:]; break
        if "AddressSanitizer" in l or "runtime error" in l: msg = l.strip(); break
    rep = rc == 77 or rc == -8 or (("AddressSanitizer" in err or "runtime error" in err) and h.mem) or (rc < 0 and rc != -999 and h.mem)
    if ("AddressSanitizer" in err) and not h.mem and rc != 77:
        rep = True
    if not rep and (h.contract or h.stub) and "VH_VARY" not in os.environ:
        vf = rf + ".vary"
        rc2, _, _, _ = run([exe], timeout=60, env=dict(env, VH_VARY="4000", VH_OUT=vf), cwd=sc, stdin=subprocess.DEVNULL)
        if rc2 == 77:
            return native_replay_again(exe, h, vf, rf, env, sc)
    return rep, rc, msg or err[-300:], rf

def native_replay_again(exe, h, vf, rf, env, sc):
    head = open(rf).readline()
    open(rf, "w").write(head + open(vf).read()); os.remove(vf)
    rc, out, err, _ = run([exe], timeout=60, env=env, cwd=sc, stdin=subprocess.DEVNULL)
    msg = next((l[17:] for l in err.splitlines() if l.startswith("REPLAY-VIOLATION")), "")
    return rc == 77, rc, msg or err[-300:], rf

def run_harness(w, h, outdir, tier):
    t0 = time.time()
    res = dict(harness=h.name, status="inconclusive", detail="", solver_s=0.0, queries=0, vccs=0, steps=0, checked=0, bounds=h.bounds,
               unwind=h.unwind, cfg=cfg_of(h), functions=[], violations=[], reach=[])
    try:
        gb, d, hd = build_goto(w, h)
        fns = functions_encoded(gb, h.entry, d) & repo_functions(d)
        res["functions"] = sorted(fns - set(h.stub) - set(h.contract) - {"Globals_assert"})
        unwind = h.unwind
        for attempt in range(1 + h.retry_unwind):
            left = h.timeout - (time.time() - t0)
            if left < 5:
                res["detail"] = "time budget exhausted"; return res
            rc, out, err, dt = run(cbmc_cmd(h, gb, unwind), timeout=left, preexec_fn=None)
            if rc == -999:
                res["detail"] = "solver timeout after %.0f s" % dt; return res
            js = parse_json(out)
            if js is None:
                res["detail"] = "cbmc output not understood (rc %d) %s" % (rc, (out[-300:] + err[-300:])); return res
            results = None; errs = []
            for o in js:
                if "result" in o: results = o["result"]
                mt = o.get("messageText", "") if isinstance(o, dict) else ""
                if mt.startswith("Runtime decision procedure"): res["solver_s"] += float(re.findall(r": ([\d.e+-]+)s", mt)[0]); res["queries"] += 1
                m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", mt)
                if m: res["vccs"] += int(m.group(1)); res["remaining_vccs"] = int(m.group(2))
                m = re.match(r"size of program expression: (\d+) steps", mt)
                if m: res["steps"] = int(m.group(1))
                if o.get("messageType") == "ERROR": errs.append(mt)
            if results is None:
                res["detail"] = "cbmc gave no result (rc %d): %s" % (rc, "; ".join(errs)[-400:] + err[-300:]); return res
            bad = [r for r in results if r["status"] != "SUCCESS"]
            unw = [r for r in bad if ".unwind." in r["property"] or "unwinding assertion" in r.get("description", "") or "recursion" in r["property"]]
            if unw and attempt < h.retry_unwind and not [r for r in bad if r.get("description", "").startswith("P:")]:
                unwind *= 3; res["unwind"] = unwind
                continue
            break
        res["checked"] = len([r for r in results if not r.get("description", "").startswith("REACH:")])
        reach = [r for r in results if r.get("description", "").startswith("REACH:")]
        res["reach"] = [(r["description"][6:], r["status"]) for r in reach]
        res["queries"] = max(res["queries"], 1)
        fails = [r for r in bad if r not in unw and not r.get("description", "").startswith("REACH:")]
        if fails:
            notes = []
            fails.sort(key=lambda r: 0 if r["description"].startswith("P:") else 1)
            for r in fails[:6]:
                left = max(60, h.timeout - (time.time() - t0))
                rc, out, err, dt = run(cbmc_cmd(h, gb, unwind, ["--trace", "--property", r["property"]]), timeout=left)
                js = parse_json(out)
                tr = None
                for o in js or []:
                    for x in o.get("result", []) if isinstance(o, dict) else []:
                        if x.get("property") == r["property"] and "trace" in x: tr = x["trace"]
                if tr is None:
                    notes.append("%s: no trace (rc %d)" % (r["description"], rc)); continue
                vals = nd_values(tr)
                rep, nrc, msg, rf = native_replay(w, h, d, hd, vals, outdir)
                if rep:
                    res["violations"].append(dict(what=r["description"], where=r.get("sourceLocation", {}), replay=rf, observed=msg))
                    break
                notes.append("%s at %s: counterexample did not reproduce natively (rc %d %s)" % (r["description"], r.get("sourceLocation", {}).get("line"), nrc, msg[-160:]))
            if res["violations"]:
                res["status"] = "violation"; res["detail"] = res["violations"][0]["what"]
            else:
                res["detail"] = " | ".join(notes)
            return res
        if unw:
            res["detail"] = "unwinding bound %d too small: %s" % (unwind, unw[0]["property"]); return res
        miss = [n for n, s in res["reach"] if s == "SUCCESS"]
        if not reach or miss:
            res["detail"] = "vacuity witness not reachable: %s" % (miss or "none declared"); return res
        res["status"] = "ok"
        return res
    except Exception as e:
        res["detail"] = "engine error: %s" % e
        return res
    finally:
        res["wall_s"] = time.time() - t0
