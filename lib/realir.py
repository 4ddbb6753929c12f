"""Second encoder: LLVM IR (clang -O1, from the current source) -> SMT over exact reals/integers, decided by z3.
Used for algebraic laws of floating-point code that bit-precise encodings cannot decide. Every counterexample is
replayed by calling the compiled function."""
import os, re, struct, subprocess, time, json, ctypes, math
import engine
try:
    import z3
except ImportError:
    z3 = None

class Unsupported(Exception): pass

def fconst(tok):
    if tok.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(tok[2:].rjust(16, "0")))[0]
    return float(tok)

def rv(x):
    from fractions import Fraction
    fr = Fraction(repr(x)) if x == x and abs(x) != float("inf") else None   # 0.99 means the decimal 0.99
    if fr is None: raise Unsupported("non-finite constant")
    return z3.RealVal(str(fr))

class IR:
    def __init__(self, text):
        self.funcs, self.globals = {}, {}
        for m in re.finditer(r"^@([\w.]+) = .*?(?:global|constant) (double|i64|i32) (\S+?),", text, re.M):
            self.globals[m.group(1)] = (m.group(2), m.group(3))
        cur = None
        for l in text.splitlines():
            m = re.match(r"^define .*? ?(\{[^}]*\}|[\w.]+) @([\w.]+)\((.*)\)", l)
            if m:
                ps = []
                for a in split_top(m.group(3)):
                    if a.strip(): ps.append((a.split()[0], a.split()[-1]))
                cur = dict(params=ps, blocks={}, order=[])
                self.funcs[m.group(2)] = cur; blk = None; continue
            if l.startswith("}"): cur = None
            if cur is None: continue
            m = re.match(r"^([\w.\-]+|\"[^\"]+\"):", l)
            if m:
                blk = m.group(1); cur["blocks"][blk] = []; cur["order"].append(blk); continue
            s = l.split(" ; ")[0].strip()
            if s:
                if blk is None: blk = "%entry0"; cur["blocks"][blk] = []; cur["order"].append(blk)
                cur["blocks"][blk].append(re.sub(r", !\w+.*$", "", s))

def split_top(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "({[": d += 1
        if ch in ")}]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

class Sym:
    """Symbolic evaluation context (z3)."""
    mode = "z3"
    def __init__(self, ir):
        self.ir, self.vars, self.assume, self.pows, self.used = ir, {}, [], [], set()
    def real(self, n, lo, hi):
        v = z3.Real(n); self.vars[n] = v; self.assume += [v >= rv(lo), v <= rv(hi)]; return v
    def int(self, n, lo, hi):
        v = z3.Int(n); self.vars[n] = v; self.assume += [v >= lo, v <= hi]; return v
    def require(self, c): self.assume.append(c)
    def ite(self, c, a, b): return z3.If(c, self.lift(a), self.lift(b))
    def lift(self, a): return rv(a) if isinstance(a, float) else z3.RealVal(a) if isinstance(a, int) else a
    def pow(self, b, e):
        b, e = self.lift(b), self.lift(e)
        for (b2, e2, v2) in self.pows:
            if z3.eq(b, b2) and z3.eq(e, e2): return v2
        v = z3.Real("pow%d" % len(self.pows))
        ax = [z3.Implies(e == 0, v == 1), z3.Implies(e == 1, v == b), z3.Implies(z3.And(b > 0, b < 1, e > 0), z3.And(v > 0, v < 1)),
              z3.Implies(z3.And(b > 0, b < 1, e > 1), v < b), z3.Implies(z3.And(b > 0, b < 1, e < 0), v > 1)]
        for (b2, e2, v2) in self.pows:
            ax.append(z3.Implies(z3.And(b == b2, e == e2), v == v2))
            ax.append(z3.Implies(z3.And(b == b2, b > 0, b < 1), z3.And(z3.Implies(e < e2, v > v2), z3.Implies(e > e2, v < v2))))
        self.pows.append((b, e, v)); self.assume += ax; return v
    def both(self, *cs): return z3.And(*cs)
    def implies(self, a, b): return z3.Implies(a, b)
    def abs(self, a): return z3.If(a >= 0, a, -a)
    def toreal(self, i): return z3.ToReal(i)
    def eq(self, a, b): return ("eq", self.lift(a), self.lift(b))
    def le(self, a, b): return ("le", self.lift(a), self.lift(b))
    def lt(self, a, b): return ("lt", self.lift(a), self.lift(b))
    # ---- execution of an IR function
    def call(self, f, *args, depth=0):
        if f not in self.ir.funcs: raise Unsupported("function %s not found in the encoded source" % f)
        if depth > 12: raise Unsupported("recursion")
        self.used.add(f)
        fn = self.ir.funcs[f]; env = {}
        if len(args) != len(fn["params"]): raise Unsupported("%s: parameter list changed" % f)
        for (ty, n), a in zip(fn["params"], args): env[n] = self.lift(a) if ty == "double" else a
        rets = []
        self._run(fn, fn["order"][0], None, env, z3.BoolVal(True), rets, depth, 0)
        def merge(vals):
            r = vals[-1][1]
            for c, v in reversed(vals[:-1]):
                r = tuple(z3.If(c, x, y) for x, y in zip(v, r)) if isinstance(r, tuple) else z3.If(c, v, r)
            return r
        return merge(rets)
    def _val(self, env, ty, t):
        t = t.strip()
        if t.startswith("%"): return env[t]
        if ty == "double": return rv(fconst(t))
        if ty == "i1": return z3.BoolVal(t in ("true", "1"))
        if t in ("poison", "undef", "zeroinitializer"): return None
        if ty.startswith("i"): return z3.IntVal(int(t))
        if ty.startswith("{"):
            return tuple(z3.RealVal(0) if x.split()[1] in ("poison", "undef") else rv(fconst(x.split()[1])) for x in split_top(t.strip("{} ")))
        raise Unsupported("operand %s %s" % (ty, t))
    def _run(self, fn, blk, prev, env, pc, rets, depth, steps):
        env = dict(env)
        while True:
            steps += 1
            if steps > 200: raise Unsupported("loop")
            phis = {}
            for s in fn["blocks"][blk]:
                m = re.match(r"^(%\S+) = phi (?:fast |nnan |ninf |nsz )*(\S+) (.*)$", s)
                if m:
                    for v, b in re.findall(r"\[ ([^,]+), %([^\s\]]+) \]", m.group(3)):
                        if b == prev or (prev == "%entry0" and b.isdigit() and b not in fn["blocks"]): phis[m.group(1)] = self._val(env, m.group(2), v)
            env.update(phis)
            nxt = None
            for s in fn["blocks"][blk]:
                if " = phi " in s: continue
                m = re.match(r"^ret void", s)
                if m: rets.append((pc, None)); return
                m = re.match(r"^ret (\{[^}]*\}|\S+) (.*)$", s)
                if m: rets.append((pc, self._val(env, m.group(1), m.group(2)))); return
                m = re.match(r"^br label %(\S+)$", s)
                if m: nxt = m.group(1); break
                m = re.match(r"^br i1 (\S+), label %(\S+), label %(\S+)$", s)
                if m:
                    c = z3.simplify(self._val(env, "i1", m.group(1).rstrip(",")))
                    t, e = m.group(2).rstrip(","), m.group(3)
                    if z3.is_true(c): nxt = t; break
                    if z3.is_false(c): nxt = e; break
                    self._run(fn, t, blk, env, z3.And(pc, c), rets, depth, steps)
                    self._run(fn, e, blk, env, z3.And(pc, z3.Not(c)), rets, depth, steps)
                    return
                self._inst(env, s, depth)
            if nxt is None: raise Unsupported("terminator in %s" % blk)
            prev, blk = blk, nxt
    def _inst(self, env, s, depth):
        m = re.match(r"^(%\S+) = (.*)$", s)
        if not m:
            if s.startswith("call void @llvm.") or s.startswith("tail call void @llvm."): return
            raise Unsupported(s)
        d, r = m.groups()
        FM = r"(?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*"
        m = re.match(r"^(fadd|fsub|fmul|fdiv) " + FM + r"double (\S+), (\S+)$", r)
        if m:
            a, b = (self._val(env, "double", x) for x in m.groups()[1:])
            env[d] = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[m.group(1)](); return
        m = re.match(r"^fneg " + FM + r"double (\S+)$", r)
        if m: env[d] = -self._val(env, "double", m.group(1)); return
        m = re.match(r"^fcmp " + FM + r"(\w+) double (\S+), (\S+)$", r)
        if m:
            a, b = (self._val(env, "double", x) for x in m.groups()[1:]); p = m.group(1)
            if p in ("ord", "uno"): env[d] = z3.BoolVal(p == "ord"); return
            env[d] = {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p[1:]]; return
        m = re.match(r"^icmp (?:samesign )?(\w+) (i\d+) (\S+), (\S+)$", r)
        if m:
            ty = m.group(2); a, b = (self._val(env, ty, x) for x in m.groups()[2:]); p = m.group(1)
            if p[0] == "u": raise Unsupported(s)
            env[d] = {"eq": lambda: a == b, "ne": lambda: a != b, "sgt": lambda: a > b, "sge": lambda: a >= b, "slt": lambda: a < b, "sle": lambda: a <= b}[p](); return
        m = re.match(r"^select " + FM + r"i1 (\S+), (\{[^}]*\}|\S+) (\{[^}]*\}|\S+), (?:\{[^}]*\}|\S+) (\{[^}]*\}|\S+)$", r)
        if m:
            c = self._val(env, "i1", m.group(1)); a, b = self._val(env, m.group(2), m.group(3)), self._val(env, m.group(2), m.group(4))
            env[d] = tuple(z3.If(c, x, y) for x, y in zip(a, b)) if isinstance(a, tuple) else z3.If(c, a, b); return
        m = re.match(r"^(add|sub|mul) (?:nuw |nsw )*(i64|i32) (\S+), (\S+)$", r)
        if m:
            a, b = (self._val(env, m.group(2), x) for x in m.groups()[2:])
            env[d] = a + b if m.group(1) == "add" else a - b if m.group(1) == "sub" else a * b; return
        m = re.match(r"^(and|or|xor) i1 (\S+), (\S+)$", r)
        if m:
            a, b = (self._val(env, "i1", x) for x in m.groups()[1:])
            env[d] = {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[m.group(1)](a, b); return
        m = re.match(r"^(sitofp|uitofp) (?:nneg )?(i\d+) (\S+) to double$", r)
        if m:
            a = self._val(env, m.group(2), m.group(3)); env[d] = z3.If(a, z3.RealVal(1), z3.RealVal(0)) if m.group(2) == "i1" else z3.ToReal(a); return
        m = re.match(r"^(?:sext|zext) (?:nneg )?(i\d+) (\S+) to i\d+$", r)
        if m:
            a = self._val(env, m.group(1), m.group(2)); env[d] = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if m.group(1) == "i1" else a; return
        m = re.match(r"^trunc (?:nuw |nsw )*i(\d+) (\S+) to i(\d+)$", r)
        if m and int(m.group(3)) > 1:
            a = self._val(env, "i" + m.group(1), m.group(2)); h = 1 << (int(m.group(3)) - 1); env[d] = z3.If(z3.And(a >= -h, a < h), a, (a + h) % (2 * h) - h); return
        m = re.match(r"^load double, ptr @([\w.]+)", r)
        if m and m.group(1) in self.ir.globals: env[d] = rv(fconst(self.ir.globals[m.group(1)][1])); return
        m = re.match(r"^insertvalue (\{[^}]*\}) (\S+|\{[^}]*\}), (\S+) (\S+), (\d+)$", r)
        if m:
            n = len(split_top(m.group(1).strip("{} "))); base = self._val(env, m.group(1), m.group(2)) or (z3.RealVal(0),) * n
            l = list(base); l[int(m.group(5))] = self._val(env, m.group(3), m.group(4)); env[d] = tuple(l); return
        m = re.match(r"^extractvalue (\{[^}]*\}) (\S+), (\d+)$", r)
        if m: env[d] = self._val(env, m.group(1), m.group(2))[int(m.group(3))]; return
        m = re.match(r"^freeze (\S+) (\S+)$", r)
        if m: env[d] = self._val(env, m.group(1), m.group(2)); return
        m = re.match(r"^(?:tail |notail |musttail )?call " + FM + r"(\{[^}]*\}|[\w ]+?) @([\w.]+)\((.*)\)", r)
        if m:
            f = m.group(2); a = []
            for x in split_top(m.group(3)):
                p = x.split(); a.append(self._val(env, p[0], p[-1]))
            if f in ("pow", "llvm.pow.f64", "powf"): env[d] = self.pow(a[0], a[1]); return
            if f.startswith("llvm.powi"): env[d] = self.pow(a[0], z3.ToReal(a[1])); return
            if f in ("labs", "abs", "llvm.abs.i64", "llvm.abs.i32", "fabs", "llvm.fabs.f64"): env[d] = self.abs(a[0]); return
            if f in ("fmax", "llvm.maxnum.f64") or f.startswith("llvm.smax"): env[d] = z3.If(a[0] >= a[1], a[0], a[1]); return
            if f in ("fmin", "llvm.minnum.f64") or f.startswith("llvm.smin"): env[d] = z3.If(a[0] <= a[1], a[0], a[1]); return
            if f.startswith("llvm.fmuladd"): env[d] = a[0] * a[1] + a[2]; return
            env[d] = self.call(f, *a, depth=depth + 1); return
        raise Unsupported(s)

import threading
Z3LOCK = threading.Lock()   # one solver context; laws are small
TOL = 1e-6
class Nat:
    """Native evaluation context: the same laws, evaluated on the compiled code."""
    mode = "native"
    def __init__(self, so, sigs, vals): self.so, self.sigs, self.vals = so, sigs, vals; self.skip = False
    def real(self, n, lo, hi): return min(max(float(self.vals[n]), lo), hi)
    def int(self, n, lo, hi): return int(self.vals[n])
    def require(self, c):
        if not c: self.skip = True
    def ite(self, c, a, b): return a if c else b
    def pow(self, b, e): return math.pow(b, e)
    def both(self, *cs): return all(cs)
    def implies(self, a, b): return (not a) or b
    def abs(self, a): return abs(a)
    def toreal(self, i): return float(i)
    def eq(self, a, b): return ("eq", a, b)
    def le(self, a, b): return ("le", a, b)
    def lt(self, a, b): return ("lt", a, b)
    def call(self, f, *args):
        ps, ret = self.sigs[f]
        fn = getattr(self.so, f)
        class T2(ctypes.Structure): _fields_ = [("a", ctypes.c_double), ("b", ctypes.c_double)]
        fn.restype = {"double": ctypes.c_double, "i64": ctypes.c_long, "i1": ctypes.c_bool}.get(ret, T2)
        fn.argtypes = [ctypes.c_double if p == "double" else ctypes.c_long for p in ps]
        r = fn(*args)
        return (r.a, r.b) if isinstance(r, T2) else r
def nat_holds(g):
    k, a, b = g
    if a != a or b != b: return False
    return {"eq": abs(a - b) <= TOL, "le": a <= b + TOL, "lt": a < b + TOL}[k]

class RealCheck:
    """laws: function ctx -> list of (label, goal) built with ctx operations; source files: modules of /repo/src."""
    def __init__(self, name, modules, laws, bounds="", quick=True, thorough=True, timeout=60, unit=""):
        self.name, self.modules, self.laws, self.bounds, self.quick, self.thorough, self.timeout = name, modules, laws, bounds, quick, thorough, timeout
        self.known = ""; self.stubs_note = "real-arithmetic encodings (LLVM IR): doubles are read as exact reals, integers as unbounded, pow() by its order axioms; laws hold up to rounding error"
    def build(self, w):
        d = os.path.join(w.dir, "ir"); os.makedirs(d, exist_ok=True)
        txt = ""; srcs = []
        for m in self.modules:
            src = os.path.join(engine.REPO, "src", m + ".c"); srcs.append(src)
            o = os.path.join(d, m + ".ll")
            with engine._keylock(w, ("ll", m)):
                if not os.path.exists(o):
                    r = engine.run(["clang", "-std=gnu99", "-DSTAGE=2", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-w", "-S", "-emit-llvm", src, "-o", o + ".t"])
                    if r[0]: raise RuntimeError("clang failed: " + r[2][-600:])
                    os.rename(o + ".t", o)
            txt += open(o).read() + "\n"
        return IR(txt), srcs
    def native(self, w, ir, srcs):
        so = os.path.join(w.dir, "ir", "_".join(self.modules) + ".so")
        with engine._keylock(w, ("so", so)):
            if not os.path.exists(so):
                g = os.path.join(w.dir, "ir", "g.c"); open(g, "w").write("#include <stdbool.h>\n__attribute__((weak)) void Globals_assert(bool b, char *m) {}\n")
                r = engine.run(["gcc", "-std=gnu99", "-DSTAGE=2", "-O0", "-w", "-shared", "-fPIC"] + srcs + [g, "-lm", "-Wl,--unresolved-symbols=ignore-all", "-o", so])
                if r[0]: raise RuntimeError("gcc failed: " + r[2][-600:])
        sigs = {}
        for f, d in ir.funcs.items(): sigs[f] = ([p[0] for p in d["params"]], None)
        for m in self.modules:
            for x in re.finditer(r"^define .*? ?(\{[^}]*\}|[\w.]+) @([\w.]+)\(", open(os.path.join(w.dir, "ir", m + ".ll")).read(), re.M):
                if x.group(2) in sigs: sigs[x.group(2)] = (sigs[x.group(2)][0], x.group(1))
        return ctypes.CDLL(so), sigs
    def run(self, w, outdir, tier):
        with Z3LOCK: return self.run1(w, outdir, tier)
    def run1(self, w, outdir, tier):
        t0 = time.time()
        res = dict(harness=self.name, status="inconclusive", detail="", solver_s=0.0, queries=0, vccs=0, steps=0, checked=0, bounds=self.bounds, unwind=None, cfg={}, functions=[], violations=[], reach=[])
        try:
            ir, srcs = self.build(w)
            S = Sym(ir); laws = self.laws(S)
            res["functions"] = sorted(S.used); res["vccs"] = res["checked"] = len(laws)
            # vacuity: the premises are satisfiable
            sv = z3.Solver(); sv.set("timeout", self.timeout * 1000); sv.add(*S.assume); t = time.time(); r = sv.check(); res["solver_s"] += time.time() - t; res["queries"] += 1
            if r != z3.sat: res["detail"] = "premises not shown satisfiable (%s)" % r; return res
            res["reach"] = [("premises satisfiable", "FAILURE")]
            unknown = []
            for label, g in laws:
                status = self.decide(S, g, res)
                if status is None: continue
                if status == "unknown": unknown.append(label); continue
                so, sigs = self.native(w, ir, srcs)
                N = Nat(so, sigs, status); ng = [x for x in self.laws(N) if x[0] == label][0][1]
                if N.skip or nat_holds(ng): unknown.append(label + " (counterexample %s did not reproduce)" % status); continue
                rf = os.path.join(outdir, self.name + ".replay"); os.makedirs(outdir, exist_ok=True)
                open(rf, "w").write("# property harness %s entry real cfg {} defs []\n" % self.name + json.dumps(dict(law=label, values=status, observed=[str(x) for x in ng])) + "\n")
                res["violations"].append(dict(what=label, replay=rf, observed=str(ng))); res["status"] = "violation"; res["detail"] = "%s %s" % (label, status); return res
            if unknown: res["detail"] = "undecided: " + "; ".join(unknown)
            else: res["status"] = "ok"
            return res
        except Unsupported as e:
            res["detail"] = "construct outside the encoder: %s" % e; return res
        except Exception as e:
            res["detail"] = "engine error: %r" % e; return res
        finally: res["wall_s"] = time.time() - t0
    def decide(self, S, g, res):
        k, a, b = g
        margins = {"eq": [a != b, z3.Or(a - b > rv(1e-4), b - a > rv(1e-4))], "le": [a > b, a > b + rv(1e-4)], "lt": [a >= b, a >= b + rv(1e-4)]}[k]
        if k == "lt": margins[1] = margins[0]
        last = None
        for neg in margins:
            sv = z3.Solver(); sv.set("timeout", self.timeout * 1000); sv.add(*S.assume); sv.add(neg)
            t = time.time(); r = sv.check(); res["solver_s"] += time.time() - t; res["queries"] += 1
            if r == z3.unsat: return None
            if r == z3.sat:
                m = sv.model(); last = {}
                for n, v in S.vars.items():
                    x = m.eval(v, model_completion=True)
                    if z3.is_int_value(x): last[n] = x.as_long()
                    elif z3.is_rational_value(x): last[n] = float(x.as_fraction())
                    else: last[n] = float(x.approx(20).as_fraction())
            else:
                last = "unknown" if last is None else last
        return last
    def replay(self, w, path):
        j = json.loads(open(path).read().splitlines()[1]); ir, srcs = self.build(w); so, sigs = self.native(w, ir, srcs)
        os.makedirs(os.path.join(w.dir, "ir"), exist_ok=True)
        N = Nat(so, sigs, j["values"]); g = [x for x in self.laws(N) if x[0] == j["law"]][0][1]
        print(j["law"], g, "holds" if nat_holds(g) else "violated"); return 0 if nat_holds(g) else 1
