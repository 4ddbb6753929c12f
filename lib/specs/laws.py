from realir import RealCheck as R
from . import prop
CM = 0.99
H1 = 1.0
def w2c(c, w): return w / (w + H1)
def tv(c, n): return c.real("f" + n, 0.0, 1.0), c.real("c" + n, 0.0, CM)
def two(f, spec):
    def laws(c):
        f1, c1 = tv(c, "1"); f2, c2 = tv(c, "2")
        r = c.call("Truth_" + f, f1, c1, f2, c2)
        e = spec(c, f1, c1, f2, c2)
        return [("frequency of %s is as the logic defines it" % f, c.eq(r[0], e[0])), ("confidence of %s is as the logic defines it" % f, c.eq(r[1], e[1]))]
    return R("formula_" + f, ["Truth"], laws, bounds="all reals: frequency in [0,1], confidence in [0,0.99]", timeout=60)
def ded(c, f1, c1, f2, c2): return f1 * f2, f1 * f2 * c1 * c2
def neg(f, c): return 1.0 - f, c
def goalded(c, f1, c1, f2, c2):
    a = ded(c, f1, c1, f2, c2); b = ded(c, 1.0 - f1, c1, f2, c2); b = (1.0 - b[0], b[1])
    t = a[1] >= b[1]
    return c.ite(t, a[0], b[0]), c.ite(t, a[1], b[1])
def orr(a, b): return 1.0 - (1.0 - a) * (1.0 - b)
def comparison(c, f1, c1, f2, c2):
    f0 = orr(f1, f2)
    z = f0 == 0
    return (c.ite(z, 0.0, f1 * f2 / c.ite(z, 1.0, f0)), w2c(c, f0 * c1 * c2))
SR = 0.9
F = {
 "Deduction": ded,
 "Abduction": lambda c, f1, c1, f2, c2: (f2, w2c(c, f1 * c1 * c2)),
 "Induction": lambda c, f1, c1, f2, c2: (f1, w2c(c, f2 * c1 * c2)),
 "Intersection": lambda c, f1, c1, f2, c2: (f1 * f2, c1 * c2),
 "Union": lambda c, f1, c1, f2, c2: (f1 + f2 - f1 * f2, c1 * c2),
 "Difference": lambda c, f1, c1, f2, c2: (f1 * (1.0 - f2), c1 * c2),
 "Exemplification": lambda c, f1, c1, f2, c2: (1.0, w2c(c, f1 * f2 * c1 * c2)),
 "Comparison": comparison,
 "Analogy": lambda c, f1, c1, f2, c2: (f1 * f2, f2 * c1 * c2),
 "Resemblance": lambda c, f1, c1, f2, c2: (f1 * f2, orr(f1, f2) * c1 * c2),
 "Conversion": lambda c, f1, c1, f2, c2: (1.0, w2c(c, f1 * c1)),
 "Negation": lambda c, f1, c1, f2, c2: (1.0 - f1, c1),
 "StructuralDeduction": lambda c, f1, c1, f2, c2: (f1, f1 * c1 * SR),
 "StructuralDeductionNegated": lambda c, f1, c1, f2, c2: (1.0 - f1, f1 * c1 * SR),
 "StructuralIntersection": lambda c, f1, c1, f2, c2: (f1, c1 * SR),
 "DecomposePNN": lambda c, f1, c1, f2, c2: (1.0 - f1 * (1.0 - f2), f1 * (1.0 - f2) * c1 * c2),
 "DecomposeNPP": lambda c, f1, c1, f2, c2: ((1.0 - f1) * f2, (1.0 - f1) * f2 * c1 * c2),
 "DecomposePNP": lambda c, f1, c1, f2, c2: (f1 * (1.0 - f2), f1 * (1.0 - f2) * c1 * c2),
 "DecomposePPP": lambda c, f1, c1, f2, c2: (f1 * f2, f1 * f2 * c1 * c2),
 "DecomposeNNN": lambda c, f1, c1, f2, c2: (1.0 - (1.0 - f1) * (1.0 - f2), (1.0 - f1) * (1.0 - f2) * c1 * c2),
 "AnonymousAnalogy": lambda c, f1, c1, f2, c2: (f1, c1 * w2c(c, f2 * c2)),
 "GoalDeduction": goalded,
 "FrequencyGreater": lambda c, f1, c1, f2, c2: (c.ite(f1 > f2, 1.0, 0.0), c.ite(f1 > f2, c1 * c2, 0.0)),
 "FrequencyEqual": lambda c, f1, c1, f2, c2: (c.ite(f1 == f2, 1.0, 0.0), c.ite(f1 == f2, c1 * c2, 0.0)),
}
prop("C02", [two(k, v) for k, v in F.items()])

def expectation(c):
    f, k = tv(c, "1")
    return [("expectation is confidence-weighted frequency around one half", c.eq(c.call("Truth_Expectation", f, k), k * (f - 0.5) + 0.5))]
def w2c_laws(c):
    k = c.real("c", 0.0, CM); w = c.real("w", 0.0, 1e6); v = c.real("v", 0.0, 1e6); c.require(w < v)
    return [("confidence and evidence conversions are inverse", c.eq(c.call("Truth_w2c", c.call("Truth_c2w", k)), k)),
            ("more evidence gives more confidence", c.lt(c.call("Truth_w2c", w), c.call("Truth_w2c", v))),
            ("confidence from evidence", c.eq(c.call("Truth_w2c", w), w / (w + H1)))]
prop("C02", [R("formula_Expectation", ["Truth"], expectation, bounds="all reals"), R("formula_w2c", ["Truth"], w2c_laws, bounds="all reals, evidence up to 1e6")])

def rev_spec(c, f1, c1, f2, c2):
    w1 = c1 / (1.0 - c1); w2 = c2 / (1.0 - c2)
    f = (w1 * f1 + w2 * f2) / (w1 + w2)
    k = (w1 + w2) / (w1 + w2 + 1.0)
    return f, c.ite(k > CM, CM, k)
def rev(c):
    f1, c1 = tv(c, "1"); f2, c2 = tv(c, "2"); c.require(c1 + c2 > 0)
    r = c.call("Truth_Revision", f1, c1, f2, c2); e = rev_spec(c, f1, c1, f2, c2)
    return [("revision weighs the premises' frequencies by their evidence", c.eq(r[0], e[0])), ("revision adds up the premises' evidence", c.eq(r[1], e[1]))]
def rev_order(c):
    f1, c1 = tv(c, "1"); f2, c2 = tv(c, "2"); c.require(c1 + c2 > 0)
    r = c.call("Truth_Revision", f1, c1, f2, c2)
    return [("revised frequency is not below both premises", c.le(c.ite(f1 < f2, f1, f2), r[0])), ("revised frequency is not above both premises", c.le(r[0], c.ite(f1 > f2, f1, f2))),
            ("revision never lowers the first premise's confidence", c.le(c1, r[1])), ("revision never lowers the second premise's confidence", c.le(c2, r[1])), ("revised confidence stays below the maximum", c.le(r[1], CM))]
def rev_comm(c):
    f1, c1 = tv(c, "1"); f2, c2 = tv(c, "2"); c.require(c1 + c2 > 0)
    r = c.call("Truth_Revision", f1, c1, f2, c2); s = c.call("Truth_Revision", f2, c2, f1, c1)
    return [("revision is symmetric in frequency", c.eq(r[0], s[0])), ("revision is symmetric in confidence", c.eq(r[1], s[1]))]
def proj(c):
    f, k = tv(c, "1"); a = c.int("from", 0, 1 << 40); b = c.int("to", 0, 1 << 40)
    r = c.call("Truth_Projection", f, k, a, b)
    d = c.abs(c.toreal(b - a) if c.mode == "z3" else float(b - a))
    return [("projection keeps the frequency", c.eq(r[0], f)), ("projection discounts confidence by the decay per time step of distance", c.eq(r[1], k * c.pow(0.8, d))),
            ("projection never raises confidence", c.le(r[1], k))]
def proj_mono(c):
    f, k = tv(c, "1"); a = c.int("from", 0, 1 << 40); b = c.int("to", 0, 1 << 40); e = c.int("to2", 0, 1 << 40)
    c.require(c.abs(b - a) <= c.abs(e - a))
    r = c.call("Truth_Projection", f, k, a, b); s = c.call("Truth_Projection", f, k, a, e)
    return [("projecting further never gives more confidence", c.le(s[1], r[1]))]
def proj_et(c):
    f, k = tv(c, "1"); b = c.int("to", 0, 1 << 40)
    r = c.call("Truth_Projection", f, k, -1, b)
    return [("eternal truth is not projected", c.eq(r[1], k)), ("eternal frequency is not projected", c.eq(r[0], f))]
def et(c):
    f, k = tv(c, "1"); r = c.call("Truth_Eternalize", f, k)
    return [("eternalization keeps the frequency", c.eq(r[0], f)), ("eternalization reads confidence as evidence", c.eq(r[1], k / (k + H1))), ("eternalization never raises confidence", c.le(r[1], k))]
RB = "all reals: frequency in [0,1], confidence in [0,0.99], not both zero"
prop("C03", [R("revision_formula", ["Truth"], rev, RB), R("revision_order", ["Truth"], rev_order, RB), R("revision_symmetric", ["Truth"], rev_comm, RB),
             R("projection_formula", ["Truth"], proj, "all reals; times 0..2^40"), R("projection_monotone", ["Truth"], proj_mono, "all reals; times 0..2^40"),
             R("projection_eternal", ["Truth"], proj_et, "all reals"), R("eternalize", ["Truth"], et, "all reals")])

def us(c, a, b):
    u = c.call("Usage_usefulness", a[0], a[1], b)
    return u
def use_formula(c):
    n = c.int("count", 0, 1 << 40); l = c.int("last", 0, 1 << 40); t = c.int("now", 0, 1 << 40)
    R_ = (lambda x: c.toreal(x)) if c.mode == "z3" else float
    d = c.ite(t > l, R_(t - l), 0.0); q = R_(n) / (d + 1.0)
    u = us(c, (n, l), t)
    return [("usefulness normalizes use count by disuse", c.eq(u, q / (q + 1.0)))]
def use_mono(c):
    n = c.int("count", 0, 1 << 40); n2 = c.int("count2", 0, 1 << 40); l = c.int("last", 0, 1 << 40); t = c.int("now", 0, 1 << 40); t2 = c.int("now2", 0, 1 << 40)
    c.require(n <= n2); c.require(t <= t2)
    return [("more frequent use never lowers usefulness", c.le(us(c, (n, l), t), us(c, (n2, l), t))), ("longer disuse never raises usefulness", c.le(us(c, (n, l), t2), us(c, (n, l), t)))]
prop("C28", [R("usefulness_formula", ["Usage"], use_formula, "counts and times 0..2^40"), R("usefulness_order", ["Usage"], use_mono, "counts and times 0..2^40")])

def negconf(c):
    f1, c1 = tv(c, "1"); k = c.real("k", 0.0, CM); c.require(c1 + k > 0)
    r = c.call("Truth_Revision", f1, c1, 0.0, k)
    return [("negative evidence never raises the frequency", c.le(r[0], f1)), ("negative evidence does not take away confidence", c.le(c1, r[1])),
            ("negative evidence never raises the expectation", c.le(c.call("Truth_Expectation", r[0], r[1]), c.call("Truth_Expectation", f1, c1)))]
def negstrength(c):
    f2, c2 = tv(c, "2"); k = c.real("k", 0.0, CM)
    i = c.call("Truth_Induction", 0.0, k, f2, c2); e = c.call("Truth_Eternalize", i[0], i[1])
    return [("assumed failure is negative evidence only", c.eq(e[0], 0.0)), ("assumed failure is weaker than the anticipation confidence", c.le(e[1], k)), ("assumed failure is no stronger than the precondition is certain", c.le(e[1], c2))]
prop("C26", [R("negative_evidence", ["Truth"], negconf, "all reals: frequency in [0,1], confidence in [0,0.99]"), R("assumed_failure", ["Truth"], negstrength, "all reals")])
