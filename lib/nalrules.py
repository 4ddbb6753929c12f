"""The inference rules of Non-Axiomatic Logic the system documents, as an independent specification (C20), and the
generation of expectations for given premise shapes: which rules match under which leaf equalities, with which conclusion."""
import itertools
COP = {"-->": ":", "<->": "=", "==>": "?", "<=>": "^", "&&": ";", "||": "_", "*": "*", "&": "&", "|": "|", "~": "~", "-": "-", "/1": "/", "/2": "%", "\\1": "\\", "\\2": "#", "|->": ",", "!": "!", "+": "+", "=": "=", ".": "."}
def toks(s):
    for c in "(){}[]": s = s.replace(c, " %s " % c)
    return s.split()
def parse(s):
    t, r = toks(s), None
    def term(i):
        x = t[i]
        if x == "{" or x == "[":
            l, i = term(i + 1); q = '"' if x == "{" else "'"
            if t[i] in "}]": return (q, l, ("@",)), i + 1
            r, i = term(i); assert t[i] in "}]"; return (q, l, r), i + 1
        if x == "(":
            if t[i + 1] in COP and t[i + 1] not in (")",):
                c = COP[t[i + 1]]; l, i = term(i + 2)
                if t[i] == ")": return (c, l, ("@",)), i + 1
                r, i = term(i); assert t[i] == ")"; return (c, l, r), i + 1
            l, i = term(i + 1); c = COP[t[i]]; r, i = term(i + 1); assert t[i] == ")", s; return (c, l, r), i + 1
        return x, i + 1
    r, i = term(0); assert i == len(t), s
    return r
# (premise1, premise2 or "", conclusion, truth function, variables introduced)
RULES = []
def R(p1, p2, c, f, v=0): RULES.append((parse(p1), parse(p2) if p2 else None, parse(c), f, v))
def bi(a, b, f): R(a, "", b, f); R(b, "", a, f)
# first-order syllogisms, on inheritance and similarity
R("(S --> M)", "(M --> P)", "(S --> P)", "Deduction"); R("(M --> P)", "(M --> S)", "(S --> P)", "Induction"); R("(P --> M)", "(S --> M)", "(S --> P)", "Abduction"); R("(P --> M)", "(M --> S)", "(S --> P)", "Exemplification")
R("(S <-> P)", "", "(P <-> S)", "StructuralIntersection"); R("(M <-> P)", "(S <-> M)", "(S <-> P)", "Resemblance")
R("(P --> M)", "(S --> M)", "(S <-> P)", "Comparison"); R("(M --> P)", "(M --> S)", "(S <-> P)", "Comparison")
R("(M --> P)", "(S <-> M)", "(S --> P)", "Analogy"); R("(P --> M)", "(S <-> M)", "(P --> S)", "Analogy")
# statements standing for terms
R("S", "(S --> P)", "P", "Deduction"); R("P", "(S --> P)", "S", "Abduction"); R("S", "(S <-> P)", "P", "Analogy"); R("S", "(P <-> S)", "P", "Analogy")
# instances and properties
R("(S --> {P})", "", "(S <-> {P})", "StructuralIntersection"); R("([S] --> P)", "", "([S] <-> P)", "StructuralIntersection")
R("({M} --> P)", "(S <-> M)", "({S} --> P)", "Analogy"); R("(P --> [M])", "(S <-> M)", "(P --> [S])", "Analogy")
R("({A} <-> {B})", "", "(A <-> B)", "StructuralIntersection"); R("([A] <-> [B])", "", "(A <-> B)", "StructuralIntersection")
for x in "AB": R("({A B} --> M)", "", "({%s} --> M)" % x, "StructuralDeduction"); R("(M --> [A B])", "", "(M --> [%s])" % x, "StructuralDeduction")
# compound terms: decomposition with one premise
for x in "SP": R("((S | P) --> M)", "", "(%s --> M)" % x, "StructuralDeduction"); R("(M --> (S & P))", "", "(M --> %s)" % x, "StructuralDeduction")
R("((A ~ S) --> M)", "", "(A --> M)", "StructuralDeduction"); R("((A ~ S) --> M)", "", "(S --> M)", "StructuralDeductionNegated")
R("(M --> (B - S))", "", "(M --> B)", "StructuralDeduction"); R("(M --> (B - S))", "", "(M --> S)", "StructuralDeductionNegated")
# composition
for c, d, e, f in (("|", "&", "~", "(P --> M)|(S --> M)|({} --> M)"), ("&", "|", "-", "(M --> P)|(M --> S)|(M --> {})")):
    a, b, r = f.split("|")
    R(a, b, r.replace("{}", "(P %s S)" % c), "Intersection"); R(a, b, r.replace("{}", "(P %s S)" % d), "Union"); R(a, b, r.replace("{}", "(P %s S)" % e), "Difference")
# decomposition with two premises: the compound's truth and one component's give the other's
for c, d, e, st in (("|", "&", "~", "(%s --> M)"), ("&", "|", "-", "(M --> %s)")):
    for x, y in (("S", "P"), ("P", "S")):
        R(st % x, st % ("(S %s P)" % c), st % y, "DecomposePNN"); R(st % x, st % ("(S %s P)" % d), st % y, "DecomposeNPP")
    R(st % "S", st % ("(S %s P)" % e), st % "P", "DecomposePNP"); R(st % "S", st % ("(P %s S)" % e), st % "P", "DecomposeNNN")
# relations
R("((A * B) --> (S * M))", "", "(A --> S)", "StructuralDeduction"); R("((A * B) --> (S * M))", "", "(B --> M)", "StructuralDeduction")
bi("((A * B) --> R)", "(A --> (R /1 B))", "StructuralIntersection"); bi("((A * B) --> R)", "(B --> (R /2 A))", "StructuralIntersection")
bi("(R --> (A * B))", "((R \\1 B) --> A)", "StructuralIntersection"); bi("(R --> (A * B))", "((R \\2 A) --> B)", "StructuralIntersection")
R("({R} |-> [P])", "({S} |-> [P])", "(({R} * {S}) --> (+ P))", "FrequencyGreater"); R("({R} |-> [P])", "({S} |-> [P])", "(({R} * {S}) --> (= P))", "FrequencyEqual")
for c in "+=": R("((A * B) --> (%s P))" % c, "((B * C) --> (%s P))" % c, "((A * C) --> (%s P))" % c, "Deduction")
R("((A * B) --> (= P))", "", "((B * A) --> (= P))", "StructuralIntersection")
for p, q, x, y in (("(A * B)", "(C * B)", "A", "C"), ("(B * A)", "(B * C)", "A", "C")): # one component replaced, the other fixed
    R("(%s --> R)" % p, "(%s --> R)" % q, "(C --> A)", "Abduction"); R("(R --> %s)" % p, "(R --> %s)" % q, "(C --> A)", "Induction")
    R("(%s --> R)" % p, "(%s --> R)" % q, "(A <-> C)", "Comparison"); R("(R --> %s)" % p, "(R --> %s)" % q, "(A <-> C)", "Comparison")
    R("(%s --> R)" % p, "(C --> A)", "(%s --> R)" % q, "Deduction"); R("(%s --> R)" % p, "(A --> C)", "(%s --> R)" % q, "Induction"); R("(%s --> R)" % p, "(C <-> A)", "(%s --> R)" % q, "Analogy")
    R("(R --> %s)" % p, "(A --> C)", "(R --> %s)" % q, "Deduction"); R("(C --> A)", "(R --> %s)" % p, "(R --> %s)" % q, "Abduction"); R("(R --> %s)" % p, "(C <-> A)", "(R --> %s)" % q, "Analogy")
# negation, conjunction, disjunction
R("(! A)", "", "A", "Negation"); R("(A && B)", "", "A", "StructuralDeduction"); R("(A && B)", "", "B", "StructuralDeduction"); R("(A && B)", "", "(B && A)", "StructuralIntersection")
R("S", "(&& S A)", "A", "DecomposePNN"); R("S", "(|| S A)", "A", "DecomposeNPP"); R("S", "(&& (! S) A)", "A", "DecomposeNNN"); R("S", "(|| (! S) A)", "A", "DecomposePPP")
# implication and equivalence
R("(S ==> M)", "(M ==> P)", "(S ==> P)", "Deduction"); R("(M ==> P)", "(M ==> S)", "(S ==> P)", "Induction"); R("(P ==> M)", "(S ==> M)", "(S ==> P)", "Abduction"); R("(P ==> M)", "(M ==> S)", "(S ==> P)", "Exemplification")
R("(A ==> C)", "(B ==> C)", "((A && B) ==> C)", "Union"); R("(A ==> C)", "(B ==> C)", "((A || B) ==> C)", "Intersection")
R("(C ==> A)", "(C ==> B)", "(C ==> (A && B))", "Intersection"); R("(C ==> A)", "(C ==> B)", "(C ==> (A || B))", "Union")
R("((S && P) ==> M)", "(S ==> M)", "P", "Abduction"); R("((C && M) ==> P)", "(S ==> M)", "((C && S) ==> P)", "Deduction")
R("((C && P) ==> M)", "((C && S) ==> M)", "(S ==> P)", "Abduction"); R("((C && M) ==> P)", "(M ==> S)", "((C && S) ==> P)", "Induction")
R("(S <=> P)", "", "(P <=> S)", "StructuralIntersection"); R("(S ==> P)", "(P ==> S)", "(S <=> P)", "Intersection")
R("(P ==> M)", "(S ==> M)", "(S <=> P)", "Comparison"); R("(M ==> P)", "(M ==> S)", "(S <=> P)", "Comparison")
R("(M ==> P)", "(S <=> M)", "(S ==> P)", "Analogy"); R("(P ==> M)", "(S <=> M)", "(P ==> S)", "Analogy"); R("(M <=> P)", "(S <=> M)", "(S <=> P)", "Resemblance")
# generalization over observed statements (variables are introduced into the conclusion)
for a, b in (("(C --> A)", "(C --> B)"), ("(A --> C)", "(B --> C)")):
    for na, nb in ((0, 0), (1, 0), (0, 1)):
        x = "(! %s)" % a if na else a; y = "(! %s)" % b if nb else b
        R(x, y, "(%s ==> %s)" % (y, x), "Induction", 1); R(x, y, "(%s <=> %s)" % (y, x), "Comparison", 1); R(x, y, "(%s && %s)" % (y, x), "Intersection", 1)
R("(($1 --> B) ==> ($1 --> C))", "A", "(A && (($1 --> B) ==> ($1 --> C)))", "Intersection", 1); R("((#1 --> B) && (#1 --> C))", "A", "(A ==> ((#1 --> B) && (#1 --> C)))", "Induction", 1); R("(B ==> C)", "A", "((A && B) ==> C)", "Induction", 1)
R("((A * B) --> R)", "((B * A) --> S)", "(((B * A) --> S) ==> ((A * B) --> R))", "Induction", 1); R("(! ((B * A) --> R))", "((A * B) --> S)", "(((A * B) --> S) ==> (! ((B * A) --> R)))", "Induction", 1)
R("((B * A) --> R)", "(! ((A * B) --> S))", "((! ((A * B) --> S)) ==> ((B * A) --> R))", "Induction", 1)
R("((A * B) --> R)", "((B * C) --> S)", "(((A * B) --> R) && ((B * C) --> S))", "Intersection")
R("((A * C) --> M)", "(((A * B) --> R) && ((B * C) --> S))", "((((A * B) --> R) && ((B * C) --> S)) ==> ((A * C) --> M))", "Induction", 1)

isvar = lambda x: isinstance(x, str) and x.isupper()
def fmt(x, ren):
    """shape of a pattern: variables become leaves"""
    if x is None: return None
    if isinstance(x, str): return ("L", ren()) if isvar(x) else x
    if len(x) == 1: return x
    return (x[0], fmt(x[1], ren), fmt(x[2], ren))
def shape(*ps):
    n = itertools.count()
    return tuple(fmt(p, lambda: next(n)) for p in ps), next(n)
def match(p, t, b):
    """bindings of the pattern's variables: name -> list of subtrees"""
    if p is None or t is None: return p is None
    if isvar(p):
        if t == ("@",): return False
        b.setdefault(p, []).append(t); return True
    if isinstance(p, str) or isinstance(t, str): return p == t
    if p[0] != t[0] or len(p) != len(t): return False
    return len(p) == 1 or (match(p[1], t[1], b) and match(p[2], t[2], b))
def unify(a, b, eq):
    """leaf equalities under which two shapes are the same term; False if never"""
    if a is None or b is None: return a is b
    if isinstance(a, str) or isinstance(b, str): return a == b
    if a[0] == "L" and b[0] == "L":
        if a[1] != b[1]: eq.add((min(a[1], b[1]), max(a[1], b[1])))
        return True
    if a[0] == "L" or b[0] == "L": return False
    if len(a) != len(b) or a[0] != b[0]: return False
    return len(a) == 1 or (unify(a[1], b[1], eq) and unify(a[2], b[2], eq))
def subst(c, b):
    if c is None: return None
    if isvar(c): return b[c][0]
    if isinstance(c, str) or len(c) == 1: return c
    return (c[0], subst(c[1], b), subst(c[2], b))
def layout(t, i=0, out=None):
    out = {} if out is None else out
    if t is None: return out
    if isinstance(t, str): out[i] = t
    elif t[0] == "L": out[i] = t
    else:
        out[i] = t[0]
        if len(t) > 1: layout(t[1], 2*i+1, out); layout(t[2], 2*i+2, out)
    return out
def expectations(s1, s2, single):
    r = []
    for p1, p2, c, f, v in RULES:
        if (p2 is None) != single: continue
        for swap in ((0,) if single else (0, 1)):
            b = {}
            a1, a2 = (s2, s1) if swap else (s1, s2)
            if not match(p1, a1, b) or (p2 is not None and not match(p2, a2, b)): continue
            eq, ok = set(), True
            for k in b:
                for x in b[k][1:]: ok = ok and unify(b[k][0], x, eq)
            if not ok: continue
            lay = layout(subst(c, b))
            if max(lay) >= 64: continue
            r.append((sorted(eq), lay, f, swap, v))
    return r
def leafs(t): return [x[1] for x in layout(t).values() if x and x[0] == "L"] if t is not None else []
def cases():
    """all distinct premise shapes of the rules, each in the order given (both orders are covered by the swapped rules' shapes)"""
    out = {}
    for p1, p2, c, f, v in RULES:
        for q in ((p1,),) if p2 is None else ((p1, p2), (p2, p1)):
            (s), n = shape(*q)
            out.setdefault(s, n)
    return out
def cstr(c): return "'\\\\'" if c == "\\" else "'\\''" if c == "'" else "'%s'" % c
def cterm(lay):
    o = []
    for i, x in sorted(lay.items()):
        if isinstance(x, tuple): o.append("L(%d,%d)" % (i, x[1]))
        elif len(x) == 2: o.append('V(%d,"%s")' % (i, x))
        else: o.append("S(%d,%s)" % (i, cstr(x)))
    return " ".join(o)
UNARY = ("Negation", "StructuralDeduction", "StructuralDeductionNegated", "StructuralIntersection")
def header():
    o = ["/* generated by lib/nalrules.py from its rule specification; not from the code under test */"]
    for k, (s, n) in enumerate(cases().items()):
        e = expectations(s[0], s[1] if len(s) > 1 else None, len(s) == 1)
        o.append("#if CASE == %d\n#define NL %d\n#define NE %d\n#define DOUBLE %s\n#define TERM1 %s\n#define TERM2 %s\n#define EXPECTS \\" % (k, n, len(e), "true" if len(s) > 1 else "false", cterm(layout(s[0])), cterm(layout(s[1])) if len(s) > 1 else ""))
        for j, (eq, lay, f, swap, v) in enumerate(e):
            o.append("  E(%d, %s, %s, Truth_%s(%s), %s) \\" % (j, " && ".join("l[%d]==l[%d]" % q for q in eq) or "true", cterm(lay), f, "t2,t1" if swap else "t1,t2", "true" if v else "false"))
        o.append("\n#endif")
    return "\n".join(o) + "\n"
def chars(k):
    s = list(cases())[k]; e = expectations(s[0], s[1] if len(s) > 1 else None, len(s) == 1); r = set()
    for lay in [layout(x) for x in s] + [x[1] for x in e]: r |= {x for x in lay.values() if isinstance(x, str)}
    return sorted(r)
def size(k):
    s = list(cases())[k]; e = expectations(s[0], s[1] if len(s) > 1 else None, len(s) == 1)
    m = max([max(layout(x)) for x in s] + [max(x[1]) for x in e])
    return 8 if m < 7 else 16 if m < 15 else 32
def show(t):
    if t is None: return ""
    if isinstance(t, str): return t
    if t[0] == "L": return "xyzuvwrst"[t[1]]
    if len(t) == 1: return t[0]
    return "(%s %s%s)" % (t[0], show(t[1]), " " + show(t[2]) if t[2] is not None else "")
if __name__ == "__main__":
    import os
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "nalrules.h"), "w").write(header())
