from engine import Harness as H
from . import prop
from .variables import POOLC
from .inference import NOTE
def N(name, entry, tn, pool, defs=(), contract=(), stub=("Memory_AddEvent",), cfg=None, **k):
    n = 8 if tn <= 7 else 16 if tn <= 15 else 32
    c = dict(COMPOUND_TERM_SIZE_MAX=n, STAMP_SIZE=2, OPERATIONS_MAX=1, TABLE_SIZE=1, CONCEPTS_MAX=2, ATOMS_MAX=100); c.update(cfg or {})
    return H(name, "nal.c", entry, cfg=c, contract=POOLC + ("Truth_Expectation", "Term_Equal") + contract, stub=stub, pool=pool, defs=("TN=%d" % tn,) + defs, unwind=n + 2,
             fun_unwind=dict(opfirst=6), unwindset="DeclarativeImplicationWithLefthandConjunctionWithLefthandOperation:6", stubs_note=NOTE, **k)
def FI(name, tn, pool, defs=(), **k): return N(name, "h_filter", tn, pool, ("H_FILTER",) + defs, bounds="all well-formed conclusions of up to %d nodes over the atoms %s; all truth values of the grid, stamps, times, priorities, concept ids" % (tn, " ".join(pool)), **k)
prop("C21", [FI("filter7", 7, ("a", "b", "$1", "#1", "^p", ":", "=", "?", "^", "$", ";", "_", "!")), FI("filter7s", 7, ("a", "b", "$1", ":", "=", "&", "|", '"', "'", "@", "*")),
             FI("filter15_inh", 15, ("a", "b", "$1", "#1", ":", "*", "/", "!"), ("ROOT=':'",)), FI("filter15_imp", 15, ("a", "$1", ":", "?", ";", "^p", "*", '"', "@"), ("ROOT='?'",)), FI("filter15_equ", 15, ("a", "^p", "^", ";", "_", "$"), ("ROOT='^'",)),
             FI("filter15_conj", 15, ("a", "#1", ":", ";", "_", "?"), ("ROOT=';'",)), FI("filter15_temp", 15, ("a", ":", "$", "+", "?"), ("ROOT='$'",)), FI("filter_twice", 3, ("a", "b", ":", "?"), ("TWICE",))])
INTRO = ("Variable_IntroduceImplicationVariables", "Variable_IntroduceConjunctionVariables")
def VA(name, root, pool, **k): return N(name, "h_variants", 7, pool, ("H_VARIANTS", "ROOT='%s'" % root), stub=("Memory_AddEvent",) + INTRO, bounds="all conclusions and generalized variants of up to 7 nodes over the atoms %s; all truth values of the grid, stamps, times, priorities, concept ids" % " ".join(pool), **k)
prop("C21", [VA("variants_imp", "?", ("a", "b", "$1", "$2", "#1", ":", "=", "?")), VA("variants_equ", "^", ("a", "b", "$1", "$2", "#1", ":", ";", "^")), VA("variants_temp", "$", ("a", "b", "$1", "$2", "#1", ":", "$")),
             VA("variants_conj", ";", ("a", "b", "$1", "#1", ":", "=", ";")), VA("variants_other", ":", ("a", "b", "$1", ":", "*"))])
import nalrules
TRUTHALL = ("Truth_Comparison", "Truth_Resemblance", "Truth_Union", "Truth_Difference", "Truth_Conversion", "Truth_Negation", "Truth_StructuralDeduction", "Truth_StructuralDeductionNegated", "Truth_StructuralIntersection", "Truth_DecomposePNN",
            "Truth_DecomposeNPP", "Truth_DecomposePNP", "Truth_DecomposePPP", "Truth_DecomposeNNN", "Truth_AnonymousAnalogy", "Truth_FrequencyGreater", "Truth_FrequencyEqual")
from .inference import TRUTHC
def RU(k, s):
    d = " and ".join(nalrules.show(x) for x in s)
    return H("rules%02d" % k, "rules.c", "h_rules", solver="minisat", cfg=dict(COMPOUND_TERM_SIZE_MAX=nalrules.size(k), STAMP_SIZE=2, OPERATIONS_MAX=1, TABLE_SIZE=1, CONCEPTS_MAX=2, ATOMS_MAX=100), modules=("RuleTable",), contract=POOLC + tuple(x for x in TRUTHC if x not in ("Truth_Revision", "Truth_Eternalize", "Truth_Projection")) + TRUTHALL + ("Term_Equal", "RuleTable_Reduce"), stub=("NAL_DerivedEvent",),
             pool=("a", "b", "c") + tuple(c for c in nalrules.chars(k) if c != "@") + ("@",), defs=("CASE=%d" % k, "UF_LIGHT"), unwind=70, premises=tuple(nalrules.layout(x) for x in s), stubs_note=NOTE + "; truth functions are distinct symbols applied to the premises' truth values, symmetric ones symmetric", bounds="premises of shape %s, all fillings of the leaves from three atoms, all truth values, stamps, times, priorities" % d)
prop("C20", [RU(k, s) for k, s in enumerate(nalrules.cases())])
def RE(name, root, tn, pool): return H(name, "reduce.c", "h_reduce", cfg=dict(COMPOUND_TERM_SIZE_MAX=16 if tn > 7 else 8, STAMP_SIZE=2, OPERATIONS_MAX=1, TABLE_SIZE=1, CONCEPTS_MAX=2, ATOMS_MAX=100), modules=("RuleTable",), contract=POOLC + ("Term_Equal",), pool=pool, defs=("TN=%d" % tn,) + (("ROOT='%s'" % root,) if root else ()), unwind=70,
    unwindset="Term_RelativeOverride:5", stubs_note=NOTE, bounds="all well-formed statements %s of up to %d nodes over the atoms %s" % ("with copula " + root if root else "", tn, " ".join(pool)))
prop("C22", [RE("reduce_any7", None, 7, ("a", "b", ":", "=", ";", "_", "&", "|", "?", '"', "'", "@")), RE("reduce_ext15", ":", 15, ("a", "b", ":", "|", '"', "@", ".")), RE("reduce_int15", ":", 15, ("a", "b", ":", "&", "'", "@", ".")), RE("reduce_mix15", ":", 15, ("a", ".", ":", "&", "|", '"', "'", "@")), RE("reduce_conj15", ";", 15, ("a", "b", ":", ";", "_"))])
