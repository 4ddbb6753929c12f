from engine import Harness as H
from . import prop, SPECS
from .variables import POOLC
from .inference import TRUTHC, NOTE
MAPS = ("Term_Equal", "Term_Hash", "HashTable_Get", "HashTable_Set", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept", "InvertedAtomIndex_GetConceptChain")
CPOOL = ("a", "b", "c", "^p", ":", "+", "$", "?", "^", ";", "$1")
def CY(name, entry, defs=(), contract=(), stub=(), cfg=None, n=8, **k):
    c = dict(COMPOUND_TERM_SIZE_MAX=n, STAMP_SIZE=2, OPERATIONS_MAX=1, TABLE_SIZE=2, CONCEPTS_MAX=4, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=1, ATOMS_MAX=100, CYCLING_BELIEF_EVENTS_MAX=4, CYCLING_GOAL_EVENTS_MAX=2, CYCLING_GOAL_EVENTS_LAYERS=1, OCCURRENCE_TIME_INDEX_SIZE=8)
    c.update(cfg or {})
    fu = dict(InvertedAtomIndex_INIT=102); fu.update(k.pop("fun_unwind", {}))
    return H(name, "cycle.c", entry, cfg=c, contract=POOLC + contract, stub=stub, pool=CPOOL, defs=defs, unwind=k.pop("unwind", max(n, 8) + 2), fun_unwind=fu, unwindset="memcmp.0:80", stubs_note=NOTE, **k)
prop("C34", [CY("pop%d_%d" % (n, c), "h_pop", ("H_POP", "N=%d" % n, "CNT=%d" % c), bounds="%d pending events, %d selections, priorities k/8" % (n, c)) for n, c in ((0, 1), (1, 2), (3, 1), (3, 2), (4, 3), (4, 4))]
     + [CY("forget", "h_forget", ("H_FORGET", "N=3"), contract=("Usage_usefulness",), bounds="3 belief events, 2 goal events, 2 concepts; priorities k/8, all uses")])
_sp = ["<S ==> P>", "<S <=> P>", "<S ==> P> with statements and a variable", "<S <=> P> with statements and a variable", "<(A && B) ==> P>", "(A && B)", "(A &/ B)", "(A && B) with statements and a variable"]
prop("C36", [CY("special%d" % s, "h_special", ("H_SPECIAL", "USE_DERIVED", "SHAPE=%d" % s), contract=TRUTHC + ("Truth_AnonymousAnalogy",), stub=("NAL_DerivedEvent",), bounds="belief of the form %s, all fillings from a, b, c (and $1), all truth values of the grid, stamps, times, priorities" % d) for s, d in enumerate(_sp)])
prop("C37", [CY("goalseq%d_%d" % (l, a), "h_goalseq", ("H_GOALSEQ", "USE_ADD", "USE_MAPS", "USE_EXPECTATION", "LEN=%d" % l, "ABSENT=%d" % a), contract=TRUTHC + MAPS + ("Truth_StructuralDeduction", "Truth_Expectation"), stub=("Memory_AddEvent",), n=16 if l == 3 else 8,
                bounds="sequences of %d components, component concepts missing: %s; all truth values of the grid, stamps, times" % (l, bin(a))) for l, a in ((2, 0), (3, 0), (2, 1), (2, 2))])
prop("C38", [CY("mine_%d_%d" % (o, k), "h_mine", ("H_MINE", "UF_LIGHT", "USE_DERIVED", "USE_MAPS", "ORDER=%d" % k, "EVOP=%d" % o), contract=TRUTHC + MAPS, stub=("NAL_DerivedEvent", "Decision_Anticipate", "OccurrenceTimeIndex_Add"), cfg=dict(EVENT_BELIEF_DISTANCE=3),
                bounds="concepts a, ^p, b in index order %d, event of %s; all truth values of the grid, stamps, occurrence, creation and selection times up to 5 steps back (recency limit 3)" % (k, "^p" if o else "b")) for o, k in ((0, 0), (0, 1), (0, 2), (1, 0))])
prop("C39", [CY("infer", "h_infer", ("H_INFER", "USE_DERIVED", "USE_MAPS"), contract=TRUTHC + MAPS, stub=("NAL_DerivedEvent", "RuleTable_Apply"), cfg=dict(UNIFICATION_DEPTH=3),
                bounds="one event, its own concept and one related concept; eternal and current beliefs of both with all truth values of the grid, stamps, times; thresholds and priorities k/4")])
prop("C40", [CY("goal_%d%d" % (x, v), "h_goal", ("H_GOAL", "UF_LIGHT", "USE_ADD", "USE_MAPS", "USE_EXPECTATION", "EXEC=%d" % x, "VALID=%d" % v), contract=TRUTHC + MAPS + ("Truth_Expectation", "Usage_usefulness"), stub=("Memory_AddEvent", "Decision_Suggest", "Decision_Execute", "Decision_Anticipate", "Metric_send"),
                bounds="one goal, one hypothesis with operation, one without, one declarative, usable ones: %s; %s; all truth values, stamps, times" % (bin(v), "with a decision to act" if x else "without")) for x, v in ((1, 7), (0, 1), (0, 2), (0, 4), (0, 7), (0, 0))])
