from engine import Harness as H
from . import prop
from .variables import POOLC
from .inference import TRUTHC, NOTE
def AN(op, link, valid, stale=0, **k):
    return H("anticipate_%d%d%s" % (op, link, "s" if stale else "" if valid else "x"), "anticipate.c", "h", cfg=dict(COMPOUND_TERM_SIZE_MAX=8, STAMP_SIZE=2, OPERATIONS_MAX=2, TABLE_SIZE=2, CONCEPTS_MAX=4, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=7, ATOMS_MAX=100,
             CYCLING_BELIEF_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_LAYERS=1, OCCURRENCE_TIME_INDEX_SIZE=4), contract=POOLC + TRUTHC + ("Truth_Expectation", "Truth_c2w", "round", "HashTable_Get", "HashTable_Set", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept"),
             pool=("a", "b", "c", "+", "$", "^p", "^q"), defs=("OPID=%d" % op, "LINKOP=%d" % link, "VALID=%d" % valid) + (("STALEFIRST",) if stale else ()), unwind=10, fun_unwind=dict(InvertedAtomIndex_INIT=102), unwindset="memcmp.0:60", stubs_note=NOTE,
             bounds="one hypothesis in the table of operation %d (0: none), operation %d executed, its precondition's concept %s; all truth values of the grid, stamps, times" % (link, op, ("present, another one's before it forgotten" if stale else "present") if valid else "forgotten"), **k)
prop("C26", [AN(0, 0, 1), AN(1, 1, 1), AN(2, 2, 1), AN(1, 2, 1), AN(0, 1, 1), AN(1, 0, 1), AN(0, 0, 0), AN(1, 1, 0), AN(0, 0, 1, 1), AN(1, 1, 1, 1)])

def DE(name, entry, extra=(), n=16, **k):
    return H(name, "decision.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=n, STAMP_SIZE=2, OPERATIONS_MAX=3, OPERATIONS_BABBLE_ARGS_MAX=3, TABLE_SIZE=k.pop('table', 1), CONCEPTS_MAX=3, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=7, ATOMS_MAX=100,
             CYCLING_BELIEF_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_LAYERS=1, OCCURRENCE_TIME_INDEX_SIZE=4), contract=POOLC + TRUTHC + ("Truth_Expectation", "HashTable_Get", "HashTable_Set", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept", "Narsese_PrintTerm", "Narsese_PrintAtom", "Stamp_print"),
             stub=("NAR_AddInputBelief",), pool=("a", "b", "c", ":", "+", "$", "^p", "^q", "^r", "*", '"', "@", "SELF"), defs=extra, unwind=n + 2, fun_unwind=dict(InvertedAtomIndex_INIT=102), unwindset="memcmp.0:80", stubs_note=NOTE, **k)
DB = "all truth values of the grid, stamps, times, seeds; "
prop("C23", [DE("babble%d" % n, "h_babble", ("NOPS=%d" % n,), bounds=DB + "%d registered operations with 0-2 arguments" % n) for n in (0, 1, 2, 3)]
     + [DE("best", "h_best", n=8, bounds=DB + "two hypotheses for the goal with different operations and preconditions"), DE("best_stale", "h_best", ("STALE=1",), n=8, bounds=DB + "two hypotheses, the first one's precondition forgotten"),
        DE("best_same", "h_best", ("SAME",), n=8, table=2, bounds=DB + "two hypotheses with the same operation"), DE("best_samestale1", "h_best", ("SAME", "STALE=1"), n=8, table=2, bounds=DB + "two hypotheses with the same operation, the first one's precondition forgotten"),
        DE("best_samestale2", "h_best", ("SAME", "STALE=2"), n=8, table=2, bounds=DB + "two hypotheses with the same operation, the second one's precondition forgotten"), DE("best_samestale3", "h_best", ("SAME", "STALE=3"), n=8, table=2, bounds=DB + "two hypotheses with the same operation, both preconditions forgotten"),
        DE("suppress", "h_suppress", n=8, bounds=DB + "one hypothesis, babbling chance 1"), DE("better", "h_better", n=8, bounds="desires k/8"), ] + [DE("execute%d%d" % (k, a), "h_execute", ("EXEC_OP=%d" % k, "EXEC_ARGS=%d" % a), bounds="operation %d of two %s arguments, succeeding and failing" % (k, "with" if a else "without")) for k, a in ((1, 0), (2, 1))])
def OP(name, entry, pool, n=16, extra=(), **k):
    return H(name, "ops.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=n, OPERATIONS_MAX=3, CONCEPTS_MAX=2, STAMP_SIZE=2, TABLE_SIZE=1, ATOMS_MAX=100), contract=POOLC, pool=pool, defs=extra, unwind=n + 2, stubs_note=NOTE,
             unwindset="Narsese_GetPreconditionWithoutOp:6,Narsese_getOperationAtom:4,Narsese_getOperationTerm:3,Narsese_OperationSequenceAppendLeftNested:6,Narsese_SequenceLength:6,walk:6", **k)
OPP = ("a", ":", "+", "*", '"', "@", "SELF", "$1", "^p", "^q")
prop("C24", [OP("op15", "h_op", OPP, bounds="all well-formed terms of up to 15 nodes over the atoms " + " ".join(OPP)),
             OP("precondition15", "h_precondition", OPP, bounds="all well-formed terms of up to 15 nodes over the atoms " + " ".join(OPP)),
             OP("parts7", "h_parts", OPP, extra=("TN=7",), bounds="all well-formed terms of up to 7 nodes over the atoms " + " ".join(OPP)),
             OP("sequence", "h_sequence", ("a", ":", "+", "^p"), n=8, extra=('REACH_FULL=REACH("does not fit");',), bounds="all pairs of well-formed terms of up to 7 nodes in a term size of 8")])
from . import SPECS
def OS(name, entry, skel, n, **k): return OP(name, entry, OPP, n=n, extra=("SKEL=\"%s\"" % skel.replace('"', '\\"'),), bounds="all leaves (from %s) of one term shape" % " ".join(OPP), **k)
SPECS["C24"] += [OS("parts_left", "h_parts", "++.+.  ..", 16), OS("parts_both", "h_parts", "+++....", 16), OS("parts_args", "h_parts", '++:..*.    ".          ..', 32),
                 OS("precondition_args", "h_precondition", '++:..*.    ".          ..', 32), OS("precondition_left", "h_precondition", "++.+.  ..", 16), OS("op_args", "h_op", '+.:  *.    ".          ..', 32)]
