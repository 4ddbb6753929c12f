from engine import Harness as H
from . import prop
from .variables import POOLC
TRUTHC = ("Truth_Deduction", "Truth_GoalDeduction", "Truth_Exemplification", "Truth_Analogy", "Truth_Abduction", "Truth_Induction", "Truth_Intersection", "Truth_Revision", "Truth_Eternalize", "Truth_Projection")
NOTE = "truth functions are uninterpreted functions with the range/monotonicity facts of C01-C03 (projection is exact for up to 5 steps); atoms range over a named pool"
def F(name, entry, pool, n=8, tn=3, extra=(), **k):
    return H(name, "inference.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=n, STAMP_SIZE=4, OPERATIONS_MAX=1, TABLE_SIZE=2), contract=POOLC + TRUTHC, pool=pool, defs=("TN=%d" % tn,) + extra, unwind=n + 1, stubs_note=NOTE,
             bounds="terms of up to %d nodes over the atoms %s; stamps of up to 4 identifiers; truth values from a 5x6 grid; times within 5 steps of each other, below and above 2^32" % (tn, " ".join(pool)), **k)
prop("C05", [F("choice", "h_choice", ("#1", ":", ";", "+", "a", "b"))])
prop("C25", [F("sequence", "h_sequence", (":", "+", "$", "a", "b")), F("sequence7", "h_sequence", (":", "+", "$", "a"), tn=7), F("induction", "h_induction", (":", "+", "$", "a", "b")), F("induction7", "h_induction", (":", "+", "$", "a"), tn=7),
             F("prediction", "h_prediction", (":", "$", "?", "+", "a", "b")), F("subgoal", "h_subgoal", (":", "$", "?", "+", "^op", "a", "b")),
             F("goalseq", "h_goalseq", (":", "a", "b")), F("update", "h_update", (":", "a", "b"))])
prop("C15", [F("imprevision", "h_imprevision", (":", "$", "a", "b"))])
def TB(name, entry, n, size=3, **k):
    return H(name, "table.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=4, STAMP_SIZE=2, TABLE_SIZE=size, OPERATIONS_MAX=1), contract=TRUTHC + ("Truth_Expectation", "Globals_Hash", "Truth_c2w"), defs=("NITEMS=%d" % n,), unwind=8,
             stubs_note=NOTE + "; expectation exact on the grid, uninterpreted elsewhere", bounds="tables of %d entries holding %d; all truth values on a 5x6 grid, stamps, times" % (size, n), **k)
prop("C15", [TB("table_new%d" % n, "h_new", n) for n in range(4)] + [TB("table_same%d" % n, "h_same", n) for n in (1, 2, 3)] + [TB("table_remove%d" % n, "h_remove", n) for n in (1, 2, 3)])
