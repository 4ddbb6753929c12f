from engine import Harness as H
from . import prop

TWO = "Deduction Abduction Induction Intersection Exemplification Comparison Analogy Resemblance Union Difference Conversion Negation StructuralDeduction StructuralDeductionNegated StructuralIntersection DecomposePNN DecomposeNPP DecomposePNP DecomposePPP DecomposeNNN AnonymousAnalogy GoalDeduction FrequencyGreater FrequencyEqual".split()
T = dict(small=False, only=("Truth", "Globals"), unwind=4)
ANY = "all IEEE-754 doubles: frequency in [0,1], confidence in [0,0.99]"
prop("C01", [H("truth_range_" + f, "truth.c", "h_range", defs=("FN=Truth_" + f,), bounds=ANY, **T) for f in TWO]
     + [H("truth_range_RevisionF", "truth.c", "h_range", defs=("FN=Truth_Revision","CMIN=1e-6","NOC","CGRID=16"), bounds="all double frequencies in [0,1], confidences k/16", **T),
        H("truth_range_RevisionC", "truth.c", "h_range", defs=("FN=Truth_Revision","CMIN=1e-6","NOF","CGRID=16"), bounds="all double frequencies in [0,1], confidences k/16", **T)]
     + [H("truth_range_Revision" + x, "truth.c", "h_range", defs=("FN=Truth_Revision","CMIN=1e-6",y), bounds=ANY + "; confidence >= 1e-6", quick=False, timeout=3000, solver="kissat", **T) for x, y in (("F_full","NOC"),("C_full","NOF"))]
     + [H("truth_unary", "truth.c", "h_unary", bounds=ANY, **T),
        H("truth_w2c", "truth.c", "h_w2c", bounds="evidence in [0,1e9], confidence in [0,0.99], all doubles", **T),
        H("truth_equal", "truth.c", "h_equal", bounds=ANY, **T)])
S = dict(small=False, only=("Stamp", "Globals"), unwind=14)
prop("C04", [H("stamp_" + n, "stamp.c", "h_" + n, bounds="stamps of the real capacity (10), all 64-bit non-negative ids", mem=True, **S) for n in ("merge", "overlap", "merge_overlap", "equal")])
Q = dict(small=False, only=("PriorityQueue", "Globals"), unwind=5)
def qh(n, cap, sched, entry="h_hist", extra=(), ranks=4, **k):
    return H("queue_" + n, "queue.c", entry, defs=("CAP=%d" % cap, "RANKS=%d" % ranks, "SCHED=\"%s\"" % sched) + extra, bounds="capacity %d, operation order %s (P push, X pop-max, x pop-min, ? either pop), all double priorities in [0,1]" % (cap, sched), **dict(Q, **k))
prop("C10", [qh("evict_max", 4, "PPPPPPXXXXX"), qh("evict_min", 4, "PPPPPPxxxxx"), qh("alt", 5, "PPPPPXxXxX"), qh("alt2", 5, "PPPPPxXxXx"), qh("small", 1, "PPPXX"), qh("two", 2, "PPPPXx"),
             qh("seven", 7, "PPPPPPPXXX", ranks=2), qh("sevenmin", 7, "PPPPPPPxxx", ranks=2), 
             qh("rebuild5m", 5, "xxxxx", "h_rebuild"), qh("rebuild4p", 5, "PXxX", "h_rebuild", ("N=4",))]
     + [qh(n, c, s, ranks=r, quick=False, timeout=2400) for n, c, s, r in [("refill", 5, "PPPPPXPxPXxXxX", 4), ("nine", 9, "PPPPPPPPPxxx", 3), ("nine_x", 9, "PPPPPPPPPXXX", 3), ("evict_max8", 4, "PPPPPPXXXXX", 8), ("evict_min8", 4, "PPPPPPxxxxx", 8), ("alt8", 5, "PPPPPXxXxX", 8), ("seven4", 7, "PPPPPPPXXX", 4), ("sevenmin4", 7, "PPPPPPPxxx", 4)]]
     + [qh("rebuild5x", 5, "XXXXX", "h_rebuild", quick=False, timeout=1200)])
HT = dict(small=False, only=("HashTable", "Stack", "Globals"), unwind=5)
def hh(n, sched, **k): return H("hashtable_" + n, "hashtable.c", "h", defs=('SCHED="%s"' % sched,), bounds="4 keys (each as two equal objects), 3 entries, 2 buckets, any hash values, operation order %s with arbitrary keys and values" % sched, **dict(HT, **k))
prop("C11", [hh("a", "S0S1S2D0S3"), hh("b", "S0S1S2D2D1S3"), hh("c", "S0S1S0S1S2"), hh("d", "S0S1D1S1S2D1"), hh("any", "S0S1S2D?"), hh("any2", "S0S1S2D?S3D?"), hh("long", "S0S1S2D?S3D?S?", quick=False, timeout=1800),
             H("hash_nonneg", "hashfn.c", "h_nonneg", small=False, only=("Globals",), defs=("PIECES=16",), unwind=18, bounds="16 arbitrary 64-bit words (a term of the real size)"),
             H("hash_det", "hashfn.c", "h_det", small=False, only=("Globals",), defs=("PIECES=1",), unwind=18, bounds="1 arbitrary 64-bit word")])
def ai(n, sched, depth=2, **k): return H("atomindex_" + n, "atomindex.c", "h", defs=('SCHED="%s"' % sched,), cfg=dict(COMPOUND_TERM_SIZE_MAX=depth+1, UNIFICATION_DEPTH=depth, CONCEPTS_MAX=3, ATOMS_MAX=8, ATOMS_HASHTABLE_BUCKETS=8), unwind=5, hunwind=16,
               syms=("conceptChainElementStoragePointers",), bounds="3 concepts, terms of %d atoms over 4 atom ids (2 simple, 1 copula, empty), index depth %d, concepts added/removed in the order %s (? any)" % (depth+1, depth, sched), **k)
prop("C12", [ai("a", "01202"), ai("b", "0120"), ai("c", "010"), ai("any", "012?"), ai("long", "012??", quick=False, timeout=1800)])
prop("C16", [H("timeindex_hist", "timeindex.c", "h", only=("OccurrenceTimeIndex", "Globals"), unwind=14, mem=True, bounds="capacity 4, up to 11 insertions"),
             H("timeindex_step", "timeindex.c", "h_step", cfg=dict(OCCURRENCE_TIME_INDEX_SIZE=512), only=("OccurrenceTimeIndex", "Globals"), unwind=14, mem=True, bounds="real capacity 512, one step from an arbitrary state")])
U = dict(small=False, only=("Usage", "Globals"), unwind=4)
prop("C28", [H("usage_range", "usage.c", "h_range", bounds="counts and times 0..2^52", **U), H("usage_use", "usage.c", "h_use", bounds="counts and times 0..2^52", **U)])
prop("C31", [H("rng", "rng.c", "h", small=False, only=("Globals",), defs=("N=1",), unwind=5, bounds="all 2^32 seeds, 1 draw"), H("rng3", "rng.c", "h", small=False, only=("Globals",), defs=("N=3",), quick=False, timeout=1800, unwind=5, bounds="all 2^32 seeds, 3 draws")])
