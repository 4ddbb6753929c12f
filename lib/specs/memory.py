from engine import Harness as H
from . import prop
from .variables import POOLC
def CM(name, sched, nt=3, cmax=2, **k):
    return H(name, "memory.c", "h", cfg=dict(COMPOUND_TERM_SIZE_MAX=4, STAMP_SIZE=1, OPERATIONS_MAX=1, TABLE_SIZE=1, CONCEPTS_MAX=cmax, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=3, ATOMS_MAX=100,
             CYCLING_BELIEF_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_LAYERS=1), contract=POOLC + ("HashTable_Get", "HashTable_Set", "HashTable_Delete", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept"), pool=("a", "b", ":"), defs=('SCHED="%s"' % sched, "NT=%d" % nt), unwind=7, fun_unwind=dict(InvertedAtomIndex_INIT=102), unwindset="memcmp.0:40",
             bounds="memory of %d concepts in 2 hash buckets, %d terms, requests in the order %s (U new usefulness values k/4, ? any term)" % (cmax, nt, sched), **k)
prop("C14", [CM("concepts_a", "01U2"), CM("concepts_b", "01U2U0"), CM("concepts_any", "01U?U?"), CM("concepts_three", "012U3U?", 4, 3), CM("concepts_long", "01U?U?U?U?", 4, quick=False, timeout=1500), CM("concepts_three2", "012U?U?U?", 4, 3, quick=False, timeout=1500)])
from .inference import TRUTHC, NOTE
def AD(name, entry, known, extra=(), **k):
    return H(name, "admission.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=4, STAMP_SIZE=2, OPERATIONS_MAX=1, TABLE_SIZE=1, CONCEPTS_MAX=2, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=3, ATOMS_MAX=100,
             CYCLING_BELIEF_EVENTS_MAX=3, CYCLING_GOAL_EVENTS_MAX=3, CYCLING_GOAL_EVENTS_LAYERS=3, OCCURRENCE_TIME_INDEX_SIZE=4), contract=POOLC + TRUTHC + ("log2", "PriorityQueue_Push", "HashTable_Get", "HashTable_Set", "HashTable_Delete", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept"),
             pool=("a", "b", ":"), defs=("KNOWN=%d" % known,) + extra, unwind=5, fun_unwind=dict(InvertedAtomIndex_INIT=102), unwindset="memcmp.0:40,Memory_AddEvent:2,Memory_ProcessNewBeliefEvent:2", stubs_note=NOTE,
             bounds="one concept %s, one event pending, stamps of up to 2 identifiers, all truth values of a 5x6 grid, priorities k/4, times within 5 steps, below and above 2^32" % ("with arbitrary beliefs" if known else "not yet in memory"), **k)
prop("C27", [AD("belief_known", "h_belief", 1), AD("belief_new", "h_belief", 0)] + [AD("goal_%s%d%d" % (n, q, l), "h_goal", kn, ("QL=%d" % q, "LAYER=%d" % l)) for n, kn, q, l in (("known", 1, 0, 0), ("new", 0, 1, 0), ("new", 0, 2, 1), ("known", 1, 2, 3))])
def IL(shape, op, **k):
    return H("implink_%d%d" % (shape, op), "implink.c", "h", cfg=dict(COMPOUND_TERM_SIZE_MAX=12, STAMP_SIZE=2, OPERATIONS_MAX=2, TABLE_SIZE=1, CONCEPTS_MAX=4, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=3, ATOMS_MAX=100,
             CYCLING_BELIEF_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_LAYERS=1, OCCURRENCE_TIME_INDEX_SIZE=4), contract=POOLC + TRUTHC + ("log2", "HashTable_Get", "HashTable_Set", "InvertedAtomIndex_AddConcept", "InvertedAtomIndex_RemoveConcept"),
             pool=("a", "b", ":", "$", "?", "+", "^p", "^q", "^r"), defs=("SHAPE=%d" % shape, "OP=%d" % op), unwind=14, fun_unwind=dict(InvertedAtomIndex_INIT=102), unwindset="memcmp.0:60,Memory_AddEvent:2,Memory_ProcessNewBeliefEvent:2", stubs_note=NOTE,
             bounds="statement shape %d of (<a =/> b>, <(a &/ ^op) =/> b>, <a ==> b>, <(a &/ b) =/> a>, <((a &/ b) &/ ^op) =/> b>), operation %d of (first registered, second registered, unregistered); all truth values of the grid, stamps, times" % (shape, op), **k)
prop("C35", [IL(0, 1), IL(1, 1), IL(1, 2), IL(1, 3), IL(2, 1), IL(3, 1), IL(4, 2)])
