from engine import Harness as H
from . import prop
POOLC = ("Variable_isIndependentVariable", "Variable_isDependentVariable", "Variable_isQueryVariable", "Narsese_copulaEquals", "Narsese_isOperator", "Narsese_IsSimpleAtom", "Narsese_hasAtomValue", "Narsese_AtomicTermIndex", "Globals_Hash")
NOTE = "symbolic terms range over a small pool of named atoms; functions that read the atom-name table are replaced in the encoding by summaries over that pool (the replay uses the real ones)"
def V(name, entry, tn, pool, n=None, **k):
    n = n or (8 if tn <= 8 else 16 if tn <= 16 else 32)
    return H(name, "variable.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=n), contract=POOLC, pool=pool, defs=("TN=%d" % tn,), unwind=n + 1, stubs_note=NOTE,
             bounds="all well-formed terms of up to %d nodes over the atoms %s" % (tn, " ".join(pool)), **k)
U = ("$1", "#1", "?1", ":", "a", "b")
U2 = ("$1", "?1", ":", "!", "@", "a")
def G(h, n): h.defs = h.defs + ("GN=%d" % n,); h.bounds += "; general term of up to %d nodes" % n; return h
T = dict(quick=False, timeout=850)
prop("C07", [V("unify5", "h_unify", 5, U), V("unify5b", "h_unify", 5, U2), G(V("unify37", "h_unify", 7, U), 3), G(V("unify37b", "h_unify", 7, U2), 3), V("unify_query5", "h_unify_query", 5, ("$1", "?1", "?2", ":", "a", "b")),
             G(V("unify_query37", "h_unify_query", 7, ("$1", "?1", ":", "a", "b")), 3),
             V("unify7", "h_unify", 7, U, **T), V("unify7b", "h_unify", 7, U2, **T), V("unify_query7", "h_unify_query", 7, ("$1", "?1", ":", "a", "b"), **T),
             V("apply7", "h_apply", 7, ("$1", "#1", ":", "a", "b"), n=8), V("apply_full", "h_apply", 8, ("$1", "?1", ":", "a"), n=8), V("hasvar", "h_has", 7, ("$1", "#1", "?1", ":", "a"))])
prop("C08", [V("normalize7", "h_normalize", 7, ("$1", "$2", "$3", "#1", "#2", "?1", "?2", ":", "a")), V("normalize7b", "h_normalize", 7, ("$1", "$2", "$3", "$4", ":", "a"))])
def I(name, skel, side, cnt, entry="h_implication", cops="", extra=(), atoms=("a", "b", "c"), vars=("$1", "$2", "$3", "#1", "#2", "#3"), **k):
    n = 8 if len(skel) <= 8 else 16 if len(skel) <= 16 else 32
    pool = vars + atoms + tuple(sorted(set(skel) - {" "}))
    return H(name, "intro.c", entry, cfg=dict(COMPOUND_TERM_SIZE_MAX=n), contract=POOLC + ("HashTable_INIT", "HashTable_Get", "HashTable_Set"), pool=pool,
             defs=('SKEL="%s"' % skel.replace("\\", "\\\\"), 'SIDE="%s"' % side, 'CNT="%s"' % cnt, "NO_SELF") + extra, unwind=n + 1,
             stubs_note=NOTE + "; the counting hash tables are replaced by association maps (hash table decided by C11)",
             bounds="all fillings of the leaves of one statement shape from the atoms %s, with at most the first variable of each kind already present" % " ".join(atoms), **k)
prop("C09", [
    I("impl_inh_temporal", "$::    ", "   LLRR", "   EIEI"), I("impl_inh", "?::    ", "   LLRR", "   EIEI"), I("impl_equiv", "^::    ", "   LLRR", "   EIEI"),
    I("impl_sim", "?=:    ", "   LLRR", "   BBEI"), I("impl_sim2", "?:=    ", "   LLRR", "   EIBB"),
    I("impl_conj", "?;:::        ", "     RRLLLL  ", "     EIEIEI  ", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("impl_seq", "$+:::        ", "     RRLLLL  ", "     EIEIEI  ", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("impl_neg", "?!::         ", "     RRLL    ", "     EIEI    "),
    I("impl_prod", "?::* *       ".replace("* * ", "* * "), "    L RLL  RR", "    I IEE  EE", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("impl_image", "?:: / /        ", "   L R   LL  RR", "   E E   IE  IE", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("impl_image2", "?:: % %        ", "   L R   LL  RR", "   E E   IE  IE", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("impl_intimage", "?::\\ \\        ", "    L RLL  RR  ", "    I IEI  EI  ", vars=("$1", "$2", "$3", "$4", "#1", "#2", "#3", "#4")),
    I("conj_inh", ";::    ", "   LLLL", "   EIEI", "h_conjunction"), I("conj_sim", ";=:    ", "   LLLL", "   BBEI", "h_conjunction"),
    I("side1", "?::* *       ", "    L RLL  RR", "    - -E-  E-", "h_side", extra=("SIDEOF=1",)), I("side2", "?::* *       ", "    L RLL  RR", "    - --E  -E", "h_side", extra=("SIDEOF=2",)),
])
def names(p): return H("names_" + p.lower(), "names.c", "h_names", cfg=dict(ATOMS_MAX=4), unwind=10, bounds="all names of up to four bytes, atoms in a table of 3")
from . import SPECS
for _p in ("C07", "C09"): SPECS[_p].append(names(_p))
