from engine import Harness as H
from . import prop
from .variables import POOLC
QP = ("a", "b", "x", "y", "^p", "^q", "^r", "s", "t", "u", "?", "$")
def NA(name, entry, defs=(), contract=(), stub=(), cfg=None, **k):
    c = dict(COMPOUND_TERM_SIZE_MAX=4, STAMP_SIZE=2, OPERATIONS_MAX=2, TABLE_SIZE=1, CONCEPTS_MAX=2, CONCEPTS_HASHTABLE_BUCKETS=2, UNIFICATION_DEPTH=1, ATOMS_MAX=100, CYCLING_BELIEF_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_MAX=1, CYCLING_GOAL_EVENTS_LAYERS=1, OCCURRENCE_TIME_INDEX_SIZE=4); c.update(cfg or {})
    return H(name, "nar.c", entry, cfg=c, contract=POOLC + contract, stub=("Narsese_Sentence", "Narsese_INIT") + stub, includes=("NAR",), pool=QP, defs=defs, unwind=6, unwindset="memcmp.0:80", **k)
def ASK(name, kind, per, cfg=None, **k):
    return NA(name, "h", ("H_ASK", "KIND=%d" % kind, "PER=%d" % per), contract=("Truth_Expectation", "Truth_Projection"), stub=("Narsese_PrintTerm", "Stamp_print", "Truth_Print", "Variable_Unify2"), cfg=dict(TABLE_SIZE=per, **(cfg or {})),
              stubs_note="reading and printing are replaced by stand-ins that take or record the values; which stored terms match is an arbitrary relation (unification: C07)", **k)
B = "; truth values of a 4x3 grid, times within 5 steps of now, below and above 2^32"
prop("C29", [ASK("ask_belief", 0, 1, bounds="two concepts with or without eternal, current and predicted belief, questions of every tense, queries with thresholds k/8" + B),
             ASK("ask_temporal", 1, 1, bounds="two concepts, one hypothesis or none per table of 2 operations and none" + B), ASK("ask_implication", 2, 2, bounds="two concepts with up to 2 declarative links" + B)])
prop("C30", [NA("input", "h", ("H_INPUT",), stub=("Memory_AddInputEvent", "Cycle_Perform"), stubs_note="reading the text, memory and the cycle are replaced by stand-ins that take or record the values", bounds="two inputs, each by sentence or by call, of any type, tense, truth of the grid and time offset k/2, with or without imported evidence, followed by 0-2 cycles; time below and above 2^32, up to 2^40 earlier inputs"),
             NA("reset", "h", ("H_RESET",), stub=("Memory_AddInputEvent", "Cycle_Perform", "Narsese_AtomicTerm"), fun_unwind=dict(InvertedAtomIndex_INIT=102), stubs_note="reading the text, memory and the cycle are replaced by stand-ins that take or record the values", bounds="two concepts, pending events, operations, settings, any time and number of inputs up to 2^40")])
prop("C24", [NA("register", "h", ("H_REGISTER",), stub=("Memory_AddInputEvent", "Cycle_Perform", "Narsese_AtomicTerm"), fun_unwind=dict(InvertedAtomIndex_INIT=102), stubs_note="names stand for three operators", bounds="all series of 4 registrations of 3 operators with room for 2")])
prop("C32", [H("threads", "udp.c", "h", cfg=dict(NARSESE_LEN_MAX=8), only=("Globals",), includes=("UDPNAR", "UDP"), stub=("Shell_ProcessInput", "Shell_NARInit", "NAR_Cycles", "Stats_Print"), unwind=16, hunwind=16, mem=True,
               stubs_note="threads, locks and sockets are stand-ins: each thread runs on its own with the lock set recorded, the other threads' effects on shared data are arbitrary where no lock excludes them",
               bounds="up to 12 synchronisation points per thread with stopping at any of them, datagrams of up to 8 arbitrary bytes (buffer of 8), any timestep, any placement of resets")])
def SH(name, cmd, *defs, cfg=None, **k):
    c = dict(NARSESE_LEN_MAX=40, ATOMIC_TERM_LEN_MAX=8, ATOMS_MAX=6, COMPOUND_TERM_SIZE_MAX=4, OPERATIONS_MAX=2, CONCEPTS_MAX=1, TABLE_SIZE=1, STAMP_SIZE=2); c.update(cfg or {})
    return H("shell_" + name, "shell.c", "h", cfg=c, includes=("Shell", "Stats"), stub=("NAR_INIT", "NAR_AddOperation", "NAR_Cycles", "NAR_AddInputNarsese", "NAR_AddInputNarsese2", "Narsese_Term", "Narsese_AtomicTerm", "Narsese_AtomicTermIndex", "Narsese_PrintTerm", "HashTable_MaximumChainLength"),
             defs=('CMD="%s"' % cmd,) + defs, mem=True, checks=("--div-by-zero-check",), **{**dict(unwind=45, hunwind=45, unwindset="strlen.0:60,strncmp.0:60,strcmp.0:60", timeout=100), **k},
             stubs_note="scanning numbers and words from text gives arbitrary results; memory, reasoning and reading terms are stand-ins", bounds="command %s with any number of arguments found, all integers, values k/4 up to 10^6, names of up to 8 characters (the scaled maximum)" % cmd.split(" ")[0].split("=")[0][:20])
prop("C33", [SH("opname", "*setopname 1 x", "OPNAME"), SH("oparg", "*setoparg 1 1 x", "OPARG"), SH("opstdin", "*setopstdin 1", "OPSTDIN"), SH("setvalue", "*setvalue 1 1 x", "SETVALUE"), SH("space", "*space 3 x", "FIX=3"), SH("space_none", "*space 0 x", "FIX=0", "REFUSE"), SH("query", "*query 0.5 x", "QUERY"),
             SH("stats", "*stats"), SH("steps", "12"), SH("babbling", "*babblingops=1"), SH("currenttime", "*currenttime=1"), SH("opconfig", "*opconfig"), SH("concurrent", "*concurrent"),
             SH("stamp_short", "*stampimport=[1,2,3]"), SH("stamp_open", "*stampimport=[1,2", "REFUSE"), SH("stamp_long", "*stampimport=[" + "1" * 1002 + "]", "REFUSE", flags=("--max-field-sensitivity-array-size", "1100"), unwind=1050, hunwind=1050, unwindset="strlen.0:1050,strncmp.0:60,strcmp.0:60")])
