from engine import Harness as H
from . import prop
PC = ("Narsese_AtomicTermIndex", "Variable_Normalize", "Term_Hash")
def PA(name, defs=(), cfg=None, contract=(), **k):
    c = dict(COMPOUND_TERM_SIZE_MAX=8, NARSESE_LEN_MAX=8, ATOMIC_TERM_LEN_MAX=8, ATOMS_MAX=100); c.update(cfg or {})
    fu = dict(Narsese_INIT=102, HashTable_INIT=102, Stack_INIT=102); fu.update(k.pop("fu", {}))
    return H(name, "parse.c", "h", cfg=c, contract=contract, defs=defs, **{**dict(unwind=12, mem=True, hunwind=50, unwindset="strlen.0:30", only=("Narsese", "Globals", "HashTable", "Stack"), fun_unwind=fu), **k})
WH = ("HashTable_Get", "HashTable_Set")
prop("C17", [PA("parse_replace", ("H_REPLACE", "LEN=5"), bounds="all texts of up to 5 bytes, the longest a buffer for 8 takes"),
             PA("parse_expand", ("H_EXPAND", "LEN=3"), contract=("replaceWithCanonicalCopulas",), bounds="all texts of up to 9 bytes left by the rewriting step"),
             PA("parse_prefix", ("H_PREFIX", "NT=5"), unwind=7, unwindset="Narsese_PrefixTransform.1:26", bounds="up to 5 arbitrary words of 1-2 bytes"),
             PA("parse_prefix_deep", ("H_PREFIX", "NT=7"), unwind=9, unwindset="Narsese_PrefixTransform.1:26", bounds="up to 7 arbitrary words of 1-2 bytes", quick=False, timeout=850),
             PA("parse_words", ("H_PREFIX", "NT=10", "PLAIN"), bounds="as many words as the longest text can have (10 with a buffer for 8)"),
             PA("parse_tree", ("H_TREE", "NT=9"), contract=("Narsese_AtomicTermIndex",), bounds="up to 9 arbitrary words of 1-2 bytes, terms of 8 positions"),
             PA("parse_term", ("H_GLUE", "NT=3"), contract=PC + ("Narsese_Expand",), unwindset="Narsese_PrefixTransform.1:26,strlen.0:30", bounds="up to 3 words of one character"),
             PA("parse_atom", ("H_ATOM",), contract=WH, cfg=dict(ATOMS_MAX=6), bounds="names of up to 11 bytes (8 are kept), any number of known atoms up to the capacity (6)"),
             PA("parse_normalize", ("H_NORM",), contract=("Narsese_AtomicTermIndex",), only=("Narsese", "Globals", "HashTable", "Stack", "Variable", "Term"), cfg=dict(ATOMS_MAX=12, COMPOUND_TERM_SIZE_MAX=8), bounds="any tree of 8 positions over 11 atoms with any names of up to 2 bytes"),
             PA("parse_print", ("H_NORM", "PRINT"), cfg=dict(ATOMS_MAX=12, COMPOUND_TERM_SIZE_MAX=8), bounds="any tree of 8 positions over 11 atoms with any names of up to 2 bytes"),
             PA("parse_sentence", ("H_SENTMEM", "LEN=9"), stub=("Narsese_Term",), cfg=dict(NARSESE_LEN_MAX=12), bounds="all texts of up to 9 bytes"),
             PA("parse_dt", ("H_SENTMEM", "LEN=40", "DT"), stub=("Narsese_Term",), cfg=dict(NARSESE_LEN_MAX=48), unwind=50, unwindset="strlen.0:50", bounds="time offsets of up to 37 bytes"),
])
prop("C19", [PA("sentence_%d%d" % (t, r), ("H_SENT", "TENSE=%d" % t, "TRUTH=%d" % r), stub=("Narsese_Term",), cfg=dict(NARSESE_LEN_MAX=40), unwind=40, unwindset="strlen.0:40", mem=False, san=False, bounds="every tense, truth notation, time offset and punctuation (and two non-punctuations); numbers are any of a grid -0.5..1.5 or just above the maximum confidence", stubs_note="number scanning is replaced by a stand-in that gives the number words arbitrary values; the term parser records the text it is given") for t in range(4) for r in range(4)])

from .variables import POOLC
ALLC = ("a", "b", "$1", ":", "=", "$", "?", "^", ",", "+", ";", "_", "/", "%", "\\", "#", "!", "*", "&", "|", "-", "~", ".", '"', "'", "@")
def TM(name, ts, **k):
    return PA(name, ("H_BUILD", "TEMPLATES=" + ",".join('"%s"' % t for t in ts)), contract=("Narsese_AtomicTermIndex",), cfg=dict(NARSESE_LEN_MAX=16), unwind=15, unwindset="Narsese_PrefixTransform.1:26,strlen.0:30", mem=False,
              stubs_note="words are cut by a stand-in for strtok", bounds="expressions " + " ".join(ts) + ": any connectors (c d e), any names of 1-2 characters incl. variables and operators", **k)
def RW(name, pat, **k):
    return PA(name, ("H_REWRITE", 'PATTERN="%s"' % pat), cfg=dict(NARSESE_LEN_MAX=24), unwind=26, unwindset="strlen.0:75", hunwind=40, mem=False, fu=dict(Narsese_Expand=75), solver="minisat", bounds="texts of the pattern %s: B any bracket, comma or space, W any letter, C any connector in any notation" % pat, **k)
def PR(name, shape, n, ln, **k):
    return H(name, "print.c", "h", cfg=dict(COMPOUND_TERM_SIZE_MAX=n, ATOMS_MAX=100), contract=POOLC, pool=ALLC, only=("Narsese", "Globals", "HashTable", "Stack", "Variable", "Term"), defs=('SHAPE="%s"' % shape.ljust(2*n+2, "_"), "LEN=%d" % ln), unwind=8, hunwind=40,
             stubs_note="output is recorded; names stand for pools", bounds="terms of the shape %s over all connectors and the names a, b, $1" % shape, **k)
prop("C18", [TM("read_2", ["x", "(xcy)", "(cxy)", "(cx)"]), TM("read_3l", ["((xcy)dz)"]), TM("read_3p", ["(c(dxy)z)"]), TM("read_3r", ["(xc(ydz))"]), TM("read_3q", ["(cx(ydz))"]), TM("read_u1", ["(c(xdy))"]), TM("read_u2", ["(xc(dy))"]), TM("read_u3", ["((cx)dy)"]),
             TM("read_4", ["((xcy)d(zew))"], quick=False, timeout=850),
             RW("rewrite_1", "BWCWB"), RW("rewrite_2", "BBWBCWB"), RW("rewrite_3", "BWCBWBB"), RW("rewrite_4", "BWBWBWB"), RW("rewrite_5", "BCWB"),
             PR("print_3", "cxx", 4, 16), PR("print_un", "cx@", 4, 16), PR("print_5l", "ccxxx", 8, 30), PR("print_5r", "cxc__xx", 8, 30), PR("print_5u", "ccxx@", 8, 30), PR("print_5v", "cc@x@", 8, 30)])
