from engine import Harness as H
from . import prop
T = dict(small=False, only=("Term", "Globals"), contract=("Globals_Hash",), unwind=70, mem=True, stubs_note="where hashing is not the subject, the hash function is replaced by a simpler deterministic one in the encoding (the replay uses the real one)")
def c(n): return dict(COMPOUND_TERM_SIZE_MAX=n)
prop("C06", [H("term_equal", "term.c", "h_equal", cfg={}, bounds="all terms of the real size (64 atoms, 16-bit ids)", **T),
             H("term_extract32", "term.c", "h_extract", cfg=c(32), bounds="all well-formed terms of 32 atoms, every position", **T),
             H("term_extract", "term.c", "h_extract", cfg={}, quick=False, timeout=2000, bounds="all well-formed terms of the real size, every position", **T),
             H("term_override32", "term.c", "h_override", cfg=c(32), bounds="all well-formed terms of 32 atoms, every leaf position", **T),
             H("term_override16", "term.c", "h_override", cfg=c(16), bounds="all well-formed terms of 16 atoms, every leaf position", **T),
             H("term_override", "term.c", "h_override", cfg={}, quick=False, timeout=2000, bounds="all well-formed terms of the real size, leaf positions 0..63", **T)])
