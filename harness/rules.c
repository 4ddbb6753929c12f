/* The rule table as generated from the repository, applied to all premises of one pair of shapes, against the rules of
   the logic (nalrules.h, generated from the independent specification lib/nalrules.py). */
#include "pool.h"
#define NO_UF
#include "uf.h"
#include "RuleTable.h"
#include "NAL.h"
#include "Globals.h"
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
bool Term_Equal(Term *a, Term *b) { return vh_same(a, b); } /* decided by C06 */
Term RuleTable_Reduce(Term t) { t.atoms[NMAX-1] = 1; return t; } /* what it does is decided by C22, here: whether it is applied */
/* truth functions as distinct symbols applied to the premises' truth values: a value stands for "function f of (t1,t2)"; operands
   of symmetric functions count in any order, functions of the first premise only take it alone */
static unsigned long bits(double d) { union { double d; unsigned long u; } x = { .d = d }; return x.u; }
static Truth t1, t2;
static bool tb(Truth a, Truth b) { return (bits(a.frequency) == bits(b.frequency)) & (bits(a.confidence) == bits(b.confidence)); }
static Truth sym(int f, Truth a, Truth b, int kind)
{
    bool p = tb(a, t1) & (tb(b, t2) | kind == 2), q = tb(a, t2) & (tb(b, t1) | kind == 2);
    Truth x = { .frequency = f, .confidence = 0.5 }, y = { .frequency = f, .confidence = kind == 1 ? 0.5 : 0.625 }, z = { .frequency = f, .confidence = 0.75 };
    return p ? x : q ? y : z;
}
#define FN(n,f,k) Truth Truth_##n(Truth a, Truth b) { return sym(f, a, b, k); }
FN(Deduction,1,1) FN(Abduction,2,0) FN(Exemplification,3,1) FN(Comparison,4,1) FN(Analogy,5,0) FN(Resemblance,6,1) FN(Intersection,7,1) FN(Union,8,1) FN(Difference,9,0)
FN(Conversion,10,2) FN(Negation,11,2) FN(StructuralDeduction,12,2) FN(StructuralDeductionNegated,13,2) FN(StructuralIntersection,14,2) FN(DecomposePNN,15,0) FN(DecomposeNPP,16,0)
FN(DecomposePPP,17,0) FN(DecomposeNNN,18,1) FN(AnonymousAnalogy,19,0) FN(FrequencyGreater,20,0) FN(FrequencyEqual,21,1) FN(GoalDeduction,22,0)
Truth Truth_Induction(Truth a, Truth b) { return Truth_Abduction(b, a); }
Truth Truth_DecomposePNP(Truth a, Truth b) { return Truth_DecomposeNPP(b, a); }
#else
static Truth t1, t2;
static unsigned long bits(double d) { union { double d; unsigned long u; } x = { .d = d }; return x.u; }
#endif
#include "nalrules.h"
static Atom cop(char c) { Atom r = 0; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == c && vh_pool_c1[i] == 0) r = vh_pool[i]; } return r; }
static Atom var(const char *c) { Atom r = 0; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == c[0] && vh_pool_c1[i] == c[1]) r = vh_pool[i]; } return r; }
/* a derived event's content, packed for comparison */
typedef struct { unsigned __int128 w[4]; unsigned long f, c; bool v; } Code;
static Code code(Term *t, Truth tr, bool v)
{
    Code r = { .f = bits(tr.frequency), .c = bits(tr.confidence), .v = v };
    for(int k=0; k<4; k++) { r.w[k] = 0; for(int i=0; i<8; i++) { if(8*k+i < NMAX) { r.w[k] = r.w[k] << 16 | t->atoms[8*k+i]; } } }
    return r;
}
static Code want[NE+1]; static bool due[NE+1], seen[NE+1];
static Stamp st; static long occ, now, vid; static double off, pp, cp; static Concept vc;
void NAL_DerivedEvent(Term t, long o, Truth tr, Stamp s, long n, double parent, double concept, double of, Concept *v, long id, bool vi, bool ext)
{
    CHECK(o == occ && n == now && st_same(&s, &st) && bits(parent) == bits(pp) && bits(concept) == bits(cp) && bits(of) == bits(off) && v == &vc && id == vid && !ext, "evidence, time and priorities are passed on unchanged");
    bool ok = false; Code k = code(&t, tr, vi);
    for(int j=0; j<NE; j++)
    {
        bool m = due[j] & (k.w[0] == want[j].w[0]) & (k.w[1] == want[j].w[1]) & (k.w[2] == want[j].w[2]) & (k.w[3] == want[j].w[3]) & (k.f == want[j].f) & (k.c == want[j].c) & (k.v == want[j].v);
        ok = ok | m; seen[j] = seen[j] | m;
    }
    CHECK(ok, "whatever is derived is the conclusion of a rule of the logic from these premises, with that rule's truth value");
}
void h_rules(void)
{
    vh_init(); nd_clock();
    Atom l[NL];
    for(int i=0; i<NL; i++) { l[i] = nd_atom(false); ASSUME(vh_simple(l[i])); }
    t1 = nd_truth(); t2 = nd_truth();
    occ = nd_time(); now = nd_time(); st = nd_stamp_small(3); pp = nd_bool() ? 0.25 : 0.5; cp = nd_bool() ? 0.75 : 1.0; off = nd_bool() ? 0.125 : 0.0; vid = nd_range(0, 2);
    Term a = {0}, b = {0};
#define S(i,c) t->atoms[i] = cop(c);
#define L(i,k) t->atoms[i] = l[k];
#define V(i,n) t->atoms[i] = var(n);
    { Term *t = &a; TERM1 } { Term *t = &b; TERM2 }
#define E(j,g,T,tf,v) { Term x = {0}, *t = &x; T; due[j] = g; if(due[j]) { x = RuleTable_Reduce(x); want[j] = code(&x, tf, v); } seen[j] = false; }
    EXPECTS
    RuleTable_Apply(a, b, t1, t2, occ, off, st, now, pp, cp, DOUBLE, &vc, vid);
    for(int j=0; j<NE; j++) { CHECK(!due[j] || seen[j], "every conclusion the rules of the logic allow from these premises is derived, with its truth value"); }
    REACH("end");
}
