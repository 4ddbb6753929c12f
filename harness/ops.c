/* Operations inside terms: recognising, extracting and removing them, and the order of sequences. */
#include "pool.h"
#include "Memory.h"
#include "Globals.h"
#ifndef REACH_FULL
#define REACH_FULL
#endif
#ifndef TN
#define TN 15
#endif
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
#endif
static Term t;
static Atom at_(int j) { return j < NMAX ? t.atoms[j] : 0; }
static Term sub(Term *x, int j) { Term r = {0}; for(int k=0; k<NMAX; k++) { int i = vh_map(j, k); if(i >= 0) r.atoms[k] = x->atoms[i]; } return r; }
static bool oper(Atom a) { return vh_is(a, '^', true); }
static bool isop(int j) { return oper(at_(j)) | (vh_cop(at_(j), ':') & vh_cop(at_(2*j+1), '*') & oper(at_(2*j+2)) & vh_cop(at_(4*j+3), '"')); }
static bool seq(int j) { return vh_cop(at_(j), '+'); }
static Atom opatom(int j) { return oper(at_(j)) ? at_(j) : isop(j) ? at_(2*j+2) : 0; }
/* positions of the parts of the (nested) sequence at the root, in order */
static int part[16], parts; static bool ispart[16];
static void walk(int j, int depth) { if(seq(j) && depth < 4) { walk(2*j+1, depth+1); walk(2*j+2, depth+1); } else { if(parts < 16) { part[parts] = j; } parts++; } }
static void gen(void)
{
    vh_init();
#ifndef REPLAY
    SELF = 0; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == 'S') SELF = vh_pool[i]; }
#endif
#ifdef SKEL
    /* inner nodes as in the skeleton, leaves ('.') any non-connector atom */
    static const char skel[] = SKEL; t = (Term) {0};
    for(int i=0; i<(int) sizeof(skel)-1; i++)
    {
        if(skel[i] == '.') { t.atoms[i] = nd_atom(false); ASSUME(!vh_inner(t.atoms[i])); }
        else if(skel[i] != ' ') { for(int k=0; k<POOLN; k++) { if(vh_pool_c0[k] == skel[i] && vh_pool_c1[k] == 0) t.atoms[i] = vh_pool[k]; } }
    }
#else
    t = nd_term(TN);
#endif
}
void h_op(void)
{
    gen(); Term t0 = t;
    CHECK(Narsese_isOperation(&t) == isop(0), "an operation is an operator or <({agent} * arguments) --> operator>");
    bool self = at_(7) == SELF || vh_var(at_(7));
    CHECK(Narsese_isExecutableOperation(&t) == (isop(0) && (oper(at_(0)) || self)), "only operations of the system itself (or of a variable agent) are executable");
    Atom expect = seq(0) ? (seq(2) ? 0 : opatom(2)) : opatom(0);
    CHECK(Narsese_getOperationAtom(&t) == expect, "the operation of a term is the operator in operation position");
    for(int i=0; i<OPERATIONS_MAX; i++) { operations[i].term.atoms[0] = 0; }
    int nreg = nd_range(0, 2); Atom reg[2] = { 0, 0 };
    for(int i=0; i<2; i++) { if(i < nreg) { reg[i] = nd_atom(false); ASSUME(oper(reg[i])); operations[i].term.atoms[0] = reg[i]; } }
    ASSUME(nreg < 2 || reg[0] != reg[1]);
    int id = expect == 0 ? 0 : expect == reg[0] ? 1 : expect == reg[1] ? 2 : 0;
    CHECK(Memory_getOperationID(&t) == id, "the operation's number is that of its registration, unregistered ones have none");
    if(id == 2) { REACH("registered"); }
    CHECK(vh_same(&t, &t0), "looking at a term leaves it unchanged");
}
void h_precondition(void)
{
    gen();
    int j = 0;
    for(int k=0; k<4; k++) { if(seq(j) && isop(2*j+2)) { j = 2*j+1; } }
    Term want = {0};
    for(int c=0, d=0; d<5; d++, c=2*c+1) { if(c == j && c < NMAX) { want = sub(&t, c); } }
    Term got = Narsese_GetPreconditionWithoutOp(&t);
    CHECK(vh_same(&got, &want), "the precondition is what precedes the operations at the end of the sequence");
    REACH("end");
}
void h_parts(void)
{
    gen(); parts = 0;
    for(int i=0; i<16; i++) { part[i] = NMAX; }
    walk(0, 0);
    CHECK(Narsese_SequenceLength(&t) == parts, "the length of a sequence is the number of its parts");
    Term ops = {0};
    bool ok = Narsese_OperationSequenceAppendLeftNested(&ops, &t);
    int n = 0, first = -1, second = -1, third = -1;
    for(int i=0; i<8; i++) { if(i < parts && isop(part[i])) { if(n == 0) first = part[i]; if(n == 1) second = part[i]; if(n == 2) third = part[i]; n++; } }
    Term want = {0}; bool fits = true; 
    for(int j=0; j<NMAX; j++)
    {
        Term s = sub(&t, j);
        if(n == 1 && j == first) { want = s; }
        if(n == 2 && (j == first || j == second))
        {
            for(int k=0; k<NMAX; k++) { int i = vh_map(j == first ? 1 : 2, k); if(s.atoms[k]) { if(i < 0) fits = false; else want.atoms[i] = s.atoms[k]; } }
        }
    }
    if(n == 2) { for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == '+' && vh_pool_c1[i] == 0) want.atoms[0] = vh_pool[i]; } }
    if(n <= 2)
    {
        CHECK(ok == fits, "collecting the operations fails only if they do not fit");
        if(ok) { CHECK(vh_same(&ops, &want), "the operations of a sequence are collected in their order"); }
        Term o = Narsese_getOperationTerm(&t), none = {0};
        bool has = seq(0) ? isop(2) : isop(0);
        CHECK(vh_same(&o, has && fits ? (seq(0) ? &want : &t) : &none), "the operation term is what a sequence ends with, or nothing");
    }
    if(n == 2) { REACH("two operations"); }
    if(n == 0) { REACH("no operation"); }
}
/* building a sequence keeps order, and fails when it does not fit */
void h_sequence(void)
{
    vh_init();
    Term a = nd_term(7), b = nd_term(7), a0 = a, b0 = b; bool ok;
    Term r = Narsese_Sequence(&a, &b, &ok);
    bool fits = true; Term want = {0};
    for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == '+' && vh_pool_c1[i] == 0) want.atoms[0] = vh_pool[i]; }
    for(int k=0; k<NMAX; k++)
    {
        int i = vh_map(1, k), j = vh_map(2, k);
        if(a0.atoms[k]) { if(i < 0) fits = false; else want.atoms[i] = a0.atoms[k]; }
        if(b0.atoms[k]) { if(j < 0) fits = false; else want.atoms[j] = b0.atoms[k]; }
    }
    CHECK(ok == fits, "a sequence is built exactly if it fits");
    if(ok) { CHECK(vh_same(&r, &want), "the first part comes first, the second part second"); REACH("built"); } else { CHECK(r.atoms[0] == 0, "no truncated sequence is returned"); REACH_FULL }
    CHECK(vh_same(&a, &a0) && vh_same(&b, &b0), "the parts are not modified");
}
