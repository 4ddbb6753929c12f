/* Symbolic atoms range over a small pool of named atoms (ids as the real initialisation assigns them).
   In the encoding, the classification functions that read the name table are replaced by summaries over the
   pool (decided against the real functions by the harness names.c); the native replay uses the real ones. */
#ifndef POOL_H
#define POOL_H
#include "wf.h"
#include "Narsese.h"
#include "Variable.h"
#include "vh_pool.h"
static const Atom vh_pool[POOLN] = { VH_POOL_IDS };
static const char *vh_pool_names[POOLN] = { VH_POOL_NAMES };
static const char vh_pool_c0[POOLN] = { VH_POOL_C0 }, vh_pool_c1[POOLN] = { VH_POOL_C1 };
#ifdef REPLAY
static inline void vh_init(void)
{
    Narsese_INIT();
    for(int i=0; i<POOLN; i++) { if(Narsese_AtomicTermIndex((char*) vh_pool_names[i]) != vh_pool[i]) { fprintf(stderr, "REPLAY: atom ids differ\n"); _exit(79); } }
}
#else
static inline void vh_init(void) {}
#endif
static inline char vh_c0(Atom a) { char r = 0; for(int i=0; i<POOLN; i++) { if(a == vh_pool[i]) r = vh_pool_c0[i]; } return r; }
static inline char vh_c1(Atom a) { char r = 0; for(int i=0; i<POOLN; i++) { if(a == vh_pool[i]) r = vh_pool_c1[i]; } return r; }
static inline bool vh_is(Atom a, char c0, bool longer) { bool r = false; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == c0 && (vh_pool_c1[i] != 0) == longer) { r = r | (a == vh_pool[i]); } } return r; }
static inline bool vh_cop(Atom a, char c) { return vh_is(a, c, false); }
static inline bool vh_var(Atom a) { return vh_is(a, '$', true) | vh_is(a, '#', true) | vh_is(a, '?', true); }
static inline bool vh_simple(Atom a)
{
    bool r = false;
    for(int i=0; i<POOLN; i++) { char c = vh_pool_c0[i]; if((c == '^' && vh_pool_c1[i] != 0) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) { r = r | (a == vh_pool[i]); } }
    return r;
}
/* which pool atoms may have parts below them */
static inline bool vh_inner(Atom a)
{
    bool r = false;
    for(int i=0; i<POOLN; i++) { char c = vh_pool_c0[i]; bool named = vh_pool_c1[i] != 0 || c == '@' || c == '.' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); if(!named) { r = r | (a == vh_pool[i]); } }
    return r;
}
static inline Atom nd_atom(bool zero)
{
    long k = nd_range(zero ? 0 : 1, POOLN); Atom a = 0;
    for(int i=0; i<POOLN; i++) { if(k == i+1) { a = vh_pool[i]; } }
    return a;
}
/* well-formed: connectors have a left part, everything else is a leaf */
static inline Term nd_term(int n)
{
    Term t = {0};
    for(int i=0; i<n && i<NMAX; i++)
    {
        t.atoms[i] = nd_atom(i > 0);
        if(i > 0) { ASSUME(t.atoms[i] == 0 || vh_inner(t.atoms[(i-1)/2])); }
    }
    for(int i=0; i<n && i<NMAX; i++)
    {
        if(2*i+2 < n)
        {
            ASSUME(!vh_inner(t.atoms[i]) || t.atoms[2*i+1] != 0);
            ASSUME(!vh_inner(t.atoms[i]) || (t.atoms[2*i+2] != 0) == !vh_cop(t.atoms[i], '!')); /* negation is unary, everything else binary */
        }
        else { ASSUME(!vh_inner(t.atoms[i])); }
    }
    return t;
}
#ifndef REPLAY
#ifndef NO_POOL_CONTRACTS
bool Variable_isIndependentVariable(Atom a) { return vh_is(a, '$', true); }
bool Variable_isDependentVariable(Atom a) { return vh_is(a, '#', true); }
bool Variable_isQueryVariable(Atom a) { return vh_is(a, '?', true); }
bool Narsese_copulaEquals(Atom a, char c) { return vh_cop(a, c); }
bool Narsese_isOperator(Atom a) { return vh_is(a, '^', true); }
bool Narsese_IsSimpleAtom(Atom a) { return vh_simple(a); }
bool Narsese_hasAtomValue(Atom a) { return false; }
int Narsese_AtomicTermIndex(char *name)
{
    int r = 0;
    for(int i=0; i<POOLN; i++) { if(name[0] == vh_pool_c0[i] && (name[0] == 0 ? 0 : name[1]) == vh_pool_c1[i]) { r = vh_pool[i]; } }
    CHECK(r != 0, "an atom outside the harness' pool is requested");
    return r;
}
#endif
#endif
#define POOL_CONTRACTS
#endif
