/* Variable introduction: which atoms become which variables, for statement skeletons with symbolic leaves. */
#include "pool.h"
#include "Globals.h"
#include "HashTable.h"
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
/* association maps over the pool (the hash table itself is decided by C11) */
#define MAPS 6
static HashTable *map_of[MAPS]; static long map_val[MAPS][POOLN]; static int maps;
void HashTable_INIT(HashTable *h, VMItem *s, VMItem **sp, VMItem **HT, int buckets, int max, Equal eq, Hash hash) { map_of[maps] = h; for(int i=0; i<POOLN; i++) { map_val[maps][i] = 0; } maps++; }
static int map_idx(HashTable *h) { for(int i=0; i<maps; i++) { if(map_of[i] == h) return i; } return 0; }
void *HashTable_Get(HashTable *h, void *key) { int m = map_idx(h); long r = 0; for(int i=0; i<POOLN; i++) { if((long) key == vh_pool[i]) { r = map_val[m][i]; } } return (void*) r; }
void HashTable_Set(HashTable *h, void *key, void *value) { int m = map_idx(h); for(int i=0; i<POOLN; i++) { if((long) key == vh_pool[i]) { map_val[m][i] = (long) value; } } }
#endif
/* skeleton: one character per node, in heap order: copula characters as they are, ' ' empty, and leaves
   L/R: left / right side of the statement, counted extensionally (E), intensionally (I) or both (B), not at all (-)
   e.g. leaves of ((x*y) --> r): subject parts counted extensionally, r intensionally. */
#ifndef SKEL
#define SKEL "$::    "
#define SIDE "   LLRR"
#define CNT  "   EIEI"
#endif
#define SN ((int) sizeof(SKEL) - 1)
static const char skel[] = SKEL, side[] = SIDE, cnt[] = CNT;
static Atom cop(char c) { Atom r = 0; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == c && vh_pool_c1[i] == 0) r = vh_pool[i]; } return r; }
static Term build(void)
{
    Term t = {0};
    for(int i=0; i<SN; i++)
    {
        if(skel[i] != ' ') { t.atoms[i] = cop(skel[i]); }
        else if(side[i] != ' ') { Atom a = nd_atom(false); ASSUME(vh_simple(a) | vh_var(a)); t.atoms[i] = a; }
    }
    /* statements are normalized before: variables of a kind are numbered without gaps (here: only the first may occur) */
    for(int i=0; i<SN; i++) { if(side[i] != ' ') { ASSUME(!vh_var(t.atoms[i]) | (vh_c1(t.atoms[i]) == '1')); } }
    return t;
}
static bool is_counted(int i, bool ext) { return side[i] != ' ' && (cnt[i] == 'B' || cnt[i] == (ext ? 'E' : 'I')); }
static void verdict(Term *t, Term *r, bool ok, bool ext, bool conj)
{
    CHECK(ok, "introduction succeeds while variables are available");
    if(!ok) { return; }
    for(int i=0; i<NMAX; i++)
    {
        if(i >= SN || side[i] == ' ') { CHECK(r->atoms[i] == t->atoms[i], "structure is left alone"); continue; }
        Atom a = t->atoms[i];
        int L = 0, R = 0;
        for(int j=0; j<SN; j++) { if(is_counted(j, ext) && vh_simple(t->atoms[j]) && t->atoms[j] == a) { if(side[j] == 'L') { L++; } else { R++; } } }
        bool intro = vh_simple(a) & (conj ? L + R >= 2 : ((L >= 2) | (R >= 2) | ((L >= 1) & (R >= 1))));
        char kind = !conj && L >= 1 && R >= 1 ? '$' : '#';
        CHECK(intro || r->atoms[i] == a, "an atom that is not repeated as required is left alone");
        if(intro)
        {
            CHECK(vh_c0(r->atoms[i]) == kind && vh_c1(r->atoms[i]) != 0, "a repeated atom becomes an independent variable if it links both sides, otherwise a dependent variable");
            for(int j=0; j<SN; j++) if(side[j] != ' ')
            {
                CHECK((t->atoms[j] == a) == (r->atoms[j] == r->atoms[i]), "a variable stands for one atom, at all its positions");
                CHECK(r->atoms[i] != t->atoms[j], "introduced variables are new to the statement");
            }
            REACH("introduced");
        }
    }
    REACH("end");
}
#ifdef EXTONLY
#define EXT true
#else
#define EXT nd_bool()
#endif
void h_implication(void)
{
    vh_init();
    Term t = build(), t0 = t; bool ok = false, ext = EXT;
    Term r = Variable_IntroduceImplicationVariables(t, &ok, ext);
    verdict(&t0, &r, ok, ext, false);
}
#ifndef SIDEOF
#define SIDEOF 1
#endif
/* side of product: only that component of a product subject counts */
void h_side(void)
{
    vh_init();
    Term t = build(), t0 = t; bool ok = false;
    Term r = Variable_IntroduceImplicationVariables2(t, &ok, true, SIDEOF);
    verdict(&t0, &r, ok, true, false);
}
void h_conjunction(void)
{
    vh_init();
    Term t = build(), t0 = t; bool ok = false, ext = EXT;
    Term r = Variable_IntroduceConjunctionVariables(t, &ok, ext);
    verdict(&t0, &r, ok, ext, true);
}
