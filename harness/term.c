/* Terms as arrays of atoms in tree layout: equality, extraction, replacement. */
#include "wf.h"
#include "Globals.h"
#ifndef MAXATOM
#define MAXATOM 65535
#endif
#ifndef REPLAY
/* any deterministic function of the content will do here; the real one is checked separately */
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
#endif
void h_equal(void)
{
    Term a = {0}, b = {0};
    for(int i=0; i<NMAX; i++) { a.atoms[i] = (Atom) nd_range(0, MAXATOM); b.atoms[i] = (Atom) nd_range(0, MAXATOM); }
    if(nd_bool()) { Term_Hash(&a); } /* one of them may have been hashed before */
    bool same = vh_same(&a, &b);
    CHECK(Term_Equal(&a, &b) == same, "terms are equal exactly when all atoms are the same");
    CHECK(Term_Equal(&b, &a) == same, "term equality is symmetric");
    CHECK(!same || Term_Hash(&a) == Term_Hash(&b), "equal terms hash equally");
    Term c = a;
    CHECK(Term_Equal(&c, &a), "a copy equals the original");
    int n = 0; for(int i=0; i<NMAX; i++) { n += a.atoms[i] != 0; }
    CHECK(Term_Complexity(&a) == n, "complexity counts the atoms");
    long x = nd_range(0, MAXATOM); bool has = false; for(int i=0; i<NMAX; i++) { has = has | (a.atoms[i] == x); }
    CHECK(Term_HasAtom(&a, (Atom) x) == has, "atom membership");
    REACH("end");
}
void h_extract(void)
{
    Term t = nd_term_n(NMAX, MAXATOM); Term t0 = t;
    for(int j=0; j<NMAX; j++)
    {
        Term s = Term_ExtractSubterm(&t, j);
        for(int k=0; k<NMAX; k++)
        {
            int m = vh_map(j, k);
            CHECK(s.atoms[k] == (m < 0 ? 0 : t.atoms[m]), "the extracted subterm is exactly the tree rooted at the position");
        }
    }
    CHECK(vh_same(&t, &t0), "extraction leaves the term alone");
    REACH("end");
}
#ifndef OVLO
#define OVLO 0
#define OVHI NMAX
#endif
void h_override(void)
{
    Term t = nd_term_n(NMAX, MAXATOM), s = nd_term_n(NMAX, MAXATOM), s0 = s;
    Term_Hash(&t); /* a stale hash must not survive */
    for(int i=OVLO; i<OVHI; i++)
    {
        Term r = t;
        if(2*i+1 < NMAX && t.atoms[2*i+1] != 0) { continue; }  /* replaced position is a leaf */
        if(2*i+2 < NMAX && t.atoms[2*i+2] != 0) { continue; }
        bool fits = true; bool below[NMAX] = {0};
        for(int k=0; k<NMAX; k++) { int m = vh_map(i, k); if(m < 0) { fits = fits & (s.atoms[k] == 0); } else { below[m] = true; } }
        bool ok = Term_OverrideSubterm(&r, i, &s);
        CHECK(ok == fits, "replacement succeeds exactly when the subterm fits");
        if(ok)
        {
            for(int k=0; k<NMAX; k++)
            {
                int m = vh_map(i, k);
                if(m >= 0) { CHECK(r.atoms[m] == s.atoms[k], "the tree at the position is the given one"); }
                if(!below[k]) { CHECK(r.atoms[k] == t.atoms[k], "nothing outside the position changes"); }
            }
            Term f = {0}; for(int k=0; k<NMAX; k++) { f.atoms[k] = r.atoms[k]; }
            CHECK(Term_Hash(&r) == Term_Hash(&f), "a changed term hashes like a fresh one");
        }
    }
    CHECK(vh_same(&s, &s0), "the inserted term is left alone");
    REACH("end");
}
