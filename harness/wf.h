/* Well-formed symbolic terms: an atom below an empty position is empty. */
#ifndef WF_H
#define WF_H
#include "vh.h"
#include "Term.h"
#define NMAX COMPOUND_TERM_SIZE_MAX
static inline Term nd_term_n(int n, long maxAtom)
{
    Term t = {0};
    for(int i=0; i<n && i<NMAX; i++)
    {
        t.atoms[i] = (Atom) nd_range(0, maxAtom);
        if(i > 0) { ASSUME(t.atoms[i] == 0 || t.atoms[(i-1)/2] != 0); }
    }
    ASSUME(t.atoms[0] != 0);
    return t;
}
/* index in the whole term of position k of the subterm rooted at j (-1 if outside the array) */
static inline int vh_map(int j, int k)
{
    int path[16], d = 0;
    while(k > 0) { path[d++] = (k % 2 == 0); k = (k-1)/2; }
    while(d > 0) { d--; j = 2*j + 1 + path[d]; }
    return j < NMAX ? j : -1;
}
static inline bool vh_same(Term *a, Term *b) { bool r = true; for(int i=0; i<NMAX; i++) { r = r & (a->atoms[i] == b->atoms[i]); } return r; }
#endif
