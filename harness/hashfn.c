/* Hash functions: usable as table index for every content, and a function of the content only. */
#include "vh.h"
#include "Globals.h"
#include "Term.h"
#include "Narsese.h"
#ifndef PIECES
#define PIECES 4
#endif
void h_nonneg(void)
{
    HASH_TYPE d[PIECES];
    for(int i=0; i<PIECES; i++) { d[i] = nd_long(); }
    HASH_TYPE r = Globals_Hash(d, PIECES);
    CHECK(r >= 0, "hash is non-negative, so that hash modulo bucket count is a valid bucket");
    REACH("end");
}
void h_det(void)
{
    HASH_TYPE d[PIECES], e[PIECES];
    for(int i=0; i<PIECES; i++) { d[i] = nd_long(); e[i] = d[i]; }
    HASH_TYPE r = Globals_Hash(d, PIECES);
    for(int i=0; i<PIECES; i++) { CHECK(d[i] == e[i], "hashing leaves its input alone"); }
    CHECK(Globals_Hash(e, PIECES) == r, "equal contents hash equally");
    REACH("end");
}
