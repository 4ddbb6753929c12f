/* Simplification of derived statements. */
#include "pool.h"
#include "RuleTable.h"
#include "Globals.h"
#ifndef TN
#define TN 15
#endif
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
bool Term_Equal(Term *a, Term *b) { return vh_same(a, b); } /* decided by C06 */
#endif
static Term t;
static Atom at_(int j) { return j < NMAX ? t.atoms[j] : 0; }
static bool is(int j, char c) { return vh_cop(at_(j), c); }
static Atom cop(char c) { Atom r = 0; for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] == c && vh_pool_c1[i] == 0) r = vh_pool[i]; } return r; }
static bool same(int i, int j) { bool r = true; for(int k=0; k<TN; k++) { int x = vh_map(i, k), y = vh_map(j, k); r = r & ((x < 0 ? 0 : t.atoms[x]) == (y < 0 ? 0 : t.atoms[y])); } return r; }
/* put the tree at src of t at dst of r */
static void put(Term *r, int dst, int src) { for(int k=0; k<TN; k++) { int d = vh_map(dst, k), s = vh_map(src, k); if(d >= 0) { r->atoms[d] = s < 0 ? 0 : t.atoms[s]; } } }
static void cut(Term *r, int at) { for(int k=0; k<TN; k++) { int d = vh_map(at, k); if(d >= 0) { r->atoms[d] = 0; } } }
/* simplify the term at j (subject or predicate) in r, if it is one of the forms that are */
static bool simplify(Term *r, int j)
{
    int l = 2*j+1, q = 2*j+2, ll = 2*l+1, lr = 2*l+2, ql = 2*q+1, qr = 2*q+2;
    bool binary = !is(l, '@') & !is(q, '@') & (at_(l) != 0) & (at_(q) != 0);
    if((is(j, '&') | is(j, '|')) && binary && same(l, q)) { cut(r, j); put(r, j, l); return true; }
    for(int set=0; set<2; set++)
    {
        char open = set ? '\'' : '"', join = set ? '&' : '|';
        if(is(j, join) && is(l, open) && is(q, open))
        {
            bool one = is(lr, '@'), two = is(qr, '@');
            if(one & two) { cut(r, j); r->atoms[j] = cop(open); put(r, l, ll); put(r, q, ql); return true; }
            if(!one & two) { cut(r, j); r->atoms[j] = cop(open); r->atoms[l] = cop('.'); put(r, ll, ll); put(r, lr, lr); put(r, q, ql); return true; }
            if(one & !two) { cut(r, j); r->atoms[j] = cop(open); put(r, l, ll); r->atoms[q] = cop('.'); put(r, ql, ql); put(r, qr, qr); return true; }
        }
        if(is(j, open) && is(q, '@') && is(l, '.')) { cut(r, j); r->atoms[j] = cop(open); put(r, l, ll); put(r, q, lr); return true; }
    }
    return false;
}
static bool mentions(Term *x, Atom a) { bool r = false; for(int i=0; i<NMAX; i++) { r = r | (x->atoms[i] == a); } return r; }
void h_reduce(void)
{
    vh_init();
    t = nd_term(TN);
    for(int i=0; i<TN; i++) { ASSUME(!vh_cop(t.atoms[i], '@') | (i > 0 && i % 2 == 0 && (vh_cop(t.atoms[(i-1)/2], '"') | vh_cop(t.atoms[(i-1)/2], '\'')))); } /* the mark of one-element sets is their right part */
#ifdef ROOT
    ASSUME(is(0, ROOT));
#endif
    Term a = t, b = t, c = t, in = t; bool sl = false, sr = false;
    if(is(0, ':')) { sl = simplify(&a, 1); sr = simplify(&b, 2); simplify(&c, 1); simplify(&c, 2); }
    if((is(0, ';') | is(0, '_')) && same(1, 2)) { sl = true; cut(&a, 0); put(&a, 0, 1); }
    Term r = RuleTable_Reduce(in);
    bool changed = !vh_same(&r, &t);
    CHECK(changed || !(sl | sr), "repeated components are merged and sets are joined");
    CHECK(!changed || (sl && vh_same(&r, &a)) || (sr && vh_same(&r, &b)) || (sl && sr && vh_same(&r, &c)), "a statement is only changed by merging repeated components or joining sets");
    for(int i=0; i<POOLN; i++) { if(vh_pool_c0[i] >= 'a' && vh_pool_c0[i] <= 'z') { CHECK(mentions(&r, vh_pool[i]) == mentions(&t, vh_pool[i]), "simplification neither loses nor invents atoms"); } }
    if(changed) { REACH("changed"); } else { REACH("unchanged"); }
}
