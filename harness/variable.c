/* Unification, substitution, variable normalization. */
#include "pool.h"
#include "Globals.h"
#ifndef TN
#define TN 7          /* nodes of the symbolic terms */
#endif
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
#endif
#ifndef GN
#define GN TN
#endif
static bool vardisjoint(Term *a, Term *b)
{
    bool r = true;
    for(int i=0; i<TN; i++) { for(int j=0; j<TN; j++) { r = r & !(vh_var(a->atoms[i]) & (a->atoms[i] == b->atoms[j])); } }
    return r;
}
static bool subtree_same(Term *t, int i, int j)
{
    bool r = true;
    for(int k=0; k<TN; k++) { int a = vh_map(i,k), b = vh_map(j,k); Atom x = a >= 0 && a < TN ? t->atoms[a] : 0, y = b >= 0 && b < TN ? t->atoms[b] : 0; r = r & (x == y); }
    return r;
}
static void unify(bool queryOnly)
{
    vh_init();
    Term g = nd_term(GN), s = nd_term(TN);
    ASSUME(vardisjoint(&g, &s)); /* variables of the two terms are named apart */
    Truth tr = {0};
    Term g0 = g, s0 = s;
    Substitution sub = queryOnly ? Variable_Unify2(tr, &g, &s, true) : Variable_Unify(&g, &s);
    CHECK(vh_same(&g, &g0) && vh_same(&s, &s0), "unification leaves its operands alone");
    bool match = true, under[TN] = {0}, bindable[TN];
    for(int i=0; i<TN; i++)
    {
        if(i > 0) { under[i] = under[(i-1)/2] | bindable[(i-1)/2]; }
        Atom a = g.atoms[i];
        bindable[i] = !under[i] & (queryOnly ? vh_is(a, '?', true) : vh_var(a));
        if(bindable[i])
        {
            match = match & s.atoms[i] != 0 & !vh_cop(s.atoms[i], '@') & !(vh_is(a, '?', true) & vh_var(s.atoms[i]));
            for(int j=0; j<i; j++) { if(bindable[j] && g.atoms[j] == a) { match = match & subtree_same(&s, i, j); } }
        }
        else if(!under[i]) { match = match & (a == s.atoms[i]); }
    }
    CHECK(!sub.success || match, "unification succeeds only on matching terms with consistent bindings");
    CHECK(sub.success || !match, "unification succeeds on every match");
    if(sub.success)
    {
        bool ok = false;
        Term r = Variable_ApplySubstitute(g, sub, &ok);
        CHECK(ok, "substituting into the matched term always fits");
        if(queryOnly) { for(int i=0; i<TN; i++) { CHECK(under[i] || bindable[i] || r.atoms[i] == g.atoms[i], "only question variables are bound in question mode"); } }
        CHECK(vh_same(&r, &s), "substituting the bindings into the general term yields the specific term");
        REACH("unified");
    }
    REACH("end");
}
void h_unify(void) { unify(false); }
void h_unify_query(void) { unify(true); }

/* substitution into another term (a conclusion): exactly the bound variables are replaced, by exactly their bindings */
void h_apply(void)
{
    vh_init();
    Term t = nd_term(TN);
    Substitution sub = {0}; sub.success = true;
    /* bindings for the first two variables of the pool; ground, three atoms at most */
    Term b[2]; bool have[2];
    for(int v=0; v<2; v++)
    {
        b[v] = nd_term(3); have[v] = nd_bool();
        for(int i=0; i<3; i++) { ASSUME(!vh_var(b[v].atoms[i])); }
        if(have[v]) { sub.map[vh_pool[v]] = b[v]; }
    }
    bool fits = true, touched[NMAX] = {0};
    for(int i=0; i<TN; i++) { for(int v=0; v<2; v++) { if(have[v] && t.atoms[i] == vh_pool[v])
    {
        for(int k=0; k<3; k++) { int m = vh_map(i, k); if(m < 0) { fits = fits & (b[v].atoms[k] == 0); } else { touched[m] = true; } }
    } } }
    bool ok = false;
    Term r = Variable_ApplySubstitute(t, sub, &ok);
    CHECK(ok == fits, "substitution reports failure exactly when a binding does not fit");
    if(ok)
    {
        for(int i=0; i<TN; i++) { for(int v=0; v<2; v++) { if(have[v] && t.atoms[i] == vh_pool[v])
        {
            for(int k=0; k<3; k++) { int m = vh_map(i, k); if(m >= 0) { CHECK(r.atoms[m] == b[v].atoms[k], "a bound variable is replaced by its binding"); } }
        } } }
        for(int i=0; i<NMAX; i++) { CHECK(touched[i] || r.atoms[i] == t.atoms[i], "everything but bound variables is left alone"); }
        REACH("substituted");
    }
    REACH("end");
}

/* renaming: injective per kind, numbered by first occurrence, nothing else changes */
void h_normalize(void)
{
    vh_init();
    Term t = nd_term(TN), r = t;
    Variable_Normalize(&r);
    for(int i=0; i<NMAX; i++)
    {
        bool var = vh_var(t.atoms[i]);
        if(!var) { CHECK(r.atoms[i] == t.atoms[i], "atoms that are not variables are left alone"); continue; }
        CHECK(vh_c0(r.atoms[i]) == vh_c0(t.atoms[i]), "a variable keeps its kind");
        for(int j=0; j<i; j++)
        {
            if(vh_var(t.atoms[j])) { CHECK((r.atoms[i] == r.atoms[j]) == (t.atoms[i] == t.atoms[j]), "different variables stay different and equal ones equal"); }
        }
    }
    for(int i=0; i<TN; i++) if(vh_var(t.atoms[i]))
    {
        bool first = true; int rank = 1;
        for(int j=0; j<i; j++)
        {
            if(t.atoms[j] == t.atoms[i]) { first = false; }
            bool f = vh_var(t.atoms[j]) & (vh_c0(t.atoms[j]) == vh_c0(t.atoms[i])) & (t.atoms[j] != t.atoms[i]);
            for(int k=0; k<j; k++) { f = f & (t.atoms[k] != t.atoms[j]); }
            rank += f;
        }
        if(first) { CHECK(vh_c1(r.atoms[i]) == '0' + rank, "variables are numbered by first occurrence within their kind"); }
    }
    Term q = r; Variable_Normalize(&q);
    CHECK(vh_same(&q, &r), "normalizing twice changes nothing");
    REACH("end");
}
void h_has(void)
{
    vh_init();
    Term t = nd_term(TN); bool i = nd_bool(), d = nd_bool(), q = nd_bool(), want = false;
    for(int k=0; k<TN; k++) { want = want | (i & vh_is(t.atoms[k], '$', true)) | (d & vh_is(t.atoms[k], '#', true)) | (q & vh_is(t.atoms[k], '?', true)); }
    CHECK(Variable_hasVariable(&t, i, d, q) == want, "variable occurrence test covers exactly the kinds asked for");
    REACH("end");
}
