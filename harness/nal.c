/* What is done with a derived statement: admission, evidence, time and priority; variable introduction variants. */
#include "pool.h"
#include "uf.h"
#include "NAL.h"
#include "Memory.h"
#include "Globals.h"
#ifndef TN
#define TN 7
#endif
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
double __CPROVER_uninterpreted_expectation(double, double);
double Truth_Expectation(Truth v) { double r = __CPROVER_uninterpreted_expectation(v.frequency, v.confidence); __CPROVER_assume(r == 0.0 || r == 0.25 || r == 0.5 || r == 1.0); return r; }
bool Term_Equal(Term *a, Term *b) { return vh_same(a, b); } /* decided by C06 */
#endif
typedef struct { Event e; long now; double priority; bool input, derived, revised; int layer; } Rec;
static Rec rec[3]; static int recs;
void Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    for(int i=0; i<3; i++) { if(i == recs) { rec[i] = (Rec) { .e = *e, .now = now, .priority = priority, .input = input, .derived = derived, .revised = revised, .layer = layer }; } }
    recs++;
}
static Atom at_(Term *t, int j) { return j < NMAX ? t->atoms[j] : 0; }
static bool oper(Atom a) { return vh_is(a, '^', true); }
static bool isop(Term *t, int j) { return oper(at_(t, j)) | (vh_cop(at_(t, j), ':') & vh_cop(at_(t, 2*j+1), '*') & oper(at_(t, 2*j+2)) & vh_cop(at_(t, 4*j+3), '"')); }
static bool junction(Atom a) { return vh_cop(a, ';') | vh_cop(a, '_'); }
/* the forms that must not be added */
static bool mentions_twice(Term *t)
{
    if(!(vh_cop(t->atoms[0], ':') | vh_cop(t->atoms[0], '='))) return false;
    if(vh_cop(at_(t, 1), '*') & vh_cop(at_(t, 3), '*') & vh_cop(at_(t, 4), '*')) return false; /* relations between relations */
    bool r = false;
    for(int i=0; i<TN; i++) { for(int j=0; j<i; j++) { r = r | ((t->atoms[i] == t->atoms[j]) & vh_simple(t->atoms[i])); } }
    return r;
}
static bool tautology(Term *t)
{
    if(!(vh_cop(t->atoms[0], '?') | vh_cop(t->atoms[0], '^'))) return false;
    bool r = true;
    for(int k=0; k<TN; k++) { int i = vh_map(1, k), j = vh_map(2, k); r = r & ((i < 0 ? 0 : t->atoms[i]) == (j < 0 ? 0 : t->atoms[j])); }
    return r;
}
static bool nested(Term *t) { int n = 0, m = 0; for(int i=0; i<TN; i++) { n += vh_cop(t->atoms[i], '?') | vh_cop(t->atoms[i], '^'); m += vh_cop(t->atoms[i], '$'); } return n >= 2 | m > 2; }
static bool depvar(Term *t) { bool r = false; for(int i=0; i<TN; i++) { r = r | vh_is(t->atoms[i], '#', true); } return r & (vh_cop(t->atoms[0], ':') | vh_cop(t->atoms[0], '=')); }
static bool rightnested(Term *t) { bool r = false; for(int i=0; 2*i+2<TN; i++) { r = r | (junction(t->atoms[i]) & junction(t->atoms[2*i+2])); } return r; }
static bool setop(Term *t)
{
    return vh_cop(t->atoms[0], ':') & ((vh_cop(at_(t, 1), '&') & vh_cop(at_(t, 3), '"') & vh_cop(at_(t, 4), '"')) | (vh_cop(at_(t, 2), '|') & vh_cop(at_(t, 5), '\'') & vh_cop(at_(t, 6), '\'')));
}
static bool single(Term *t)
{
    bool r = false;
    for(int i=0; i<TN; i++) if(vh_is(t->atoms[i], '$', true) | vh_is(t->atoms[i], '#', true))
    {
        int n = 0; for(int j=0; j<TN; j++) { n += t->atoms[j] == t->atoms[i]; }
        r = r | (n == 1);
    }
    return r;
}
static bool opfirst(Term *t)
{
    if(!((vh_cop(t->atoms[0], '?') | vh_cop(t->atoms[0], '^')) & vh_cop(at_(t, 1), ';'))) return false;
    int j = 1; bool r = false, on = true;
    for(int d=0; d<4; d++) { on = on & vh_cop(at_(t, j), ';'); j = 2*j+1; r = r | (on & isop(t, j)); }
    return r;
}
static bool illformed(Term *t) { return mentions_twice(t) | tautology(t) | nested(t) | depvar(t) | rightnested(t) | setop(t) | single(t) | opfirst(t); }
static Concept vc;
static struct { long occ, now, vid; Truth tr; Stamp st; double pp, cp, off; Concept *v; bool usev; } in;
static void gen(void)
{
    vh_init(); nd_clock(); recs = 0; PRINT_DERIVATIONS = false;
    in.occ = nd_time(); in.now = nd_time(); in.tr = nd_truth(); in.st = nd_stamp_small(3); in.pp = nd_grid(0, 4, 4.0); in.cp = nd_grid(0, 4, 4.0); in.off = nd_grid(-4, 4, 4.0);
    if(nd_bool()) { in.occ = OCCURRENCE_ETERNAL; }
    vc.id = nd_range(0, 2); in.vid = nd_range(0, 2); in.v = nd_bool() ? &vc : NULL;
}
static void same_as_input(Rec *r, Term *t)
{
    CHECK(vh_same(&r->e.term, t), "the statement added is the conclusion, unchanged");
    CHECK(r->e.type == EVENT_TYPE_BELIEF && !r->input && r->derived && !r->revised && r->layer == 0, "a conclusion is added as a derived belief");
    CHECK(tr_same(r->e.truth, in.tr), "a conclusion keeps its truth value");
    CHECK(st_same(&r->e.stamp, &in.st), "a conclusion's evidence is that of its premises");
    CHECK(r->e.occurrenceTime == in.occ && r->e.occurrenceTimeOffset == in.off, "a conclusion's time is that given by its premises");
    CHECK(r->now == in.now && r->e.creationTime == in.now, "a conclusion is dated with the current time");
    CHECK(!r->e.processed, "a conclusion is not marked processed");
    double x = Truth_Expectation(in.tr); CHECK(r->priority == in.cp * in.pp * x || r->priority == in.pp * x * in.cp, "a conclusion's priority comes from the premises' and its own expectation");
}
#ifdef ROOT
#define ISROOT(a) vh_cop(a, ROOT)
#else
#define ISROOT(a) true
#endif
#if defined(H_FILTER)
void h_filter(void)
{
    gen();
#ifdef TWICE
    /* an earlier conclusion does not influence the verdict */
    Term t1 = nd_term(3); NAL_DerivedEvent(t1, in.occ, in.tr, in.st, in.now, in.pp, in.cp, in.off, NULL, 0, false, false); recs = 0;
#endif
    Term t = nd_term(TN), t0 = t; ASSUME(ISROOT(t.atoms[0]));
    bool bad = illformed(&t), recycled = in.v != NULL && vc.id != in.vid;
    NAL_DerivedEvent(t, in.occ, in.tr, in.st, in.now, in.pp, in.cp, in.off, in.v, in.vid, false, false);
    CHECK(recs == 0 || !bad, "an ill-formed conclusion is not added");
    CHECK(recs == 0 || !recycled, "a conclusion from a recycled concept is not added");
    CHECK(recs == 1 || bad || recycled, "a well-formed conclusion is added once");
    if(recs == 1) { same_as_input(&rec[0], &t0); REACH("added"); }
    else { REACH("refused"); }
}
#endif
#if defined(H_VARIANTS)
/* introduction of variables (decided by C09) yields some statement or fails */
static Term t0, vext, vint; static bool sext, sint; static int asked[2];
static Term intro(Term t, bool *ok, bool ext, bool conj)
{
    CHECK(vh_same(&t, &t0), "variables are introduced into the conclusion");
    CHECK(conj == vh_cop(t0.atoms[0], ';'), "the way variables are introduced fits the statement");
    asked[ext ? 0 : 1]++;
    *ok = ext ? sext : sint; return ext ? vext : vint;
}
Term Variable_IntroduceImplicationVariables(Term t, bool *ok, bool ext) { return intro(t, ok, ext, false); }
Term Variable_IntroduceConjunctionVariables(Term t, bool *ok, bool ext) { return intro(t, ok, ext, true); }
static bool hasvar(Term *t, int j, bool indepOnly) { bool r = false; for(int k=0; k<TN; k++) { int i = vh_map(j, k); if(i >= 0) { r = r | vh_is(t->atoms[i], '$', true) | (!indepOnly & vh_is(t->atoms[i], '#', true)); } } return r; }
static bool hasatom(Term *t, int j) { bool r = false; for(int k=0; k<TN; k++) { int i = vh_map(j, k); if(i >= 0) { r = r | vh_simple(t->atoms[i]); } } return r; }
static bool ivar(Atom a) { return vh_is(a, '$', true) | vh_is(a, '#', true); }
/* verdict about the statements (inheritance/similarity) a generalized variant consists of: -1 meaningless, 1 fine, 0 either */
static int part(Term *t, int j)
{
    Atom c = at_(t, j);
    if(!(vh_cop(c, ':') | vh_cop(c, '='))) return 1;
    if(2*j+2 >= TN) return 0;
    Atom l = at_(t, 2*j+1), r = at_(t, 2*j+2);
    bool same = true; for(int k=0; k<TN; k++) { int x = vh_map(2*j+1, k), y = vh_map(2*j+2, k); same = same & ((x < 0 ? 0 : t->atoms[x]) == (y < 0 ? 0 : t->atoms[y])); }
    if(same | (ivar(l) & ivar(r)) | !hasvar(t, j, false) | !hasatom(t, j)) return -1;
    return ((ivar(l) & vh_simple(r)) | (vh_simple(l) & ivar(r))) ? 1 : 0;
}
static bool logical(Atom c) { return vh_cop(c, '?') | vh_cop(c, '^') | vh_cop(c, ';') | vh_cop(c, '_'); }
static int parts(Term *t)
{
    int r = 1;
    if(!logical(t->atoms[0])) return 1;
    for(int j=1; j<TN; j++) if(j <= 2 || logical(at_(t, (j-1)/2))) { int v = part(t, j); if(v < r) { r = v; } }
    return r;
}
static int variant(Term *v, bool ok, bool imp)
{
    if(!ok | vh_same(v, &t0) | illformed(v)) return -1;
    if((vh_cop(v->atoms[0], '?') | vh_cop(v->atoms[0], '^')) & !hasvar(v, 0, true)) return -1;
    return parts(v);
}
void h_variants(void)
{
    gen();
    t0 = nd_term(TN); ASSUME(ISROOT(t0.atoms[0]));
    vext = nd_term(TN); vint = nd_term(TN); sext = nd_bool(); sint = nd_bool(); asked[0] = asked[1] = 0;
    ASSUME(vext.atoms[0] == t0.atoms[0] && vint.atoms[0] == t0.atoms[0]); /* introduction leaves the structure alone */
    bool only = nd_bool(), recycled = in.v != NULL && vc.id != in.vid;
    char root = ROOT; bool conj = root == ';', imp = root == '?' || root == '^', temp = root == '$';
    if(conj) { ASSUME(!only); } /* the restriction concerns implications */
    NAL_DerivedEvent(t0, in.occ, in.tr, in.st, in.now, in.pp, in.cp, in.off, in.v, in.vid, true, only);
    bool two = false; for(int i=0; i<TN; i++) { two = two | (vh_is(vext.atoms[i], '$', true) & (vh_c1(vext.atoms[i]) == '2')); }
    int e = variant(&vext, sext, !conj), n = only ? -1 : variant(&vint, sint, !conj), p = temp && !only && !illformed(&t0) ? 1 : -1;
    if(only && !two) { e = -1; }
    if(!(conj || imp || temp)) { e = n = -1; p = illformed(&t0) ? -1 : 1; }
    if(recycled) { e = n = p = -1; }
    CHECK(recs <= (e >= 0) + (n >= 0) + (p >= 0), "nothing is added beyond the generalized variants and, unless it is a declarative implication or conjunction, the statement itself");
    bool fe = false, fn = false, fp = false;
    for(int i=0; i<3; i++) if(i < recs)
    {
        bool me = (e >= 0) & vh_same(&rec[i].e.term, &vext), mn = (n >= 0) & vh_same(&rec[i].e.term, &vint), mp = (p >= 0) & vh_same(&rec[i].e.term, &t0);
        CHECK(me | mn | mp, "what is added is a meaningful generalization or the temporal implication itself");
        fe = fe | me; fn = fn | mn; fp = fp | mp;
        same_as_input(&rec[i], &rec[i].e.term);
    }
    CHECK(e < 1 || fe, "the extensional generalization is added");
    CHECK(n < 1 || fn, "the intensional generalization is added");
    CHECK(p < 1 || fp, "the statement itself is added where it should");
    if(recs == 0) { REACH("none"); } else { REACH("some"); }
}
#endif
