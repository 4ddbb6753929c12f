/* Implication tables: terms are told apart only by equality, so the table's terms are concrete and the rest is symbolic. */
#define POOLN 1
#include "wf.h"
#include "uf.h"
#include "Table.h"
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
double __CPROVER_uninterpreted_expectation(double, double);
double Truth_Expectation(Truth v)
{
    double r = __CPROVER_uninterpreted_expectation(v.frequency, v.confidence);
    __CPROVER_assume(r >= 0.0 && r <= 1.0);
    for(int i=0; i<NGF; i++) { for(int j=0; j<NGC; j++) { if(v.frequency == GF[i] && v.confidence == GC[j]) { r = GC[j] * (GF[i] - 0.5) + 0.5; } } }
    return r;
}
#endif
#ifndef REPLAY
double Truth_c2w(double c) { return 1.0; } /* only weighs time differences here, which are equal below (decided by imprevision) */
#endif
#define T TABLE_SIZE
#ifndef NITEMS
#define NITEMS 2
#endif
static int cA, cB;
static Term term_of(int k) { Term t = {0}; t.atoms[0] = 1; t.atoms[1] = 2 + k; t.atoms[2] = 2; return t; }
static Implication nd_imp(int k)
{
    Implication m = {0};
    m.term = term_of(k); m.truth = nd_truth(); m.stamp = nd_stamp_small(4); m.occurrenceTimeOffset = 2; m.creationTime = nd_range(1, 9);
    m.sourceConcept = nd_bool() ? (void*) &cA : (void*) &cB; m.sourceConceptId = nd_range(1, 3);
    return m;
}
static bool imp_same(Implication *a, Implication *b)
{
    return vh_same(&a->term, &b->term) & tr_same(a->truth, b->truth) & st_same(&a->stamp, &b->stamp) & a->occurrenceTimeOffset == b->occurrenceTimeOffset & a->sourceConcept == b->sourceConcept &
           a->sourceConceptId == b->sourceConceptId & a->creationTime == b->creationTime;
}
static Table tab(int n)
{
    Table t = {0};
    for(int i=0; i<n; i++) { t.array[i] = nd_imp(i); if(i > 0) { ASSUME(Truth_Expectation(t.array[i-1].truth) >= Truth_Expectation(t.array[i].truth)); } }
    t.itemsAmount = n;
    return t;
}
static bool sorted(Table *t) { bool r = true; for(int i=1; i<T; i++) { if(i < t->itemsAmount) r = r & Truth_Expectation(t->array[i-1].truth) >= Truth_Expectation(t->array[i].truth); } return r; }
/* entry x is in the table exactly once; o entries before it keep their order */
static int count(Table *t, Implication *x) { int n = 0; for(int i=0; i<T; i++) { if(i < t->itemsAmount) n += imp_same(&t->array[i], x); } return n; }
static bool order_kept(Table *t, Table *t0, int n0)
{
    bool r = true;
    for(int x=0; x<n0; x++) for(int y=x+1; y<n0; y++)
    {
        int px = -1, py = -1;
        for(int i=0; i<T; i++) { if(i < t->itemsAmount) { if(vh_same(&t->array[i].term, &t0->array[x].term)) px = i; if(vh_same(&t->array[i].term, &t0->array[y].term)) py = i; } }
        r = r & (px < 0 | py < 0 | px < py);
    }
    return r;
}
static bool distinct(Table *t) { bool r = true; for(int i=0; i<T; i++) for(int j=0; j<i; j++) { if(i < t->itemsAmount) r = r & !vh_same(&t->array[i].term, &t->array[j].term); } return r; }
/* a hypothesis about a new term */
static void add_new(int n)
{
    Table t = tab(n), t0 = t; Implication m = nd_imp(9), m0 = m;
    Implication *p = Table_AddAndRevise(&t, &m);
    bool room = n < T, better = n > 0 && Truth_Expectation(m0.truth) > Truth_Expectation(t0.array[n-1].truth);
    CHECK(imp_same(&m, &m0), "the added hypothesis itself is not modified");
    CHECK((p != NULL) == (room || better), "a hypothesis enters a full table exactly when it is stronger than the weakest entry");
    CHECK(t.itemsAmount == (room ? n+1 : n), "the table grows up to its size");
    CHECK(sorted(&t), "the table is ordered by descending truth expectation");
    CHECK(distinct(&t), "no two entries have the same term");
    CHECK(order_kept(&t, &t0, n), "entries keep their relative order");
    CHECK(count(&t, &m0) == (p != NULL), "the new hypothesis is stored once and unchanged");
    for(int i=0; i<n; i++) { CHECK(count(&t, &t0.array[i]) == (!room && p != NULL && i == n-1 ? 0 : 1), "only the weakest entry of a full table is dropped"); }
    for(int i=0; i<T; i++) { CHECK(p != &t.array[i] || imp_same(&t.array[i], &m0), "the returned entry is the added one"); }
    REACH("added");
}
/* a hypothesis whose term is present at position k */
static void add_same(int n, int k)
{
    Table t = tab(n), t0 = t; Implication m = nd_imp(k), m0 = m;
    Truth want = Truth_Revision(t0.array[k].truth, m0.truth);
    Implication *p = Table_AddAndRevise(&t, &m);
    CHECK(p != NULL && t.itemsAmount == n, "a revised hypothesis stays in the table");
    CHECK(sorted(&t) && distinct(&t), "the table stays ordered and free of duplicates");
    int found = 0;
    for(int i=0; i<T; i++) if(i < t.itemsAmount && vh_same(&t.array[i].term, &m0.term))
    {
        found++;
        CHECK(tr_same(t.array[i].truth, want), "an entry with the same term is replaced by the revision of both");
        CHECK(st_merged(&t.array[i].stamp, &t0.array[k].stamp, &m0.stamp), "the revised entry carries the evidence of both");
        CHECK(t.array[i].sourceConcept == t0.array[k].sourceConcept && t.array[i].sourceConceptId == t0.array[k].sourceConceptId, "the revised entry keeps its link to the precondition's concept");
        CHECK(p == &t.array[i], "the revised entry is returned");
    }
    CHECK(found == 1, "the term stays in the table exactly once");
    for(int i=0; i<n; i++) { if(i != k) { CHECK(count(&t, &t0.array[i]) == 1, "other entries are untouched"); } }
    REACH("revised");
}
static void rem(int n, int k)
{
    Table t = tab(n), t0 = t;
    Table_Remove(&t, k);
    CHECK(t.itemsAmount == n-1, "one entry less");
    for(int i=0; i<n-1; i++) { CHECK(imp_same(&t.array[i], &t0.array[i < k ? i : i+1]), "exactly the given entry is removed and the order is kept"); }
    REACH("removed");
}
void h_new(void) { add_new(NITEMS); }
void h_same(void) { for(int k=0; k<NITEMS; k++) { add_same(NITEMS, k); } }
void h_remove(void) { for(int k=0; k<NITEMS; k++) { rem(NITEMS, k); } }
