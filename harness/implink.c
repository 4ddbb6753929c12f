/* Where a learned implication is stored: in the table of its operation at the concept of its consequence, linked to the concept of its precondition. */
#include "pool.h"
#include "uf.h"
#include "Memory.h"
#include "Inference.h"
#include "InvertedAtomIndex.h"
#include "Globals.h"
static Concept s0, s1, s2, s3;
static Concept *slot(int i) { return i == 0 ? &s0 : i == 1 ? &s1 : i == 2 ? &s2 : &s3; }
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
double __CPROVER_uninterpreted_log2(double);
double log2(double x) { double r = __CPROVER_uninterpreted_log2(x); __CPROVER_assume(r >= 1.0 && r <= 7.0); return r; }
void InvertedAtomIndex_AddConcept(Term term, Concept *c) {}
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) {}
static void *mapkey[CONCEPTS_MAX], *mapval[CONCEPTS_MAX];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value) { int at = -1; for(int i=CONCEPTS_MAX-1; i>=0; i--) { if(mapkey[i] == NULL) at = i; } for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } } }
#endif
/* pool: a b : $ ? + ^p ^q ^r ; the registered operations are ^p (1) and ^q (2) */
enum { A, B, INH, TEMP, IMPL, SEQ, OP1, OP2, OP3 };
static Term sub(Term *t, int j) { Term r = {0}; for(int k=0; k<NMAX; k++) { int i = vh_map(j, k); if(i >= 0) r.atoms[k] = t->atoms[i]; } return r; }
/* 0: <a =/> b>, 1: <(a &/ ^x) =/> b>, 2: <a ==> b>, 3: <(a &/ b) =/> a>, 4: <((a &/ b) &/ ^x) =/> b> */
#ifndef SHAPE
#define SHAPE 1
#endif
void h(void)
{
    vh_init(); nd_clock(); Memory_INIT();
    PRINT_DERIVATIONS = false; PRINT_INPUT = false;
    for(int i=0; i<CONCEPTS_MAX; i++) { concepts.items[i].address = slot(i); }
    operations[0].term.atoms[0] = vh_pool[OP1]; operations[1].term.atoms[0] = vh_pool[OP2];
    long now = nd_time(); int op = OP; /* which operation */
    Event e = {0};
    e.type = EVENT_TYPE_BELIEF; e.truth = nd_truth(); e.stamp = nd_stamp_small(3); ASSUME(st_len(&e.stamp) > 0); ASSUME(e.truth.confidence >= MIN_CONFIDENCE);
    e.occurrenceTime = nd_bool() ? OCCURRENCE_ETERNAL : now; e.occurrenceTimeOffset = nd_range(0, 4);
    Term *t = &e.term; Atom x = vh_pool[op == 1 ? OP1 : op == 2 ? OP2 : OP3];
    t->atoms[0] = vh_pool[SHAPE == 2 ? IMPL : TEMP]; t->atoms[2] = vh_pool[B]; t->atoms[1] = vh_pool[A];
    if(SHAPE == 1) { t->atoms[1] = vh_pool[SEQ]; t->atoms[3] = vh_pool[A]; t->atoms[4] = x; }
    if(SHAPE == 3) { t->atoms[1] = vh_pool[SEQ]; t->atoms[3] = vh_pool[A]; t->atoms[4] = vh_pool[B]; t->atoms[2] = vh_pool[A]; }
    if(SHAPE == 4) { t->atoms[1] = vh_pool[SEQ]; t->atoms[3] = vh_pool[SEQ]; t->atoms[4] = x; t->atoms[7] = vh_pool[A]; t->atoms[8] = vh_pool[B]; }
    Event e0 = e;
    Memory_AddEvent(&e, now, 1.0, true, false, false, 0);
    bool withop = SHAPE == 1 || SHAPE == 4;
    Term cons = sub(&e0.term, 2), prec = withop ? sub(&e0.term, 3) : sub(&e0.term, 1);
    Event ee = Event_Eternalized(&e0);
    Concept *cc = Memory_FindConceptByTerm(&cons), *pc = Memory_FindConceptByTerm(&prec);
    CHECK(cc != NULL && pc != NULL, "consequence and precondition have a concept");
    int where = SHAPE == 2 ? -1 : withop ? (op == 3 ? 0 : op) : 0;
    for(int i=0; i<CONCEPTS_MAX; i++) for(int o=-1; o<=OPERATIONS_MAX; o++)
    {
        Concept *c = slot(i);
        Table *tb = o < 0 ? &c->implication_links : &c->precondition_beliefs[o];
        bool here = c == cc && o == where;
        CHECK(tb->itemsAmount == (here ? 1 : 0), "the implication is stored exactly in the table of its operation at the concept of its consequence");
        if(here)
        {
            Implication *m = &tb->array[0];
            CHECK(vh_same(&m->term, &e0.term) && tr_same(m->truth, ee.truth) && st_same(&m->stamp, &e0.stamp) && m->occurrenceTimeOffset == e0.occurrenceTimeOffset, "it is stored with its eternalized truth, its evidence and its time distance");
            CHECK(m->sourceConcept == pc && m->sourceConceptId == pc->id, "it is linked to the concept of its precondition (without the operation)");
            CHECK(Memory_ImplicationValid(m), "the link is valid");
        }
    }
    CHECK(cycling_belief_events.itemsAmount == (SHAPE == 2 ? 1 : 0), "temporal implications are not cycled as events, declarative ones are");
    Concept *own = Memory_FindConceptByTerm(&e0.term);
    CHECK((own != NULL) == (SHAPE == 2), "temporal implications form no concept, declarative ones do");
    if(own) { CHECK(own->belief.type == EVENT_TYPE_BELIEF && tr_same(own->belief.truth, ee.truth), "a declarative implication is also a belief"); }
    REACH("end");
}
