/* Anticipation: when a hypothesis' precondition is met (and its operation executed) its consequence is predicted and failure is assumed until it is confirmed. */
#include "pool.h"
#include "uf.h"
#include "Memory.h"
#include "Decision.h"
#include "Inference.h"
#include "InvertedAtomIndex.h"
#include "Globals.h"
static Concept ca, cb, cc, cd;
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
double Truth_c2w(double c) { return 1.0; } /* only weighs time differences, which are equal here */
double __CPROVER_uninterpreted_expectation(double, double);
double Truth_Expectation(Truth v) { double r = __CPROVER_uninterpreted_expectation(v.frequency, v.confidence); __CPROVER_assume(r >= 0.0 && r <= 1.0); return r; }
double round(double x) { return (double) (long) (x + 0.5); }
void InvertedAtomIndex_AddConcept(Term term, Concept *c) {}
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) {}
static void *mapkey[CONCEPTS_MAX], *mapval[CONCEPTS_MAX];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value) { int at = -1; for(int i=CONCEPTS_MAX-1; i>=0; i--) { if(mapkey[i] == NULL) at = i; } for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } } }
#endif
enum { A, B, C, SEQ, TEMP, OP1, OP2 };
#ifndef OPID
#define OPID 1      /* the executed operation (0: none) */
#endif
#ifndef LINKOP
#define LINKOP 1    /* the table the hypothesis is stored in */
#endif
#ifndef VALID
#define VALID 1     /* whether the precondition's concept is still the one the hypothesis was linked to */
#endif
static Term atomt(int k) { Term t = {0}; t.atoms[0] = vh_pool[k]; return t; }
static bool imp_same(Implication *a, Implication *b) { return vh_same(&a->term, &b->term) & tr_same(a->truth, b->truth) & st_same(&a->stamp, &b->stamp) & a->occurrenceTimeOffset == b->occurrenceTimeOffset & a->sourceConcept == b->sourceConcept & a->sourceConceptId == b->sourceConceptId; }
static bool ev_same(Event *a, Event *b) { return vh_same(&a->term, &b->term) & a->type == b->type & tr_same(a->truth, b->truth) & st_same(&a->stamp, &b->stamp) & a->occurrenceTime == b->occurrenceTime; }
void h(void)
{
    vh_init(); nd_clock(); Memory_INIT();
    PRINT_DERIVATIONS = false; PRINT_INPUT = false;
    concepts.items[0].address = &ca; concepts.items[1].address = &cb; concepts.items[2].address = &cc; concepts.items[3].address = &cd;
    operations[0].term.atoms[0] = vh_pool[OP1]; operations[1].term.atoms[0] = vh_pool[OP2];
    long now = nd_time();
    Term ta = atomt(A), tb = atomt(B);
    Concept *a = Memory_Conceptualize(&ta, 1), *b = Memory_Conceptualize(&tb, 1);
    a->belief_spike.term = ta; a->belief_spike.type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED; a->belief_spike.truth = nd_truth(); a->belief_spike.stamp = nd_stamp_small(3);
    a->belief_spike.occurrenceTime = now - nd_range(0, 2); ASSUME(st_len(&a->belief_spike.stamp) > 0);
    if(nd_bool()) { b->predicted_belief.term = tb; b->predicted_belief.type = EVENT_TYPE_BELIEF; b->predicted_belief.truth = nd_truth(); b->predicted_belief.stamp = nd_stamp_small(3); b->predicted_belief.occurrenceTime = now + 1; }
    Implication m = {0};
    m.term.atoms[0] = vh_pool[TEMP]; m.term.atoms[2] = vh_pool[B]; m.term.atoms[1] = vh_pool[A];
    if(LINKOP > 0) { m.term.atoms[1] = vh_pool[SEQ]; m.term.atoms[3] = vh_pool[A]; m.term.atoms[4] = vh_pool[LINKOP == 1 ? OP1 : OP2]; }
    m.truth = nd_truth(); m.stamp = nd_stamp_small(3); ASSUME(st_len(&m.stamp) > 0);
    m.occurrenceTimeOffset = nd_range(1, 3); m.sourceConcept = a; m.sourceConceptId = VALID ? a->id : a->id + 7; m.creationTime = 1;
#ifdef STALEFIRST /* another hypothesis before it, about a forgotten precondition */
    Implication old = m; old.term.atoms[LINKOP > 0 ? 3 : 1] = vh_pool[C]; old.sourceConceptId = a->id + 7;
    b->precondition_beliefs[LINKOP].array[0] = old; b->precondition_beliefs[LINKOP].array[1] = m; b->precondition_beliefs[LINKOP].itemsAmount = 2;
#else
    b->precondition_beliefs[LINKOP].array[0] = m; b->precondition_beliefs[LINKOP].itemsAmount = 1;
#endif
    Event spike = a->belief_spike, pred0 = b->predicted_belief;
    Term opterm = OPID > 0 ? operations[OPID-1].term : (Term) {0};
    Decision_Anticipate(OPID, opterm, false, now);
    Table *t = &b->precondition_beliefs[LINKOP];
    /* what the hypothesis predicts */
    Event op = { .type = EVENT_TYPE_BELIEF, .truth = { .frequency = 1.0, .confidence = 0.9 }, .occurrenceTime = now };
    bool ok; Event seq = Inference_BeliefIntersection(&spike, &op, &ok);
    Event result = Inference_BeliefDeduction(OPID == 0 ? &spike : &seq, &m);
    bool applies = VALID && OPID == LINKOP && spike.type != EVENT_TYPE_DELETED;
    bool predicts = Truth_Expectation(result.truth) > ANTICIPATION_THRESHOLD || (result.truth.confidence < SUBSUMPTION_CONFIDENCE_THRESHOLD && result.truth.frequency == 0.0);
    CHECK(ev_same(&a->belief_spike, &spike), "the precondition itself is not modified");
    for(int o=0; o<=OPERATIONS_MAX; o++) { CHECK(o == LINKOP || b->precondition_beliefs[o].itemsAmount == 0, "no other table changes"); CHECK(a->precondition_beliefs[o].itemsAmount == 0, "no other concept's table changes"); }
    if(!VALID && OPID == LINKOP) { CHECK(t->itemsAmount == 0, "a hypothesis whose precondition was forgotten is dropped"); CHECK(pred0.type == b->predicted_belief.type, "and predicts nothing"); 
#if !VALID && OPID == LINKOP
    REACH("invalid");
#endif
    return; }
    CHECK(t->itemsAmount == 1, "the hypothesis is kept");
    Implication *r = &t->array[0];
    if(!(applies && predicts))
    {
        CHECK(imp_same(r, &m), "a hypothesis that does not apply is left alone");
        CHECK(pred0.type == b->predicted_belief.type && (pred0.type == EVENT_TYPE_DELETED || ev_same(&pred0, &b->predicted_belief)), "a hypothesis that does not apply predicts nothing");
#if VALID || OPID != LINKOP
        REACH("not applied");
#endif
        return;
    }
#if VALID && OPID == LINKOP
    Implication neg = m;
    neg.truth = Truth_Eternalize(Truth_Induction((Truth) { .frequency = 0.0, .confidence = ANTICIPATION_CONFIDENCE }, Truth_Projection(spike.truth, 0, (long) m.occurrenceTimeOffset)));
    CHECK(tr_same(r->truth, Truth_Revision(m.truth, neg.truth)), "the hypothesis is revised with the assumed failure, as weak as its precondition is certain");
    CHECK(vh_same(&r->term, &m.term) && r->occurrenceTimeOffset == m.occurrenceTimeOffset && r->sourceConcept == m.sourceConcept && r->sourceConceptId == m.sourceConceptId, "everything else about the hypothesis stays");
    CHECK(r->truth.confidence >= m.truth.confidence, "assuming failure does not take away evidence");
    Stamp none = {0};
    CHECK(st_merged(&r->stamp, &m.stamp, &none), "the assumption of failure adds no evidence of its own");
    if(st_overlap(&spike.stamp, &m.stamp)) { CHECK(pred0.type == b->predicted_belief.type && (pred0.type == EVENT_TYPE_DELETED || ev_same(&pred0, &b->predicted_belief)), "evidence is not used twice in predicting"); REACH("overlap"); }
    else { Event x = Inference_RevisionAndChoice(&pred0, &result, now, NULL); CHECK(ev_same(&x, &b->predicted_belief), "the consequence is predicted"); REACH("predicted"); }
#endif
}
