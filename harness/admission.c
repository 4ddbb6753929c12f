/* What happens to an event that is added: admission, concept update, queueing. */
#include "pool.h"
#include "uf.h"
#include "Memory.h"
#include "Inference.h"
#include "InvertedAtomIndex.h"
#include "Globals.h"
static Concept s0, s1, s2;
static Event p0, p1, p2, g0, g1, g2, g3, g4, g5;
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
double __CPROVER_uninterpreted_log2(double);
double log2(double x) { double r = __CPROVER_uninterpreted_log2(x); __CPROVER_assume(r >= 1.0 && r <= 7.0); if(x == 2.0) r = 1.0; if(x == 4.0) r = 2.0; if(x == 8.0) r = 3.0; return r; }
static void *mapkey[CONCEPTS_MAX+1], *mapval[CONCEPTS_MAX+1];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<=CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value)
{
    int at = -1;
    for(int i=CONCEPTS_MAX; i>=0; i--) { if(mapkey[i] == NULL) at = i; }
    for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } }
}
void HashTable_Delete(HashTable *t, void *key) { for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) { mapkey[i] = NULL; } } } }
/* a queue with room takes the item (decided by C10) */
PriorityQueue_Push_Feedback PriorityQueue_Push(PriorityQueue *q, double priority)
{
    PriorityQueue_Push_Feedback f = {0};
    for(int i=0; i<3; i++) { if(i == q->itemsAmount && i < q->maxElements) { q->items[i].priority = priority; f.added = true; f.addedItem = q->items[i]; } }
    CHECK(f.added, "queue in the harness is large enough");
    q->itemsAmount++;
    return f;
}
void InvertedAtomIndex_AddConcept(Term term, Concept *c) {}
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) {}
#endif
static Term term_of(int k)
{
    Term t = {0}; /* 0: <a --> b>, 1: <b --> a> */
    t.atoms[0] = vh_pool[2]; t.atoms[1] = vh_pool[k == 0 ? 0 : 1]; t.atoms[2] = vh_pool[k == 0 ? 1 : 0];
    return t;
}
static Event nd_event(char type, int k, bool eternalToo)
{
    Event e = {0};
    e.term = term_of(k); e.type = type; e.truth = nd_truth(); e.stamp = nd_stamp_small(3);
    ASSUME(st_len(&e.stamp) > 0);
    e.occurrenceTime = eternalToo && nd_bool() ? OCCURRENCE_ETERNAL : nd_time();
    e.creationTime = nd_range(1, 9);
    return e;
}
static Event nd_slot(bool eternal) { Event e = nd_event(EVENT_TYPE_BELIEF, 0, false); if(eternal) { e.occurrenceTime = OCCURRENCE_ETERNAL; } if(nd_bool()) { e.type = EVENT_TYPE_DELETED; } return e; }
static bool ev_same(Event *a, Event *b)
{
    return vh_same(&a->term, &b->term) & a->type == b->type & tr_same(a->truth, b->truth) & st_same(&a->stamp, &b->stamp) & a->occurrenceTime == b->occurrenceTime & a->occurrenceTimeOffset == b->occurrenceTimeOffset;
}
static bool stampset(Stamp *a, Stamp *b) { bool r = st_len(a) == st_len(b); for(int i=0; i<STAMP_SIZE; i++) { r = r & (a->evidentialBase[i] == STAMP_FREE | st_has(b, a->evidentialBase[i])); } return r; }
/* the same event: term, time, truth and evidence */
static bool ev_equal(Event *a, Event *b) { return vh_same(&a->term, &b->term) & tr_same(a->truth, b->truth) & a->occurrenceTime == b->occurrenceTime & stampset(&a->stamp, &b->stamp); }
static int pending(PriorityQueue *q, Event *e)
{
    int n = 0;
    for(int i=0; i<q->itemsAmount && i<3; i++) { n += ev_equal(q->items[i].address, e); }
    return n;
}
static double prio_of(PriorityQueue *q, Event *e)
{
    double p = -1.0;
    for(int i=0; i<q->itemsAmount && i<3; i++) { if(ev_equal(q->items[i].address, e)) p = q->items[i].priority; }
    return p;
}
static void setup(void)
{
    vh_init(); nd_clock();
    Memory_INIT();
    PRINT_DERIVATIONS = false; PRINT_INPUT = false;
    concepts.items[0].address = &s0; concepts.items[1].address = &s1;
    /* same storage, as separate objects */
    cycling_belief_events.items[0].address = &p0; cycling_belief_events.items[1].address = &p1; cycling_belief_events.items[2].address = &p2;
    cycling_goal_events[0].items[0].address = &g0; cycling_goal_events[0].items[1].address = &g1;
    cycling_goal_events[1].items[0].address = &g2; cycling_goal_events[1].items[1].address = &g3;
    cycling_goal_events[2].items[0].address = &g4; cycling_goal_events[2].items[1].address = &g5;
}
/* an event already waiting to be selected */
static Event q0; static double qp0;
static void queue_one(PriorityQueue *q, char type)
{
    q0 = nd_event(type, nd_range(0,1), type == EVENT_TYPE_BELIEF); qp0 = nd_grid(1, 4, 4.0);
    PriorityQueue_Push_Feedback f = PriorityQueue_Push(q, qp0); *(Event*) f.addedItem.address = q0;
}
#ifndef KNOWN
#define KNOWN 1
#endif
#if KNOWN
#define REACH_REVISED REACH("revised")
#else
#define REACH_REVISED
#endif
void h_belief(void)
{
    setup();
    long now = nd_time(); long t = now - nd_range(0, 2);
    Event e = nd_event(EVENT_TYPE_BELIEF, 0, true), e0 = e;
    if(nd_bool()) { e.truth.confidence = 0.005; e0 = e; }
    Concept *c = NULL, c0 = {0};
    if(KNOWN)
    {
        Term term = term_of(0); c = Memory_Conceptualize(&term, 1);
        c->belief = nd_slot(true); c->belief_spike = nd_slot(false); c->predicted_belief = nd_slot(false); c->priority = nd_grid(0, 4, 4.0);
        ASSUME(c->belief_spike.occurrenceTime <= now);
        c0 = *c;
    }
    queue_one(&cycling_belief_events, EVENT_TYPE_BELIEF);
    double priority = nd_grid(0, 4, 4.0); bool input = nd_bool(), revised = nd_bool(); ASSUME(!(input && revised)); RESTRICTED_CONCEPT_CREATION = nd_bool();
    Memory_AddEvent(&e, now, priority, input, !input, revised, 0);
    double pe = input || revised ? priority : priority / 2.0;
    bool admitted = e0.truth.confidence >= MIN_CONFIDENCE && pe > MIN_PRIORITY && pe != 0.0 && !(RESTRICTED_CONCEPT_CREATION && !input && c == NULL);
    CHECK(ev_same(&e, &e0), "the added event itself is not modified");
    Term term = term_of(0); Concept *f = Memory_FindConceptByTerm(&term);
    CHECK(f == c || c == NULL, "the concept stays the same");
    CHECK(cycling_goal_events[0].itemsAmount == 0 && cycling_goal_events[1].itemsAmount == 0, "a belief is not queued as goal");
    int was = ev_equal(&q0, &e0) ? 1 : 0; bool eternal = e0.occurrenceTime == OCCURRENCE_ETERNAL;
    if(!admitted)
    {
        CHECK(f == c, "an event of too little confidence or priority creates no concept");
        CHECK(cycling_belief_events.itemsAmount == 1 && pending(&cycling_belief_events, &q0) == 1, "an event of too little confidence or priority is not queued");
        if(c) CHECK(ev_same(&c->belief, &c0.belief) && ev_same(&c->belief_spike, &c0.belief_spike) && ev_same(&c->predicted_belief, &c0.predicted_belief) && c->priority == c0.priority && c->usage.useCount == c0.usage.useCount, "an event of too little confidence or priority changes no belief");
        REACH("rejected"); return;
    }
    CHECK(f != NULL, "an admitted event has a concept afterwards");
    int oti = occurrenceTimeIndex.itemsAmount;
    CHECK(oti == (eternal ? 0 : 1) && (eternal || OccurrenceTimeIndex_GetKthNewestElement(&occurrenceTimeIndex, 0) == f), "the concept of a dated event enters the occurrence time index");
    Event ee = Event_Eternalized(&e0); bool rev = false;
    Event belief = Inference_RevisionAndChoice(&c0.belief, &ee, now, &rev);
    CHECK(ev_same(&f->belief, &belief), "the concept's eternal belief is revised with (or replaced by, if weaker) the eternalized event");
    if(!eternal && e0.occurrenceTime <= now) { Event x = Inference_RevisionAndChoice(&c0.belief_spike, &e0, now, NULL); CHECK(ev_same(&f->belief_spike, &x), "what is observed now updates the concept's current belief"); REACH("observed"); }
    else { CHECK(f->belief_spike.type == c0.belief_spike.type && (c0.belief_spike.type == EVENT_TYPE_DELETED || ev_same(&f->belief_spike, &c0.belief_spike)), "the current belief changes only with an event of the past or present"); }
    if(!eternal && e0.occurrenceTime > now) { Event x = Inference_RevisionAndChoice(&c0.predicted_belief, &e0, now, NULL); CHECK(ev_same(&f->predicted_belief, &x), "what is expected updates the concept's prediction"); REACH("predicted"); }
    else { CHECK(f->predicted_belief.type == c0.predicted_belief.type && (c0.predicted_belief.type == EVENT_TYPE_DELETED || ev_same(&f->predicted_belief, &c0.predicted_belief)), "the prediction changes only with an event of the future"); }
    CHECK(f->priority == (c0.priority > pe ? c0.priority : rev && priority > pe ? priority : pe) || rev, "the concept's attention is raised to the event's priority");
    CHECK(f->priority >= c0.priority && f->priority >= pe, "the concept's attention is raised at least to the event's priority");
    CHECK(f->usage.lastUsed == now && f->usage.useCount > c0.usage.useCount, "the concept counts as used");
    /* queueing */
    bool known = KNOWN && (eternal ? (c0.belief.type != EVENT_TYPE_DELETED && (ev_equal(&e0, &c0.belief) || c0.belief.truth.confidence > e0.truth.confidence))
                                   : (c0.belief_spike.type != EVENT_TYPE_DELETED && c0.belief_spike.occurrenceTime == e0.occurrenceTime && stampset(&c0.belief_spike.stamp, &e0.stamp) && e0.truth.confidence <= c0.belief_spike.truth.confidence));
    int n = pending(&cycling_belief_events, &e0);
    CHECK(n == (was || !known ? 1 : 0) || rev, "a new event is queued exactly once, an already known one is not queued again");
    CHECK(n <= 1 + (rev && ev_equal(&belief, &e0)), "no event is queued twice");
    if(!was && !known) { CHECK(prio_of(&cycling_belief_events, &e0) == pe || (rev && ev_equal(&belief, &e0)), "it is queued with its priority"); REACH("queued"); }
    CHECK(pending(&cycling_belief_events, &q0) >= 1, "what was queued stays queued");
    if(rev) { REACH_REVISED; }
}
#ifndef QL
#define QL 0
#define LAYER 0
#endif
void h_goal(void)
{
    setup();
    long now = nd_time();
    Event e = nd_event(EVENT_TYPE_GOAL, 0, false), e0 = e;
    if(nd_bool()) { e.truth.confidence = 0.005; e0 = e; }
    Concept *c = NULL, c0 = {0};
    if(KNOWN) { Term term = term_of(0); c = Memory_Conceptualize(&term, 1); c->goal_spike = nd_event(EVENT_TYPE_GOAL, 0, false); if(nd_bool()) { c->goal_spike.type = EVENT_TYPE_DELETED; } c->belief = nd_slot(true); c0 = *c; }
    int ql = QL;
    for(int i=0; i<3; i++) { if(ql == i) { queue_one(&cycling_goal_events[i], EVENT_TYPE_GOAL); } }
    double priority = nd_grid(0, 4, 4.0); bool input = nd_bool(), revised = nd_bool(); int layer = LAYER;
    Memory_AddEvent(&e, now, priority, input, !input, revised, layer);
    double pe = input || revised ? priority : priority / 2.0;
    bool admitted = e0.truth.confidence >= MIN_CONFIDENCE && pe > MIN_PRIORITY && pe != 0.0;
    Term term = term_of(0); Concept *f = Memory_FindConceptByTerm(&term);
    CHECK(f == c, "a goal creates no concept by itself");
    CHECK(cycling_belief_events.itemsAmount == 0, "a goal is not queued as belief");
    if(c) CHECK(ev_same(&c->belief, &c0.belief) && ev_same(&c->goal_spike, &c0.goal_spike), "adding a goal changes no belief");
    bool known = (KNOWN && c0.goal_spike.type != EVENT_TYPE_DELETED && ev_equal(&c0.goal_spike, &e0)) || ev_equal(&q0, &e0);
    int target = layer + 1 < 2 ? layer + 1 : 2;
    for(int i=0; i<3; i++)
    {
        int was = ql == i ? 1 : 0;
        CHECK(cycling_goal_events[i].itemsAmount == was + (admitted && !known && i == target ? 1 : 0), "a new goal is queued once, in the layer below the one it was derived in");
        if(was) { CHECK(pending(&cycling_goal_events[i], &q0) == 1, "what was queued stays queued"); }
        if(admitted && !known && i == target) { CHECK(pending(&cycling_goal_events[i], &e0) == 1 && prio_of(&cycling_goal_events[i], &e0) == pe, "it is queued with its priority"); }
    }
    if(admitted && !known) { REACH("queued"); }
    if(!admitted) { REACH("rejected"); }
    if(known) { REACH("known"); }
}
