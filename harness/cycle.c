/* The reasoning cycle: selection, forgetting, temporal learning, conditional inference, subgoaling. */
#include "pool.h"
#include "uf.h"
#include "Memory.h"
#include "Cycle.h"
#include "Decision.h"
#include "Inference.h"
#include "InvertedAtomIndex.h"
#include "Stats.h"
#include "Globals.h"
/* functions of Cycle.c the header does not declare */
void Cycle_PopEvents(Event *selectionArray, double *selectionPriority, int *selectedCnt, PriorityQueue *queue, int cnt);
bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPriority, int layer);
void Cycle_ProcessBeliefEvents(long currentTime);
void Cycle_Inference(long currentTime);
void Cycle_RelativeForgetting(long currentTime);
void Cycle_SpecialInferences(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp, long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid);
static Concept k0, k1, k2, k3, k4, k5;
static Concept *slot(int i) { return i == 0 ? &k0 : i == 1 ? &k1 : i == 2 ? &k2 : i == 3 ? &k3 : i == 4 ? &k4 : &k5; }
static Event p0, p1, p2, p3, g0, g1;
enum { A, B, C, OP1, INH, SEQ, TEMP, IMPL, EQUI, CONJ, V1 };
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
#endif
#ifdef USE_EXPECTATION
#ifndef REPLAY
double __CPROVER_uninterpreted_expectation(double, double);
double Truth_Expectation(Truth v)
{
#ifdef H_GOAL /* multiples of 1/8 */
    double e = __CPROVER_uninterpreted_expectation(v.frequency == 0.0 ? 0.0 : v.frequency, v.confidence == 0.0 ? 0.0 : v.confidence), g = 0.0;
    for(int k=0; k<=8; k++) { if(e == k / 8.0) { g = e; } }
    __CPROVER_assume(g == e); return e;
#endif
    double r = __CPROVER_uninterpreted_expectation(v.frequency == 0.0 ? 0.0 : v.frequency, v.confidence == 0.0 ? 0.0 : v.confidence); /* one zero */ __CPROVER_assume(r >= 0.0 && r <= 1.0);
    /* facts: which truths of the grid pass the thresholds (0.501) */
    if(v.confidence >= 0.02) { if(v.frequency >= 0.8) { __CPROVER_assume(r >= 0.502); } if(v.frequency <= 0.5) { __CPROVER_assume(r <= 0.5); } }
    return r;
}
#endif
#endif
#ifdef USE_MAPS
#ifndef REPLAY
static ConceptChainElement el[CONCEPTS_MAX];
void InvertedAtomIndex_AddConcept(Term term, Concept *c) {}
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) {}
/* decided by C06 */
bool Term_Equal(Term *a, Term *b) { return vh_same(a, b); }
HASH_TYPE Term_Hash(Term *t) { return 0; }
static void *mapkey[CONCEPTS_MAX], *mapval[CONCEPTS_MAX];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value) { int at = -1; for(int i=CONCEPTS_MAX-1; i>=0; i--) { if(mapkey[i] == NULL) at = i; } for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } } }
/* concepts related through an atom (decided by C12): those of the harness containing it */
#ifdef H_INFER
static ConceptChainElement ch[2];
ConceptChainElement *InvertedAtomIndex_GetConceptChain(Atom a) { if(a != vh_pool[B]) return NULL; ch[0] = (ConceptChainElement) { .c = &k0, .next = &ch[1] }; ch[1] = (ConceptChainElement) { .c = &k1 }; return &ch[0]; }
#else
ConceptChainElement *InvertedAtomIndex_GetConceptChain(Atom a) { return NULL; }
#endif
#endif
#endif
/* derived knowledge, recorded instead of being added */
typedef struct { Term term; Truth truth; Stamp stamp; long time; double offset; double pp, cp; Concept *vc; long vid; int layer; double priority; char type; bool input, derived, revised; } Rec;
static Rec rec[4]; static int recs;
#ifdef USE_DERIVED
void NAL_DerivedEvent(Term conclusionTerm, long conclusionOccurrence, Truth conclusionTruth, Stamp stamp, long now, double parentPriority, double conceptPriority, double occurrenceTimeOffset, Concept *validation_concept, long validation_cid, bool varIntro, bool ext)
{
    for(int i=0; i<4; i++) { if(i == recs) { rec[i] = (Rec) { .term = conclusionTerm, .truth = conclusionTruth, .stamp = stamp, .time = conclusionOccurrence, .offset = occurrenceTimeOffset, .pp = parentPriority, .cp = conceptPriority, .vc = validation_concept, .vid = validation_cid }; } }
    recs++;
}
#endif
#ifdef USE_ADD
void Memory_AddEvent(Event *e, long now, double priority, bool input, bool derived, bool revised, int layer)
{
    for(int i=0; i<4; i++) { if(i == recs) { rec[i] = (Rec) { .term = e->term, .truth = e->truth, .stamp = e->stamp, .time = e->occurrenceTime, .type = e->type, .priority = priority, .input = input, .derived = derived, .revised = revised, .layer = layer }; } }
    recs++;
}
#endif
static Term atomt(int k) { Term t = {0}; t.atoms[0] = vh_pool[k]; return t; }
static Term st3(int cop, Term *l, Term *r) { Term t = {0}; t.atoms[0] = vh_pool[cop]; for(int k=0; k<NMAX; k++) { int i = vh_map(1, k), j = vh_map(2, k); if(i >= 0) t.atoms[i] = l->atoms[k]; if(j >= 0) t.atoms[j] = r->atoms[k]; } return t; }
static Term st2(int cop, int l, int r) { Term x = atomt(l), y = atomt(r); return st3(cop, &x, &y); }
static void setup(void)
{
    vh_init(); nd_clock(); Memory_INIT(); Cycle_INIT(); recs = 0; PRINT_DERIVATIONS = false; PRINT_INPUT = false;
    for(int i=0; i<CONCEPTS_MAX && i<6; i++) { concepts.items[i].address = slot(i); }
    cycling_belief_events.items[0].address = &p0; if(CYCLING_BELIEF_EVENTS_MAX > 1) { cycling_belief_events.items[1].address = &p1; } if(CYCLING_BELIEF_EVENTS_MAX > 2) { cycling_belief_events.items[2].address = &p2; } if(CYCLING_BELIEF_EVENTS_MAX > 3) { cycling_belief_events.items[3].address = &p3; }
    cycling_goal_events[0].items[0].address = &g0; if(CYCLING_GOAL_EVENTS_MAX > 1) { cycling_goal_events[0].items[1].address = &g1; }
}
#ifndef N
#define N 3
#endif
#ifndef CNT
#define CNT 2
#endif
#if defined(H_POP)
/* selection */
void h_pop(void)
{
    setup();
    double pr[N]; bool used[N] = {0};
    for(int i=0; i<N; i++)
    {
        pr[i] = nd_grid(0, 8, 8.0);
        PriorityQueue_Push_Feedback f = PriorityQueue_Push(&cycling_belief_events, pr[i]);
        Event *e = f.addedItem.address; *e = (Event) {0}; e->creationTime = 100 + i; e->term.atoms[0] = vh_pool[A]; e->truth = (Truth) { .frequency = 1.0, .confidence = 0.5 }; e->occurrenceTime = 7;
    }
    Event sel[CNT+1]; double sp[CNT+1]; int n = -1;
    sel[CNT].creationTime = -5;
    Cycle_PopEvents(sel, sp, &n, &cycling_belief_events, CNT);
    int want = N < CNT ? N : CNT;
    CHECK(n == want, "as many events are selected as are wanted and available");
    CHECK(cycling_belief_events.itemsAmount == N - want, "selected events leave the queue");
    CHECK(sel[CNT].creationTime == -5, "not more events than wanted are selected");
    for(int j=0; j<want; j++)
    {
        long id = sel[j].creationTime - 100; bool ok = false; int better = 0;
        for(int i=0; i<N; i++) { if(id == i) { ok = sp[j] == pr[i] && !used[i]; used[i] = true; } }
        CHECK(ok, "a selected event is a pending one with its own priority, selected once");
        if(j > 0) { CHECK(sp[j] <= sp[j-1], "higher priority first"); }
    }
    for(int i=0; i<N; i++) { if(!used[i] && want > 0) { CHECK(pr[i] <= sp[want-1], "no pending event has a higher priority than a selected one"); } }
    for(int i=0; i<N-want; i++) { Event *e = cycling_belief_events.items[i].address; long id = e->creationTime - 100; bool ok = false; for(int k=0; k<N; k++) { if(id == k) { ok = !used[k] && cycling_belief_events.items[i].priority == pr[k]; used[k] = true; } } CHECK(ok, "the others keep waiting with their priority"); }
    REACH("end");
}
#endif
#if defined(H_FORGET)
#ifndef REPLAY
double __CPROVER_uninterpreted_useful(long, long, long);
double Usage_usefulness(Usage u, long now) { double r = __CPROVER_uninterpreted_useful(u.useCount, u.lastUsed, now); __CPROVER_assume(r >= 0.0 && r < 1.0); return r; }
#endif
void h_forget(void)
{
    setup(); long now = nd_time();
    double pb[N], pg[2], pc[2]; Usage u[2];
    for(int i=0; i<N; i++) { pb[i] = nd_grid(0, 8, 8.0); PriorityQueue_Push_Feedback f = PriorityQueue_Push(&cycling_belief_events, pb[i]); ((Event*) f.addedItem.address)->creationTime = i; }
    for(int i=0; i<2; i++) { pg[i] = nd_grid(0, 8, 8.0); PriorityQueue_Push_Feedback f = PriorityQueue_Push(&cycling_goal_events[0], pg[i]); ((Event*) f.addedItem.address)->creationTime = i; }
    for(int i=0; i<2; i++) { pc[i] = nd_grid(0, 8, 8.0); PriorityQueue_Push_Feedback f = PriorityQueue_Push(&concepts, nd_grid(0, 8, 8.0)); Concept *c = f.addedItem.address; c->id = i; c->priority = pc[i]; u[i] = (Usage) { .useCount = nd_range(1, 1000), .lastUsed = nd_range(0, 15) }; c->usage = u[i]; }
    Cycle_RelativeForgetting(now);
    CHECK(cycling_belief_events.itemsAmount == N && cycling_goal_events[0].itemsAmount == 2 && concepts.itemsAmount == 2, "forgetting drops nothing by itself");
    bool seen[N] = {0}; double mn = 2.0, mx = -1.0;
    for(int i=0; i<N; i++) { Item *it = &cycling_belief_events.items[i]; bool ok = false; for(int k=0; k<N; k++) { if(((Event*) it->address)->creationTime == k && !seen[k]) { seen[k] = true; ok = it->priority == pb[k] * EVENT_DURABILITY; } } CHECK(ok, "each waiting belief event decays by the event durability"); if(it->priority < mn) mn = it->priority; if(it->priority > mx) mx = it->priority; }
    bool sg[2] = {0};
    for(int i=0; i<2; i++) { Item *it = &cycling_goal_events[0].items[i]; bool ok = false; for(int k=0; k<2; k++) { if(((Event*) it->address)->creationTime == k && !sg[k]) { sg[k] = true; ok = it->priority == pg[k] * EVENT_DURABILITY; } } CHECK(ok, "each waiting goal event decays by the event durability"); }
    bool sc[2] = {0};
    for(int i=0; i<2; i++) { Item *it = &concepts.items[i]; Concept *c = it->address; bool ok = false; for(int k=0; k<2; k++) { if(c->id == k && !sc[k]) { sc[k] = true; ok = c->priority == pc[k] * CONCEPT_DURABILITY && it->priority == Usage_usefulness(u[k], now); } } CHECK(ok, "each concept's attention decays by the concept durability and it is ranked by its usefulness now"); }
    Event *e; double p; bool ok = PriorityQueue_PopMin(&cycling_belief_events, (void**) &e, &p);
    CHECK(ok && p == mn, "the queue order is maintained");
    Concept *c; PriorityQueue_PopMin(&concepts, (void**) &c, &p);
    CHECK(p <= concepts.items[0].priority, "the least useful concept is the next to be forgotten");
    REACH("end");
}
#endif
#if defined(H_SPECIAL)
/* conditional and anonymous-analogy inferences between an event and a compound belief */
#ifndef REPLAY
UFBIN(AnonymousAnalogy)
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
static Term leaf(void) { Atom a = nd_atom(false); ASSUME(a == vh_pool[A] || a == vh_pool[B] || a == vh_pool[C]); Term t = {0}; t.atoms[0] = a; return t; }
static Term stm(bool var) { Term t = {0}; t.atoms[0] = vh_pool[INH]; for(int i=1; i<3; i++) { t.atoms[i] = nd_atom(false); ASSUME(t.atoms[i] == vh_pool[A] || t.atoms[i] == vh_pool[B] || (var && t.atoms[i] == vh_pool[V1])); } return t; }
static Term fillvar(Term t, Atom v) { for(int i=0; i<NMAX; i++) { if(v && t.atoms[i] == vh_pool[V1]) t.atoms[i] = v; } return t; }
/* does ground statement s match pattern p; the value of the variable */
static bool match(Term *p, Term *s, Atom *v) { *v = 0; bool ok = true; for(int i=0; i<NMAX; i++) { if(p->atoms[i] == vh_pool[V1]) { if(*v && *v != s->atoms[i]) ok = false; *v = s->atoms[i]; } else if(p->atoms[i] != s->atoms[i]) ok = false; } return ok; }
static Rec want[4]; static int wants;
static void expect(Term t, Truth v) { for(int i=0; i<4; i++) { if(i == wants) { want[i].term = t; want[i].truth = v; } } wants++; }
void h_special(void)
{
    setup(); wants = 0;
    Term x, l, r, m; Truth t1 = nd_truth(), t2 = nd_truth(); Stamp s = nd_stamp_small(3); long occ = nd_time(), now = nd_time(); double pp = nd_grid(0,4,4.0), cp = nd_grid(0,4,4.0), off = nd_range(0,4);
    Term t2t; Atom v;
#if SHAPE == 0 || SHAPE == 1
    /* <S ==> P>, <S <=> P> */
    x = leaf(); l = leaf(); r = leaf(); t2t = st3(SHAPE == 0 ? IMPL : EQUI, &l, &r);
#elif SHAPE == 2 || SHAPE == 3
    x = stm(false); l = stm(true); r = stm(true); t2t = st3(SHAPE == 2 ? IMPL : EQUI, &l, &r);
#elif SHAPE == 4
    x = leaf(); l = leaf(); m = leaf(); r = leaf(); { Term c = st3(CONJ, &l, &m); t2t = st3(IMPL, &c, &r); }
#elif SHAPE == 5
    x = leaf(); l = leaf(); r = leaf(); t2t = st3(CONJ, &l, &r);
#elif SHAPE == 6
    x = leaf(); l = leaf(); r = leaf(); t2t = st3(SEQ, &l, &r);
#elif SHAPE == 7
    x = stm(false); l = stm(true); r = stm(true); t2t = st3(CONJ, &l, &r);
#endif
#if SHAPE <= 3
    if(match(&l, &x, &v)) { Term c = fillvar(r, v); expect(c, SHAPE % 2 == 0 ? Truth_Deduction(t2, t1) : Truth_Analogy(t2, t1)); }
    if(match(&r, &x, &v)) { Term c = fillvar(l, v); expect(c, SHAPE % 2 == 0 ? Truth_Abduction(t2, t1) : Truth_Analogy(t2, t1)); }
#elif SHAPE == 4
    if(match(&l, &x, &v)) { expect(st3(IMPL, &m, &r), Truth_Deduction(t2, t1)); }
    else if(match(&m, &x, &v)) { expect(st3(IMPL, &l, &r), Truth_Deduction(t2, t1)); }
    if(match(&r, &x, &v)) { expect(st3(CONJ, &l, &m), Truth_Abduction(t2, t1)); }
#elif SHAPE == 5 || SHAPE == 7
    if(match(&l, &x, &v)) { expect(fillvar(r, v), Truth_AnonymousAnalogy(t2, t1)); }
#endif
    Cycle_SpecialInferences(x, t2t, t1, t2, occ, off, s, now, pp, cp, true, &k0, 77);
    CHECK(recs == wants, "exactly the conclusions of the matching rules are derived");
    for(int j=0; j<2; j++)
    {
        if(j < wants)
        {
            int n = 0, m2 = 0;
            for(int i=0; i<3; i++) { if(i < recs && vh_same(&rec[i].term, &want[j].term) && tr_same(rec[i].truth, want[j].truth)) n++; if(i < wants && vh_same(&want[i].term, &want[j].term) && tr_same(want[i].truth, want[j].truth)) m2++; }
            CHECK(n == m2, "each with the term and the truth value its rule assigns");
        }
    }
    for(int i=0; i<3; i++) { if(i < recs) { CHECK(st_same(&rec[i].stamp, &s) && rec[i].time == occ && rec[i].offset == off && rec[i].pp == pp && rec[i].cp == cp && rec[i].vc == &k0 && rec[i].vid == 77, "each with the evidence, time and priority of its premises"); } }
#if SHAPE != 6
    if(recs > 0) { REACH("derived"); }
#endif
    if(recs == 0) { REACH("nothing"); }
}
#endif
#if defined(H_GOALSEQ)
/* a goal that is a sequence yields its first unfulfilled component as subgoal */
#ifndef REPLAY
UFBIN(StructuralDeduction)
#endif
#ifndef LEN
#define LEN 3
#endif
void h_goalseq(void)
{
    setup(); long now = nd_time(); currentTime = now;
    Term part[LEN] ; Concept *c[LEN]; Term seq;
    bool used[LEN] = {0};
    for(int i=0; i<LEN; i++)
    {
        part[i] = atomt(i == 0 ? A : i == 1 ? B : C); c[i] = NULL;
        if((ABSENT >> i & 1) == 0)
        {
            c[i] = Memory_Conceptualize(&part[i], 1);
            c[i]->belief_spike.term = part[i]; c[i]->belief_spike.type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED;
            c[i]->belief_spike.truth = (Truth) { .frequency = nd_bool() ? 1.0 : 0.25, .confidence = nd_bool() ? 0.9 : 0.3 }; c[i]->belief_spike.stamp = nd_stamp_small(3); c[i]->belief_spike.occurrenceTime = now - nd_range(0, 3);
        }
    }
    seq = st3(SEQ, &part[0], &part[1]); if(LEN == 3) { seq = st3(SEQ, &seq, &part[2]); }
    Event goal = {0}; goal.term = seq; goal.type = EVENT_TYPE_GOAL; goal.truth = nd_truth(); goal.stamp = nd_stamp_small(3); goal.occurrenceTime = now - nd_range(0, 2);
    double pr = nd_grid(0, 4, 4.0); int layer = nd_range(0, 3);
    Event g = goal, goal0 = goal;
    g.truth = Truth_Projection(g.truth, g.occurrenceTime, now); g.occurrenceTime = now;
    int first = LEN; long last = -1; bool done = false;
    for(int i=0; i<LEN; i++)
    {
        if(!done)
        {
            bool ok = c[i] != NULL && c[i]->belief_spike.type != EVENT_TYPE_DELETED && c[i]->belief_spike.occurrenceTime >= last && Truth_Expectation(Truth_Projection(c[i]->belief_spike.truth, c[i]->belief_spike.occurrenceTime, now)) >= CONDITION_THRESHOLD;
            if(!ok) { first = i; done = true; }
            else
            {
                last = c[i]->belief_spike.occurrenceTime;
                if(i < LEN-1)
                {
                    Truth b = Truth_Projection(c[i]->belief_spike.truth, last, now);
                    g.truth = Truth_GoalDeduction(g.truth, b); used[i] = true;
                }
            }
        }
    }
    if(first == 0) { g.truth = Truth_StructuralDeduction(g.truth, g.truth); }
    bool r = Cycle_GoalSequenceDecomposition(&goal, pr, layer);
    CHECK(r, "a sequence goal is pursued by its components");
    CHECK(recs == (first < LEN ? 1 : 0), "one component is pursued at a time, and none if all are fulfilled");
    if(first < LEN)
    {
        for(int i=0; i<LEN; i++) { if(first == i) { CHECK(vh_same(&rec[0].term, &part[i]), "the component pursued is the first one not fulfilled in order"); } }
        CHECK(rec[0].type == EVENT_TYPE_GOAL && rec[0].time == now && rec[0].layer == layer, "as a goal of now, of the same layer");
        CHECK(tr_same(rec[0].truth, g.truth), "with the truth value of the deductions leading to it");
        bool ok = true, all = true; int n = st_len(&goal0.stamp);
        for(int i=0; i<LEN; i++) { if(used[i]) { n += st_len(&c[i]->belief_spike.stamp); } }
        for(int i=0; i<STAMP_SIZE; i++)
        {
            long v = rec[0].stamp.evidentialBase[i], gv = goal0.stamp.evidentialBase[i];
            bool from = v == STAMP_FREE || st_has(&goal0.stamp, v); all = all & (gv == STAMP_FREE | st_has(&rec[0].stamp, gv));
            for(int k=0; k<LEN; k++) { if(used[k]) { from = from | st_has(&c[k]->belief_spike.stamp, v); all = all & (c[k]->belief_spike.stamp.evidentialBase[i] == STAMP_FREE | st_has(&rec[0].stamp, c[k]->belief_spike.stamp.evidentialBase[i])); } }
            ok = ok & from;
        }
        CHECK(ok && (all || n > STAMP_SIZE), "and with the evidence of the goal and the fulfilled components");
        CHECK(rec[0].priority == pr * Truth_Expectation(g.truth) && !rec[0].input && rec[0].derived && !rec[0].revised, "and a priority according to its desire");
    }
    if(first == 0) { REACH("first"); }
#if !ABSENT
    if(first == 1) { REACH("second"); }
    if(first == LEN) { REACH("all fulfilled"); }
#endif
    Event plain = goal0; plain.term = part[0]; recs = 0;
    CHECK(!Cycle_GoalSequenceDecomposition(&plain, pr, layer) && recs == 0, "other goals are left alone");
}
#endif
#if defined(H_MINE)
/* temporal learning: what is derived when the event of concept b is processed, given the recent experience of a and the operation p */
void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long now) {}
static Concept *added; static int adds; /* the index is decided by C16; here its content stays as given */
void OccurrenceTimeIndex_Add(Concept *c, OccurrenceTimeIndex *fifo) { added = c; adds++; }
#ifndef ORDER
#define ORDER 0
#endif
#ifndef EVOP
#define EVOP 0
#endif
#define D EVENT_BELIEF_DISTANCE
static long dist(long a, long b) { return a < b ? b - a : a - b; }
static Rec want[4]; static int wants;
static Concept *mk(Term t, long now)
{
    Concept *c = Memory_Conceptualize(&t, 1);
    Event *s = &c->belief_spike;
    s->term = t; s->type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED; s->truth = nd_truth(); s->stamp = nd_stamp_small(4);
    s->occurrenceTime = now - nd_range(0, D + 2); s->creationTime = now - nd_range(0, 1); c->lastSelectionTime = now - nd_range(0, D + 2);
    return c;
}
static bool fresh(Concept *c, Event *e, long limit) { return dist(c->belief_spike.occurrenceTime, e->occurrenceTime) < limit && dist(c->lastSelectionTime, e->occurrenceTime) < limit; }
static void induce(Event *x, Event *y)
{
    if(st_overlap(&x->stamp, &y->stamp)) return;
    bool ok; Implication imp = Inference_BeliefInduction(x, y, &ok);
    if(ok && imp.truth.confidence >= MIN_CONFIDENCE) { for(int i=0; i<4; i++) { if(i == wants) { want[i] = (Rec) { .term = imp.term, .truth = imp.truth, .stamp = imp.stamp, .offset = imp.occurrenceTimeOffset }; } } wants++; }
}
void h_mine(void)
{
    setup(); wants = 0; long now = nd_time(); if(vh_t0) { now = vh_t0 + 100; } else { now = 100; }
    currentTime = now;
    Term ta = atomt(A), tp = atomt(OP1), tb = atomt(B), tab = st3(SEQ, &ta, &tb);
    Concept *a = mk(ta, now), *p = mk(tp, now), *b = mk(tb, now), *ab = Memory_Conceptualize(&tab, 1);
    ab->belief_spike.type = EVENT_TYPE_DELETED;
    operations[0].term = tp;
    Concept *ev = EVOP ? p : b;
    Event e = {0}; e.term = EVOP ? tp : tb; e.type = EVENT_TYPE_BELIEF; e.truth = nd_truth(); e.stamp = nd_stamp_small(4); e.occurrenceTime = now - nd_range(0, D + 1); e.creationTime = now - nd_range(0, 1); e.processed = nd_bool();
    ASSUME(st_len(&e.stamp) > 0);
    ASSUME(ev->belief_spike.type == EVENT_TYPE_DELETED || ev->belief_spike.occurrenceTime != e.occurrenceTime);
    for(int i=0; i<3; i++) { Concept *c = (ORDER + i) % 3 == 0 ? a : (ORDER + i) % 3 == 1 ? p : b; occurrenceTimeIndex.array[i] = c; }
    occurrenceTimeIndex.itemsAmount = 3; occurrenceTimeIndex.currentIndex = 3; adds = 0;
    bool proc = !e.processed && now - e.occurrenceTime < D;
    /* what the experience teaches */
    Event sa = a->belief_spike, sp = p->belief_spike, sb = ev->belief_spike; long ls = ev->lastSelectionTime;
#if !EVOP
    if(proc)
    {
        if(sp.type != EVENT_TYPE_DELETED && sp.creationTime < now && sp.occurrenceTime < e.occurrenceTime && fresh(p, &e, D) &&
           sa.type != EVENT_TYPE_DELETED && sa.creationTime < now && sa.occurrenceTime < sp.occurrenceTime && fresh(a, &e, D) && !st_overlap(&sa.stamp, &e.stamp))
        {
            bool ok; Event seq = Inference_BeliefIntersection(&sa, &sp, &ok);
            if(ok && seq.truth.confidence >= MIN_CONFIDENCE) { seq.term = st3(SEQ, &ta, &tp); induce(&seq, &e); }
        }
        if(sa.type != EVENT_TYPE_DELETED && fresh(a, &e, D + 1) && sa.occurrenceTime <= e.occurrenceTime && !st_overlap(&sa.stamp, &e.stamp))
        {
            bool ok; Event seq = Inference_BeliefIntersection(&sa, &e, &ok);
            if(ok && seq.truth.confidence >= MIN_CONFIDENCE) { induce(&sa, &e); if(sa.occurrenceTime == e.occurrenceTime) { induce(&e, &sa); } }
            if(ok && seq.truth.confidence >= MIN_CONFIDENCE)
            {
                REACH("sequence");
            }
        }
    }
#endif
    Event sab = {0}; bool okab = false, makeab = false;
#if !EVOP
    if(proc && sa.type != EVENT_TYPE_DELETED && fresh(a, &e, D + 1) && sa.occurrenceTime <= e.occurrenceTime && !st_overlap(&sa.stamp, &e.stamp)) { sab = Inference_BeliefIntersection(&sa, &e, &okab); makeab = okab && sab.truth.confidence >= MIN_CONFIDENCE; }
#endif
    selectedBeliefs[0] = e; selectedBeliefsPriority[0] = nd_grid(0, 4, 4.0); beliefsSelectedCnt = 1;
    Cycle_ProcessBeliefEvents(now);
    CHECK(recs == wants, "exactly the implications the experience supports are learned");
    for(int j=0; j<3; j++)
    {
        if(j < wants)
        {
            int n = 0; for(int i=0; i<3; i++) { if(i < recs && vh_same(&rec[i].term, &want[j].term) && tr_same(rec[i].truth, want[j].truth) && st_same(&rec[i].stamp, &want[j].stamp) && rec[i].offset == want[j].offset && rec[i].time == now) n++; }
            CHECK(n == 1, "each from an earlier to a later event, with the induced truth, evidence and time difference");
        }
    }
    bool newer = proc && (sb.type == EVENT_TYPE_DELETED || e.occurrenceTime > sb.occurrenceTime);
    CHECK(ev->belief_spike.type == (newer ? EVENT_TYPE_BELIEF : sb.type) && ev->belief_spike.occurrenceTime == (newer ? e.occurrenceTime : sb.occurrenceTime) && (!newer || (tr_same(ev->belief_spike.truth, e.truth) && st_same(&ev->belief_spike.stamp, &e.stamp))), "a newer event becomes the current belief of its concept");
    CHECK(ev->lastSelectionTime == (proc ? now : ls), "processing an event selects its concept");
    CHECK((ab->belief_spike.type != EVENT_TYPE_DELETED) == makeab, "the sequence of both events is perceived exactly if it is supported");
    CHECK(adds == (makeab ? 1 : 0) && (!makeab || added == ab), "and its concept noted as recently active");
    if(makeab) { CHECK(vh_same(&ab->belief_spike.term, &tab) && ab->belief_spike.occurrenceTime == sab.occurrenceTime && tr_same(ab->belief_spike.truth, sab.truth) && st_same(&ab->belief_spike.stamp, &sab.stamp), "with its time, truth and evidence"); }
#if EVOP
    CHECK(recs == 0, "an operation event alone teaches no implication");
#else
    if(recs == 2) { REACH("two implications"); }
#endif
    REACH("end");
}
#endif
#if defined(H_INFER)
/* which pairs of event and belief are combined */
typedef struct { Term t1, t2; Truth v1, v2; long occ; double off; Stamp stamp; double pp, cp; bool dbl; Concept *vc; long vid; } App;
static App app[3]; static int apps, singles;
void RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp, long now, double parentPriority, double conceptPriority, bool doublePremise, Concept *vc, long vid)
{
    if(!doublePremise) { singles++; return; }
    for(int i=0; i<3; i++) { if(i == apps) { app[i] = (App) { term1, term2, truth1, truth2, conclusionOccurrence, occurrenceTimeOffset, conclusionStamp, parentPriority, conceptPriority, doublePremise, vc, vid }; } }
    apps++;
}
void h_infer(void)
{
    setup(); apps = 0; singles = 0; long now = nd_time(); currentTime = now;
    Term te = st2(INH, A, B), tc = st2(INH, B, C);
    Concept *c[2] = { Memory_Conceptualize(&te, 1), Memory_Conceptualize(&tc, 1) };
    bool want[2]; App w[2]; int n = 0;
    Event e = {0}; e.term = te; e.type = EVENT_TYPE_BELIEF; e.truth = nd_truth(); e.stamp = nd_stamp_small(3); e.occurrenceTime = nd_bool() ? OCCURRENCE_ETERNAL : now - nd_range(0, 2); e.occurrenceTimeOffset = nd_range(0, 3);
    conceptPriorityThreshold = nd_grid(0, 4, 4.0);
    double thr = conceptPriorityThreshold, pr = nd_grid(0, 4, 4.0);
    for(int i=0; i<2; i++)
    {
        Concept *k = c[i];
        k->priority = nd_grid(0, 4, 4.0);
        Event *b = &k->belief, *s = &k->belief_spike;
        b->term = k->term; b->type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED; b->truth = nd_truth(); b->stamp = nd_stamp_small(3); b->occurrenceTime = OCCURRENCE_ETERNAL;
        s->term = k->term; s->type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED; s->truth = nd_truth(); s->stamp = nd_stamp_small(3); s->occurrenceTime = now + 2 - nd_range(0, EVENT_BELIEF_DISTANCE + 3);
        long d = e.occurrenceTime - s->occurrenceTime; if(d < 0) d = -d;
        bool spike = e.occurrenceTime != OCCURRENCE_ETERNAL && s->type != EVENT_TYPE_DELETED && d < EVENT_BELIEF_DISTANCE;
        Event u = *b; if(spike) { u = *s; u.truth = Truth_Projection(s->truth, s->occurrenceTime, e.occurrenceTime); }
        want[i] = k->priority >= thr && b->type != EVENT_TYPE_DELETED && !st_overlap(&e.stamp, &u.stamp);
        n += want[i];
        w[i].v2 = u.truth; w[i].stamp = u.stamp;
    }
    Usage use0[2] = { c[0]->usage, c[1]->usage };
    selectedBeliefs[0] = e; selectedBeliefsPriority[0] = pr; beliefsSelectedCnt = 1;
    Cycle_Inference(now);
    CHECK(apps == n, "the event is combined with exactly the attended beliefs of disjoint evidence");
    for(int i=0; i<2; i++)
    {
        int k = 0;
        for(int j=0; j<2; j++)
        {
            if(j < apps && app[j].vc == c[i])
            {
                k++;
                CHECK(vh_same(&app[j].t1, &te) && vh_same(&app[j].t2, &c[i]->term) && tr_same(app[j].v1, e.truth), "the premises are the event and the belief of the concept");
                CHECK(tr_same(app[j].v2, w[i].v2), "the belief is the recent one projected to the time of the event, or else the eternal one");
                CHECK(st_merged(&app[j].stamp, &e.stamp, &w[i].stamp) , "the conclusion's evidence is that of both premises");
                CHECK(app[j].occ == e.occurrenceTime && app[j].off == e.occurrenceTimeOffset, "at the time of the event");
                CHECK(app[j].pp == pr && app[j].cp == c[i]->priority && app[j].vid == c[i]->id, "with the priorities of event and concept");
            }
        }
        CHECK(k == (want[i] ? 1 : 0), "once per concept");
        CHECK(c[i]->usage.useCount == use0[i].useCount + (want[i] ? 1 : 0) && (!want[i] || c[i]->usage.lastUsed == now), "and counts as use of the concept");
    }
    CHECK(singles >= 1, "the event is also considered alone");
    if(apps == 2) { REACH("both"); } if(apps == 0) { REACH("none"); }
}
#endif
#if defined(H_GOAL)
/* a goal leads to the execution of its decision, or else to subgoals */
static Decision dec; static int suggested, executed; static Decision done;
Decision Decision_Suggest(Concept *c, Event *goal, long now) { suggested++; return dec; }
void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long now) {}
void Metric_send(const char *path, int value) {}
void Decision_Execute(long now, Decision *d) { executed++; done.operationID[0] = d->operationID[0]; done.desire = d->desire; done.reason = d->reason; }
#ifndef REPLAY
double Usage_usefulness(Usage u, long now) { return 0.5; } /* forgetting does not matter here */
#endif
void h_goal(void)
{
    setup(); suggested = executed = 0; dec = done = (Decision) {0}; long now = nd_time(); currentTime = now;
    Term ta = atomt(A), tb = atomt(B), tp = atomt(OP1), tc = atomt(C);
    Concept *a = Memory_Conceptualize(&ta, 1), *b = Memory_Conceptualize(&tb, 1), *g = Memory_Conceptualize(&tc, 1);
    Term seq = st3(SEQ, &ta, &tp), ti[3] = { st3(TEMP, &seq, &tc), st3(TEMP, &tb, &tc), st3(IMPL, &ta, &tc) };
    Implication im[3]; Event goal = {0}; bool valid[3]; int n = 0;
    for(int i=0; i<3; i++)
    {
        im[i] = (Implication) {0}; im[i].term = ti[i]; im[i].truth = nd_truth(); im[i].stamp = nd_stamp_small(3); im[i].occurrenceTimeOffset = nd_range(0, 3); im[i].creationTime = i;
        im[i].sourceConcept = i == 1 ? b : a; valid[i] = VALID >> i & 1; im[i].sourceConceptId = (i == 1 ? b : a)->id + (valid[i] ? 0 : 7); n += valid[i];
    }
    g->precondition_beliefs[1].array[0] = im[0]; g->precondition_beliefs[1].itemsAmount = 1;
    g->precondition_beliefs[0].array[0] = im[1]; g->precondition_beliefs[0].itemsAmount = 1;
    g->implication_links.array[0] = im[2]; g->implication_links.itemsAmount = 1;
    goal.term = tc; goal.type = EVENT_TYPE_GOAL; goal.truth = nd_truth(); goal.stamp = nd_stamp_small(3); goal.occurrenceTime = now - nd_range(0, 2);
    ASSUME(st_len(&goal.stamp) > 0);
    g->goal_spike.type = EVENT_TYPE_DELETED;
    dec.execute = EXEC; dec.operationID[0] = dec.execute; dec.desire = 0.625; dec.reason = nd_bool() ? &p3 : NULL;
    double pr = 0.75;
    PriorityQueue_Push_Feedback f = PriorityQueue_Push(&cycling_goal_events[0], pr); *((Event*) f.addedItem.address) = goal;
    f = PriorityQueue_Push(&cycling_goal_events[0], 0.0); Event other = goal; other.term = ta; *((Event*) f.addedItem.address) = other;
    Cycle_Perform(now);
    CHECK(suggested == 1, "a decision is sought for the selected goal");
    CHECK(executed == (dec.execute ? 1 : 0), "the decision is executed exactly if it says so");
#if EXEC
    if(executed) { CHECK(done.operationID[0] == 1 && done.desire == dec.desire && done.reason == dec.reason, "what is executed is what was decided"); CHECK(cycling_goal_events[0].itemsAmount == 0 && recs == 0, "after acting all pending goals are dropped and no subgoals pursued"); REACH("executed"); }
#else
    {
        CHECK(cycling_goal_events[0].itemsAmount == 1, "the goal is taken from the queue, the other one waits");
        CHECK(recs == n, "each usable hypothesis gives one subgoal");
        for(int i=0; i<3; i++)
        {
            Term sub = i == 1 ? tb : ta; Truth t = Truth_Projection(Truth_GoalDeduction(goal.truth, im[i].truth), goal.occurrenceTime, now);
            if(i == 0) { sub = seq; }
            Event want = Inference_GoalDeduction(&goal, &im[i], now); want = Inference_EventUpdate(&want, now);
            int k = 0;
            for(int j=0; j<3; j++) { if(j < recs && vh_same(&rec[j].term, &want.term) && tr_same(rec[j].truth, want.truth) && st_same(&rec[j].stamp, &want.stamp)) { k++; CHECK(rec[j].type == EVENT_TYPE_GOAL && rec[j].time == want.occurrenceTime && rec[j].layer == 0 && !rec[j].input && rec[j].derived && !rec[j].revised, "subgoals are derived goals of the next layer"); CHECK(rec[j].priority == pr * Truth_Expectation(want.truth), "with priority according to their desire"); } }
            if(valid[i]) { CHECK(k >= 1, "the subgoal is the precondition, with the desire the hypothesis justifies"); }
        }
        CHECK(g->precondition_beliefs[1].itemsAmount == valid[0] && g->precondition_beliefs[0].itemsAmount == valid[1] && g->implication_links.itemsAmount == valid[2], "hypotheses with forgotten preconditions are dropped");
        REACH("subgoals");
    }
#endif
    CHECK(g->goal_spike.type == EVENT_TYPE_GOAL && vh_same(&g->goal_spike.term, &tc), "the goal is remembered at its concept");
}
#endif
