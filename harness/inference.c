/* Event- and implication-level inference: which conclusion, truth function, evidence and time. */
#include "pool.h"
#include "uf.h"
#include "Inference.h"
#include "Globals.h"
#ifndef TN
#define TN 3
#endif
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
#endif
static Event nd_event(Term term, bool eternalToo)
{
    Event e = {0};
    e.term = term; e.type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_GOAL; e.truth = nd_truth(); e.stamp = nd_stamp_small(5);
    ASSUME(st_len(&e.stamp) > 0);
    e.occurrenceTime = eternalToo && nd_bool() ? OCCURRENCE_ETERNAL : nd_time();
    e.occurrenceTimeOffset = nd_range(0, 3); e.creationTime = nd_range(1, 20); e.processed = nd_bool(); e.input = nd_bool();
    return e;
}
static bool ev_same(Event *a, Event *b)
{
    return vh_same(&a->term, &b->term) & a->type == b->type & tr_same(a->truth, b->truth) & st_same(&a->stamp, &b->stamp) & a->occurrenceTime == b->occurrenceTime &
           a->occurrenceTimeOffset == b->occurrenceTimeOffset & a->creationTime == b->creationTime & a->input == b->input;
}
/* op: copula at the root with the two parts; false if a part does not fit */
static bool is_pair(Term *r, char c, Term *a, Term *b)
{
    bool ok = vh_cop(r->atoms[0], c);
    for(int i=1; i<NMAX; i++)
    {
        Atom want = 0;
        for(int k=0; k<NMAX; k++) { if(vh_map(1, k) == i) { want = a->atoms[k]; } if(vh_map(2, k) == i) { want = b->atoms[k]; } }
        ok = ok & r->atoms[i] == want;
    }
    return ok;
}
static bool fits_below(Term *a, int j) { bool r = true; for(int k=0; k<NMAX; k++) { if(vh_map(j, k) < 0) { r = r & a->atoms[k] == 0; } } return r; }
static long max2(long a, long b) { return a > b ? a : b; }

/* C05 */
void h_choice(void)
{
    vh_init(); nd_clock();
    Event a = nd_event(nd_term(TN), true), b = nd_event(nd_term(TN), true);
    if(nd_bool()) { a.type = EVENT_TYPE_DELETED; }
    Event a0 = a, b0 = b; bool revised = nd_bool();
    long now = nd_time();
    Event r = Inference_RevisionAndChoice(&a, &b, now, &revised);
    if(a0.type == EVENT_TYPE_DELETED) { CHECK(ev_same(&r, &b0) && !revised, "with nothing stored the incoming event is taken over as it is"); REACH("empty"); return; }
    bool same = vh_same(&a0.term, &b0.term), overlap = st_overlap(&a0.stamp, &b0.stamp);
    long later = max2(a0.occurrenceTime, b0.occurrenceTime);
    Truth ta = Truth_Projection(a0.truth, a0.occurrenceTime, later), tb = Truth_Projection(b0.truth, b0.occurrenceTime, later);
    if(revised)
    {
        CHECK(same, "only information about the same term is revised");
        CHECK(!overlap, "evidence is never counted twice: events sharing evidence are not revised");
        CHECK(a0.occurrenceTime == OCCURRENCE_ETERNAL || a0.occurrenceTime == b0.occurrenceTime, "only events about the same time are revised");
        CHECK(tr_same(r.truth, Truth_Revision(ta, tb)), "the revised truth value is the revision of both, projected to the same time");
        CHECK(st_merged(&r.stamp, &a0.stamp, &b0.stamp), "the revised event carries the merged evidence of both");
        CHECK(vh_same(&r.term, &a0.term) && r.type == a0.type, "the revised event has the term and type of the stored one");
        CHECK(r.occurrenceTime == later, "the revised event is dated with the later time");
        CHECK(r.creationTime == max2(a0.creationTime, b0.creationTime), "the revised event is as new as the newer premise");
        REACH("revised");
    }
    else
    {
        bool var = false; for(int i=0; i<TN; i++) { var = var | vh_is(b0.term.atoms[i], '#', true); }
        bool group = (vh_cop(b0.term.atoms[0], ';') | vh_cop(b0.term.atoms[0], '+')) & var;
        CHECK(!same || overlap || group || (a0.occurrenceTime != OCCURRENCE_ETERNAL && a0.occurrenceTime != b0.occurrenceTime), "independent evidence about the same thing is revised");
        if(tb.confidence > ta.confidence) { CHECK(ev_same(&r, &b0), "without revision the more confident event is kept unchanged (incoming)"); REACH("incoming"); }
        else { CHECK(ev_same(&r, &a0), "without revision the more confident event is kept unchanged (stored)"); REACH("stored"); }
    }
}

static Implication nd_imp(Term t)
{
    Implication m = {0};
    m.term = t; m.truth = nd_truth(); m.stamp = nd_stamp_small(5); ASSUME(st_len(&m.stamp) > 0);
    m.occurrenceTimeOffset = nd_range(0, 4); m.creationTime = nd_range(1, 20);
    static int c1, c2; m.sourceConcept = nd_bool() ? (void*) &c1 : (void*) &c2; m.sourceConceptId = nd_range(1, 3);
    return m;
}
/* C25 */
void h_sequence(void)
{
    vh_init(); nd_clock();
    Event a = nd_event(nd_term(TN), false), b = nd_event(nd_term(TN), false); ASSUME(a.occurrenceTime <= b.occurrenceTime);
    bool ok = nd_bool();
    Event r = Inference_BeliefIntersection(&a, &b, &ok);
    CHECK(ok == (fits_below(&a.term, 1) && fits_below(&b.term, 2)), "a sequence is formed exactly when both parts fit");
    if(ok)
    {
        CHECK(is_pair(&r.term, '+', &a.term, &b.term), "the sequence consists of the first, then the second event");
        CHECK(r.type == EVENT_TYPE_BELIEF && r.occurrenceTime == b.occurrenceTime, "the sequence occurs when its last part occurs");
        CHECK(tr_same(r.truth, Truth_Intersection(Truth_Projection(a.truth, a.occurrenceTime, b.occurrenceTime), b.truth)), "its truth is the intersection, with the first event projected to the second's time");
        CHECK(st_merged(&r.stamp, &a.stamp, &b.stamp), "it carries the evidence of both events");
        CHECK(r.creationTime == max2(a.creationTime, b.creationTime), "it is as new as its newest part");
        REACH("formed");
    }
    else { CHECK(r.type == EVENT_TYPE_DELETED, "nothing is derived when the sequence does not fit"); }
}
void h_induction(void)
{
    vh_init(); nd_clock();
    Event a = nd_event(nd_term(TN), false), b = nd_event(nd_term(TN), false); ASSUME(a.occurrenceTime <= b.occurrenceTime);
    bool ok = nd_bool();
    Implication r = Inference_BeliefInduction(&a, &b, &ok);
    CHECK(ok == (fits_below(&a.term, 1) && fits_below(&b.term, 2)), "an implication is formed exactly when both parts fit");
    if(ok)
    {
        CHECK(is_pair(&r.term, '$', &a.term, &b.term), "the implication leads from the earlier to the later event");
        CHECK(r.occurrenceTimeOffset == (double) (b.occurrenceTime - a.occurrenceTime), "it records the time difference");
        CHECK(tr_same(r.truth, Truth_Induction(b.truth, Truth_Projection(a.truth, a.occurrenceTime, b.occurrenceTime))), "its truth is the induction of the later from the projected earlier event");
        CHECK(st_merged(&r.stamp, &a.stamp, &b.stamp), "it carries the evidence of both events");
        CHECK(r.creationTime == max2(a.creationTime, b.creationTime), "it is as new as its newest part");
        REACH("formed");
    }
}
void h_prediction(void)
{
    vh_init(); nd_clock();
    Term it = nd_term(7); ASSUME(vh_cop(it.atoms[0], '$') || vh_cop(it.atoms[0], '?'));
    Event a = nd_event(nd_term(TN), true); Implication m = nd_imp(it);
    Event r = Inference_BeliefDeduction(&a, &m);
    for(int k=0; k<NMAX; k++) { int i = vh_map(2, k); CHECK(r.term.atoms[k] == (i < 0 ? 0 : it.atoms[i]), "the prediction is the implication's consequence"); }
    CHECK(r.type == EVENT_TYPE_BELIEF, "a prediction is a belief");
    CHECK(r.occurrenceTime == (a.occurrenceTime == OCCURRENCE_ETERNAL ? OCCURRENCE_ETERNAL : a.occurrenceTime + (long) m.occurrenceTimeOffset), "it is dated the implication's time difference after the precondition");
    CHECK(tr_same(r.truth, Truth_Deduction(m.truth, a.truth)), "its truth is the deduction from implication and event");
    CHECK(st_merged(&r.stamp, &a.stamp, &m.stamp), "it carries the evidence of both");
    CHECK(r.creationTime == max2(a.creationTime, m.creationTime), "it is as new as its newest premise");
    REACH("end");
}
void h_subgoal(void)
{
    vh_init(); nd_clock();
    Term it = nd_term(7); ASSUME(vh_cop(it.atoms[0], '$') || vh_cop(it.atoms[0], '?'));
    Event g = nd_event(nd_term(TN), true); Implication m = nd_imp(it); long now = nd_time();
    Event r = Inference_GoalDeduction(&g, &m, now);
    /* what remains of the precondition without trailing operations */
    int root = 1; 
    if(vh_cop(it.atoms[1], '+') && vh_is(it.atoms[4], '^', true)) { root = 3; }
    for(int k=0; k<NMAX; k++) { int i = root == 1 ? vh_map(1, k) : vh_map(3, k); CHECK(r.term.atoms[k] == (i < 0 ? 0 : it.atoms[i]), "the subgoal is the implication's precondition without its operation"); }
    CHECK(r.type == EVENT_TYPE_GOAL && r.occurrenceTime == now, "a derived goal is desired now");
    CHECK(tr_same(r.truth, Truth_GoalDeduction(g.truth, m.truth)), "its desire is the goal deduction from goal and implication");
    CHECK(st_merged(&r.stamp, &g.stamp, &m.stamp), "it carries the evidence of both");
    CHECK(r.creationTime == max2(g.creationTime, m.creationTime), "it is as new as its newest premise");
    REACH("end");
}
void h_goalseq(void)
{
    vh_init(); nd_clock();
    Event c = nd_event(nd_term(TN), true), p = nd_event(nd_term(TN), true); long now = nd_time();
    Event r = Inference_GoalSequenceDeduction(&c, &p, now);
    CHECK(vh_same(&r.term, &c.term) && r.type == EVENT_TYPE_GOAL && r.occurrenceTime == now, "goal about the compound, desired now");
    CHECK(tr_same(r.truth, Truth_GoalDeduction(Truth_Projection(c.truth, c.occurrenceTime, now), Truth_Projection(p.truth, p.occurrenceTime, now))), "desire is the goal deduction of both premises projected to now");
    CHECK(st_merged(&r.stamp, &c.stamp, &p.stamp), "evidence of both");
    REACH("end");
}
void h_update(void)
{
    vh_init(); nd_clock();
    Event a = nd_event(nd_term(TN), true), a0 = a; long to = nd_time();
    Event r = Inference_EventUpdate(&a, to);
    CHECK(ev_same(&a, &a0), "projection leaves the stored event alone");
    a0.truth = Truth_Projection(a0.truth, a0.occurrenceTime, to); a0.occurrenceTime = to;
    CHECK(ev_same(&r, &a0), "projecting an event changes only its time and confidence");
    Event e = Event_Eternalized(&a);
    if(a.occurrenceTime == OCCURRENCE_ETERNAL) { CHECK(ev_same(&e, &a), "an eternal event stays as it is"); REACH("eternal"); }
    else { CHECK(tr_same(e.truth, Truth_Eternalize(a.truth)) && e.occurrenceTime == OCCURRENCE_ETERNAL && st_same(&e.stamp, &a.stamp) && vh_same(&e.term, &a.term) && e.type == a.type, "eternalizing changes only time and confidence"); REACH("event"); }
}
void h_imprevision(void)
{
    vh_init(); nd_clock();
    Term t = nd_term(7);
    Implication a = nd_imp(t), b = nd_imp(t);
    Implication r = Inference_ImplicationRevision(&a, &b);
    CHECK(vh_same(&r.term, &t), "revising hypotheses keeps the term");
    CHECK(tr_same(r.truth, Truth_Revision(a.truth, b.truth)), "the truth value is the revision of both");
    CHECK(st_merged(&r.stamp, &a.stamp, &b.stamp), "evidence of both");
    double lo = a.occurrenceTimeOffset < b.occurrenceTimeOffset ? a.occurrenceTimeOffset : b.occurrenceTimeOffset, hi = a.occurrenceTimeOffset + b.occurrenceTimeOffset - lo;
    CHECK(r.occurrenceTimeOffset >= lo - 1e-9 && r.occurrenceTimeOffset <= hi + 1e-9, "the expected time difference stays between those of the premises");
    CHECK(a.truth.confidence == b.truth.confidence || lo == hi || (r.occurrenceTimeOffset > (lo+hi)/2) == ((a.truth.confidence > b.truth.confidence) == (a.occurrenceTimeOffset == hi)), "and closer to that of the better supported one");
    CHECK(r.sourceConcept == a.sourceConcept && r.sourceConceptId == a.sourceConceptId, "the link to the precondition's concept is kept");
    REACH("end");
}
