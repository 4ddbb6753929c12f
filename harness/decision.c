/* Decision making: which operation, if any, is executed. */
#include "pool.h"
#include "uf.h"
#include "Memory.h"
#include "Decision.h"
#include "Inference.h"
#include "InvertedAtomIndex.h"
#include "Globals.h"
#ifndef NOPS
#define NOPS 2
#endif
enum { A, B, C, INH, SEQ, TEMP, OP1, OP2, OP3, PROD, XSET, TERMI, SELFA };
static Concept ca, cb, cc;
static Term atomt(int k) { Term t = {0}; t.atoms[0] = vh_pool[k]; return t; }
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = (h << 1) ^ data[i]; } return h & 0xffff; }
double __CPROVER_uninterpreted_expectation(double, double);
double Truth_Expectation(Truth v) { double r = __CPROVER_uninterpreted_expectation(v.frequency, v.confidence); __CPROVER_assume(r >= 0.0 && r <= 1.0); if(v.confidence == 0.0) { r = 0.5; } return r; }
void Narsese_PrintTerm(Term *t) {}
void Narsese_PrintAtom(Atom a) {}
void Stamp_print(Stamp *s) {}
void InvertedAtomIndex_AddConcept(Term term, Concept *c) {}
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) {}
static void *mapkey[CONCEPTS_MAX], *mapval[CONCEPTS_MAX];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value) { int at = -1; for(int i=CONCEPTS_MAX-1; i>=0; i--) { if(mapkey[i] == NULL) at = i; } for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } } }
#endif
/* feedback of executed operations */

static int fed = 0; static Term fedTerm;
Event NAR_AddInputBelief(Term term) { fed++; fedTerm = term; Event e = {0}; return e; }
#if NOPS > 0
#define REACH_BAB(x) REACH(x)
#else
#define REACH_BAB(x)
#endif
static int calls[3]; static Term callArgs; static bool failing;
static Feedback act(int k, Term args) { calls[k]++; callArgs = args; Feedback f = {0}; f.failed = failing; return f; }
static Feedback act0(Term args) { return act(0, args); }
static Feedback act1(Term args) { return act(1, args); }
static Feedback act2(Term args) { return act(2, args); }
static void setup(int nops)
{
    vh_init();
#ifndef REPLAY
    SELF = vh_pool[SELFA];
#endif
    nd_clock(); Memory_INIT(); fed = 0; calls[0] = calls[1] = calls[2] = 0;
    PRINT_DERIVATIONS = false; PRINT_INPUT = false;
    concepts.items[0].address = &ca; concepts.items[1].address = &cb; concepts.items[2].address = &cc;
    for(int i=0; i<OPERATIONS_MAX; i++) { if(i < nops) { operations[i].term.atoms[0] = vh_pool[OP1+i]; operations[i].action = i == 0 ? act0 : i == 1 ? act1 : act2; } }
}
#ifndef EXEC_OP
#define EXEC_OP 1
#define EXEC_ARGS 0
#endif
/* random trial */
void h_babble(void)
{
    setup(NOPS);
    int nargs = nd_range(0, 2);
    for(int i=0; i<NOPS; i++) { for(int j=0; j<2; j++) { if(j < nargs) { operations[i].arguments[j] = atomt(j == 0 ? A : B); } } }
    BABBLING_OPS = nd_range(-1, OPERATIONS_MAX); MOTOR_BABBLING_CHANCE = nd_grid(0, 4, 4.0);
    unsigned int seed = (unsigned int) nd_range(0, 0xffffffffL);
    mysrand(seed); int r0 = myrand(); mysrand(seed);
    Term tb = atomt(C); Concept *b = Memory_Conceptualize(&tb, 1);
    Event goal = {0}; goal.term = tb; goal.type = EVENT_TYPE_GOAL; goal.truth = nd_truth(); goal.stamp = nd_stamp_small(3); goal.occurrenceTime = nd_time();
    Decision d = Decision_Suggest(b, &goal, nd_time());
    bool trial = r0 < (int) (MOTOR_BABBLING_CHANCE * 32767);
    CHECK(d.execute == (trial && NOPS > 0 && BABBLING_OPS > 0), "without a suitable hypothesis an operation is tried with the babbling chance only");
    if(d.execute)
    {
        CHECK(d.operationID[0] >= 1 && d.operationID[0] <= NOPS && d.operationID[0] <= BABBLING_OPS, "only registered operations within the babbling range are tried");
        for(int k=1; k<=NOPS; k++)
        {
            if(d.operationID[0] == k)
            {
                Term *g = &d.arguments[0];
                if(nargs == 0) { CHECK(g->atoms[0] == 0, "an operation without arguments is tried without"); }
                else
                {
                    CHECK(g->atoms[0] == vh_pool[PROD] && g->atoms[1] == vh_pool[XSET] && g->atoms[3] == vh_pool[SELFA] && g->atoms[4] == vh_pool[TERMI], "an operation with arguments is tried by SELF");
                    bool in = false; for(int j=0; j<2; j++) { if(j < nargs) in = in | (g->atoms[2] == operations[k-1].arguments[j].atoms[0]); }
                    CHECK(in, "and with one of its arguments");
                }
            }
        }
        CHECK(!d.specific_implication.term.atoms[0] && !d.missing_specific_implication.term.atoms[0], "trying an operation blames no hypothesis");
        REACH_BAB("tried");
    }
    else { REACH("not tried"); CHECK(d.operationID[0] == 0, "no decision, no operation"); }
}
/* two hypotheses leading to the goal; babbling off */
static Implication hyp(int prec, int op, Concept *src)
{
    Implication m = {0};
    m.term.atoms[0] = vh_pool[TEMP]; m.term.atoms[2] = vh_pool[C]; m.term.atoms[1] = vh_pool[SEQ]; m.term.atoms[3] = vh_pool[prec]; m.term.atoms[4] = vh_pool[op];
    m.truth = nd_truth(); m.stamp = nd_stamp_small(3); m.occurrenceTimeOffset = 1; m.sourceConcept = src; m.sourceConceptId = src->id;
    return m;
}
#ifndef STALE
#define STALE 0 /* which hypotheses' preconditions are forgotten */
#endif
#ifdef SAME /* both hypotheses in one table */
#define OPN(i) 1
#define POS(i) (i)
#else
#define OPN(i) (1+(i))
#define POS(i) 0
#endif
void h_best(void)
{
    setup(2); MOTOR_BABBLING_CHANCE = 0.0;
    long now = nd_time(); currentTime = now;
    Term ta = atomt(A), tb = atomt(B), tc = atomt(C);
    Concept *a = Memory_Conceptualize(&ta, 1), *b = Memory_Conceptualize(&tb, 1), *g = Memory_Conceptualize(&tc, 1);
    Concept *pre[2] = { a, b };
    for(int i=0; i<2; i++)
    {
        pre[i]->belief_spike.term = pre[i]->term; pre[i]->belief_spike.type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED;
        pre[i]->belief_spike.truth = nd_truth(); pre[i]->belief_spike.stamp = nd_stamp_small(3); pre[i]->belief_spike.occurrenceTime = now - nd_range(0, 2);
    }
    Implication h[2] = { hyp(A, OP1, a), hyp(B, OPN(1) == 1 ? OP1 : OP2, b) };
    if(STALE & 1) { h[0].sourceConceptId = a->id + 9; }
    if(STALE & 2) { h[1].sourceConceptId = b->id + 9; }
    for(int i=0; i<2; i++) { g->precondition_beliefs[OPN(i)].array[POS(i)] = h[i]; g->precondition_beliefs[OPN(i)].itemsAmount++; }
    Event goal = {0}; goal.term = tc; goal.type = EVENT_TYPE_GOAL; goal.truth = nd_truth(); goal.stamp = nd_stamp_small(3); goal.occurrenceTime = now;
    Event e0[2] = { a->belief_spike, b->belief_spike };
    Decision d = Decision_Suggest(g, &goal, now);
    double desire[2], best = 0.0; bool can[2];
    for(int i=0; i<2; i++)
    {
        can[i] = e0[i].type != EVENT_TYPE_DELETED && !(STALE >> i & 1);
        Event ctx = Inference_GoalDeduction(&goal, &h[i], now); Event r = Inference_GoalSequenceDeduction(&ctx, &e0[i], now);
        desire[i] = can[i] ? Truth_Expectation(r.truth) : 0.0;
        if(desire[i] > best) best = desire[i];
    }
    CHECK(d.execute == (best >= DECISION_THRESHOLD), "an operation is executed exactly if some hypothesis makes it desired enough");
    if(d.execute)
    {
        CHECK(d.desire == best, "the most desired operation is chosen");
        CHECK(d.operationID[0] == OPN(0) || d.operationID[0] == OPN(1), "the operation is the one of a hypothesis");
        for(int i=0; i<2; i++)
        {
            if(d.reason == &pre[i]->belief_spike)
            {
                CHECK(can[i] && desire[i] == best, "its hypothesis is the one that makes it desired");
                CHECK(d.operationID[0] == OPN(i), "the reason is the event that fulfils its precondition");
                CHECK(vh_same(&d.operationTerm, &operations[OPN(i)-1].term) && d.tableIndex == OPN(i), "the executed operation is the hypothesis' operation");
                CHECK(vh_same(&d.specific_implication.term, &h[i].term) && d.arguments[0].atoms[0] == 0, "hypothesis and arguments belong to it");
            }
        }
        CHECK(d.reason == &pre[0]->belief_spike || d.reason == &pre[1]->belief_spike, "the reason is a current event");
#if STALE != 3
        REACH("decided");
#endif
    }
    else { CHECK(d.operationID[0] == 0 && d.operationTerm.atoms[0] == 0, "no operation is selected otherwise"); REACH("undecided"); }
#ifdef SAME
    CHECK(g->precondition_beliefs[1].itemsAmount == !(STALE & 1) + !(STALE & 2), "exactly the hypotheses with forgotten preconditions are dropped");
    if(STALE == 1) { CHECK(vh_same(&g->precondition_beliefs[1].array[0].term, &h[1].term), "the usable one is kept"); }
#else
    for(int i=0; i<2; i++) { CHECK(g->precondition_beliefs[1+i].itemsAmount == (STALE >> i & 1 ? 0 : 1), "exactly the hypotheses with forgotten preconditions are dropped"); }
#endif
}
/* babbling against a hypothesis */
void h_suppress(void)
{
    setup(1); MOTOR_BABBLING_CHANCE = 1.0; BABBLING_OPS = 1;
    long now = nd_time(); currentTime = now;
    unsigned int seed = (unsigned int) nd_range(0, 0xffffffffL); mysrand(seed); int r0 = myrand(); mysrand(seed);
    Term ta = atomt(A), tc = atomt(C);
    Concept *a = Memory_Conceptualize(&ta, 1), *g = Memory_Conceptualize(&tc, 1);
    a->belief_spike.term = ta; a->belief_spike.type = EVENT_TYPE_BELIEF; a->belief_spike.truth = nd_truth(); a->belief_spike.stamp = nd_stamp_small(3); a->belief_spike.occurrenceTime = now - 1;
    Implication h = hyp(A, OP1, a);
    g->precondition_beliefs[1].array[0] = h; g->precondition_beliefs[1].itemsAmount = 1;
    Event goal = {0}; goal.term = tc; goal.type = EVENT_TYPE_GOAL; goal.truth = nd_truth(); goal.stamp = nd_stamp_small(3); goal.occurrenceTime = now;
    Event e = a->belief_spike, ctx = Inference_GoalDeduction(&goal, &h, now), r = Inference_GoalSequenceDeduction(&ctx, &e, now);
    double desire = Truth_Expectation(r.truth);
    Decision d = Decision_Suggest(g, &goal, now);
    bool trial = r0 < 32767;
    if(!trial || desire > MOTOR_BABBLING_SUPPRESSION_THRESHOLD)
    {
        CHECK(d.execute == (desire >= DECISION_THRESHOLD) && (!d.execute || (d.desire == desire && d.reason == &a->belief_spike)), "a desired operation takes precedence over trying one");
        REACH("hypothesis");
    }
    else { CHECK(d.execute && d.reason == NULL && d.desire == 1.0, "otherwise the trial is executed"); REACH("trial"); }
}
void h_better(void)
{
    Decision a = {0}, b = {0};
    a.execute = nd_bool(); b.execute = nd_bool(); a.desire = a.execute ? nd_grid(1, 8, 8.0) : 0.0; b.desire = nd_grid(0, 8, 8.0);
    a.operationID[0] = 1; b.operationID[0] = 2;
    Decision r = Decision_BetterDecision(a, b);
    bool takeb = b.execute && b.desire >= a.desire;
    CHECK(r.operationID[0] == (takeb ? 2 : 1) && r.desire == (takeb ? b.desire : a.desire) && r.execute == (takeb ? b.execute : a.execute), "the more desired of two decisions is taken, and only if it is to be executed");
    REACH("end");
}
void h_execute(void)
{
    setup(2);
    Decision d = {0}; const int k = EXEC_OP; const bool args = EXEC_ARGS; failing = nd_bool();
    d.execute = true; d.operationID[0] = k; d.desire = 1.0;
    if(args) { d.arguments[0].atoms[0] = vh_pool[PROD]; d.arguments[0].atoms[1] = vh_pool[XSET]; d.arguments[0].atoms[2] = vh_pool[A]; d.arguments[0].atoms[3] = vh_pool[SELFA]; d.arguments[0].atoms[4] = vh_pool[TERMI]; }
    Term a0 = d.arguments[0];
    Decision_Execute(nd_time(), &d);
    CHECK(calls[0] == (k == 1) && calls[1] == (k == 2) && calls[2] == 0, "exactly the decided operation is executed, once");
    CHECK(vh_same(&callArgs, &a0), "it is given the decided arguments");
    CHECK(fed == (failing ? 0 : 1), "the execution is perceived exactly if it succeeded");
    if(fed)
    {
        Atom op = vh_pool[k == 1 ? OP1 : OP2];
        if(!args) { CHECK(fedTerm.atoms[0] == op && fedTerm.atoms[1] == 0, "what is perceived is the executed operation"); }
        else
        {
            Term w = {0}; w.atoms[0] = vh_pool[INH]; w.atoms[2] = op; w.atoms[1] = vh_pool[PROD]; w.atoms[3] = vh_pool[XSET]; w.atoms[4] = vh_pool[A]; w.atoms[7] = vh_pool[SELFA]; w.atoms[8] = vh_pool[TERMI];
            CHECK(vh_same(&fedTerm, &w), "what is perceived is the executed operation with its arguments");
        }
        REACH("perceived");
    }
    else { REACH("failed"); }
}
