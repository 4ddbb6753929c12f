/* The interface of the reasoner: answering questions, taking input, cycles and reset (NAR.c, included textually so that
   what it prints can be observed). */
#include "pool.h"
#define NO_UF
#include "uf.h"
#include "NAR.h"
#include "Globals.h"
#include "RuleTable.h"
#include <stdarg.h>
/* everything printed: numbers and whether it says that there is no answer */
static long num0, num1; static int nnums; static bool none;
static void vh_num(long v) { if(nnums == 0) { num0 = v; } else { num1 = v; } nnums++; }
static void vh_scan(const char *s) { for(int i=0; s[i] != 0; i++) { if(s[i] == 'N' && s[i+1] == 'o' && s[i+2] == 'n' && s[i+3] == 'e') { none = true; } } }
static int vh_printf(const char *f, ...)
{
    va_list a; va_start(a, f); vh_scan(f);
    for(int i=0; f[i] != 0; i++)
    {
        if(f[i] == '%' && f[i+1] == 'l') { long v = va_arg(a, long); vh_num(v); }
        else if(f[i] == '%' && f[i+1] == 'd') { long v = va_arg(a, int); vh_num(v); }
        else if(f[i] == '%' && f[i+1] == 's') { vh_scan(va_arg(a, char*)); }
        else if(f[i] == '%' && f[i+1] == 'f') { (void) va_arg(a, double); }
    }
    va_end(a); return 0;
}
static int vh_puts(const char *s) { vh_scan(s); return 0; }
#undef printf
#undef puts
#undef fputs
#undef fflush
#define printf vh_printf
#define puts(s) vh_puts(s)
#define fputs(s,f) vh_puts(s)
#define fflush(f)
#include "NAR.c"
#ifndef REPLAY
double pow(double x, double n) { double r = 1.0; for(int i=0; i<(int) n; i++) { r *= x; } return r; } /* used for constants */
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
#endif
static unsigned long dbits(double d) { union { double d; unsigned long u; } x = { .d = d }; return x.u; }
static bool dsame(Truth a, Truth b) { return (dbits(a.frequency) == dbits(b.frequency)) & (dbits(a.confidence) == dbits(b.confidence)); }
/* truth values of a grid; expectation and projection exact on it */
static const double QF[4] = { 0.0, 0.25, 0.5, 1.0 }, QC[3] = { 0.3, 0.5, 0.9 };
static Truth nd_qtruth(void)
{
    Truth t = {0}; long i = nd_range(0, 3), j = nd_range(0, 2);
    for(int k=0; k<4; k++) { if(i == k) t.frequency = QF[k]; }
    for(int k=0; k<3; k++) { if(j == k) t.confidence = QC[k]; }
    return t;
}
#ifndef REPLAY
double Truth_Expectation(Truth v)
{
    double r = 0.5; bool fs[4];
    for(int i=0; i<4; i++) { fs[i] = v.frequency == QF[i]; }
    for(int k=0; k<20; k++)
    {
        double c = k == 18 ? 1.1 : k == 19 ? 1.0 : QC[k%3] * PW[k/3];
        bool cs = v.confidence == c;
        for(int i=0; i<4; i++) { double e = c * (QF[i] - 0.5) + 0.5; if(cs & fs[i]) { r = e; } }
    }
    return r;
}
Truth Truth_Projection(Truth v, long from, long to)
{
    if(from == OCCURRENCE_ETERNAL) { return v; }
    long d = from < to ? to - from : from - to; Truth r = v;
    for(int j=1; j<6; j++) { for(int k=0; k<3; k++) { if((d == j) & (v.confidence == QC[k])) { r.confidence = QC[k] * PW[j]; } } }
    return r;
}
#endif
enum { A, B, X, Y, P0, P1, P2, P3, P4, P5, IMPL, TIMPL };
static Term atomt(int k) { Term t = {0}; t.atoms[0] = vh_pool[k]; return t; }
static Term stmt(int c, int s, int p) { Term t = {0}; t.atoms[0] = vh_pool[c]; t.atoms[1] = vh_pool[s]; t.atoms[2] = vh_pool[p]; return t; }
/* what the text of the input means */
static Term inTerm; static char inPunct; static int inTense; static Truth inTruth; static double inOffset;
void Narsese_Sentence(char *s, Term *t, char *p, int *tense, Truth *tv, double *off) { *t = inTerm; *p = inPunct; *tense = inTense; *tv = inTruth; *off = inOffset; }
void Narsese_INIT() {}
#ifdef H_ASK
/* --- questions --- */
#ifndef KIND
#define KIND 0
#endif
#define NT (OPERATIONS_MAX+1)
#define NIMP (KIND == 0 ? 2 : KIND == 1 ? 2*NT*PER : 2*PER)
#define MAXC 8
typedef struct { bool is; Term term; Truth truth; Stamp stamp; long occ, created; double ex; int con; } Cand;
static Cand cand[MAXC]; static int nc;
/* which stored terms the question matches */
static Term known[2+MAXC], whole, part; static bool mWhole[2+MAXC], mPart[2+MAXC]; static int nk;
Substitution Variable_Unify2(Truth truth, Term *general, Term *specific, bool query)
{
    Substitution s = {0}; bool w = vh_same(general, &whole), p = vh_same(general, &part);
    for(int i=0; i<nk; i++) { bool is = vh_same(specific, &known[i]); s.success = s.success | (is & ((w & mWhole[i]) | (p & mPart[i]))); }
    s.truth = truth; s.success = s.success & query; return s;
}
Term RuleTable_Reduce(Term t) { return t; }
typedef struct { Term term; Truth truth; Stamp stamp; long occ, created; } Ans;
static Ans ans[MAXC+2]; static int na = -1;
static void closeAnswer(void) { long cr = nnums == 1 ? num0 : num1, oc = nnums == 1 ? OCCURRENCE_ETERNAL : num0; for(int j=0; j<MAXC+2; j++) { if(j == na) { ans[j].created = cr; ans[j].occ = oc; } } }
void Narsese_PrintTerm(Term *t) { closeAnswer(); na++; nnums = 0; for(int j=0; j<MAXC+2; j++) { if(j == na) { ans[j].term = *t; } } }
void Stamp_print(Stamp *s) { for(int j=0; j<MAXC+2; j++) { if(j == na) { ans[j].stamp = *s; } } }
void Truth_Print(Truth *t) { for(int j=0; j<MAXC+2; j++) { if(j == na) { ans[j].truth = *t; } } }
static Concept c0, c1; static Concept *const cp[2] = { &c0, &c1 }; static Item items[CONCEPTS_MAX];
static Event ev(Term t, long lo, long hi)
{
    Event e = {0}; e.type = nd_bool() ? EVENT_TYPE_BELIEF : EVENT_TYPE_DELETED; e.term = t; e.truth = nd_qtruth(); e.occurrenceTime = OCCURRENCE_ETERNAL;
    if(hi > 0) { e.occurrenceTime = vh_t0 + nd_range(lo, hi); }
    e.stamp.evidentialBase[0] = nc + 1; e.creationTime = nd_range(1, 9); return e;
}
static void add(bool is, Event *e, double ex, int con) { if(nc < MAXC) { Cand k = { is & (e->type != EVENT_TYPE_DELETED), e->term, e->truth, e->stamp, e->occurrenceTime, e->creationTime, ex, con }; cand[nc] = k; } nc++; }
static void table(Table *t, int con, int *p, int copula)
{
    t->itemsAmount = (int) nd_range(0, PER);
    for(int j=0; j<PER; j++)
    {
        Implication *i = &t->array[j];
        i->term = stmt(copula, *p, con == 0 ? A : B); (*p)++; i->truth = nd_qtruth(); i->stamp.evidentialBase[0] = nc + 1; i->creationTime = nd_range(1, 9);
        known[nk] = i->term; mWhole[nk] = nd_bool(); mPart[nk] = nd_bool();
        ASSUME(!mWhole[nk] || mPart[con]); /* a match of the whole matches its parts */
        Cand k = { mWhole[nk] & (j < t->itemsAmount), i->term, i->truth, i->stamp, OCCURRENCE_ETERNAL, i->creationTime, Truth_Expectation(i->truth), con };
        if(nc < MAXC) { cand[nc] = k; } nc++; nk++;
    }
}
void h(void)
{
    vh_init(); nd_clock(); initialized = true; currentTime = vh_t0 + 15;
    inPunct = '?'; inTense = KIND == 0 ? (int) nd_range(0, 3) : 0; inTerm = KIND == 0 ? atomt(X) : stmt(KIND == 1 ? TIMPL : IMPL, X, Y); whole = inTerm; part = atomt(Y);
    QUESTION_PRIMING = nd_bool() ? 0.5 : 0.0;
    concepts.items = items; concepts.itemsAmount = (int) nd_range(0, 2); concepts.maxElements = 2;
    for(int i=0; i<2; i++) { known[i] = atomt(i == 0 ? A : B); mWhole[i] = KIND == 0 ? nd_bool() : false; mPart[i] = nd_bool(); }
    nk = 2; int p = P0; bool query = nd_bool(); double th = nd_grid(0, 8, 8.0), prio[2]; Usage use[2];
    for(int i=0; i<2; i++)
    {
        items[i].address = cp[i]; bool in = i < concepts.itemsAmount; cp[i]->term = known[i]; cp[i]->id = i+1; prio[i] = cp[i]->priority = nd_grid(0, 4, 4.0);
        cp[i]->usage.useCount = nd_range(0, 3); cp[i]->usage.lastUsed = nd_range(0, 3); use[i] = cp[i]->usage;
        bool m = in & mWhole[i]; int from = nc;
        if(KIND == 0)
        {
            cp[i]->belief = ev(cp[i]->term, 0, 0); add(m & (inTense == 0), &cp[i]->belief, Truth_Expectation(cp[i]->belief.truth), i);
            cp[i]->belief_spike = ev(cp[i]->term, 10, 15); add(m & (inTense == 1 || inTense == 2), &cp[i]->belief_spike, Truth_Expectation(Truth_Projection(cp[i]->belief_spike.truth, cp[i]->belief_spike.occurrenceTime, currentTime)), i);
            cp[i]->predicted_belief = ev(cp[i]->term, 12, 20); add(m & (inTense == 1 || inTense == 3), &cp[i]->predicted_belief, Truth_Expectation(Truth_Projection(cp[i]->predicted_belief.truth, cp[i]->predicted_belief.occurrenceTime, currentTime)), i);
        }
        else if(KIND == 1) { for(int o=0; o<NT; o++) { table(&cp[i]->precondition_beliefs[o], i, &p, TIMPL); } }
        else { table(&cp[i]->implication_links, i, &p, IMPL); }
        for(int k=from; k<nc; k++) { cand[k].is = cand[k].is & in; }
    }
    NAR_AddInputNarsese2("", query, th);
    closeAnswer();
    CHECK(na >= 0 && na <= MAXC && vh_same(&ans[0].term, &inTerm), "the question is reported first");
    bool any = false; for(int k=0; k<nc; k++) { any = any | cand[k].is; }
    bool primed = false;
    if(!query)
    {
        CHECK(na == (any ? 1 : 0) && none == !any, "one answer is given exactly if something stored matches");
        bool ok = false; int con = -1;
        for(int k=0; k<nc; k++)
        {
            bool best = cand[k].is; for(int j=0; j<nc; j++) { best = best & (!cand[j].is | (cand[j].ex < cand[k].ex) | ((cand[j].ex == cand[k].ex) & (cand[j].occ <= cand[k].occ))); }
            bool it = vh_same(&ans[1].term, &cand[k].term) & dsame(ans[1].truth, cand[k].truth) & st_same(&ans[1].stamp, &cand[k].stamp) & (ans[1].occ == cand[k].occ) & (ans[1].created == cand[k].created);
            ok = ok | (best & it); if(best & it) { con = cand[k].con; }
        }
        CHECK(!any || ok, "the answer is a best matching one, reported with its own truth, evidence and times");
        for(int i=0; i<2; i++)
        {
            bool pr = any & (KIND == 0) & (i == con) & (QUESTION_PRIMING > 0.0);
            CHECK(cp[i]->priority == (pr && QUESTION_PRIMING > prio[i] ? QUESTION_PRIMING : prio[i]), "answering draws attention to the answer's concept only");
            CHECK(pr || (cp[i]->usage.useCount == use[i].useCount && cp[i]->usage.lastUsed == use[i].lastUsed), "answering counts as use of the answer's concept only");
            CHECK(!pr || cp[i]->usage.lastUsed == currentTime, "answering counts as use of the answer's concept");
        }
        if(any) { REACH("answered"); } else { REACH("unanswered"); }
    }
    else
    {
        int due = 0;
        for(int k=0; k<nc; k++)
        {
            bool want = cand[k].is & (cand[k].ex > th); due += want; int n = 0;
            for(int j=1; j<=MAXC; j++) { n += (j <= na) & vh_same(&ans[j].term, &cand[k].term) & dsame(ans[j].truth, cand[k].truth) & st_same(&ans[j].stamp, &cand[k].stamp) & (ans[j].occ == cand[k].occ) & (ans[j].created == cand[k].created); }
            CHECK(n == want, "a query reports each match above the threshold once, and no other");
        }
        CHECK(na == due, "a query reports nothing else"); REACH("query");
    }
    CHECK(currentTime == vh_t0 + 15, "asking takes no time");
    for(int i=0; i<2; i++) { CHECK(cp[i]->belief.type == EVENT_TYPE_DELETED || KIND != 0 || dsame(cp[i]->belief.truth, cand[3*i].truth), "knowledge stays as it is"); }
}
#endif
#if defined(H_INPUT) || defined(H_RESET) || defined(H_REGISTER)
Term RuleTable_Reduce(Term t) { if(t.atoms[0] == vh_pool[X]) { t.atoms[0] = vh_pool[Y]; } return t; } /* what reduction does: C22 */
/* what the reasoner is given and asked to do, in order */
static Event got[4]; static long gotTime[4], cycled[4]; static int ng = 0, ncy = 0; static bool late = false;
void Memory_AddInputEvent(Event *e, long t) { late = late | (ncy != ng); for(int i=0; i<4; i++) { if(i == ng) { got[i] = *e; gotTime[i] = t; } } ng++; }
void Cycle_Perform(long t) { for(int i=0; i<4; i++) { if(i == ncy) { cycled[i] = t; } } ncy++; }
#endif
#ifdef H_INPUT
static void sentence(void)
{
    inTerm = atomt(nd_bool() ? X : A); inPunct = nd_bool() ? '.' : '!'; inTense = (int) nd_range(0, 3); inTruth = nd_qtruth(); inOffset = nd_grid(-8, 8, 2.0);
    ASSUME(inPunct == '.' || inTense < 2); /* what a goal about past or future means is left open */
}
void h(void)
{
    vh_init(); initialized = true; nd_clock(); long t0 = nd_time(), b0 = nd_range(1, 1L << 40); currentTime = t0; base = b0; vh_assert_mode = 0;
    bool import = nd_bool(); Stamp imp = {0}; if(import) { imp.evidentialBase[0] = nd_range(1, 1L << 40); imp.evidentialBase[1] = nd_range(0, 1L << 40); } importstamp = imp;
    Truth deflt = { .frequency = NAR_DEFAULT_FREQUENCY, .confidence = NAR_DEFAULT_CONFIDENCE };
    long k = nd_range(0, 2); bool how[2]; Event ret[2]; Term te[2]; char ty[2]; Truth tr[2]; double of[2]; bool et[2];
    for(int i=0; i<2; i++)
    {
        sentence(); Term red = inTerm; if(red.atoms[0] == vh_pool[X]) { red.atoms[0] = vh_pool[Y]; }
        how[i] = nd_bool();
        if(how[i]) { NAR_AddInputNarsese(""); te[i] = red; ty[i] = inPunct == '!' ? EVENT_TYPE_GOAL : EVENT_TYPE_BELIEF; tr[i] = inTruth; of[i] = inOffset; et[i] = inTense == 0;
            CHECK(inPunct == '.' ? inTense < 2 : inTense != 0, "eternal goals and beliefs about past or future are refused"); }
        else
        {
            te[i] = inTerm; tr[i] = deflt; of[i] = 0; et[i] = false;
            if(inPunct == '!') { ret[i] = NAR_AddInputGoal(inTerm); ty[i] = EVENT_TYPE_GOAL; }
            else if(inTense < 2) { ret[i] = NAR_AddInputBelief(inTerm); ty[i] = EVENT_TYPE_BELIEF; }
            else { bool e = nd_bool(); ret[i] = NAR_AddInput(inTerm, EVENT_TYPE_BELIEF, inTruth, e, inOffset); ty[i] = EVENT_TYPE_BELIEF; tr[i] = inTruth; of[i] = inOffset; et[i] = e; }
        }
        CHECK(ng == i+1 && ncy == i+1 && !late, "each input is taken in once and followed by one cycle");
        long t = t0 + i; Event *e = &got[i];
        CHECK(gotTime[i] == t && cycled[i] == t && currentTime == t + 1, "input and cycle happen at the current time, and then it is one later");
        CHECK(vh_same(&e->term, &te[i]) && e->type == ty[i] && dsame(e->truth, tr[i]) && e->occurrenceTimeOffset == of[i], "what is taken in is what was said");
        CHECK(e->occurrenceTime == (et[i] ? OCCURRENCE_ETERNAL : t) && e->creationTime == t && e->input, "it is dated with the current time or eternal");
        CHECK(how[i] || (vh_same(&ret[i].term, &e->term) && ret[i].occurrenceTime == e->occurrenceTime && st_same(&ret[i].stamp, &e->stamp)), "the caller is told what was taken in");
        bool imported = import && i == 0, fresh = e->stamp.evidentialBase[0] >= b0;
        for(int j=1; j<STAMP_SIZE; j++) { fresh = fresh & (e->stamp.evidentialBase[j] == STAMP_FREE); }
        CHECK(imported ? st_same(&e->stamp, &imp) : fresh, "it has evidence of its own, unless evidence was imported for it");
        CHECK(i == 0 || imported || import || got[0].stamp.evidentialBase[0] != e->stamp.evidentialBase[0], "no two inputs have the same evidence");
        CHECK(base > e->stamp.evidentialBase[0] || imported, "later inputs get later evidence");
    }
    NAR_Cycles((int) k);
    CHECK(ncy == 2 + k && currentTime == t0 + 2 + k && (k < 1 || cycled[2] == t0 + 2) && (k < 2 || cycled[3] == t0 + 3), "cycles follow each other one time step apart");
    REACH("taken in");
}
#endif
#ifdef H_REGISTER
/* --- operations are numbered in the order of their registration --- */
static Feedback act0(Term a) { Feedback f = {0}; return f; }
static Feedback act1(Term a) { Feedback f = {0}; return f; }
static char *const names[3] = { "^p", "^q", "^r" };
Term Narsese_AtomicTerm(char *n) { return atomt(n[1] == 'p' ? P0 : n[1] == 'q' ? P1 : P2); }
void h(void)
{
    vh_init(); nd_clock(); NAR_INIT();
    int order[3], n = 0; int which[4]; Action acts[3] = {0};
    for(int i=0; i<3; i++) { order[i] = 0; }
    for(int i=0; i<4; i++)
    {
        which[i] = (int) nd_range(0, 2); Action f = nd_bool() ? act0 : act1;
        vh_assert_mode = order[which[i]] == 0 && n == OPERATIONS_MAX ? 0 : 1;
        if(which[i] == 0) { NAR_AddOperation(names[0], f); } else if(which[i] == 1) { NAR_AddOperation(names[1], f); } else { NAR_AddOperation(names[2], f); }
        CHECK(order[which[i]] != 0 || n < OPERATIONS_MAX, "no more operations are registered than there is room for");
        for(int j=0; j<3; j++) { if(j == which[i]) { acts[j] = f; if(order[j] == 0) { n++; order[j] = n; } } }
    }
    for(int j=0; j<3; j++)
    {
        Term t = atomt(P0 + j); int id = Memory_getOperationID(&t);
        CHECK(id == order[j], "an operation's number is that of its registration");
        for(int k=0; k<OPERATIONS_MAX; k++) { if(order[j] == k+1) { CHECK(vh_same(&operations[k].term, &t) && operations[k].action == acts[j], "an operation calls what was registered last for it"); } }
    }
    for(int k=0; k<OPERATIONS_MAX; k++) { if(k >= n) { CHECK(operations[k].action == 0 && operations[k].term.atoms[0] == 0, "nothing else is registered"); } }
    REACH("registered");
}
#endif
#ifdef H_RESET
static Feedback act0(Term a) { Feedback f = {0}; return f; }
Term Narsese_AtomicTerm(char *n) { return atomt(P0); }
static bool deleted(Event *e) { return e->type == EVENT_TYPE_DELETED; }
void h(void)
{
    vh_init(); nd_clock(); NAR_INIT();
    /* some history */
    Term ta = atomt(A), tb = atomt(B); Event e = {0}; e.type = EVENT_TYPE_BELIEF; e.truth = nd_qtruth();
    Concept *a = Memory_Conceptualize(&ta, 1); long first = a->id; Concept *b = nd_bool() ? Memory_Conceptualize(&tb, 2) : NULL;
    a->belief = a->belief_spike = a->predicted_belief = a->goal_spike = e; a->implication_links.itemsAmount = 1; a->precondition_beliefs[OPERATIONS_MAX].itemsAmount = 1; a->precondition_beliefs[0].itemsAmount = 1; a->priority = 0.5; a->usage.useCount = 3; a->lastSelectionTime = 4;
    OccurrenceTimeIndex_Add(a, &occurrenceTimeIndex); conceptPriorityThreshold = nd_grid(0, 4, 4.0); RESTRICTED_CONCEPT_CREATION = nd_bool();
    if(nd_bool()) { Memory_addCyclingEvent(&e, 0.5, 1, 0); } e.type = EVENT_TYPE_GOAL; if(nd_bool()) { Memory_addCyclingEvent(&e, 0.5, 1, 0); } if(nd_bool()) { Memory_addCyclingEvent(&e, 0.5, 1, CYCLING_GOAL_EVENTS_LAYERS-1); }
    if(nd_bool()) { NAR_AddOperation("^p", act0); }
    currentTime = nd_range(1, 1L << 40); base = nd_range(1, 1L << 40); importstamp.evidentialBase[0] = nd_range(0, 9);
    NAR_INIT();
    CHECK(currentTime == 1, "time starts again");
    NAR_AddInputBelief(ta);
    CHECK(ng == 1 && got[0].stamp.evidentialBase[0] == 1 && got[0].stamp.evidentialBase[1] == STAMP_FREE, "evidence starts again");
    CHECK(concepts.itemsAmount == 0 && Memory_FindConceptByTerm(&ta) == NULL && Memory_FindConceptByTerm(&tb) == NULL, "no concept is left");
    CHECK(InvertedAtomIndex_GetConceptChain(vh_pool[A]) == NULL && InvertedAtomIndex_GetConceptChain(vh_pool[B]) == NULL, "no concept is listed for any atom");
    CHECK(cycling_belief_events.itemsAmount == 0, "no belief is pending"); for(int l=0; l<CYCLING_GOAL_EVENTS_LAYERS; l++) { CHECK(cycling_goal_events[l].itemsAmount == 0, "no goal is pending"); }
    CHECK(occurrenceTimeIndex.itemsAmount == 0 && conceptPriorityThreshold == 0.0 && RESTRICTED_CONCEPT_CREATION == RESTRICTED_CONCEPT_CREATION_INITIAL, "indexes and thresholds start again");
    for(int k=0; k<OPERATIONS_MAX; k++) { CHECK(operations[k].action == 0 && operations[k].term.atoms[0] == 0, "no operation is registered"); }
    NAR_AddOperation("^p", act0); Term op = atomt(P0); CHECK(Memory_getOperationID(&op) == 1, "operations are numbered from the beginning");
    for(int i=0; i<CONCEPTS_MAX; i++)
    {
        Concept *c = Memory_Conceptualize(i == 0 ? &tb : &ta, 1);
        CHECK(c != NULL && deleted(&c->belief) && deleted(&c->belief_spike) && deleted(&c->predicted_belief) && deleted(&c->goal_spike) && c->implication_links.itemsAmount == 0 && c->lastSelectionTime == 0, "new concepts know nothing");
        for(int o=0; o<=OPERATIONS_MAX; o++) { CHECK(c->precondition_beliefs[o].itemsAmount == 0, "new concepts know no hypothesis"); }
        if(i == 0) { CHECK(c->id == first, "concepts are numbered from the beginning"); }
    }
    CHECK(concepts.itemsAmount == CONCEPTS_MAX && Memory_FindConceptByTerm(&ta) != NULL && Memory_FindConceptByTerm(&tb) != NULL, "there is room for concepts again");
    REACH("reset");
}
#endif
