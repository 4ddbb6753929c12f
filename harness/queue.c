/* Bounded double-ended priority queue against a multiset model. Histories start from an initialised queue. */
#include "vh.h"
#include "PriorityQueue.h"
#ifndef CAP
#define CAP 5
#endif
static Item items[CAP];
static int payload[CAP];
static PriorityQueue q;
static double mprio[CAP]; static bool mlive[CAP]; /* model: priority held by each storage slot */

static void init(void)
{
    PriorityQueue_INIT(&q, items, CAP);
    for(int i=0; i<CAP; i++) { q.items[i] = (Item) { .address = &payload[i] }; mlive[i] = false; }
}
static int slot(void *p) { int r = -1; for(int i=0; i<CAP; i++) { if(p == (void*) &payload[i]) r = i; } return r; }
static int count = 0;
static double mmin(void) { double m = 2.0; for(int i=0; i<CAP; i++) if(mlive[i] && mprio[i] < m) m = mprio[i]; return m; }
static double mmax(void) { double m = -1.0; for(int i=0; i<CAP; i++) if(mlive[i] && mprio[i] > m) m = mprio[i]; return m; }

#ifndef RANKS
#define RANKS 8
#endif
/* one of RANKS distinct priorities: all orders (and ties) of up to RANKS priorities occur */
static double nd_prio(void)
{
    static const double t[16] = { 0.0, 1e-9, 0.01, 0.1, 0.25, 0.3, 0.5, 0.51, 0.6, 0.7, 0.75, 0.8, 0.9, 0.95, 0.99, 1.0 };
    long k = nd_range(0, RANKS-1); double p = t[0];
    for(int i=1; i<RANKS; i++) { if(k == i) p = t[i]; }
    return p;
}
static void do_push(void)
{
    double p = nd_prio();
    int before = count; double mn = mmin();
    PriorityQueue_Push_Feedback f = PriorityQueue_Push(&q, p);
    if(before < CAP) { CHECK(f.added, "an item is accepted while there is room"); }
    else if(p > mn) { CHECK(f.added, "a full queue accepts an item better than its worst"); }
    else if(p < mn) { CHECK(!f.added, "a full queue rejects an item worse than its worst"); }
    if(f.added)
    {
        int s = slot(f.addedItem.address);
        CHECK(s >= 0, "accepted item gets a storage slot of the queue");
        CHECK(f.addedItem.priority == p, "accepted item carries its priority");
        if(before < CAP)
        {
            CHECK(!f.evicted, "nothing is evicted while there is room");
            CHECK(s >= 0 && !mlive[s], "an accepted item never reuses storage that is still queued");
        }
        else
        {
            CHECK(f.evicted, "a full queue evicts to accept");
            CHECK(s >= 0 && mlive[s] && mprio[s] == mn, "the evicted item is one of lowest priority and its storage is recycled");
            CHECK(f.evictedItem.priority == mn, "the reported evicted item is the one of lowest priority");
        }
        if(s >= 0) { mlive[s] = true; mprio[s] = p; }
        if(before < CAP) { count++; }
    }
    else { CHECK(!f.evicted, "a rejected item evicts nothing"); }
}
static void do_popmax(void)
{
    void *a = NULL; double p = -5.0; int before = count; double mx = mmax();
    bool ok = PriorityQueue_PopMax(&q, &a, &p);
    CHECK(ok == (before > 0), "popping succeeds exactly when something is queued");
    if(ok)
    {
        int s = slot(a);
        CHECK(p == mx, "pop-max returns the highest priority");
        CHECK(s >= 0 && mlive[s] && mprio[s] == p, "pop-max returns a queued item with its own priority");
        if(s >= 0) mlive[s] = false;
        count--;
    }
}
static void do_popmin(void)
{
    void *a = NULL; double p = -5.0; int before = count; double mn = mmin();
    bool ok = PriorityQueue_PopMin(&q, &a, &p);
    CHECK(ok == (before > 0), "popping succeeds exactly when something is queued");
    if(ok)
    {
        int s = slot(a);
        CHECK(p == mn, "pop-min returns the lowest priority");
        CHECK(s >= 0 && mlive[s] && mprio[s] == p, "pop-min returns a queued item with its own priority");
        if(s >= 0) mlive[s] = false;
        count--;
    }
}
static void check_contents(void)
{
    CHECK(q.itemsAmount == count, "the queue's size is the number of items it holds");
    CHECK(q.itemsAmount <= CAP, "the queue never exceeds its capacity");
    bool seen[CAP] = {0};
    for(int i=0; i<CAP; i++)
    {
        int s = slot(q.items[i].address);
        CHECK(s >= 0 && !seen[s], "storage slots stay a permutation: no item lost or duplicated");
        if(s >= 0) { seen[s] = true; if(i < q.itemsAmount) { CHECK(mlive[s] && mprio[s] == q.items[i].priority, "each held item keeps its own priority"); } }
    }
}
/* Histories: SCHED fixes the order of operations (P push, X pop-max, x pop-min, R in-place rebuild); the priorities are symbolic. */
#ifndef SCHED
#define SCHED "P"
#endif
void h_hist(void)
{
    init();
    const char *s = SCHED;
    for(int i=0; i<(int) sizeof(SCHED)-1; i++)
    {
        if(s[i] == 'P') { do_push(); }
        if(s[i] == 'X') { do_popmax(); }
        if(s[i] == 'x') { do_popmin(); }
        if(s[i] == '?') { if(nd_bool()) { do_popmax(); } else { do_popmin(); } }
        if(s[i] == 'C') { check_contents(); }
    }
    check_contents();
    if(count == 0) { void *a; double p; CHECK(!PriorityQueue_PopMax(&q, &a, &p) && !PriorityQueue_PopMin(&q, &a, &p), "an empty queue yields nothing"); }
    REACH("end");
}
/* arbitrary priorities written in place, then rebuilt: any valid queue state, drained from both ends */
#ifndef N
#define N CAP
#endif
void h_rebuild(void)
{
    init();
    for(int i=0; i<CAP; i++) { if(i < N) { q.items[i].priority = nd_prio(); mlive[i] = true; mprio[i] = q.items[i].priority; } }
    q.itemsAmount = N; count = N;
    PriorityQueue_Rebuild(&q);
    check_contents();
    const char *s = SCHED;
    for(int i=0; i<(int) sizeof(SCHED)-1; i++)
    {
        if(s[i] == 'P') { do_push(); }
        if(s[i] == 'X') { do_popmax(); }
        if(s[i] == 'x') { do_popmin(); }
    }
    REACH("end");
}
