/* Ring buffer of recently active concepts. */
#include "vh.h"
#include "OccurrenceTimeIndex.h"
#ifndef ADDS
#define ADDS 11
#endif
static OccurrenceTimeIndex f;
static Concept cs[ADDS];
#define N OCCURRENCE_TIME_INDEX_SIZE
void h(void)
{
    int n = (int) nd_range(0, ADDS);
    CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == NULL, "an empty index yields nothing");
    for(int i=0; i<ADDS; i++) { if(i < n) { OccurrenceTimeIndex_Add(&cs[i], &f); } }
    int held = n < N ? n : N;
    CHECK(f.itemsAmount == held, "the index holds the most recent entries up to its capacity");
    if(n > 0)
    {
        int k = (int) nd_range(0, N-1);
        ASSUME(k < held);
        CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, k) == &cs[n-1-k], "the k-th newest entry is the k-th last added");
    }
    REACH("end");
}
/* one step from an arbitrary state at full size: adding shifts every entry by one */
void h_step(void)
{
    static Concept pool[3];
    f.itemsAmount = (int) nd_range(1, N);
    f.currentIndex = f.itemsAmount < N ? f.itemsAmount : (int) nd_range(0, N-1);
    int k = (int) nd_range(0, N-1);
    ASSUME(k < f.itemsAmount);
    int pos = (f.currentIndex - 1 - k + 2*N) % N;
    f.array[pos] = &pool[1];
    CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, k) == &pool[1], "the k-th newest entry is read from its slot");
    int before = f.itemsAmount;
    OccurrenceTimeIndex_Add(&pool[2], &f);
    CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == &pool[2], "the entry just added is the newest");
    CHECK(f.itemsAmount == (before < N ? before+1 : N), "the size grows by one up to capacity");
    CHECK(f.currentIndex >= 0 && f.currentIndex < N, "the write position stays inside the buffer");
    if(k+1 < N) { CHECK(OccurrenceTimeIndex_GetKthNewestElement(&f, k+1) == &pool[1], "older entries move back by one and are otherwise untouched"); }
    REACH("end");
}
