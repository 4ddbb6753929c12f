/* Evidential bases: full-size stamps, 64-bit ids. */
#include "vh.h"
#include "Stamp.h"
#define S STAMP_SIZE
static Stamp nd_stamp(void)
{
    Stamp s; bool open = true;
    for(int i=0; i<S; i++)
    {
        long v = nd_long();
        ASSUME(v >= 0);
        if(!open) { ASSUME(v == STAMP_FREE); }
        s.evidentialBase[i] = v;
        if(v == STAMP_FREE) { open = false; }
    }
    return s;
}
static int len(Stamp *s) { int n=0; for(int i=0; i<S; i++) { if(s->evidentialBase[i] != STAMP_FREE) n++; } return n; }
static bool has(Stamp *s, long v) { bool r=false; for(int i=0; i<S; i++) { r = r | (s->evidentialBase[i] == v); } return r; }

void h_merge(void)
{
    Stamp a = nd_stamp(), b = nd_stamp();
    Stamp a0 = a, b0 = b;
    Stamp m = Stamp_make(&a, &b);
    int la = len(&a), lb = len(&b), lm = len(&m);
    for(int i=0; i<S; i++)
    {
        CHECK(a.evidentialBase[i] == a0.evidentialBase[i] && b.evidentialBase[i] == b0.evidentialBase[i], "merging leaves the premises' stamps alone");
        long v = m.evidentialBase[i];
        CHECK(v == STAMP_FREE || has(&a, v) || has(&b, v), "merged stamp contains only evidence of the premises");
        CHECK(i+1 >= S || v != STAMP_FREE || m.evidentialBase[i+1] == STAMP_FREE, "merged stamp has no gap");
        if(lm < S || la + lb <= S)
        {
            long x = a.evidentialBase[i], y = b.evidentialBase[i];
            CHECK(x == STAMP_FREE || has(&m, x), "evidence of the first premise is kept when it fits");
            CHECK(y == STAMP_FREE || has(&m, y), "evidence of the second premise is kept when it fits");
        }
    }
    /* fairness of the zip: the newest (first) entries of both premises survive, alternating */
    for(int i=0; i<S/2; i++)
    {
        long x = a.evidentialBase[i], y = b.evidentialBase[i];
        CHECK(x == STAMP_FREE || has(&m, x), "the most recent evidence of the first premise survives truncation");
        CHECK(y == STAMP_FREE || has(&m, y), "the most recent evidence of the second premise survives truncation");
    }
    CHECK(lm == (la + lb < S ? la + lb : S), "merged stamp uses its capacity");
    if(la + lb > S)
    {
        long inA = 0, inB = 0;
        /* neither premise takes more room than needed by the other's exhaustion */
        for(int i=0; i<S; i++) { if(a.evidentialBase[i] && has(&m, a.evidentialBase[i])) inA++; if(b.evidentialBase[i] && has(&m, b.evidentialBase[i])) inB++; }
        CHECK(inA >= (la < S/2 ? la : S/2) && inB >= (lb < S/2 ? lb : S/2), "a full merged stamp represents both premises");
    }
    REACH("end");
}

void h_overlap(void)
{
    Stamp a = nd_stamp(), b = nd_stamp();
    bool shared = false;
    for(int i=0; i<S; i++) { for(int j=0; j<S; j++) { shared = shared | (a.evidentialBase[i] != STAMP_FREE && a.evidentialBase[i] == b.evidentialBase[j]); } }
    bool r = Stamp_checkOverlap(&a, &b), q = Stamp_checkOverlap(&b, &a);
    CHECK(r == shared, "overlap is reported exactly when some evidence is shared");
    CHECK(q == shared, "overlap is symmetric");
    REACH("end");
}

/* what a conclusion is based on overlaps with each premise (as long as that premise has evidence) */
void h_merge_overlap(void)
{
    Stamp a = nd_stamp(), b = nd_stamp();
    Stamp m = Stamp_make(&a, &b);
    CHECK(a.evidentialBase[0] == STAMP_FREE || Stamp_checkOverlap(&m, &a), "a conclusion overlaps with its first premise");
    CHECK(b.evidentialBase[0] == STAMP_FREE || Stamp_checkOverlap(&m, &b), "a conclusion overlaps with its second premise");
    CHECK(Stamp_checkOverlap(&m, &m) == (a.evidentialBase[0] != STAMP_FREE || b.evidentialBase[0] != STAMP_FREE), "overlap is reflexive for non-empty stamps");
    REACH("end");
}

/* equality: reflexive; equal stamps hold evidence of the left in the right; duplicate-free equal-length stamps equal iff same sets */
void h_equal(void)
{
    Stamp a = nd_stamp(), b = nd_stamp();
    CHECK(Stamp_Equal(&a, &a), "a stamp equals itself");
    for(int i=0; i<S; i++) { for(int j=0; j<i; j++) { ASSUME(a.evidentialBase[i] == STAMP_FREE || a.evidentialBase[i] != a.evidentialBase[j]); ASSUME(b.evidentialBase[i] == STAMP_FREE || b.evidentialBase[i] != b.evidentialBase[j]); } }
    bool same = len(&a) == len(&b);
    for(int i=0; i<S; i++) { long v = a.evidentialBase[i]; same = same & (v == STAMP_FREE || has(&b, v)); }
    if(len(&a) == len(&b)) { CHECK(Stamp_Equal(&a, &b) == same, "stamps of equal size are equal exactly when they hold the same evidence"); }
    REACH("end");
}
