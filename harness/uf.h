/* Truth functions as uninterpreted functions: the harness decides which function is applied to which truth values,
   for every function with the stated facts (decided by C01-C03). The replay uses the real functions. */
#ifndef UF_H
#define UF_H
#include "vh.h"
#include "Truth.h"
#include "Stamp.h"
#define NGF 5
#define NGC 6
static const double GF[NGF] = { 0.0, 0.25, 0.5, 0.8, 1.0 }, GC[NGC] = { 0.04, 0.3, 0.5, 0.72, 0.9, 0.99 };
static const double PW[6] = { 1.0, 0.8, 0.64, 0.512, 0.4096, 0.32768 };
#ifdef UF_LIGHT
static inline Truth nd_truth(void) { Truth t = { .frequency = nd_bool() ? 1.0 : 0.25, .confidence = nd_bool() ? 0.9 : 0.3 }; return t; }
#else
static inline Truth nd_truth(void)
{
    Truth t = {0}; long i = nd_range(0, NGF-1), j = nd_range(0, NGC-1);
    for(int k=0; k<NGF; k++) { if(i == k) t.frequency = GF[k]; }
    for(int k=0; k<NGC; k++) { if(j == k) t.confidence = GC[k]; }
    return t;
}
#endif
/* times: now-ish, small or beyond 32 bits */
static long vh_t0 = 0;
static inline void nd_clock(void) { vh_t0 = nd_bool() ? 5000000000L : 0; }
static inline long nd_time(void) { return vh_t0 + nd_range(10, 15); }
static inline Stamp nd_stamp_small(long max)
{
    Stamp s = {0}; bool open = true;
    for(int i=0; i<STAMP_SIZE; i++)
    {
        long v = nd_range(0, max);
        if(!open) { ASSUME(v == STAMP_FREE); }
        for(int j=0; j<i; j++) { ASSUME(v == STAMP_FREE || s.evidentialBase[j] != v); }
        s.evidentialBase[i] = v;
        if(v == STAMP_FREE) { open = false; }
    }
    return s;
}
static inline int st_len(Stamp *s) { int n=0; for(int i=0; i<STAMP_SIZE; i++) { n += s->evidentialBase[i] != STAMP_FREE; } return n; }
static inline bool st_has(Stamp *s, long v) { bool r=false; for(int i=0; i<STAMP_SIZE; i++) { r = r | (s->evidentialBase[i] == v); } return r; }
static inline bool st_same(Stamp *a, Stamp *b) { bool r = true; for(int i=0; i<STAMP_SIZE; i++) { r = r & (a->evidentialBase[i] == b->evidentialBase[i]); } return r; }
static inline bool st_overlap(Stamp *a, Stamp *b) { bool r = false; for(int i=0; i<STAMP_SIZE; i++) { r = r | (a->evidentialBase[i] != STAMP_FREE & st_has(b, a->evidentialBase[i])); } return r; }
/* merged evidence: nothing but the premises', and all of it when it fits, otherwise the newest of both */
static inline bool st_merged(Stamp *m, Stamp *a, Stamp *b)
{
    bool r = true; bool fits = st_len(a) + st_len(b) <= STAMP_SIZE;
    for(int i=0; i<STAMP_SIZE; i++)
    {
        long v = m->evidentialBase[i], x = a->evidentialBase[i], y = b->evidentialBase[i];
        r = r & (v == STAMP_FREE | st_has(a, v) | st_has(b, v));
        if(i < STAMP_SIZE/2) { r = r & (x == STAMP_FREE | st_has(m, x)) & (y == STAMP_FREE | st_has(m, y)); }
        else { r = r & (!fits | ((x == STAMP_FREE | st_has(m, x)) & (y == STAMP_FREE | st_has(m, y)))); }
    }
    return r;
}
static inline bool tr_same(Truth a, Truth b) { return a.frequency == b.frequency & a.confidence == b.confidence; }
#if !defined(REPLAY) && !defined(NO_UF)
#define UFDECL(n) double __CPROVER_uninterpreted_f_##n(double,double,double,double); double __CPROVER_uninterpreted_c_##n(double,double,double,double);
#define UFCALL(n,a,b) ({ Truth r_ = {0}; r_.frequency = __CPROVER_uninterpreted_f_##n(a.frequency,a.confidence,b.frequency,b.confidence); \
    r_.confidence = __CPROVER_uninterpreted_c_##n(a.frequency,a.confidence,b.frequency,b.confidence); \
    __CPROVER_assume(r_.frequency >= 0.0 && r_.frequency <= 1.0 && r_.confidence >= 0.0 && r_.confidence <= MAX_CONFIDENCE); r_; })
#define UFBIN(n) UFDECL(n) Truth Truth_##n(Truth a, Truth b) { return UFCALL(n,a,b); }
/* order the operands of symmetric functions */
#define SWAP2(a,b) if(a.confidence > b.confidence || (a.confidence == b.confidence && a.frequency > b.frequency)) { Truth t_ = a; a = b; b = t_; }
UFDECL(Abduction) UFDECL(Revision) UFDECL(Intersection) UFDECL(Projection) UFDECL(Eternalize)
UFBIN(Deduction) UFBIN(GoalDeduction) UFBIN(Exemplification) UFBIN(Analogy)
Truth Truth_Abduction(Truth a, Truth b) { return UFCALL(Abduction, a, b); }
Truth Truth_Induction(Truth a, Truth b) { return UFCALL(Abduction, b, a); }
Truth Truth_Intersection(Truth a, Truth b) { SWAP2(a,b) return UFCALL(Intersection, a, b); }
Truth Truth_Revision(Truth a, Truth b) { SWAP2(a,b) Truth r = UFCALL(Revision, a, b); __CPROVER_assume(r.confidence >= a.confidence && r.confidence >= b.confidence); return r; }
Truth Truth_Eternalize(Truth a) { Truth r = UFCALL(Eternalize, a, a); r.frequency = a.frequency; __CPROVER_assume(r.confidence <= a.confidence); return r; }
Truth Truth_Projection(Truth v, long from, long to)
{
    if(from == OCCURRENCE_ETERNAL || from == to) { return v; }
    long d = from < to ? to - from : from - to;
    Truth r = { .frequency = v.frequency, .confidence = __CPROVER_uninterpreted_c_Projection(v.confidence, (double) d, 0.0, 0.0) };
#ifndef UF_LIGHT /* exact for the grid and up to 5 steps */
    for(int i=0; i<NGC; i++) { for(int j=1; j<6; j++) { if(v.confidence == GC[i] && d == j) { r.confidence = GC[i] * PW[j]; } } }
#endif
    __CPROVER_assume(r.confidence >= 0.0 && r.confidence <= v.confidence);
    return r;
}
#endif
#endif
