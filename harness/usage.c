/* Usefulness of concepts. */
#include "vh.h"
#include "Usage.h"
#ifndef TMAX
#define TMAX (1L<<20)
#endif
static Usage nd_usage(void) { Usage u; u.useCount = nd_range(0, TMAX); u.lastUsed = nd_range(0, TMAX); return u; }
void h_range(void)
{
    Usage u = { .useCount = nd_range(0, 1L<<52), .lastUsed = nd_range(0, 1L<<52) };
    long t = nd_range(0, 1L<<52);
    double v = Usage_usefulness(u, t);
    CHECK(v >= 0.0 && v <= 1.0, "usefulness lies in [0,1]");
    CHECK(u.useCount == 0 || v > 0.0, "something used at all has positive usefulness");
    REACH("end");
}
/* more use is never less useful; longer disuse is never more useful */
void h_mono_count(void)
{
    Usage u = nd_usage(); long t = nd_range(0, TMAX);
    Usage w = u; w.useCount = nd_range(0, TMAX); ASSUME(w.useCount >= u.useCount);
    CHECK(Usage_usefulness(w, t) >= Usage_usefulness(u, t), "more frequent use never lowers usefulness");
    REACH("end");
}
void h_mono_time(void)
{
    Usage u = nd_usage(); long t = nd_range(0, TMAX), t2 = nd_range(0, TMAX); ASSUME(t2 >= t);
    CHECK(Usage_usefulness(u, t2) <= Usage_usefulness(u, t), "longer disuse never raises usefulness");
    REACH("end");
}
void h_use(void)
{
    Usage u = { .useCount = nd_range(0, 1L<<52), .lastUsed = nd_range(0, 1L<<52) }; long t = nd_range(0, 1L<<52);
    Usage a = Usage_use(u, t, false), b = Usage_use(u, t, true);
    CHECK(a.lastUsed == t && b.lastUsed == t, "use records the current time");
    CHECK(a.useCount == u.useCount + 1, "an ordinary use counts once");
    CHECK(b.useCount == u.useCount + ETERNAL_INPUT_USAGE_BOOST && b.useCount > a.useCount, "eternal input gets the configured boost");
    REACH("end");
}
