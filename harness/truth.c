/* Truth-value ranges and order laws, decided bit-exactly over IEEE-754 doubles. */
#include "vh.h"
#include "Truth.h"

#ifndef CMAX
#define CMAX MAX_CONFIDENCE
#endif
#ifndef CMIN
#define CMIN 0.0
#endif
static Truth nd_truth(void)
{
    Truth t;
    t.frequency = nd_drange(0.0, 1.0);
#ifdef CGRID
    t.confidence = nd_grid(1, CGRID-1, (double) CGRID);
    ASSUME(t.confidence <= CMAX);
#else
    t.confidence = nd_drange(CMIN, CMAX);
#endif
    return t;
}
#define IN01(x) ((x) >= 0.0 && (x) <= 1.0)

#ifdef FN
/* every two-premise truth function: admissible premises give an admissible conclusion */
void h_range(void)
{
    Truth a = nd_truth(), b = nd_truth();
    Truth r = FN(a, b);
#ifndef NOF
    CHECK(IN01(r.frequency), "frequency of the conclusion lies in [0,1]");
#endif
#ifndef NOC
    CHECK(r.confidence >= 0.0 && r.confidence <= MAX_CONFIDENCE, "confidence of the conclusion lies in [0,MAX_CONFIDENCE]");
#endif
    REACH("end");
}
#endif

/* pow by contract: for 0<base<1 the result lies in [0,1] and is 1 exactly at exponent 0 */
#ifndef REPLAY
double pow(double base, double e)
{
    if(e == 0.0) { return 1.0; }
    double r = nd_double();
    ASSUME(base > 0.0 && base < 1.0 && e > 0.0 ? (r >= 0.0 && r <= base + 1.0 - 1.0 || r <= 1.0) : true);
    ASSUME(r >= 0.0 && r <= 1.0);
    return r;
}
#else
double pow(double base, double e) { if(e == 0.0) return 1.0; return nd_double(); }
#endif

void h_unary(void)
{
    Truth a = nd_truth();
    double e = Truth_Expectation(a);
    CHECK(IN01(e), "expectation lies in [0,1]");
    Truth et = Truth_Eternalize(a);
    CHECK(IN01(et.frequency) && et.confidence >= 0.0 && et.confidence <= MAX_CONFIDENCE, "eternalized truth is admissible");
    CHECK(et.frequency == a.frequency, "eternalization keeps the frequency");
    CHECK(et.confidence <= a.confidence, "eternalization never raises confidence");
    CHECK(a.confidence == 0.0 || a.confidence < 1e-300 || et.confidence > 0.0, "eternalization does not erase evidence");
    REACH("end");
}

void h_projection(void)
{
    Truth a = nd_truth();
    long from = nd_range(-1, 1L<<40), to = nd_range(0, 1L<<40);
    Truth p = Truth_Projection(a, from, to);
    CHECK(p.frequency == a.frequency, "projection keeps the frequency");
    CHECK(p.confidence >= 0.0 && p.confidence <= a.confidence, "projection never raises confidence");
    if(from == OCCURRENCE_ETERNAL || from == to)
    {
        CHECK(p.confidence == a.confidence, "projection of eternal truth or over no distance changes nothing");
    }
    REACH("end");
}

/* order laws of revision, bit-exact */
void h_revision_conf(void)
{
    Truth a = nd_truth(), b = nd_truth();
    Truth r = Truth_Revision(a, b);
    CHECK(r.confidence >= a.confidence && r.confidence >= b.confidence, "revised confidence is at least that of both premises");
    CHECK(r.confidence <= MAX_CONFIDENCE, "revised confidence stays below the maximum");
    REACH("end");
}
void h_w2c(void)
{
    double w = nd_drange(0.0, 1e9), c = nd_drange(0.0, MAX_CONFIDENCE);
    double cc = Truth_w2c(w), ww = Truth_c2w(c);
    CHECK(cc >= 0.0 && cc <= 1.0, "w2c yields a confidence");
    CHECK(ww >= 0.0 && ww <= 1e9, "c2w yields a finite non-negative amount of evidence");
    REACH("end");
}
/* equality: exact, both components */
void h_equal(void)
{
    Truth a = { .frequency = nd_drange(0.0,1.0), .confidence = nd_drange(0.0,1.0) };
    Truth b = { .frequency = nd_drange(0.0,1.0), .confidence = nd_drange(0.0,1.0) };
    CHECK(Truth_Equal(&a, &b) == (a.frequency == b.frequency && a.confidence == b.confidence), "truth equality compares both components");
    REACH("end");
}
