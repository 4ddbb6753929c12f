/* Shared harness prelude. The same harness is (a) encoded by CBMC and (b), when the solver
   reports a counterexample, compiled natively with ASan/UBSan and fed the solver's values. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#ifdef REPLAY
#include <unistd.h>
long long vh_next_int(void);
double vh_next_double(void);
void vh_fail(const char *msg);
#define CHECK(c,msg) do { if(!(c)) vh_fail(msg); } while(0)
#define ASSUME(c) do { if(!(c)) { fprintf(stderr,"REPLAY: assumption not met: %s\n", #c); _exit(78); } } while(0)
#define REACH(msg) do { fprintf(stderr,"REPLAY: reached: %s\n", msg); } while(0)
static inline long nd_long(void) { return (long) vh_next_int(); }
static inline double nd_double(void) { return vh_next_double(); }
#else
long nondet_long(void);
double nondet_double(void);
extern long ND_LOG;      /* every nondeterministic choice is logged here, in program order */
extern double ND_LOGD;
#define CHECK(c,msg) __CPROVER_assert((c), "P:" msg)
#define ASSUME(c) __CPROVER_assume(c)
#define REACH(msg) __CPROVER_assert(0, "REACH:" msg)
static inline long nd_long(void) { long x = nondet_long(); ND_LOG = x; return x; }
static inline double nd_double(void) { double x = nondet_double(); ND_LOGD = x; return x; }
#endif
#ifdef REPLAY
long vh_next_range(long lo, long hi);
static inline long nd_range(long lo, long hi) { long x = vh_next_range(lo, hi); ASSUME(x >= lo && x <= hi); return x; }
#else
static inline long nd_range(long lo, long hi) { long x = nd_long(); ASSUME(x >= lo && x <= hi); return x; }
#endif
static inline bool nd_bool(void) { return nd_range(0,1) == 1; }
static inline double nd_drange(double lo, double hi) { double x = nd_double(); ASSUME(x >= lo && x <= hi); return x; }
/* k/den with integer k: exactly representable grid values for den a power of two */
static inline double nd_grid(long klo, long khi, double den) { return (double) nd_range(klo,khi) / den; }
/* how a failed internal assertion of the code under test is read: 0 = the program refuses the input
   (terminates cleanly; the run ends), 1 = must not happen, i.e. a violation */
extern int vh_assert_mode;
#endif
