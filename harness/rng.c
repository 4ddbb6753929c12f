/* Pseudo-random numbers drive motor babbling: range, and the sequence is a function of the seed. */
#include "vh.h"
#include "Globals.h"
void h(void)
{
    long s = nd_range(0, 4294967295L);
    int a[N];
    mysrand((unsigned) s);
    for(int i=0; i<N; i++) { a[i] = myrand(); CHECK(a[i] >= 0 && a[i] <= MY_RAND_MAX, "random numbers lie in [0,MY_RAND_MAX]"); }
    mysrand((unsigned) s);
    for(int i=0; i<N; i++) { CHECK(myrand() == a[i], "the same seed yields the same sequence"); }
    REACH("end");
}
