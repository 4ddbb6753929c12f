/* Bounded hash table against a map model, for an arbitrary hash function and arbitrary operation histories. */
#include "vh.h"
#include "HashTable.h"
#include "Globals.h"
#ifndef KEYS
#define KEYS 4
#endif
#ifndef CAPN
#define CAPN 3
#endif
#ifndef BUCKETS
#define BUCKETS 2
#endif
static HashTable ht; static VMItem st[CAPN]; static VMItem *stp[CAPN]; static VMItem *tab[BUCKETS];
static int k0=0,k1=0,k2=1,k3=1,k4=2,k5=2,k6=3,k7=3; static int *keyobj[8] = {&k0,&k1,&k2,&k3,&k4,&k5,&k6,&k7}; /* two distinct objects per key: equality is by value, not by address */
static long hashof[KEYS];
static int v0, v1, v2; static VMItem i0, i1, i2, i3, i4, i5;
static int key_of(void *k) { return *(int*) k; }
static bool eq(void *a, void *b) { return *(int*) a == *(int*) b; }
static HASH_TYPE hs(void *a) { return hashof[*(int*) a]; }
static void *model[KEYS];
/* SCHED: pairs (operation, key): S0 stores under key 0, D2 deletes key 2, D? deletes any present key, S? stores under any key */
#ifndef SCHED
#define SCHED "S0S1D0"
#endif
static int count = 0;
static void set(int k, int alias)
{
    long vi = nd_range(0,2); void *v = vi == 0 ? &v0 : vi == 1 ? &v1 : &v2;
    if(model[k] == NULL) { count++; }
    HashTable_Set(&ht, keyobj[2*k+alias], v);
    model[k] = v;
}
static void del(int k, int alias)
{
    ASSUME(model[k] != NULL); /* documented use: only present keys are deleted */
    HashTable_Delete(&ht, keyobj[2*k+alias]);
    model[k] = NULL; count--;
}
void h(void)
{
    for(int i=0; i<KEYS; i++) { hashof[i] = nd_range(0, BUCKETS > 2 ? 7 : 3); model[i] = NULL; }
    HashTable_INIT(&ht, st, stp, tab, BUCKETS, CAPN, (Equal) eq, (Hash) hs);
    /* same storage, as separate objects (cheaper to encode than one array) */
    { VMItem *it[6] = {&i0,&i1,&i2,&i3,&i4,&i5}; for(int i=0; i<CAPN; i++) { if(stp[i] == &st[i]) stp[i] = it[i]; } }
    const char *s = SCHED;
    for(int o=0; o<(int) sizeof(SCHED)-1; o+=2)
    {
        int alias = (o/2) % 2;
        if(s[o+1] == '?')
        {
            long k = nd_range(0, KEYS-1);
            for(int i=0; i<KEYS; i++) { if(k == i) { if(s[o] == 'S') { ASSUME(model[i] != NULL || count < CAPN); set(i, alias); } else { del(i, alias); } } }
        }
        else if(s[o] == 'S') { ASSUME(model[s[o+1]-'0'] != NULL || count < CAPN); set(s[o+1]-'0', alias); }
        else { del(s[o+1]-'0', alias); }
        for(int i=0; i<KEYS; i++)
        {
            CHECK(HashTable_Get(&ht, keyobj[2*i + 1 - alias]) == model[i], "lookup returns exactly what was last stored under an equal key");
        }
    }
    /* recycled storage is not lost: the remaining capacity can still be used */
    for(int i=0; i<KEYS; i++)
    {
        if(model[i] == NULL && count < CAPN) { set(i, 0); }
        CHECK(HashTable_Get(&ht, keyobj[2*i+1]) == model[i], "full capacity stays usable after deletions");
    }
    REACH("end");
}
