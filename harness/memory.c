/* Concept memory: creation, lookup, forgetting. */
#include "pool.h"
#include "Memory.h"
#include "InvertedAtomIndex.h"
#include "Globals.h"
#ifndef NT
#define NT 3
#endif
/* S: conceptualize term 0-2, U: new usefulness values as the cycle assigns them, ?: conceptualize any term */
#ifndef SCHED
#define SCHED "01U2U0"
#endif
static Term term_of(int k)
{
    Term t = {0};
    if(k == 0) { t.atoms[0] = vh_pool[0]; }
    if(k == 1) { t.atoms[0] = vh_pool[1]; }
    if(k == 2) { t.atoms[0] = vh_pool[2]; t.atoms[1] = vh_pool[0]; t.atoms[2] = vh_pool[1]; }
    if(k == 3) { t.atoms[0] = vh_pool[2]; t.atoms[1] = vh_pool[1]; t.atoms[2] = vh_pool[0]; }
    return t;
}
static Concept *model[NT];      /* the concept of term k, if in memory */
static double prio[NT];
static long ids[2*NT+8]; static int nids = 0;
static Concept s0, s1, s2;
static long now = 0;
static bool has_atom(int k, Atom a) { Term t = term_of(k); return t.atoms[0] == a | t.atoms[1] == a | t.atoms[2] == a; }
#ifndef REPLAY
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { HASH_TYPE h = 0; for(int i=0; i<pieces; i++) { h = h ^ data[i]; } return h & 0xffff; }
/* the hash table as a map from keys (by reference, compared by content) to values, and the atom index as the relation
   between atoms and concepts: what C11 and C12 decide about the real ones */
static void *mapkey[CONCEPTS_MAX+1], *mapval[CONCEPTS_MAX+1];
void *HashTable_Get(HashTable *t, void *key)
{
    void *r = NULL;
    for(int i=0; i<=CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) r = mapval[i]; } }
    return r;
}
void HashTable_Set(HashTable *t, void *key, void *value)
{
    int at = -1;
    for(int i=CONCEPTS_MAX; i>=0; i--) { if(mapkey[i] == NULL) at = i; }
    for(int i=0; i<=CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) at = i; } }
    CHECK(at >= 0 && at < CONCEPTS_MAX, "there is room for every concept in the lookup table");
    for(int i=0; i<CONCEPTS_MAX; i++) { if(i == at) { mapkey[i] = key; mapval[i] = value; } }
}
void HashTable_Delete(HashTable *t, void *key)
{
    bool found = false;
    for(int i=0; i<CONCEPTS_MAX; i++) { if(mapkey[i] != NULL) { if(Term_Equal(key, mapkey[i])) { mapkey[i] = NULL; found = true; } } }
    CHECK(found, "only existing concepts are removed from the lookup table");
}
static bool listed[2][CONCEPTS_MAX];
static void list(Term *t, Concept *c, bool v)
{
    for(int j=0; j<2; j++) for(int s=0; s<CONCEPTS_MAX; s++)
    {
        Concept *x = s == 0 ? &s0 : s == 1 ? &s1 : &s2;
        bool in = false; for(int i=0; i<UNIFICATION_DEPTH; i++) { in = in | (t->atoms[i] == vh_pool[j]); }
        if(x == c & in) { listed[j][s] = v; }
    }
}
void InvertedAtomIndex_AddConcept(Term term, Concept *c) { list(&term, c, true); }
void InvertedAtomIndex_RemoveConcept(Term term, Concept *c) { list(&term, c, false); }
static int chain_count(Atom a, Concept *c)
{
    int r = 0;
    for(int j=0; j<2; j++) for(int s=0; s<CONCEPTS_MAX; s++) { Concept *x = s == 0 ? &s0 : s == 1 ? &s1 : &s2; if(x == c & vh_pool[j] == a) { r = listed[j][s]; } }
    return r;
}
#else
static int chain_count(Atom a, Concept *c)
{
    int n = 0; ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a);
    for(int i=0; i<4 && e != NULL; i++) { n += (e->c == c); e = e->next; }
    return e != NULL ? 99 : n;
}
#endif
static bool table_empty(Concept *c) { return c->precondition_beliefs[0].itemsAmount == 0 & c->precondition_beliefs[1].itemsAmount == 0 & c->implication_links.itemsAmount == 0; }
/* what a concept may have learned */
static void learn(Concept *c)
{
    c->belief.type = EVENT_TYPE_BELIEF; c->belief_spike.type = EVENT_TYPE_BELIEF; c->predicted_belief.type = EVENT_TYPE_BELIEF; c->goal_spike.type = EVENT_TYPE_GOAL;
    c->precondition_beliefs[0].itemsAmount = 1; c->precondition_beliefs[1].itemsAmount = 1; c->implication_links.itemsAmount = 1; c->priority = 0.5; c->usage.useCount = 7;
    c->lastSelectionTime = 3;
}
static void check_all(void)
{
    for(int k=0; k<NT; k++)
    {
        Term t = term_of(k);
        Concept *f = Memory_FindConceptByTerm(&t);
        CHECK(f == model[k], "a term finds its concept exactly while that concept is in memory");
        CHECK(f == NULL || vh_same(&f->term, &t), "the found concept is the one of the term");
        for(int j=0; j<2; j++)
        {
            for(int s=0; s<CONCEPTS_MAX; s++)
            {
                Concept *c = s == 0 ? &s0 : s == 1 ? &s1 : &s2; 
                if(model[k] == c) { CHECK(chain_count(vh_pool[j], c) == (has_atom(k, vh_pool[j]) ? 1 : 0), "a concept is listed under exactly the atoms of its term"); }
            }
        }
    }
    for(int j=0; j<2; j++) for(int s=0; s<CONCEPTS_MAX; s++)
    {
        Concept *c = s == 0 ? &s0 : s == 1 ? &s1 : &s2; bool used = false;
        for(int k=0; k<NT; k++) { used = used | (model[k] == c); }
        if(!used) { CHECK(chain_count(vh_pool[j], c) == 0, "a forgotten concept is listed under no atom"); }
    }
}
static void conceptualize(int k)
{
    Term t = term_of(k); int n = 0; double min = 2.0;
    for(int i=0; i<NT; i++) { if(model[i]) { n++; if(prio[i] < min) min = prio[i]; } }
    Concept *before = model[k];
    now++;
    Concept *c = Memory_Conceptualize(&t, now);
    CHECK(c != NULL, "a concept can be obtained for every term");
    if(before != NULL)
    {
        CHECK(c == before, "the concept of a term stays the same while in memory");
        CHECK(c->belief.type == EVENT_TYPE_BELIEF && c->usage.useCount == 7 && c->implication_links.itemsAmount == 1, "obtaining an existing concept leaves it as it is");
    }
    else
    {
        int evicted = -1;
        for(int i=0; i<NT; i++) { if(model[i] == c) evicted = i; }
        CHECK((evicted >= 0) == (n == CONCEPTS_MAX), "a concept is forgotten exactly when memory is full");
        if(evicted >= 0) { CHECK(prio[evicted] == min, "a least useful concept is forgotten"); REACH("forgotten"); }
        for(int i=0; i<NT; i++) { if(i == evicted) model[i] = NULL; }
        CHECK(vh_same(&c->term, &t), "the new concept carries the requested term");
        CHECK(c->belief.type == EVENT_TYPE_DELETED && c->belief_spike.type == EVENT_TYPE_DELETED && c->predicted_belief.type == EVENT_TYPE_DELETED && c->goal_spike.type == EVENT_TYPE_DELETED && table_empty(c), "a new concept starts without beliefs, goals and links");
        CHECK(c->priority == 0.0 && c->lastSelectionTime == 0, "a new concept starts without attention and without having been selected");
        CHECK(c->usage.useCount == 1 && c->usage.lastUsed == now, "a new concept counts as used once, now");
        bool fresh = true; for(int i=0; i<nids; i++) { fresh = fresh & (ids[i] != c->id); }
        CHECK(fresh, "a new concept has an identity no concept had before (links to the forgotten one are recognised as outdated)");
        ids[nids++] = c->id;
        model[k] = c; prio[k] = 1.0;
        learn(c);
    }
    check_all();
}
static void usefulness(void)
{
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        concepts.items[i].priority = nd_grid(0, 4, 4.0);
        for(int k=0; k<NT; k++) { if(model[k] == concepts.items[i].address) prio[k] = concepts.items[i].priority; }
    }
    PriorityQueue_Rebuild(&concepts);
}
void h(void)
{
    vh_init();
    Memory_INIT();
    for(int i=0; i<CONCEPTS_MAX; i++) { concepts.items[i].address = i == 0 ? &s0 : i == 1 ? &s1 : &s2; }
    check_all();
    const char *s = SCHED;
    for(int o=0; o<(int) sizeof(SCHED)-1; o++)
    {
        if(s[o] == 'U') { usefulness(); }
        else if(s[o] == '?') { long k = nd_range(0, NT-1); for(int i=0; i<NT; i++) { if(k == i) { conceptualize(i); } } }
        else { conceptualize(s[o]-'0'); }
    }
    REACH("end");
}
