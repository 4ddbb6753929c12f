/* Inverted atom index: related-concept lookup stays exact across arbitrary add/remove histories. */
#include "vh.h"
#include "InvertedAtomIndex.h"
#include "Narsese.h"
#define NC 3
#define POOL 4
static Concept cs[NC];
static bool live[NC];
static bool simple(Atom a) { return a >= 2 && a < POOL; }
static bool in_term(Term *t, Atom a) { bool r = false; for(int i=0; i<UNIFICATION_DEPTH; i++) { r = r | (t->atoms[i] == a); } return r; }
static int chain_count(Atom a, Concept *c)
{
    int n = 0; ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a);
    for(int i=0; i<=NC && e != NULL; i++) { n += (e->c == c); e = e->next; }
    if(e != NULL) { n = 99; }
    return n;
}
#ifdef HAVE_conceptChainElementStoragePointers
extern ConceptChainElement* conceptChainElementStoragePointers[UNIFICATION_DEPTH*CONCEPTS_MAX];
static ConceptChainElement e0,e1,e2,e3,e4,e5,e6,e7,e8,e9,e10,e11;
static ConceptChainElement *es[12] = {&e0,&e1,&e2,&e3,&e4,&e5,&e6,&e7,&e8,&e9,&e10,&e11};
#endif
/* SCHED: concepts added/removed in turn (a concept that exists is removed, one that does not is added); ? = any concept */
#ifndef SCHED
#define SCHED "01201"
#endif
static void toggle(int k)
{
    if(!live[k]) { InvertedAtomIndex_AddConcept(cs[k].term, &cs[k]); live[k] = true; }
    else { InvertedAtomIndex_RemoveConcept(cs[k].term, &cs[k]); live[k] = false; }
}
void h(void)
{
    /* atom 1: a copula; 2..3: simple atoms; 0: empty */
    strcpy(Narsese_atomNames[0], ":"); strcpy(Narsese_atomNames[1], "a"); strcpy(Narsese_atomNames[2], "^b");
    InvertedAtomIndex_INIT();
#ifdef HAVE_conceptChainElementStoragePointers
    for(int i=0; i<12 && i<UNIFICATION_DEPTH*CONCEPTS_MAX; i++) { if(conceptChainElementStoragePointers[i] != NULL) conceptChainElementStoragePointers[i] = es[i]; }
#endif
    for(int c=0; c<NC; c++) { for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) { cs[c].term.atoms[i] = (Atom) nd_range(0, POOL-1); } }
    const char *s = SCHED;
    for(int o=0; o<(int) sizeof(SCHED)-1; o++)
    {
        long c = s[o] == '?' ? nd_range(0, NC-1) : s[o] - '0';
        for(int k=0; k<NC; k++) { if(k == c) { toggle(k); } }
        for(int a=0; a<POOL; a++) { for(int k=0; k<NC; k++)
        {
            int n = chain_count(a, &cs[k]);
            bool expect = live[k] && simple(a) && in_term(&cs[k].term, a);
            CHECK(n == (expect ? 1 : 0), "a concept is listed once under each of its simple atoms while it exists, and nowhere else");
        } }
    }
    REACH("end");
}
