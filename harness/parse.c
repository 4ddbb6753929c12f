/* Reading and printing Narsese. In the encoding the C library's tokenizer is given a body here; the replay uses the real one. */
#include "vh.h"
#include "Narsese.h"
#include "Truth.h"
#include <math.h>
#define NL NARSESE_LEN_MAX
/* any text of up to LEN characters, in a buffer that ends with it */
static char *nd_text(int len)
{
    char *s = malloc(len + 1);
    for(int i=0; i<len; i++) { s[i] = (char) nd_range(-128, 127); }
    s[len] = 0;
    return s;
}

char* replaceWithCanonicalCopulas(char *narsese, int n);
char* Narsese_Expand(char *narsese);
char** Narsese_PrefixTransform(char *narsese_expanded);
void buildBinaryTree(Term *bintree, char **tokens_prefix, int i1, int tree_index, int nt);
#ifdef REPLAY /* Narsese_INIT needs room for its own 60 names, more than the scaled tables may have */
extern HashTable HTatoms; extern VMItem* HTatoms_storageptrs[]; extern VMItem HTatoms_storage[]; extern VMItem* HTatoms_HT[]; extern int term_index;

static void init_names(void) { HashTable_INIT(&HTatoms, HTatoms_storage, HTatoms_storageptrs, HTatoms_HT, ATOMS_HASHTABLE_BUCKETS, ATOMS_MAX, (Equal) Narsese_StringEqual, (Hash) Narsese_StringHash); term_index = 0; }
#endif
static int len_of(const char *s, int max) { int n = -1; for(int i=max; i>=0; i--) { if(s[i] == 0) { n = i; } } return n; }
#ifdef H_REPLACE /* any text of up to LEN characters, LEN+3 = NARSESE_LEN_MAX */
void h(void)
{
    vh_assert_mode = 0;
    char *s = nd_text(LEN); int n = len_of(s, LEN);
    char *r = replaceWithCanonicalCopulas(s, n);
    int m = len_of(r, 3*LEN);
    CHECK(m >= 0 && m <= 3*n, "the rewritten text is terminated and at most three times as long");
    int open = 0, opened = 0; for(int i=0; i<LEN; i++) { opened += (i < n) & (s[i] == '[' || s[i] == '{' || s[i] == '(' || s[i] == '<'); }
    REACH("rewritten");
    if(m == 3*LEN) { REACH("longest"); }
}
#endif
#ifdef H_EXPAND /* any text the rewriting step may have left: terminated, up to 3*LEN characters */
static char *mid;
#ifndef REPLAY
char* replaceWithCanonicalCopulas(char *narsese, int n) { return mid; }
#endif
void h(void)
{
    vh_assert_mode = 0;
    mid = nd_text(3*LEN);
#ifdef REPLAY
    for(char *p = mid; *p; p++) { ASSUME(*p != '[' && *p != '{'); } /* the real rewriting step is run: texts it leaves alone */
#endif
    char *r = Narsese_Expand(mid);
    int m = len_of(r, 9*LEN), n = len_of(mid, 3*LEN), par = 0;
    CHECK(m >= n && m <= 3*n, "the expanded text is terminated and at most three times as long");
    for(int i=0; i<9*LEN; i++) { if(i < m && (r[i] == '(' || r[i] == ')')) { CHECK(i > 0 && r[i-1] == ' ' && (r[i+1] == ' ' || r[i+1] == 0), "brackets stand alone"); } }
    REACH("expanded");
}
#endif
#if defined(H_PREFIX) || defined(H_TREE)
/* up to NT tokens, each any word of one or two characters */
static char w0[3], w1[3], w2[3], w3[3], w4[3], w5[3], w6[3], w7[3], w8[3], w9[3]; static char *const tok[10] = { w0, w1, w2, w3, w4, w5, w6, w7, w8, w9 }; static int ntok;
static void nd_tokens(void)
{
#ifdef PLAIN
    ntok = (int) nd_range(0, NT); for(int k=0; k<NT; k++) { tok[k][0] = nd_bool() ? ')' : 'x'; tok[k][1] = tok[k][2] = 0; }
    return;
#endif
    ntok = (int) nd_range(0, NT);
    for(int k=0; k<NT; k++) { for(int c=0; c<2; c++) { tok[k][c] = (char) nd_range(-128, 127); ASSUME(tok[k][c] != ' '); } tok[k][2] = 0; ASSUME(tok[k][0] != 0); }
}
#endif
#ifdef H_PREFIX /* up to 2*(NARSESE_LEN_MAX-3) tokens, as an opening bracket gives two */
static int nexttok;
#ifndef REPLAY
char *strtok(char *s, const char *d) { if(s) { nexttok = 0; } if(nexttok >= ntok) { return NULL; } return tok[nexttok++]; }
#endif
void h(void)
{
    vh_assert_mode = 0;
    nd_tokens();
    char text[NT*3+1]; text[0] = 0;
#ifdef REPLAY
    for(int k=0; k<ntok; k++) { strcat(text, tok[k]); strcat(text, " "); }
#endif
    char **t = Narsese_PrefixTransform(text);
    for(int k=0; k<=NT; k++) { if(k < ntok) { CHECK(t[k] != NULL, "a word is lost"); } if(k == ntok) { CHECK(t[k] == NULL, "the words do not end"); } }
    REACH("transformed");
    if(ntok == NT) { REACH("all words"); }
}
#endif
#ifdef H_TREE
#ifndef REPLAY
int Narsese_AtomicTermIndex(char *name) { CHECK(name != NULL, "no name"); CHECK(name[0] != 0, "empty name"); return (int) nd_range(1, ATOMS_MAX-1); }
#endif
static char *tp[NT+1];
void h(void)
{
    vh_assert_mode = 0;
#ifdef REPLAY
    Narsese_INIT();
#endif
    nd_tokens(); ASSUME(ntok > 0);
    for(int k=0; k<NT; k++) { tp[k] = k < ntok ? tok[k] : NULL; }
    Term *t = malloc(sizeof(t->atoms)); for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) { t->atoms[i] = 0; } /* nothing behind the positions of the tree may be written */
    buildBinaryTree(t, tp, 0, 1, ntok);
    CHECK(t->atoms[0] != 0, "a text is parsed to nothing");
    REACH("built");
}
#endif

#ifdef H_GLUE /* the whole of Narsese_Term after the text was expanded, up to NT words */
static char w[NT+1][3]; static int ntok, nexttok;
#ifndef REPLAY
char *strtok(char *s, const char *d) { if(s) { nexttok = 0; } if(nexttok >= ntok) { return NULL; } return w[nexttok++]; }
char* Narsese_Expand(char *narsese) { return narsese; }
int Narsese_AtomicTermIndex(char *name) { CHECK(name != NULL, "no name"); return (int) nd_range(1, ATOMS_MAX-1); }
void Variable_Normalize(Term *t) { }
HASH_TYPE Term_Hash(Term *t) { return 0; }
#endif
void h(void)
{
    vh_assert_mode = 0;
    Narsese_INIT();
    ntok = (int) nd_range(0, NT);
    char text[NT*3+1]; text[0] = 0;
    for(int k=0; k<NT; k++) { w[k][0] = (char) nd_range(40, 47); w[k][1] = w[k][2] = 0; ASSUME(w[k][0] != ','); }
#ifdef REPLAY
    for(int k=0; k<ntok; k++) { strcat(text, w[k]); strcat(text, " "); }
#endif
    Term t = Narsese_Term(text);
    CHECK(ntok > 0 && t.atoms[0] != 0, "a text without content is parsed");
    REACH("parsed");
}
#endif
#ifdef H_ATOM /* names of any length, any number of atoms known; the stored names stay terminated and distinct from "no atom" */
extern int term_index;
static void *found; static int sets;
#ifndef REPLAY
void* HashTable_Get(HashTable *ht, void *key) { char *k = key; for(int i=0; i<ATOMIC_TERM_LEN_MAX; i++) { if(k[i] == 0) { return found; } } CHECK(0, "the key is terminated"); return found; }
void HashTable_Set(HashTable *ht, void *key, void *value) { sets++; CHECK((char*) key == Narsese_atomNames[term_index] && (long) value == term_index + 1, "the name is stored with its index"); }
#endif
void h(void)
{
    vh_assert_mode = 0;
#ifdef REPLAY
    init_names();
#endif
    char *s = nd_text(ATOMIC_TERM_LEN_MAX + 3);
    int n = (int) nd_range(0, ATOMS_MAX + 1); term_index = n;
    bool known = nd_bool(); long id = nd_range(1, ATOMS_MAX-1); found = known ? (void*) id : NULL;
#ifdef REPLAY
    static char block[ATOMIC_TERM_LEN_MAX]; if(known) { for(int i=0; i<ATOMIC_TERM_LEN_MAX-1; i++) { block[i] = s[i]; if(!s[i]) break; } HashTable_Set(&HTatoms, block, (void*) id); }
#endif
    int r = Narsese_AtomicTermIndex(s);
    CHECK(r > 0 && r < ATOMS_MAX, "an atom's index is outside the tables");
    CHECK((int) (Atom) r == r, "an atom's index does not fit");
    if(known) { CHECK(r == id && term_index == n && sets == 0, "a known name is given a new index"); REACH("known"); }
    else
    {
        CHECK(r == n + 1 && term_index == n + 1, "a new name gets the next index");
        bool same = true, ended = false;
        for(int i=0; i<ATOMIC_TERM_LEN_MAX-1; i++) { for(int j=0; j<ATOMS_MAX; j++) { if(j == n) { same = same & (ended | (Narsese_atomNames[j][i] == s[i])); } } ended = ended | (s[i] == 0); }
        CHECK(same, "the name is stored");
        for(int j=0; j<ATOMS_MAX; j++) { if(j == n) { CHECK(Narsese_atomNames[j][ATOMIC_TERM_LEN_MAX-1] == 0, "the stored name is terminated"); } }
        REACH("new");
    }
}
#endif
#ifdef H_NORM /* whatever tree was read: normalizing its variables and printing it stays inside the tables */
#ifndef REPLAY
int Narsese_AtomicTermIndex(char *name) { CHECK(name != NULL, "no name"); return (int) nd_range(1, ATOMS_MAX-1); }
int fputs(const char *s, FILE *f) { int n = 0; while(s[n] != 0) { n++; } return 0; }
#endif
void h(void)
{
    vh_assert_mode = 0;
#ifdef REPLAY
    init_names();
#endif
    for(int i=0; i<ATOMS_MAX; i++) { for(int j=0; j<2; j++) { Narsese_atomNames[i][j] = (char) nd_range(-128, 127); } Narsese_atomNames[i][2] = 0; }
    Term *t = malloc(sizeof(t->atoms)); /* nothing behind the positions of the tree may be used */
    for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) { t->atoms[i] = (Atom) nd_range(0, ATOMS_MAX-1); }
#ifdef PRINT
    Narsese_PrintTerm(t);
#else
    Variable_Normalize(t);
#endif
    REACH("done");
}
#endif
#if defined(H_SENTMEM) || defined(H_SENT)
#include <stdarg.h>
static char got[NL]; static int gotlen; static int terms;
Term Narsese_Term(char *narsese) { terms++; gotlen = 0; while(narsese[gotlen] != 0) { got[gotlen] = narsese[gotlen]; gotlen++; } got[gotlen] = 0; Term t = {0}; t.atoms[0] = 1; return t; }
#ifdef H_SENT
/* the C library's number scanning: 0.1, 0.2 and 0.3 stand for any three numbers */
static double V[3];
static const char *vh_num(const char *p, double *d, bool *ok)
{
    while(*p == ' ') { p++; }
    *ok = p[0] == '0' && p[1] == '.' && p[2] >= '1' && p[2] <= '3';
    if(*ok) { *d = p[2] == '1' ? V[0] : p[2] == '2' ? V[1] : V[2]; p += 3; }
    return p;
}
#endif
#if !defined(REPLAY) || defined(H_SENT)
#ifdef H_SENTMEM
double atof(const char *s) { int n = 0; while(s[n] != 0) { n++; } return nd_grid(-8, 8, 2.0); }
int __isoc99_sscanf(const char *s, const char *f, ...)
{
    int n = 0; while(s[n] != 0) { n++; }
    va_list a; va_start(a, f); int k = 0, r = (int) nd_range(-1, 2);
    for(int i=0; f[i] != 0; i++) { if(f[i] == 'l' && f[i+1] == 'f') { double *d = va_arg(a, double*); if(k < r) { *d = nd_grid(-4, 8, 4.0); } k++; } }
    va_end(a); ASSUME(r <= k); return r;
}
#elif defined(H_SENT)
double atof(const char *s) { double d = 0; bool ok; vh_num(s, &d, &ok); return ok ? d : 0.0; }
int __isoc99_sscanf(const char *s, const char *f, ...)
{
    va_list a; va_start(a, f); int r = 0;
    for(int i=0; f[i] != 0; i++)
    {
        if(f[i] == ' ') { while(*s == ' ') { s++; } }
        else if(f[i] == '%' && f[i+1] == 'l') { double d; bool ok; s = vh_num(s, &d, &ok); if(!ok) { break; } *va_arg(a, double*) = d; r++; i += 2; }
        else { if(f[i] == '%') { i++; } if(*s != f[i]) { break; } s++; }
    }
    va_end(a); return r;
}
#endif
#endif
#endif
#ifdef H_SENTMEM
void h(void)
{
    vh_assert_mode = 0;
    Narsese_INIT();
    char *s = nd_text(LEN);
#ifdef DT
    s[0] = 'd'; s[1] = 't'; s[2] = '='; for(int i=3; i<LEN; i++) { ASSUME((s[i] >= '0' && s[i] <= '9') || s[i] == ' ' || i >= LEN-4); }
#endif
    Term t; char p; int tense; Truth tv; double dt;
    Narsese_Sentence(s, &t, &p, &tense, &tv, &dt);
    CHECK(terms == 1 && (p == '.' || p == '!' || p == '?') && tense >= 0 && tense <= 3, "neither read nor refused");
    CHECK(tv.frequency >= 0 && tv.frequency <= 1 && tv.confidence >= 0 && tv.confidence <= MAX_CONFIDENCE, "an inadmissible truth value is read");
    REACH("read");
}
#endif
#ifdef H_SENT /* [dt=n ]ab<punctuation>[ <tense>][ <truth>]: digits, letters and punctuation symbolic */
static char s[64]; static int n;
static void put(char c) { s[n++] = c; }
static void puts_(const char *x) { for(int i=0; x[i] != 0; i++) { put(x[i]); } }
static double put_num(int k) { put('0'); put('.'); put((char) ('1' + k)); V[k] = nd_bool() ? MAX_CONFIDENCE + 0.005 : nd_grid(-4, 12, 8.0); return V[k]; }
static void one(int dtf, int tensef, int truthf, char p0)
{
    n = 0; terms = 0; double dt0 = 0, f = NAR_DEFAULT_FREQUENCY, c = NAR_DEFAULT_CONFIDENCE;
    if(dtf) { puts_("dt="); dt0 = put_num(0); put(' '); }
    const char x = 'a', y = 'b';
    put(x); put(y); put(p0);
    if(tensef == 1) { puts_(" :|:"); } if(tensef == 2) { puts_(" :\\:"); } if(tensef == 3) { puts_(" :/:"); }
    if(truthf == 1) { puts_(" {"); f = put_num(1); put(' '); c = put_num(2); put('}'); }
    if(truthf == 2) { puts_(" %"); f = put_num(1); put(';'); c = put_num(2); put('%'); }
    if(truthf == 3) { puts_(" %"); f = put_num(1); put('%'); }
    s[n] = 0;
    bool valid = (p0 == '.' || p0 == '!' || p0 == '?') && f >= 0.0 && f <= 1.0 && c >= 0.0 && c <= 1.0;
    vh_assert_mode = valid; /* a valid sentence must not be refused */
    Term t; char p = 0; int tense = -1; Truth tv; double dt = -1;
    Narsese_Sentence(s, &t, &p, &tense, &tv, &dt);
    CHECK(valid, "an inadmissible sentence is accepted");
    CHECK(p == (char) p0, "the punctuation is not the one given");
    CHECK(tense == tensef, "the tense is not the one given");
    CHECK(tv.frequency == f && tv.confidence == (c > MAX_CONFIDENCE ? MAX_CONFIDENCE : c), "the truth value is not the one given");
    CHECK(dt == dt0, "the time offset is not the one given");
    int o = gotlen - 2;
    CHECK(terms == 1 && o >= 0 && o <= 1 && got[o] == x && got[o+1] == y && (o == 0 || got[0] == ' '), "the term is not the one given");
}
void h(void)
{
    Narsese_INIT();
    int k = (int) nd_range(0, 9);
    for(int i=0; i<10; i++) { if(i == k) { one(i/5, TENSE, TRUTH, ".!?:x"[i%5]); if(i%5 == 0) { REACH("belief"); } } }
}
#endif
#if defined(H_BUILD) || defined(H_REWRITE)
/* notations of the copulas and connectors, and the character each is read as */
static const char *const NOTE[] = { "-->", "<->", "=/>", "==>", "<=>", "|->", "&/", "&&", "||", "/1", "/2", "\\1", "\\2", "--", "*", "&", "|", "-", "~", ".", "!", "+", "=", ":", ";", "$", "?", "^", "_", "/", "\\", "%", "#", "'", "\"" };
static const char CODE[] = { ':', '=', '$', '?', '^', ',', '+', ';', '_', '/', '%', '\\', '#', '!', '*', '&', '|', '-', '~', '.', '!', '+', '=', ':', ';', '$', '?', '^', '_', '/', '\\', '%', '#', '\'', '"' };
#define NOTES ((int) sizeof(CODE))
#endif
#ifdef H_BUILD /* words of an infix or prefix expression, of the shapes TEMPLATES: ( ) brackets, c d e connectors, x y z w names; names and connectors symbolic */
static char w0[3], w1[3], w2[3], w3[3], w4[3], w5[3], w6[3], w7[3], w8[3], w9[3], w10[3], w11[3], w12[3];
static char *const tok[13] = { w0, w1, w2, w3, w4, w5, w6, w7, w8, w9, w10, w11, w12 };
static int ntok, nexttok;
#ifndef REPLAY
char *strtok(char *s, const char *d) { if(s) { nexttok = 0; } if(nexttok >= ntok) { return NULL; } return tok[nexttok++]; }
int Narsese_AtomicTermIndex(char *name) { return name[0] + (name[0] == 0 || name[1] == 0 ? 0 : 256 * (name[1] - 'a' + 1)); }
#endif
static char name[4][3], cop[3];
static Term want;
static bool is_cop(char c) { return c == 'c' || c == 'd' || c == 'e'; }
static void expect(const char *T, int *p, int idx)
{
    if(idx > COMPOUND_TERM_SIZE_MAX) { return; }
    char c = T[*p]; (*p)++;
    if(c != '(') { want.atoms[idx-1] = (Atom) Narsese_AtomicTermIndex(name[c == 'w' ? 3 : c - 'x']); return; }
    char k = T[*p]; bool prefix = is_cop(k);
    if(prefix) { (*p)++; }
    expect(T, p, 2*idx);
    if(!prefix) { k = T[*p]; (*p)++; }
    char n[2] = { cop[k - 'c'], 0 }; want.atoms[idx-1] = (Atom) Narsese_AtomicTermIndex(n);
    if(T[*p] == ')') { char at[2] = "@"; want.atoms[2*idx] = (Atom) Narsese_AtomicTermIndex(at); } else { expect(T, p, 2*idx+1); }
    (*p)++;
}
static void one(const char *T)
{
    Term z = {0}; want = z; ntok = 0;
    for(int i=0; T[i] != 0; i++)
    {
        char c = T[i], *t = tok[ntok++];
        t[0] = c == '(' || c == ')' ? c : is_cop(c) ? cop[c - 'c'] : name[c == 'w' ? 3 : c - 'x'][0];
        t[1] = c == '(' || c == ')' || is_cop(c) ? 0 : name[c == 'w' ? 3 : c - 'x'][1]; t[2] = 0;
    }
    int p = 0; expect(T, &p, 1);
    char text[13*3+1]; text[0] = 0;
#ifdef REPLAY
    for(int k=0; k<ntok; k++) { strcat(text, tok[k]); strcat(text, " "); }
#endif
    char **tp = Narsese_PrefixTransform(text);
    Term t = {0}; buildBinaryTree(&t, tp, 0, 1, ntok);
    bool same = true; for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++) { same = same & (t.atoms[i] == want.atoms[i]); }
    CHECK(same, "an expression is read as another tree");
    REACH("read");
}
void h(void)
{
#ifdef REPLAY
    Narsese_INIT();
#endif
    for(int i=0; i<4; i++)
    {
        name[i][0] = (char) nd_range(33, 126); name[i][1] = (char) nd_range(0, 127); name[i][2] = 0; char c = name[i][0];
        ASSUME((c >= 'a' && c <= 'z') || ((c == '$' || c == '#' || c == '?' || c == '^') && name[i][1] != 0));
        ASSUME(name[i][1] == 0 || (name[i][1] >= 'a' && name[i][1] <= 'z'));
    }
    for(int i=0; i<3; i++) { int k = (int) nd_range(0, NOTES-1); for(int j=0; j<NOTES; j++) { if(j == k) { cop[i] = CODE[j]; } } }
    static const char *const Ts[] = { TEMPLATES };
    for(int i=0; i<(int) (sizeof Ts / sizeof *Ts); i++) { one(Ts[i]); }
}
#endif
#ifdef H_REWRITE /* texts of the pattern PATTERN: B a bracket, space or comma, W a letter, C a connector in any notation */
static char text[64]; static int n;
static char W1[16][2]; static int nw;
void h(void)
{
    const char *P = PATTERN; nw = 0;
    for(int i=0; P[i] != 0; i++)
    {
        if(P[i] == 'C')
        {
            int k = (int) nd_range(0, NOTES-1);
            char c[5] = { ' ', ' ', ' ', ' ', ' ' };
            for(int j=0; j<NOTES; j++) { if(j == k) { for(int q=0; NOTE[j][q] != 0; q++) { c[q+1] = NOTE[j][q]; } W1[nw][0] = CODE[j]; } }
            for(int q=0; q<5; q++) { text[n++] = c[q]; }
            W1[nw++][1] = 0;
        }
        else if(P[i] == 'W') { char c = (char) nd_range('a', 'z'); text[n++] = c; W1[nw][0] = c; W1[nw++][1] = 0; }
        else
        {
            int k = (int) nd_range(0, 9); char c = 0; for(int j=0; j<10; j++) { if(j == k) { c = "()<>[]{} ,"[j]; } }
            text[n++] = c;
            W1[nw][0] = c == '(' || c == '<' || c == '[' || c == '{' ? '(' : c == ')' || c == '>' || c == ']' || c == '}' ? ')' : 0;
            W1[nw++][1] = c == '[' ? '\'' : c == '{' ? '"' : 0;
        }
    }
    text[n] = 0;
    char *r = Narsese_Expand(text);
    int k = 0; bool same = true;
    for(int i=0; i<nw; i++) { for(int q=0; q<2; q++) { if(W1[i][q] != 0) {
        for(int z=0; z<7; z++) { if(r[k] == ' ') { k++; } }
        same = same & (r[k] == W1[i][q]); k++;
        CHECK(!same || r[k] == ' ' || r[k] == 0, "words are separated");
    } } }
    for(int z=0; z<20; z++) { if(r[k] == ' ') { k++; } }
    CHECK(same && r[k] == 0, "a text is rewritten to other words");
    REACH("rewritten");
}
#endif
