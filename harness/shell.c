/* Shell commands with any arguments. Scanning text is replaced by a stand-in in both modes: any number of arguments found, with any values. */
#include "vh.h"
#include "Shell.h"
#include <stdarg.h>
static int found, wanted, atoms_made, terms_made, queries; static double want_thr; static long ints[4]; static int nints;
static int vh_sscanf(const char *s, const char *f, ...)
{
    va_list ap; va_start(ap, f); int n = 0; bool go = true; wanted = found = nints = 0;
    for(int i=0; i<24 && f[i] != 0; i++)
    {
        if(f[i] != '%') { continue; }
        int w = 0; i++;
        while(f[i] >= '0' && f[i] <= '9') { w = w*10 + (f[i] - '0'); i++; }
        wanted++; 
#ifdef FIX
        go = true;
#else
        go = go && nd_bool();
#endif

        if(f[i] == 'd' || f[i] == 'u') { int *p = va_arg(ap, int*); if(go) { 
#ifdef FIX
            ints[nints++] = *p = FIX; n++;
#else
            ints[nints++] = *p = (int) nd_range(-2147483647L-1, 2147483647L); n++;
#endif
 } }
        else if(f[i] == 'l' && f[i+1] == 'd') { long *p = va_arg(ap, long*); if(go) { *p = nd_range(-(1L << 62), 1L << 62); n++; } i++; }
        else if(f[i] == 'l' && f[i+1] == 'f') { double *p = va_arg(ap, double*); if(go) { *p = nd_grid(-4000000, 4000000, 4.0); n++; } i++; }
        else if(f[i] == 's' || f[i] == '[')
        {
            char *p = va_arg(ap, char*);
            CHECK(w > 0, "no limit on the text read");
            if(go) { 
#ifdef FIX
            int k = w;
#else
            int k = (int) nd_range(1, w);
#endif
 for(int c=0; c<w; c++) { if(c < k) { p[c] = 'x'; } else if(c == k) { p[c] = 0; } } if(k == w) { p[w] = 0; } n++; }
            while(f[i] == '[' && f[i+1] != 0) { i++; if(f[i] == ']') { break; } }
        }
        else { CHECK(0, "a conversion the stand-in does not know"); }
    }
    va_end(ap); found = n;
    return n;
}
#ifndef REPLAY
/* "%s%s%.Nf", "*setvalue %f %d %s" */
static int put(char *d, long max, int at, char c) { if(at < max) { d[at] = c; } return at + 1; }
static int vh_format(char *d, long max, const char *f, va_list ap)
{
    int at = 0;
    for(int i=0; i<24 && f[i] != 0; i++)
    {
        if(f[i] != '%') { at = put(d, max, at, f[i]); continue; }
        i++; int prec = 6; if(f[i] == '.') { prec = f[i+1] - '0'; i += 2; }
        if(f[i] == 's') { const char *s = va_arg(ap, const char*); for(int j=0; j<=ATOMIC_TERM_LEN_MAX && s[j] != 0; j++) { at = put(d, max, at, s[j]); } }
        else if(f[i] == 'd') { int v = va_arg(ap, int); at = put(d, max, at, '1'); if(v >= 10) { at = put(d, max, at, '1'); } }
        else if(f[i] == 'f')
        {
            double v = va_arg(ap, double); if(v < 0) { at = put(d, max, at, '-'); v = -v; }
            double b = 1; for(int j=0; j<7; j++) { if(j == 0 || v >= b) { at = put(d, max, at, '1'); } b = b * 10; }
            at = put(d, max, at, '.'); for(int j=0; j<prec; j++) { at = put(d, max, at, '1'); }
        }
        else { CHECK(0, "a conversion the stand-in does not know"); }
    }
    d[at < max ? at : max-1] = 0;
    return at;
}
static int vh_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_format(d, 100000, f, ap); va_end(ap); return r; }
static int vh_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_format(d, (long) n, f, ap); va_end(ap); return r; }
static int vh_printf(const char *f, ...) { return 0; }
static char *tokpos;
static char *vh_strtok(char *s, const char *d)
{
    char *p = s ? s : tokpos; if(p == NULL) { return NULL; }
    while(*p == ',') { p++; } if(*p == 0) { tokpos = NULL; return NULL; }
    char *b = p; while(*p != 0 && *p != ',') { p++; }
    if(*p == ',') { *p = 0; tokpos = p + 1; } else { tokpos = NULL; }
    return b;
}
static size_t vh_strspn(const char *s, const char *set) { size_t n = 0; while(s[n] >= '0' && s[n] <= '9') { n++; } return n; } /* only used with the digits */
#define strspn vh_strspn
#define sprintf vh_sprintf
#define snprintf vh_snprintf
#define printf vh_printf
#define strtok vh_strtok
#endif
#include <ctype.h>
#undef isspace
#define isspace vh_isspace
static int vh_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#define sscanf vh_sscanf
#include "Shell.c"
#undef sscanf
#include "Stats.c"
static int cycles; static long cyc;
static void name_ok(char *name) { bool end = false; for(int i=0; i<=ATOMIC_TERM_LEN_MAX; i++) { end = end || name[i] == 0; } CHECK(end, "a name without end"); atoms_made++; }
void NAR_INIT() { }
void NAR_AddOperation(char *name, Action a) { }
void NAR_Cycles(int n) { cycles++; cyc = n; }
void NAR_AddInputNarsese(char *s) { }
void NAR_AddInputNarsese2(char *s, bool query, double thr) { queries++; CHECK(thr >= 0 && thr <= 1, "query threshold"); CHECK(s[NARSESE_LEN_MAX] == 0, "a query without end"); CHECK(found > 0 || wanted == 0, "a query with a threshold that was not given"); }
Term Narsese_Term(char *s) { CHECK(s[NARSESE_LEN_MAX] == 0, "a term without end"); terms_made++; Term t = {0}; t.atoms[0] = 1; return t; }
Term Narsese_AtomicTerm(char *s) { name_ok(s); Term t = {0}; t.atoms[0] = (Atom) nd_range(1, 3); return t; }
int Narsese_AtomicTermIndex(char *s) { name_ok(s); return (int) nd_range(1, ATOMS_MAX-1); }
void Narsese_PrintTerm(Term *t) { }
int HashTable_MaximumChainLength(HashTable *ht) { return 0; }
#ifndef CMD
#define CMD "*setopname 1 x"
#endif
void h(void)
{
    vh_assert_mode = 0;
    static char line[sizeof(CMD)+1]; static const char cmd[] = CMD; for(int i=0; i<(int) sizeof(cmd); i++) { line[i] = cmd[i]; }
    Operation before[OPERATIONS_MAX];
    for(int i=0; i<OPERATIONS_MAX; i++) { operations[i].term.atoms[0] = (Atom) nd_range(0, 3); operations[i].stdinOutput = nd_bool(); operations[i].action = nd_bool() ? Shell_op_nop : NULL; operations[i].arguments[0].atoms[0] = 2; before[i] = operations[i]; }
    currentTime = nd_range(0, 5); Stats_countConceptsMatchedTotal = nd_range(0, 1000); concepts.itemsAmount = 0;
#ifdef REFUSE
    REACH("called");
#endif
    int r = Shell_ProcessInput(line);
#ifdef REFUSE
    CHECK(0, "a command without usable arguments is carried out"); return;
#endif
    CHECK(r == SHELL_CONTINUE || r == SHELL_RESET || r == SHELL_EXIT, "result");
    if(wanted == 0) { ints[0] = ints[1] = 1; nints = 2; } /* read in another way: the numbers of the text */
    int k = (int) ints[0]; bool in = nints > 0 && k >= 1 && k <= OPERATIONS_MAX;
#ifdef OPNAME
    CHECK(in, "an operation is named outside the table, or one that was not given");
    if(in) { for(int i=0; i<OPERATIONS_MAX; i++) { if(i == k-1) { CHECK(operations[i].term.atoms[0] != 0 && operations[i].action != NULL, "a named operation can be executed"); } else { CHECK(operations[i].term.atoms[0] == 0 || operations[i].term.atoms[0] == before[i].term.atoms[0], "another operation gets a name"); } 
        for(int j=0; j<i; j++) { CHECK(operations[i].term.atoms[0] == 0 || operations[i].term.atoms[0] != operations[j].term.atoms[0] || before[i].term.atoms[0] == before[j].term.atoms[0], "two operations get the same name"); } } }
#endif
#ifdef OPARG
    bool in2 = nints > 1 && ints[1] >= 1 && ints[1] <= OPERATIONS_BABBLE_ARGS_MAX;
    CHECK(in && in2, "an argument is set outside the table, or one that was not given");
    for(int i=0; i<OPERATIONS_MAX; i++) { for(int j=0; j<OPERATIONS_BABBLE_ARGS_MAX; j++) { CHECK(operations[i].arguments[j].atoms[0] == (i == k-1 && j == ints[1]-1 ? 1 : before[i].arguments[j].atoms[0]), "exactly the given argument is set"); } }
#endif
#ifdef OPSTDIN
    CHECK(in, "an operation outside the table, or one that was not given");
    for(int i=0; i<OPERATIONS_MAX; i++) { CHECK(operations[i].stdinOutput == (i == k-1 || before[i].stdinOutput), "exactly the given operation uses the input"); }
#endif
#if !defined(OPNAME)
    for(int i=0; i<OPERATIONS_MAX; i++) { CHECK(operations[i].term.atoms[0] == before[i].term.atoms[0] && operations[i].action == before[i].action, "operations stay registered"); }
#endif
#ifdef SETVALUE
    CHECK(nints > 0 && ints[0] >= 1 && ints[0] <= 1000, "granularity"); CHECK(atoms_made == 1, "one atom");
#endif
#ifdef QUERY
    CHECK(queries == 1, "one query");
#endif
#ifndef REFUSE
    REACH("done");
#endif
}
