/* What a term is printed as: its parts in order, in a notation that is read back as the same term. */
#include "pool.h"
#ifdef REPLAY
static char *buf; static size_t blen;
#else
static char buf[LEN+4]; static int bn;
int fputs(const char *s, FILE *f) { for(int i=0; i<3; i++) { if(s[i] == 0) { break; } CHECK(bn < LEN, "harness: text longer than planned"); buf[bn] = s[i]; bn++; } return 0; }
HASH_TYPE Globals_Hash(HASH_TYPE *data, int pieces) { return 0; }
#endif
static int k; static bool ok;
static bool bracket(char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '[' || c == ']' || c == '{' || c == '}'; }
static void skip(void) { for(int i=0; i<3; i++) { if(buf[k] == ' ') { k++; } } }
static void one_of(char a, char b) { skip(); ok = ok & (buf[k] == a || buf[k] == b); k++; }
/* a word, delimited by spaces or brackets */
static bool word_here(const char *s, int n) { bool r = true; for(int i=0; i<n; i++) { r = r & (buf[k+i] == s[i]); } return r & (buf[k+n] == ' ' || buf[k+n] == 0 || bracket(buf[k+n])); }
static void connector(Atom a)
{
    static const char *const NOTE[] = { "-->", "<->", "=/>", "==>", "<=>", "|->", "&/", "&&", "||", "/1", "/2", "\\1", "\\2", "--", "*", "&", "|", "-", "~", ".", "!", "+", "=" };
    static const char CODE[] = { ':', '=', '$', '?', '^', ',', '+', ';', '_', '/', '%', '\\', '#', '!', '*', '&', '|', '-', '~', '.', '!', '+', '=' };
    skip(); bool m = false; int len = 0; char c0 = vh_c0(a);
    for(int i=0; i<(int) sizeof CODE; i++) { int n = NOTE[i][1] == 0 ? 1 : NOTE[i][2] == 0 ? 2 : 3; if(c0 == CODE[i] && word_here(NOTE[i], n)) { m = true; len = n; } }
    ok = ok & m; k += len;
}
static void name_of(Atom a)
{
    skip(); char s[2] = { vh_c0(a), vh_c1(a) }; int n = s[1] == 0 ? 1 : 2;
    bool m = n == 1 ? word_here(s, 1) : word_here(s, 2); ok = ok & m; k += n;
}
static bool unary(Term *t, int i) { return 2*i+2 < NMAX && vh_cop(t->atoms[2*i+2], '@'); }
static void expect(Term *t, int i)
{
    Atom a = t->atoms[i];
    if(!(2*i+1 < NMAX && t->atoms[2*i+1] != 0)) { name_of(a); return; }
    bool es = vh_cop(a, '"'), is = vh_cop(a, '\'');
    if(es) { one_of('{', '{'); } else if(is) { one_of('[', '['); } else { one_of('(', '<'); }
    bool un = unary(t, i);
    if(un && !es && !is) { connector(a); }
    expect(t, 2*i+1);
    if(!un) { if(!es && !is) { connector(a); } expect(t, 2*i+2); }
    if(es) { one_of('}', '}'); } else if(is) { one_of(']', ']'); } else { one_of(')', '>'); }
}
void h(void)
{
    vh_init();
    Term t = {0};
    for(int i=0; i<NMAX; i++)
    {
        if(SHAPE[i] == 'c') { t.atoms[i] = nd_atom(false); ASSUME(vh_inner(t.atoms[i]) || vh_cop(t.atoms[i], '.')); }
        if(SHAPE[i] == 'x') { t.atoms[i] = nd_atom(false); ASSUME(!vh_inner(t.atoms[i]) && !vh_cop(t.atoms[i], '.') && !vh_cop(t.atoms[i], '@')); }
        if(SHAPE[i] == '@') { bool u = vh_cop(t.atoms[(i-1)/2], '"') | vh_cop(t.atoms[(i-1)/2], '\'') | vh_cop(t.atoms[(i-1)/2], '!') | vh_cop(t.atoms[(i-1)/2], '*') | vh_cop(t.atoms[(i-1)/2], '+') | vh_cop(t.atoms[(i-1)/2], '='); ASSUME(u); for(int j=0; j<POOLN; j++) { if(vh_pool_c0[j] == '@') { t.atoms[i] = vh_pool[j]; } } }
    }
    for(int i=0; i<NMAX; i++) { if(SHAPE[i] == 'c' && SHAPE[2*i+2] != '@') { ASSUME(!vh_cop(t.atoms[i], '!')); } }
#ifdef REPLAY
    FILE *o = stdout; stdout = open_memstream(&buf, &blen);
    Narsese_PrintTerm(&t); fflush(stdout); stdout = o;
#else
    for(int i=0; i<POOLN; i++) { Narsese_atomNames[vh_pool[i]-1][0] = vh_pool_c0[i]; Narsese_atomNames[vh_pool[i]-1][1] = vh_pool_c1[i]; Narsese_atomNames[vh_pool[i]-1][2] = 0; }
    Narsese_PrintTerm(&t); buf[bn] = 0;
#endif
    ok = true; k = 0; expect(&t, 0); skip();
    CHECK(ok && buf[k] == 0, "a term is not printed as what is read as it");
    REACH("printed");
}
