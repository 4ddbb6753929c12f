/* Runtime for both modes: nondet log / replay feed, Globals_assert stand-in, silent output in CBMC mode. */
#include "vh.h"
int vh_assert_mode = 1;
#ifdef REPLAY
static FILE *vh_f;
static int vh_line(char *b, int n, char want)
{
    if(!vh_f) { vh_f = fopen(getenv("VH_REPLAY"), "r"); if(!vh_f) { perror("VH_REPLAY"); _exit(79); } }
    while(fgets(b, n, vh_f)) { if(b[0]==want) return 1; if(b[0]=='i'||b[0]=='d') { fprintf(stderr,"REPLAY: order mismatch\n"); _exit(79); } }
    return 0;
}
static void vh_note(char k, long v);
long long vh_next_int(void) { char b[256]; long long x = 0; if(vh_line(b,256,'i')) x = strtoll(b+1,NULL,10); vh_note('i', x); return x; }
double vh_next_double(void) { char b[256]; double d = 0; unsigned long long u = 0; if(vh_line(b,256,'d')) u = strtoull(b+1,NULL,16); vh_note('d', (long) u); memcpy(&d,&u,8); return d; }
/* A counterexample over an abstraction (uninterpreted truth functions) need not be one for the real code as it stands:
   with VH_VARY=n, n concretizations of it are tried, which keep most of the solver's choices and redraw some within their
   bounds; the first that violates the property in the real code is written to VH_OUT as a replay file. */
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
static struct { int n; long v[65536]; char k[65536]; } *vh_rec;
static unsigned long vh_seed; static unsigned vh_rate;
static unsigned vh_rand(void) { vh_seed = vh_seed * 6364136223846793005UL + 1442695040888963407UL; return (unsigned) (vh_seed >> 33); }
static void vh_note(char k, long v) { if(vh_rec && vh_rec->n < 65536) { vh_rec->k[vh_rec->n] = k; vh_rec->v[vh_rec->n++] = v; } }
long vh_next_range(long lo, long hi)
{
    long x = (long) vh_next_int();
    if(vh_rec && (vh_rand() % 100 < vh_rate || x < lo || x > hi)) { x = hi - lo < 0 || hi - lo >= (1L << 30) ? (x < lo ? lo : x > hi ? hi : x) : lo + (long) (vh_rand() % (unsigned long) (hi - lo + 1)); }
    if(vh_rec && vh_rec->n > 0) { vh_rec->v[vh_rec->n-1] = x; }
    return x;
}
static int vh_vary(int n)
{
    void vh_entry(void);
    vh_rec = mmap(NULL, sizeof *vh_rec, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); time_t t0 = time(NULL);
    for(int i=0; i<n && time(NULL) - t0 < 20; i++)
    {
        vh_rec->n = 0; vh_seed = 977 * (i + 1); vh_rand(); vh_rate = (unsigned[]) { 2, 5, 10, 20, 40, 70, 100 } [i % 7];
        pid_t p = fork();
        if(p == 0) { alarm(5); if(!freopen("/dev/null", "w", stderr)) _exit(1); vh_entry(); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77)
        {
            FILE *f = fopen(getenv("VH_OUT"), "w");
            for(int j=0; j<vh_rec->n; j++) { if(vh_rec->k[j] == 'i') fprintf(f, "i%ld\n", vh_rec->v[j]); else fprintf(f, "d%016lx\n", vh_rec->v[j]); }
            fclose(f); return 77;
        }
    }
    return 0;
}
void vh_fail(const char *msg) { fprintf(stderr, "REPLAY-VIOLATION %s\n", msg); fflush(stderr); _exit(77); }
void vh_entry(void);
int main(void) { setvbuf(stdout,NULL,_IONBF,0); if(getenv("VH_VARY")) return vh_vary(atoi(getenv("VH_VARY"))); vh_entry(); fprintf(stderr,"REPLAY: finished without violation\n"); return 0; }
#else
long ND_LOG; double ND_LOGD;
int puts(const char *s) { return 0; }
int fputs(const char *s, FILE *f) { return 0; }
int fflush(FILE *f) { return 0; }
#endif
void Globals_assert(bool b, char *message)
{
    if(!b)
    {
        if(vh_assert_mode) { CHECK(0, "internal assertion of the code under test fails"); }
#ifdef REPLAY
        fprintf(stderr,"REPLAY: refused: %s\n", message); _exit(78);
#else
        __CPROVER_assume(0);
#endif
    }
}
