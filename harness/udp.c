/* The two threads of the network interface. Each thread's code runs on its own; what the other threads may do meanwhile is
   arbitrary where no lock excludes it: stopping, and UDPNAR_Start returning once a thread let it go on. A lock held by both
   threads whenever they use the reasoner excludes every interleaving of these uses. */
#include "vh.h"
#include "UDPNAR.h"
#include <pthread.h>
#include <time.h>
#include <sys/socket.h>
#include <unistd.h>
static int role, created, joined, works[3], inits, resets, recvs, ops, lastn; static bool let_go, frame_dead;
static char dat[NARSESE_LEN_MAX]; static long T; static void *arg_of[2]; static void *(*fn_of[2])(void*);
static pthread_mutex_t *mx[4]; static int nmx; static unsigned held, common[3];
static void world(void);
static int mid(pthread_mutex_t *m) { for(int i=0; i<4; i++) { if(i < nmx && mx[i] == m) { return i; } } CHECK(nmx < 4, "too many mutexes for the harness"); mx[nmx] = m; return nmx++; }
static int vh_lock(pthread_mutex_t *m) { int i = mid(m); CHECK(!(held & (1u << i)), "a thread waits for itself"); held |= 1u << i; world(); return 0; }
static int vh_trylock(pthread_mutex_t *m) { if(nd_bool()) { return 16; } return vh_lock(m); }
static int vh_unlock(pthread_mutex_t *m) { int i = mid(m); CHECK(held & (1u << i), "a lock is released that is not held"); held &= ~(1u << i); let_go = true; world(); return 0; }
static int vh_signal(pthread_cond_t *c) { return 0; }
static int vh_wait(pthread_cond_t *c, pthread_mutex_t *m) { CHECK(held & (1u << mid(m)), "waiting without the lock"); return 0; }
static int vh_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg) { CHECK(created < 2, "two threads"); fn_of[created] = fn; arg_of[created++] = arg; return 0; }
static int vh_join(pthread_t t, void **r) { CHECK(held == 0, "a thread is awaited while the lock it needs is held"); joined++; return 0; }
static int vh_nanosleep(const struct timespec *ts, struct timespec *rem) { if(role) { CHECK(ts->tv_sec == 0 && ts->tv_nsec == T, "a cycle is made every timestep"); CHECK(held == 0, "input is kept out while sleeping"); } world(); return 0; }
static int vh_socket(int a, int b, int c) { return 7; }
static int vh_bind(int s, const struct sockaddr *a, socklen_t l) { return 0; }
static ssize_t vh_recvfrom(int s, void *b, size_t len, int fl, struct sockaddr *a, socklen_t *l)
{
    CHECK(s == 7 || !role, "the socket opened at start is used");
    CHECK(held == 0, "the reasoner waits for input");
    CHECK(len <= NARSESE_LEN_MAX, "larger than the buffer");
    char *buf = b; lastn = recvs ? (int) nd_range(-1, NARSESE_LEN_MAX) : NARSESE_LEN_MAX;
    if(lastn > (int) len) { lastn = len; }
    for(int i=0; i<NARSESE_LEN_MAX; i++) { dat[i] = (char) nd_range(-128, 127); if(recvs == 0) { ASSUME(dat[i] != 0 && dat[i] != ' '); } if(i < lastn) { buf[i] = dat[i]; } }
    recvs++; world();
    return lastn;
}
static ssize_t vh_recv(int s, void *b, size_t len, int fl) { return vh_recvfrom(s, b, len, fl, NULL, NULL); }
static int vh_shutdown(int s, int how);
static int vh_close(int s);
#define pthread_mutex_lock vh_lock
#define pthread_mutex_trylock vh_trylock
#define pthread_mutex_unlock vh_unlock
#define pthread_cond_signal vh_signal
#define pthread_cond_broadcast vh_signal
#define pthread_cond_wait vh_wait
#define pthread_create vh_create
#define pthread_join vh_join
#define nanosleep vh_nanosleep
#define socket vh_socket
#define bind vh_bind
#define recvfrom vh_recvfrom
#define recv vh_recv
#define shutdown vh_shutdown
#define close vh_close
#include "UDP.c"
#include "UDPNAR.c"
static void world(void)
{
    if(role && (ops++ > 12 || nd_bool())) { Stopped = true; } /* the user stops at any time */
    if(role && frame_dead && let_go && arg_of[role-1]) { *(long*) arg_of[role-1] = nd_range(0, 1000); } /* the frame the argument was in may be in use by others */
}
static int vh_shutdown(int s, int how) { CHECK(Stopped, "the socket is closed before the threads know"); return 0; }
static int vh_close(int s) { CHECK(Stopped, "the socket is closed before the threads know"); return 0; }
static void work(void)
{
    if(role == 0) { CHECK(created == 0 || joined == 2, "the reasoner is used while threads run"); return; }
    common[role] = works[role]++ ? common[role] & held : held;
    CHECK(common[role] != 0, "the reasoner is used without a lock");
}
long currentTime;
void NAR_Cycles(int n) { work(); if(role == 1) { CHECK(n == 1, "one cycle per timestep"); } }
void Shell_NARInit() { work(); inits++; }
void Stats_Print(long t) { work(); }
int Shell_ProcessInput(char *line)
{
    work();
    CHECK(role == 2, "input is processed by the receiver");
    int end = -1; for(int i=NARSESE_LEN_MAX-1; i>=0; i--) { if(line[i] == 0) { end = i; } }
    if(recvs > 1)
    {
        CHECK(end >= 0, "the line is not terminated");
        if(lastn >= 0)
        {
            bool same = true, over = false;
            for(int i=0; i<NARSESE_LEN_MAX; i++) { if(i < lastn && i < NARSESE_LEN_MAX-1) { same = same & (over | (line[i] == dat[i])); over = over | (dat[i] == 0); } }
            CHECK(same, "the line is not the datagram");
            if(lastn < NARSESE_LEN_MAX-1) { CHECK(end <= lastn, "the line holds more than the datagram"); }
        }
        REACH("second line");
    }
    CHECK(inits == resets, "a requested reset is not made, or one not requested");
    if(nd_bool()) { resets++; return SHELL_RESET; }
    return SHELL_CONTINUE;
}
static long cell;
/* does it point into the frame of UDPNAR_Start? Static objects are the same in both calls, frames are not */
static bool is_dead(void *p, void *q)
{
#ifdef REPLAY
    char here; long d = &here - (char*) p; return d > -65536 && d < 65536;
#else
    return p != q && !__CPROVER_DYNAMIC_OBJECT(p);
#endif
}
void h(void)
{
    vh_assert_mode = 1;
    T = nd_range(0, 999999999);
    UDPNAR_Start("127.0.0.1", 50000, T);
    void *p0 = arg_of[0], *p1 = arg_of[1]; created = inits = 0; Started = false;
    UDPNAR_Start("127.0.0.1", 50000, T);
    CHECK(created == 2 && inits == 1 && held == 0 && Started, "started");
    inits = 0;
    /* the reasoner thread */
    bool dead = is_dead(arg_of[0], p0);
    if(dead) { cell = T; arg_of[0] = &cell; } /* its content at the time the thread starts */
    frame_dead = dead; let_go = false; role = 1; void *a1 = arg_of[0]; fn_of[0](a1);
    CHECK(held == 0, "a lock is kept");
    if(works[1] > 0) { REACH("cycles"); }
    /* the receiver thread */
    bool dead2 = is_dead(arg_of[1], p1);
    static long cell2; if(dead2) { *(int*) &cell2 = 7; arg_of[1] = &cell2; }
    frame_dead = dead2; let_go = false; role = 2; ops = 0; Stopped = false; fn_of[1](arg_of[1]);
    CHECK(held == 0, "a lock is kept");
    CHECK(inits == resets, "a requested reset is not made");
    if(works[1] > 0 && works[2] > 0) { CHECK(common[1] & common[2], "reasoning and input can overlap: no common lock"); REACH("both"); }
    role = 0; Stopped = false; UDPNAR_Stop();
    CHECK(joined == 2, "stopped before the threads ended");
    REACH("stopped");
}
