/* The thread pool of src/commons (the real source, included below) under a scheduler of its own: threads are coroutines, and at
 * every operation on a mutex, condition variable or semaphore, at every evaluation of a loop condition, and inside every job
 * another thread may go first.  All schedules with at most `budget` deviations from "go on as long as you can" are explored,
 * with spurious wake-ups and every choice of the waiter that a signal wakes.  Memory errors are seen by AddressSanitizer. */
#include "explore.h"
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#define MAXT 10
#define STK (256 << 10)
enum { T_FREE, T_RUN, T_MUTEX, T_COND, T_SLEEP, T_JOIN, T_DONE };
struct thr { int st; void *on; int signalled, spins, line; time_t wake; void *(*fn)(void *); void *arg; ucontext_t uc; char *stk; const char *where; };
static struct thr T[MAXT]; static int nt, cur; static time_t now; static long steps; static int early;
struct mtx { int owner; }; /* what is kept in the user's pthread_mutex_t: owner + 1 */

static int can(int i)
{
    struct thr *t = &T[i];
    switch (t->st) {
        case T_RUN: return 1;
        case T_MUTEX: return ((struct mtx *)t->on)->owner == 0;
        case T_COND: return t->signalled;
        case T_SLEEP: return now >= t->wake;
        case T_JOIN: return T[(long)t->on].st == T_DONE;
    }
    return 0;
}
/* failures are reported from the main stack */
static char pkey[40], pmsg[400];
#define ex_fail(k, ...) do { if (!cur) (ex_fail)(k, __VA_ARGS__); strcpy(pkey, k); snprintf(pmsg, sizeof pmsg, __VA_ARGS__); cur = 0; setcontext(&T[0].uc); } while (0)
static void run(int i) { int me = cur; if (i == me) return; cur = i; swapcontext(&T[me].uc, &T[i].uc); if (*pkey) { char k[40]; strcpy(k, pkey); *pkey = 0; (ex_fail)(k, "%s", pmsg); } }
static void stuck(void)
{
    char b[400]; int n = 0;
    for (int i = 0; i < nt; i++) if (T[i].st != T_DONE) n += snprintf(b + n, sizeof b - n, "%s %d waits in %s; ", i ? "thread" : "main", i, T[i].where);
    ex_fail("hang", "nothing can run: %s", b);
}
/* the running thread gives others a chance; must: it cannot go on itself */
static void sched(const char *where, int must)
{
    int c[2 * MAXT], sp[2 * MAXT], n = 0, me = cur;
    T[me].where = where;
    if (++steps > ex_iparam("steps", 20000)) ex_fail("livelock", "the threads go on for ever");
    for (;;) {
        n = 0;
        if (!must || can(me)) { c[n] = me; sp[n++] = 0; }
        for (int k = 1; k < nt; k++) { int i = (me + k) % nt; if (can(i)) { c[n] = i; sp[n++] = 0; } }
        int real = n;
        if (real) for (int i = 0; i < nt; i++) if (T[i].st == T_COND && !T[i].signalled && ex_iparam("spurious", 1)) { c[n] = i; sp[n++] = 1; }
        if (real) break;
        time_t w = 0;
        for (int i = 0; i < nt; i++) if (T[i].st == T_SLEEP && (!w || T[i].wake < w)) w = T[i].wake;
        if (!w) stuck();
        now = w;
    }
    int k = n > 1 ? ex_deviate(n, where) : 0;
    if (sp[k]) T[c[k]].signalled = 1;
    ex_step();
    run(c[k]);
}
static void tramp(void) { struct thr *t = &T[cur]; t->fn(t->arg); t->st = T_DONE; sched("end", 1); }
static int v_create(pthread_t *p, const void *a, void *(*fn)(void *), void *arg)
{
    if (nt == MAXT) abort();
    struct thr *t = &T[nt]; memset(t, 0, sizeof *t);
    t->fn = fn; t->arg = arg; t->st = T_RUN; t->stk = malloc(STK); t->where = "start";
    getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stk; t->uc.uc_stack.ss_size = STK; makecontext(&t->uc, tramp, 0);
    *p = (pthread_t)++nt; sched("create", 0); return 0;
}
static int v_mutex_init(pthread_mutex_t *m, const void *a) { memset(m, 0, sizeof *m); return 0; }
static int v_lock(pthread_mutex_t *m)
{
    struct mtx *x = (void *)m;
    sched("lock", 0);
    while (x->owner) { T[cur].st = T_MUTEX; T[cur].on = x; sched("lock", 1); T[cur].st = T_RUN; }
    x->owner = cur + 1; return 0;
}
static int v_unlock(pthread_mutex_t *m)
{
    struct mtx *x = (void *)m;
    if (x->owner != cur + 1) ex_fail("unlock", "a mutex is unlocked by a thread that does not hold it");
    if (early) sched("before unlock", 0); /* others may read what the mutex protects without holding it */
    x->owner = 0; sched("unlock", 0); return 0;
}
static int v_cond_init(pthread_cond_t *c, const void *a) { memset(c, 0, sizeof *c); return 0; }
static int v_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    struct mtx *x = (void *)m; *(volatile char *)c;
    if (x->owner != cur + 1) ex_fail("wait", "waiting without holding the mutex");
    x->owner = 0; T[cur].st = T_COND; T[cur].on = c; T[cur].signalled = 0; sched("wait", 1); T[cur].st = T_RUN;
    while (x->owner) { T[cur].st = T_MUTEX; T[cur].on = x; sched("wait", 1); T[cur].st = T_RUN; }
    x->owner = cur + 1; return 0;
}
static int v_signal(pthread_cond_t *c)
{
    int w[MAXT], n = 0; *(volatile char *)c;
    for (int i = 0; i < nt; i++) if (T[i].st == T_COND && T[i].on == c && !T[i].signalled) w[n++] = i;
    if (n) T[w[n > 1 ? ex_deviate(n, "waiter") : 0]].signalled = 1;
    return 0;
}
static int v_broadcast(pthread_cond_t *c) { *(volatile char *)c; for (int i = 0; i < nt; i++) if (T[i].st == T_COND && T[i].on == c) T[i].signalled = 1; return 0; }
static unsigned v_sleep(unsigned s) { T[cur].st = T_SLEEP; T[cur].wake = now + s; sched("sleep", 1); T[cur].st = T_RUN; return 0; }
static time_t v_time(time_t *t) { if (t) *t = now; return now; }
/* a loop condition: a thread that keeps testing one lets the others run, and when they cannot, time passes */
static int spin(int line)
{
    int others = 0; struct thr *t = &T[cur];
    if (t->line != line) { t->line = line; t->spins = 0; }
    for (int i = 0; i < nt; i++) others |= i != cur && can(i);
    if (++t->spins % 3) { sched("loop", 0); return 1; }
    if (!others) { now++; if (t->spins > 3000) stuck(); return 1; }
    if (++steps > ex_iparam("steps", 20000)) ex_fail("livelock", "the threads go on for ever");
    for (int k = 1; k < nt; k++) if (can((cur + k) % nt)) { t->where = "loop"; ex_step(); run((cur + k) % nt); break; }
    return 1;
}
#define pthread_create v_create
#define pthread_detach(t) ((void)(t))
#define pthread_kill(t, s) ((void)(t))
#define pthread_mutex_init v_mutex_init
#define pthread_mutex_destroy(m) ((void)(m))
#define pthread_mutex_lock v_lock
#define pthread_mutex_unlock v_unlock
#define pthread_cond_init v_cond_init
#define pthread_cond_destroy(c) ((void)(c))
#define pthread_cond_wait v_wait
#define pthread_cond_signal v_signal
#define pthread_cond_broadcast v_broadcast
#define sleep v_sleep
#define time v_time
#define sigaction(s, a, o) ((void)(a), 0)
#define prctl(...) 0
#define while(c) while (spin(__LINE__) && (c))
#include "commons/utils/thpool.c"
#undef while
#undef sleep
#undef time

#define MAXJ 1200
static struct job1 { int started, finished, slow, child; struct thpool_ *pool; } J[MAXJ];
static int nj, running[2], maxrun, order[MAXJ], norder;
static void add(struct thpool_ *p, int slow, int child);
static void work(void *arg)
{
    struct job1 *j = arg; int id = (int)(j - J);
    if (id < 0 || id >= nj) ex_fail("argument", "a job runs with a wrong argument");
    if (j->started++) ex_fail("twice", "job %d runs twice", id);
    order[norder++] = id;
    if (++running[0] > maxrun) maxrun = running[0];
    sched("job", 0);
    if (j->slow) v_sleep(j->slow);
    for (int i = 0; i < j->child; i++) add(j->pool, 0, 0);
    sched("job", 0);
    running[0]--; j->finished = 1;
}
static void add(struct thpool_ *p, int slow, int child)
{
    struct job1 *j = &J[nj++]; memset(j, 0, sizeof *j); j->slow = slow; j->child = child; j->pool = p;
    if (thpool_add_work(p, work, j) != 0) ex_fail("add", "adding a job fails");
}
static void all_done(const char *when) { for (int i = 0; i < nj; i++) if (!J[i].finished) ex_fail("wait", "%s, job %d has%s", when, i, J[i].started ? " not finished" : " not run"); ex_nontrivial(); }
static struct thpool_ *P; static int other;
static void *waiter(void *x) { thpool_wait(P); all_done("after waiting in the second thread"); other = 1; return NULL; }
static void *adder(void *x) { for (int i = 0; i < (long)x; i++) add(P, 0, 0); other = 1; return NULL; }
static void join(int t) { T[cur].st = T_JOIN; T[cur].on = (void *)(long)t; sched("join", 1); T[cur].st = T_RUN; }
static void body(void)
{
    pthread_t t; const char *sc = ex_param("scen", "rounds");
    int tn = 1 + ex_choose(ex_iparam("threads", 2), "threads"), k = ex_iparam("jobs", 3);
    for (int i = 0; i < nt; i++) free(T[i].stk);
    memset(T, 0, sizeof T); nj = norder = running[0] = maxrun = other = 0; steps = 0; nt = 1; cur = 0; now = 1000; T[0].st = T_RUN;
    ex_note("%d threads", tn);
    early = ex_iparam("early", 0);
    P = thpool_init(tn);
    if (!P) ex_fail("init", "the pool cannot be created");
    if (!strcmp(sc, "rounds"))
        for (int r = 0; r < ex_iparam("rounds", 2); r++) {
            int n = ex_iparam("many", 0) ? ex_iparam("many", 0) : ex_choose(k + 1, "jobs"); ex_note("add %d jobs and wait", n);
            for (int i = 0; i < n; i++) add(P, 0, 0);
            thpool_wait(P); all_done("after waiting");
            if (thpool_num_threads_working(P) < 0 || thpool_num_threads_working(P) > tn) ex_fail("working", "%d threads work", thpool_num_threads_working(P));
        }
    else if (!strcmp(sc, "slow")) { int n = 1 + ex_choose(k, "jobs"); ex_note("add %d jobs that take time and wait", n); for (int i = 0; i < n; i++) add(P, 1 + i, 0); thpool_wait(P); all_done("after waiting"); }
    else if (!strcmp(sc, "nested")) { int n = 1 + ex_choose(k, "jobs"); ex_note("add %d jobs that add jobs and wait", n); for (int i = 0; i < n; i++) add(P, 0, 1); thpool_wait(P); all_done("after waiting"); }
    else if (!strcmp(sc, "waiters")) { int n = ex_choose(k + 1, "jobs"); ex_note("add %d jobs and wait in two threads", n); for (int i = 0; i < n; i++) add(P, 0, 0); v_create(&t, NULL, waiter, NULL); thpool_wait(P); all_done("after waiting"); join((int)t - 1); }
    else if (!strcmp(sc, "adders")) { int n = 1 + ex_choose(k, "jobs"), m = 1 + ex_choose(k, "jobs"); ex_note("add %d and %d jobs in two threads and wait", n, m); v_create(&t, NULL, adder, (void *)(long)m); for (int i = 0; i < n; i++) add(P, 0, 0); join((int)t - 1); thpool_wait(P); all_done("after waiting"); }
    else if (!strcmp(sc, "destroy")) { int n = ex_choose(k + 1, "jobs"), slow = ex_choose(2, "slow") * 3; ex_note("add %d jobs%s and destroy the pool", n, slow ? " that take time" : ""); for (int i = 0; i < n; i++) add(P, slow, 0); }
    else if (!strcmp(sc, "pools")) {
        int n = ex_choose(k + 1, "jobs"), m = ex_choose(k + 1, "jobs"); struct thpool_ *q = thpool_init(1); if (!q) ex_fail("init", "the second pool cannot be created");
        ex_note("a second pool: %d jobs for it, %d for the first, destroy the second, %d for the first", n, m, m);
        for (int i = 0; i < n; i++) add(q, 0, 0);
        for (int i = 0; i < m; i++) add(P, 0, 0);
        thpool_wait(q); for (int i = 0; i < n; i++) if (!J[i].finished) ex_fail("wait", "after waiting for the second pool, job %d has not finished", i);
        thpool_destroy(q);
        for (int i = 0; i < m; i++) add(P, 0, 0);
        thpool_wait(P); all_done("after waiting");
    }
    if (tn == 1 && strcmp(sc, "nested") && strcmp(sc, "adders") && strcmp(sc, "pools")) for (int i = 0; i < norder; i++) if (order[i] != i) ex_fail("order", "a single thread runs job %d as number %d", order[i], i);
    if (maxrun > tn + (!strcmp(sc, "pools"))) ex_fail("parallel", "%d jobs run at the same time in %d threads", maxrun, tn);
    if (ex_iparam("destroy", 1)) {
        thpool_destroy(P);
        for (int i = 0; i < nj; i++) if (J[i].started != J[i].finished) ex_fail("destroyed", "job %d is still running when the pool has been destroyed", i);
        int b = norder;
        for (int k = 0; k < 3; k++) v_sleep(1);
        if (norder != b) ex_fail("destroyed", "a job starts after the pool has been destroyed");
        for (int i = 1; i < nt; i++) if (T[i].st != T_DONE) ex_fail("threads", "thread %d still exists after the pool has been destroyed", i);
    }
    uint64_t h = ex_hash(tn, order, sizeof(int) * norder); ex_state(ex_hash(h, &maxrun, 4));
    ex_nontrivial();
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-pool", NULL, body); }
