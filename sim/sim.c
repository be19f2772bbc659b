#include "sim.h"
#include "include/mercury.h"
#include "include/mercury_proc_string.h"
#include "include/mercury_thread_pool.h"
#include "include/mpi.h"
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

int  sim_window = 0; /* scheduling/delivery/preemption alternatives are explored only while a driver opened the window */
int  sim_bulk_late = 1, sim_bulk_park = 0, sim_sched_choice = 0, sim_deliver_choice = 0, sim_preempt_choice = 0, sim_exited = 0;
long sim_msgs;

/* ---------------------------------------------------------------- actors */
#define MAXA 64
#define STK  (8u << 20)
enum { A_FREE, A_RUN, A_BLOCK, A_DONE };
struct actor {
    int        state, kind, world, rank, parent, sleeping;
    char       name[32];
    ucontext_t uc;
    char      *stk;
    int (*ready)(void *);
    void       *rarg;
    const char *why;
    uint64_t    wake;
    void (*fn)(void *);
    void *arg;
    void *(*tfn)(void *);
};
static struct actor A[MAXA];
static int          na, cur = -1;
static ucontext_t   schedctx;
static uint64_t     now_us = 1700000000ull * 1000000;
static int          mpi_inited[MAXA];

double sim_now(void) { return now_us * 1e-6; }
int    sim_self(void) { return cur; }
static void tramp(int i)
{
    struct actor *a = &A[i];
    if (a->tfn) a->tfn(a->arg);
    else a->fn(a->arg);
    a->state = A_DONE;
    swapcontext(&a->uc, &schedctx);
    abort();
}
static int spawn(const char *name, int kind, int world, int rank, void (*fn)(void *), void *(*tfn)(void *), void *arg)
{
    if (na >= MAXA) abort();
    int           i = na++;
    struct actor *a = &A[i];
    memset(a, 0, sizeof *a);
    snprintf(a->name, sizeof a->name, "%s", name);
    a->kind = kind; a->world = world; a->rank = rank; a->fn = fn; a->tfn = tfn; a->arg = arg; a->parent = cur;
    a->stk  = mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    if (a->stk == MAP_FAILED) abort();
    mprotect(a->stk, 4096, PROT_NONE);
    getcontext(&a->uc);
    a->uc.uc_stack.ss_sp   = a->stk;
    a->uc.uc_stack.ss_size = STK;
    a->uc.uc_link          = NULL;
    makecontext(&a->uc, (void (*)(void))tramp, 1, i);
    a->state = A_RUN;
    return i;
}
int sim_spawn(const char *name, int kind, int world, int rank, void (*fn)(void *), void *arg)
{
    return spawn(name, kind, world, rank, fn, NULL, arg);
}
static void yield_to_sched(void)
{
    int me = cur;
    swapcontext(&A[me].uc, &schedctx);
}
void sim_wait(int (*ready)(void *), void *arg, const char *why)
{
    if (ready && ready(arg)) return;
    struct actor *a = &A[cur];
    a->state = A_BLOCK; a->ready = ready; a->rarg = arg; a->why = why;
    yield_to_sched();
}
static void do_sleep(uint64_t us)
{
    if (cur < 0) return;
    struct actor *a = &A[cur];
    a->wake     = now_us + us;
    a->sleeping = 1;
    a->state    = A_BLOCK;
    a->ready    = NULL;
    a->why      = "sleep";
    yield_to_sched();
}
void sim_advance(double s) { do_sleep((uint64_t)(s * 1e6)); }
static int runnable(struct actor *a)
{
    if (a->state == A_RUN) return 1;
    if (a->state != A_BLOCK) return 0;
    if (a->sleeping) return now_us >= a->wake;
    return a->ready && a->ready(a->rarg);
}
static int last = -1, force_next = -1;
static void switch_to(int i)
{
    A[i].state    = A_RUN;
    A[i].sleeping = 0;
    last = cur = i;
    swapcontext(&schedctx, &A[i].uc);
    cur = -1;
}
/* Clients run first (they only add messages; the receiver decides the order), then servers and threads. */
static int pick(void)
{
    int c[MAXA], n = 0;
    if (force_next >= 0) { n = force_next; force_next = -1; return n; }
    for (int i = 0; i < na; i++)
        if (A[i].kind == ACT_CLIENT && runnable(&A[i])) return i;
    /* the actor that was running goes first if still enabled, then ascending ids */
    if (last >= 0 && A[last].kind != ACT_CLIENT && runnable(&A[last])) c[n++] = last;
    for (int i = 0; i < na; i++)
        if (i != last && A[i].kind != ACT_CLIENT && runnable(&A[i])) c[n++] = i;
    if (!n) return -1;
    /* background threads of different processes share nothing but messages: their order is immaterial */
    int indep = 1;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            if (A[c[i]].kind != ACT_THREAD || (i != j && A[c[i]].world == A[c[j]].world && A[c[i]].rank == A[c[j]].rank)) indep = 0;
    if (n > 1 && sim_sched_choice && sim_window && !indep) return c[ex_deviate(n, "schedule")];
    return c[0];
}
int sim_run_until(int (*pred)(void *), void *arg)
{
    int idle_wakes = 0;
    for (;;) {
        if (sim_exited) return 0;
        if (pred && pred(arg)) return 1;
        int i = pick();
        if (i >= 0) {
            if (!A[i].sleeping) idle_wakes = 0;
            switch_to(i);
            continue;
        }
        /* nothing enabled: let time pass to the earliest sleeper */
        int      b = -1;
        for (int k = 0; k < na; k++)
            if (A[k].state == A_BLOCK && A[k].sleeping && (b < 0 || A[k].wake < A[b].wake)) b = k;
        if (b < 0) return 0;
        if (A[b].kind == ACT_THREAD) {
            /* periodic background threads keep waking up: bounded patience when no client sleeps */
            int cs = 0;
            for (int k = 0; k < na; k++) if (A[k].state == A_BLOCK && A[k].sleeping && A[k].kind != ACT_THREAD) cs = 1;
            if (!cs && ++idle_wakes > 400) return 0;
        }
        now_us = A[b].wake;
    }
}
/* the process ends here and now, without closing anything */
void sim_actor_end(void) { A[cur].state = A_DONE; yield_to_sched(); }
int sim_actor_done(int i) { return A[i].state == A_DONE || A[i].state == A_FREE; }
static int clients_done(void *x)
{
    for (int i = 0; i < na; i++)
        if (A[i].kind == ACT_CLIENT && A[i].state != A_DONE && A[i].state != A_FREE) return 0;
    return 1;
}
void sim_run(void)
{
    if (!sim_run_until(clients_done, NULL)) {
        if (sim_exited) ex_fail("exit", "the code under test called exit(%d)", sim_exited - 1);
        char b[600]; int n = 0;
        for (int i = 0; i < na; i++)
            if (A[i].kind == ACT_CLIENT && A[i].state != A_DONE)
                n += snprintf(b + n, sizeof b - n, "%s blocked in %s; ", A[i].name, A[i].why ? A[i].why : "?");
        ex_fail("hang", "deadlock: no message in flight, nothing can run: %s", b);
    }
}

/* ---------------------------------------------------------------- libc: threads, time */
static int mfree(void *p);
int sim_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    int i = spawn("thread", ACT_THREAD, A[cur].world, A[cur].rank, NULL, fn, arg);
    *t    = (pthread_t)(i + 1);
    /* the new thread runs first, until it blocks (pools spin on "all workers started") */
    force_next = i;
    int me = cur;
    A[me].state = A_RUN;
    yield_to_sched();
    return 0;
}
int       __wrap_pthread_detach(pthread_t t) { return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int       __wrap_pthread_kill(pthread_t t, int s) { return 0; }
int       __wrap_prctl(int o, ...) { return 0; }
struct scond { int waiters, signals; };
static int csig(void *p) { return ((struct scond *)p)->signals > 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    struct scond *s = (void *)c;
    s->waiters++;
    *(int *)m = 0;
    sim_wait(csig, s, "cond");
    s->signals--; s->waiters--;
    while (*(int *)m != 0) sim_wait(mfree, m, "mutex");
    *(int *)m = cur + 1;
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { struct scond *s = (void *)c; if (s->signals < s->waiters) s->signals++; return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { struct scond *s = (void *)c; s->signals = s->waiters; return 0; }
static int joined(void *p) { return A[(long)p].state == A_DONE; }
int __wrap_pthread_join(pthread_t t, void **r)
{
    long i = (long)t - 1;
    /* joining implies waiting through the thread's sleeps */
    sim_wait(joined, (void *)i, "pthread_join");
    if (r) *r = NULL;
    return 0;
}
/* the simulated owner is kept in the first int of the pthread_mutex_t: 0 free, else actor+1 */
static int mfree(void *p) { return *(int *)p == 0; }
static void preempt_point(const char *what)
{
    if (cur < 0 || !sim_preempt_choice || !sim_window) return;
    int c[MAXA], n = 0;
    c[n++] = cur;
    for (int i = 0; i < na; i++)
        if (i != cur && A[i].kind != ACT_CLIENT && A[i].world == A[cur].world && A[i].rank == A[cur].rank && runnable(&A[i])) c[n++] = i;
    /* a sleeping sibling thread may have had its timer expire at any point */
    for (int i = 0; i < na && sim_preempt_choice > 1; i++)
        if (i != cur && A[i].kind == ACT_THREAD && A[i].world == A[cur].world && A[i].rank == A[cur].rank && A[i].state == A_BLOCK && A[i].sleeping && now_us < A[i].wake) c[n++] = i;
    if (n == 1) return;
    int k = ex_deviate(n, what);
    if (k == 0) return;
    if (A[c[k]].sleeping && A[c[k]].wake > now_us) now_us = A[c[k]].wake;
    /* hand over: the chosen one runs next */
    int me = cur;
    A[me].state = A_BLOCK; A[me].ready = NULL; A[me].sleeping = 1; A[me].wake = now_us; A[me].why = "preempted";
    last = c[k];
    yield_to_sched();
    A[me].sleeping = 0;
}
int sim_preempt_io = 1, sim_preempt_free = 0;
void sim_preempt(const char *what) { if (sim_preempt_io) preempt_point(what); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (cur < 0) return 0;
    preempt_point("lock");
    while (*(int *)m != 0) sim_wait(mfree, m, "mutex");
    *(int *)m = cur + 1;
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (*(int *)m) return EBUSY;
    *(int *)m = cur + 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    *(int *)m = 0;
    preempt_point("unlock");
    return 0;
}
unsigned __wrap_sleep(unsigned s) { do_sleep(s * 1000000ull); return 0; }
int      __wrap_usleep(useconds_t u) { do_sleep(u); return 0; }
time_t   __wrap_time(time_t *t) { time_t v = now_us / 1000000; if (t) *t = v; return v; }
int      __wrap_gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = now_us / 1000000; tv->tv_usec = now_us % 1000000; return 0; }
int      __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_us / 1000000; t->tv_nsec = now_us % 1000000 * 1000; return 0; }
void     __wrap_exit(int c) { sim_exited = c + 1; if (cur >= 0) { A[cur].state = A_DONE; yield_to_sched(); } _exit(c); }
int      __wrap_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
pid_t    __wrap_getpid(void) { return 4242; }
int      __wrap_sigaction(int s, const void *a, void *b) { return 0; }
int      __wrap_chdir(const char *c) { return 0; }
int      __wrap_shm_open(const char *n, int f, mode_t m) { errno = ENOSYS; return -1; }
int      __wrap_shm_unlink(const char *n) { return 0; }
int hg_thread_create(hg_thread_t *t, hg_thread_func_t f, void *a) { return sim_pthread_create(t, NULL, f, a); }
int hg_thread_join(hg_thread_t t) { return __wrap_pthread_join(t, NULL); }
void hg_thread_exit(hg_thread_ret_t r) { A[cur].state = A_DONE; yield_to_sched(); }
int hg_thread_cond_init(hg_thread_cond_t *c) { return 0; }
int hg_thread_cond_destroy(hg_thread_cond_t *c) { return 0; }
int hg_thread_cond_signal(hg_thread_cond_t *c) { return 0; }
int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { return 0; }
int hg_thread_cond_timedwait(hg_thread_cond_t *c, hg_thread_mutex_t *m, unsigned ms) { return 0; }
int hg_thread_pool_init(unsigned n, hg_thread_pool_t **p) { *p = NULL; return 0; }
int hg_thread_pool_destroy(hg_thread_pool_t *p) { return 0; }
int hg_thread_pool_post(hg_thread_pool_t *p, struct hg_thread_work *w) { w->func(w->args); return 0; }

/* ---------------------------------------------------------------- MPI */
#define MAXC 64
struct comm { int n; int member[16]; /* ranks in world */ int world; };
static struct comm comms[MAXC];
static int         ncomm, worldcomm[16], nworld;
struct collarg { int op; const void *s; void *r; int cnt, cnt2; MPI_Datatype t, t2; const int *cnts, *displs; int root; MPI_Op mop; int color, key; MPI_Comm *newc; };
struct redq { struct redq *next; char d[]; };
static struct { int arrived; long gen; struct collarg a[16]; struct redq *rq[16]; } coll[MAXC];

int sim_world(int n)
{
    int c = ++ncomm; /* comm ids from 1 */
    comms[c].n = n; comms[c].world = nworld;
    for (int i = 0; i < n; i++) comms[c].member[i] = i;
    worldcomm[nworld] = c;
    return nworld++;
}
static int C(MPI_Comm c) { return c == MPI_COMM_WORLD ? worldcomm[A[cur].world] : c >= 100 ? c - 100 : -1; }
static int crank(int c) { for (int i = 0; i < comms[c].n; i++) if (comms[c].member[i] == A[cur].rank) return i; return -1; }
static int tsz(MPI_Datatype t) { return t & 0xff; }
int MPI_Init(int *a, char ***b) { mpi_inited[cur] = 1; return 0; }
int MPI_Initialized(int *f) { *f = mpi_inited[cur]; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { int k = C(c); *r = k < 0 ? 0 : crank(k); return 0; }
int MPI_Comm_size(MPI_Comm c, int *r) { int k = C(c); *r = k < 0 ? 1 : comms[k].n; return 0; }
double MPI_Wtime(void) { return sim_now(); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { int k = C(c); *n = k < 0 ? c : 100 + k; return 0; } /* shares the context: calls are in order */
int MPI_Comm_free(MPI_Comm *c) { *c = MPI_COMM_NULL; return 0; }
static void red(void *acc, const void *x, int cnt, MPI_Datatype t, MPI_Op op)
{
#define RD(T) do { T *a = acc; const T *b = x; for (int i = 0; i < cnt; i++) a[i] = op == MPI_SUM ? a[i] + b[i] : op == MPI_MAX ? (a[i] > b[i] ? a[i] : b[i]) : (a[i] < b[i] ? a[i] : b[i]); } while (0)
    switch (t) {
        case MPI_DOUBLE: RD(double); break;
        case MPI_FLOAT: RD(float); break;
        case MPI_INT: RD(int32_t); break;
        case MPI_UNSIGNED: RD(uint32_t); break;
        case MPI_LONG: RD(int64_t); break;
        case MPI_UNSIGNED_LONG: RD(uint64_t); break;
        default: RD(char);
    }
}
enum { K_BAR, K_BC, K_RED, K_ALLRED, K_GA, K_GAV, K_SCV, K_AGA, K_AGAV, K_SCAN, K_SPLIT };
static void cpy(void *d, const void *s, size_t n) { if (n && d != s && s != MPI_IN_PLACE) memmove(d, s, n); }
static void perform(int c)
{
    int             n = comms[c].n;
    struct collarg *a = coll[c].a;
    int             root = a[0].root;
    switch (a[0].op) {
        case K_BC: for (int i = 0; i < n; i++) cpy(a[i].r, a[root].r, (size_t)a[root].cnt * tsz(a[root].t)); break;
        case K_RED: case K_ALLRED: {
            size_t z = (size_t)a[0].cnt * tsz(a[0].t);
            void  *t = malloc(z + 8);
            memcpy(t, a[0].s, z);
            for (int i = 1; i < n; i++) red(t, a[i].s, a[0].cnt, a[0].t, a[0].mop);
            for (int i = 0; i < n; i++) if (a[0].op == K_ALLRED || i == root) memcpy(a[i].r, t, z);
            free(t);
            break;
        }
        case K_SCAN: {
            size_t z = (size_t)a[0].cnt * tsz(a[0].t);
            void  *t = malloc(z + 8);
            memcpy(t, a[0].s, z);
            memcpy(a[0].r, t, z);
            for (int i = 1; i < n; i++) { red(t, a[i].s, a[0].cnt, a[0].t, a[0].mop); memcpy(a[i].r, t, z); }
            free(t);
            break;
        }
        case K_GA: for (int i = 0; i < n; i++) cpy((char *)a[root].r + (size_t)i * a[i].cnt * tsz(a[i].t), a[i].s, (size_t)a[i].cnt * tsz(a[i].t)); break;
        case K_AGA: for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) cpy((char *)a[j].r + (size_t)i * a[i].cnt * tsz(a[i].t), a[i].s, (size_t)a[i].cnt * tsz(a[i].t)); break;
        case K_GAV: for (int i = 0; i < n; i++) cpy((char *)a[root].r + (size_t)a[root].displs[i] * tsz(a[root].t2), a[i].s, (size_t)a[i].cnt * tsz(a[i].t)); break;
        case K_AGAV: for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) cpy((char *)a[j].r + (size_t)a[j].displs[i] * tsz(a[j].t2), a[i].s, (size_t)a[i].cnt * tsz(a[i].t)); break;
        case K_SCV: for (int i = 0; i < n; i++) cpy(a[i].r, (const char *)a[root].s + (size_t)a[root].displs[i] * tsz(a[root].t), (size_t)a[root].cnts[i] * tsz(a[root].t)); break;
        case K_SPLIT: {
            int done[16] = {0};
            for (int i = 0; i < n; i++) {
                if (done[i]) continue;
                int k = ++ncomm;
                comms[k].world = comms[c].world; comms[k].n = 0;
                /* order by key then rank */
                for (;;) {
                    int b = -1;
                    for (int j = 0; j < n; j++) if (!done[j] && a[j].color == a[i].color && (b < 0 || a[j].key < a[b].key)) b = j;
                    if (b < 0) break;
                    done[b] = 1;
                    comms[k].member[comms[k].n++] = comms[c].member[b];
                    *a[b].newc = 100 + k;
                }
            }
            break;
        }
    }
}
static int  red_ready(void *p) { long *x = p; for (int i = 0; i < comms[x[0]].n; i++) if (i != x[1] && !coll[x[0]].rq[i]) return 0; return 1; }
static int  cgen_done(void *p) { long *x = p; return coll[x[0]].gen != x[1]; }
static int  collective(MPI_Comm mc, struct collarg a)
{
    int c = C(mc);
    static int selfc = 0; (void)selfc;
    if (c < 0) { /* MPI_COMM_SELF */
        int save = ncomm; comms[0].n = 1; comms[0].member[0] = A[cur].rank; comms[0].world = A[cur].world;
        a.root = 0; coll[0].a[0] = a; perform(0); (void)save;
        return 0;
    }
    int r = crank(c);
    if (a.op == K_RED) { /* buffered at the non-root ranks, as MPI implementations do for small messages */
        size_t z = (size_t)a.cnt * tsz(a.t);
        if (r != a.root) {
            struct redq *q = malloc(sizeof *q + z), **e = &coll[c].rq[r];
            q->next = NULL; memcpy(q->d, a.s, z);
            while (*e) e = &(*e)->next;
            *e = q;
            return 0;
        }
        long x[2] = {c, a.root};
        sim_wait(red_ready, x, "MPI_Reduce");
        void *t = malloc(z + 8);
        memcpy(t, a.s, z);
        for (int i = 0; i < comms[c].n; i++) if (i != r) { struct redq *q = coll[c].rq[i]; red(t, q->d, a.cnt, a.t, a.mop); coll[c].rq[i] = q->next; free(q); }
        memcpy(a.r, t, z);
        free(t);
        return 0;
    }
    coll[c].a[r] = a;
    if (++coll[c].arrived == comms[c].n) {
        for (int i = 1; i < comms[c].n; i++)
            if (coll[c].a[i].op != coll[c].a[0].op) ex_fail("mpi-mismatch", "ranks are in different collectives (%d/%d)", coll[c].a[0].op, coll[c].a[i].op);
        perform(c);
        coll[c].arrived = 0;
        coll[c].gen++;
    }
    else {
        long x[2] = {c, coll[c].gen};
        sim_wait(cgen_done, x, "MPI collective");
    }
    return 0;
}
int MPI_Barrier(MPI_Comm c) { return collective(c, (struct collarg){.op = K_BAR}); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return collective(c, (struct collarg){.op = K_BC, .r = b, .cnt = n, .t = t, .root = root}); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return collective(c, (struct collarg){.op = K_RED, .s = s, .r = r, .cnt = n, .t = t, .mop = o, .root = root}); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return collective(c, (struct collarg){.op = K_ALLRED, .s = s, .r = r, .cnt = n, .t = t, .mop = o}); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return collective(c, (struct collarg){.op = K_SCAN, .s = s, .r = r, .cnt = n, .t = t, .mop = o}); }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *r, int n2, MPI_Datatype t2, int root, MPI_Comm c) { return collective(c, (struct collarg){.op = K_GA, .s = s, .cnt = n, .t = t, .r = r, .cnt2 = n2, .t2 = t2, .root = root}); }
int MPI_Gatherv(const void *s, int n, MPI_Datatype t, void *r, const int *cn, const int *d, MPI_Datatype t2, int root, MPI_Comm c) { return collective(c, (struct collarg){.op = K_GAV, .s = s, .cnt = n, .t = t, .r = r, .cnts = cn, .displs = d, .t2 = t2, .root = root}); }
int MPI_Scatterv(const void *s, const int *cn, const int *d, MPI_Datatype t, void *r, int n2, MPI_Datatype t2, int root, MPI_Comm c) { return collective(c, (struct collarg){.op = K_SCV, .s = s, .cnts = cn, .displs = d, .t = t, .r = r, .cnt2 = n2, .t2 = t2, .root = root}); }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *r, int n2, MPI_Datatype t2, MPI_Comm c) { return collective(c, (struct collarg){.op = K_AGA, .s = s, .cnt = n, .t = t, .r = r, .cnt2 = n2, .t2 = t2}); }
int MPI_Allgatherv(const void *s, int n, MPI_Datatype t, void *r, const int *cn, const int *d, MPI_Datatype t2, MPI_Comm c) { return collective(c, (struct collarg){.op = K_AGAV, .s = s, .cnt = n, .t = t, .r = r, .cnts = cn, .displs = d, .t2 = t2}); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) { if (C(c) < 0) { *n = MPI_COMM_SELF; return 0; } return collective(c, (struct collarg){.op = K_SPLIT, .color = color, .key = key, .newc = n}); }
int MPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *n) { return MPI_Comm_split(c, 0, key, n); }

/* ---------------------------------------------------------------- Mercury */
struct hg_addr { char s[64]; int cls; };
struct rpcreg { hg_id_t id; char name[64]; hg_proc_cb_t in, out; hg_rpc_cb_t cb; int noresp; };
struct ev { int kind, src, parked; uint64_t seq; struct hg_handle *h; struct hg_cb_info ci; hg_cb_t cb; struct bulkop *b; struct ev *next; };
struct hg_class { int idx, up; char addr[64]; struct hg_addr self; struct rpcreg r[256]; int nr; struct ev *inbox, *cq; struct hg_context *ctx; hg_return_t (*hcb)(hg_handle_t, void *); void *harg; };
struct hg_context { struct hg_class *c; };
struct hg_proc { hg_proc_op_t op; char *buf; size_t size, pos; };
struct hg_handle { struct hg_info info; int ref, target, responded, nofree; struct hg_class *cls; struct hg_class *peer; struct hg_handle *other; char *in; size_t inlen; char *out; size_t outlen; hg_cb_t cb; void *arg; void *data; void (*dfree)(void *); int inflight; };
struct bdesc { int ref, n, dead; struct { char *p; hg_size_t z; int own; } *s; hg_size_t tot; };
struct hg_bulk { struct bdesc *d; int ref, remote; };
struct bulkop { hg_bulk_op_t op; struct bdesc *o, *l; hg_size_t oo, lo, n; hg_bulk_t ob, lb; };
enum { E_RPC, E_RESP, E_BULK, E_CB };

static struct hg_class *classes[32];
static int              ncls;
static uint64_t         evseq;

void sim_kill_all(void)
{
    for (int i = 0; i < na; i++) A[i].state = A_FREE;
    for (int i = 0; i < ncls; i++) { classes[i]->up = 0; classes[i]->inbox = classes[i]->cq = NULL; }
    memset(coll, 0, sizeof coll);
    na = 0; last = -1;
}
hg_return_t HG_Version_get(unsigned *a, unsigned *b, unsigned *c) { *a = 2; *b = 0; *c = 1; return HG_SUCCESS; }
hg_class_t *HG_Init_opt(const char *info, hg_bool_t listen, const struct hg_init_info *o) { return HG_Init(info, listen); }
hg_class_t *HG_Init(const char *info, hg_bool_t listen)
{
    struct hg_class *c = calloc(1, sizeof *c);
    c->idx = ncls; c->up = 1;
    snprintf(c->addr, sizeof c->addr, "sim://%s/%d", A[cur].name, ncls);
    snprintf(c->self.s, sizeof c->self.s, "%s", c->addr);
    c->self.cls = ncls;
    if (ncls >= 32) abort();
    classes[ncls++] = c;
    return c;
}
hg_return_t HG_Finalize(hg_class_t *c) { c->up = 0; return HG_SUCCESS; }
void HG_Cleanup(void) {}
hg_context_t *HG_Context_create(hg_class_t *c) { struct hg_context *x = calloc(1, sizeof *x); x->c = c; c->ctx = x; return x; }
hg_return_t HG_Context_destroy(hg_context_t *x) { return HG_SUCCESS; }
hg_class_t *HG_Context_get_class(const hg_context_t *x) { return x->c; }
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *c, hg_return_t (*cb)(hg_handle_t, void *), void *a) { c->hcb = cb; c->harg = a; return HG_SUCCESS; }
hg_id_t HG_Register_name(hg_class_t *c, const char *n, hg_proc_cb_t in, hg_proc_cb_t out, hg_rpc_cb_t cb)
{
    hg_id_t id = ex_hash_s(1469598103934665603ull, n);
    int     i;
    for (i = 0; i < c->nr; i++) if (c->r[i].id == id) break;
    if (i == c->nr) { if (c->nr >= 256) abort(); c->nr++; }
    c->r[i] = (struct rpcreg){.id = id, .in = in, .out = out, .cb = cb};
    snprintf(c->r[i].name, 64, "%s", n);
    return id;
}
static struct rpcreg *findreg(struct hg_class *c, hg_id_t id) { for (int i = 0; i < c->nr; i++) if (c->r[i].id == id) return &c->r[i]; return NULL; }
hg_return_t HG_Registered_disable_response(hg_class_t *c, hg_id_t id, hg_bool_t d) { struct rpcreg *r = findreg(c, id); if (!r) return HG_NOENTRY; r->noresp = d; return HG_SUCCESS; }

static void push(struct ev **l, struct ev e)
{
    struct ev *n = malloc(sizeof *n);
    *n = e; n->next = NULL; n->seq = ++evseq;
    while (*l) l = &(*l)->next;
    *l = n;
}
static void queue_cb(struct hg_class *c, hg_cb_t cb, struct hg_cb_info ci) { push(&c->cq, (struct ev){.kind = E_CB, .cb = cb, .ci = ci}); }

hg_return_t HG_Addr_lookup(hg_context_t *x, hg_cb_t cb, void *arg, const char *name, hg_op_id_t *op)
{
    struct hg_addr   *a  = calloc(1, sizeof *a);
    struct hg_cb_info ci = {.arg = arg, .type = HG_CB_LOOKUP};
    a->cls = -1;
    snprintf(a->s, sizeof a->s, "%s", name);
    for (int i = 0; i < ncls; i++) if (!strcmp(classes[i]->addr, name)) a->cls = i;
    ci.ret              = a->cls < 0 ? HG_NOENTRY : HG_SUCCESS;
    ci.info.lookup.addr = a;
    queue_cb(x->c, cb, ci);
    return HG_SUCCESS;
}
hg_return_t HG_Addr_free(hg_class_t *c, hg_addr_t a) { return HG_SUCCESS; }
hg_return_t HG_Addr_self(hg_class_t *c, hg_addr_t *a) { *a = &c->self; return HG_SUCCESS; }
hg_return_t HG_Addr_dup(hg_class_t *c, hg_addr_t a, hg_addr_t *b) { *b = a; return HG_SUCCESS; }
hg_return_t HG_Addr_to_string(hg_class_t *c, char *b, hg_size_t *z, hg_addr_t a)
{
    if (b) { if (*z <= strlen(a->s)) return HG_OVERFLOW; strcpy(b, a->s); }
    *z = strlen(a->s) + 1;
    return HG_SUCCESS;
}
static struct hg_handle *mkhandle(struct hg_class *c, struct hg_addr *a, hg_id_t id)
{
    struct hg_handle *h = calloc(1, sizeof *h);
    h->info = (struct hg_info){.hg_class = c, .context = c->ctx, .addr = a, .id = id};
    h->ref  = 1;
    h->cls  = c;
    if (c->hcb) c->hcb(h, c->harg);
    return h;
}
hg_return_t HG_Create(hg_context_t *x, hg_addr_t a, hg_id_t id, hg_handle_t *h)
{
    if (!x || !a) return HG_INVALID_ARG;
    if (!findreg(x->c, id)) return HG_NOENTRY;
    *h = mkhandle(x->c, a, id);
    return HG_SUCCESS;
}
hg_return_t HG_Destroy(hg_handle_t h)
{
    if (!h) return HG_SUCCESS;
    h->ref--; /* never freed: a late use is detected, not undefined */
    return HG_SUCCESS;
}
const struct hg_info *HG_Get_info(hg_handle_t h) { return h ? &h->info : NULL; }
hg_return_t HG_Set_data(hg_handle_t h, void *d, void (*f)(void *)) { h->data = d; h->dfree = f; return HG_SUCCESS; }
void *HG_Get_data(hg_handle_t h) { return h->data; }

static hg_return_t encode(hg_proc_cb_t p, void *s, char **b, size_t *l)
{
    struct hg_proc pr = {.op = HG_ENCODE};
    hg_return_t    r  = p && s ? p(&pr, s) : HG_SUCCESS;
    *b = pr.buf; *l = pr.pos;
    return r;
}
static hg_return_t decode(hg_proc_cb_t p, void *s, char *b, size_t l)
{
    struct hg_proc pr = {.op = HG_DECODE, .buf = b, .size = l};
    return p ? p(&pr, s) : HG_SUCCESS;
}
static hg_return_t pfree(hg_proc_cb_t p, void *s)
{
    struct hg_proc pr = {.op = HG_FREE};
    return p ? p(&pr, s) : HG_SUCCESS;
}
hg_return_t HG_Forward(hg_handle_t h, hg_cb_t cb, void *arg, void *in)
{
    struct rpcreg *r = findreg(h->cls, h->info.id);
    if (!r) return HG_NOENTRY;
    if (h->info.addr->cls < 0 || !classes[h->info.addr->cls]->up) return HG_HOSTUNREACH;
    struct hg_class *t = classes[h->info.addr->cls];
    hg_return_t      e = encode(r->in, in, &h->in, &h->inlen);
    if (e != HG_SUCCESS) return e;
    h->cb = cb; h->arg = arg; h->inflight = 1;
    struct hg_handle *th = mkhandle(t, &h->cls->self, h->info.id);
    th->target = 1; th->other = h; th->peer = h->cls; th->in = h->in; th->inlen = h->inlen;
    h->other = th; h->peer = t;
    sim_msgs++;
    push(&t->inbox, (struct ev){.kind = E_RPC, .src = h->cls->idx, .h = th});
    if (r->noresp) {
        struct hg_cb_info ci = {.arg = arg, .type = HG_CB_FORWARD, .ret = HG_SUCCESS};
        ci.info.forward.handle = h;
        if (cb) queue_cb(h->cls, cb, ci);
    }
    return HG_SUCCESS;
}
hg_return_t HG_Respond(hg_handle_t h, hg_cb_t cb, void *arg, void *out)
{
    struct rpcreg *r = findreg(h->cls, h->info.id);
    if (!r || !h->target) return HG_INVALID_ARG;
    if (r->noresp) return HG_OPNOTSUPPORTED;
    if (h->responded) ex_fail("double-respond", "RPC %s: the server responded twice to one request", r->name);
    h->responded = 1;
    struct hg_handle *o = h->other;
    hg_return_t e = encode(r->out, out, &o->out, &o->outlen);
    if (e != HG_SUCCESS) return e;
    sim_msgs++;
    push(&o->cls->inbox, (struct ev){.kind = E_RESP, .src = h->cls->idx, .h = o});
    if (cb) {
        struct hg_cb_info ci = {.arg = arg, .type = HG_CB_RESPOND, .ret = HG_SUCCESS};
        ci.info.respond.handle = h;
        queue_cb(h->cls, cb, ci);
    }
    return HG_SUCCESS;
}
hg_return_t HG_Get_input(hg_handle_t h, void *s) { struct rpcreg *r = findreg(h->cls, h->info.id); return r ? decode(r->in, s, h->in, h->inlen) : HG_NOENTRY; }
hg_return_t HG_Free_input(hg_handle_t h, void *s) { struct rpcreg *r = findreg(h->cls, h->info.id); return r ? pfree(r->in, s) : HG_NOENTRY; }
hg_return_t HG_Get_output(hg_handle_t h, void *s) { struct rpcreg *r = findreg(h->cls, h->info.id); return r ? decode(r->out, s, h->out, h->outlen) : HG_NOENTRY; }
hg_return_t HG_Free_output(hg_handle_t h, void *s) { struct rpcreg *r = findreg(h->cls, h->info.id); return r ? pfree(r->out, s) : HG_NOENTRY; }

static void docopy(struct bulkop *b)
{
    struct bdesc *d = b->op == HG_BULK_PUSH ? b->o : b->l, *s = b->op == HG_BULK_PUSH ? b->l : b->o;
    hg_size_t     doff = b->op == HG_BULK_PUSH ? b->oo : b->lo, soff = b->op == HG_BULK_PUSH ? b->lo : b->oo, n = b->n;
    int           di = 0, si = 0;
    while (di < d->n && doff >= d->s[di].z) doff -= d->s[di++].z;
    while (si < s->n && soff >= s->s[si].z) soff -= s->s[si++].z;
    while (n && di < d->n && si < s->n) {
        hg_size_t k = n;
        if (k > d->s[di].z - doff) k = d->s[di].z - doff;
        if (k > s->s[si].z - soff) k = s->s[si].z - soff;
        memmove(d->s[di].p + doff, s->s[si].p + soff, k);
        n -= k; doff += k; soff += k;
        while (di < d->n && doff >= d->s[di].z) doff -= d->s[di++].z;
        while (si < s->n && soff >= s->s[si].z) soff -= s->s[si++].z;
    }
}
hg_return_t HG_Bulk_create(hg_class_t *c, hg_uint32_t n, void **bufs, const hg_size_t *z, hg_uint8_t fl, hg_bulk_t *h)
{
    struct bdesc *d = calloc(1, sizeof *d);
    d->n = n; d->s = calloc(n ? n : 1, sizeof *d->s); d->ref = 1;
    for (unsigned i = 0; i < n; i++) {
        d->s[i].z = z[i];
        d->tot += z[i];
        if (z[i] > (1ull << 30)) return HG_NOMEM;
        if (!bufs || !bufs[i]) { d->s[i].p = calloc(1, z[i] ? z[i] : 1); d->s[i].own = 1; }
        else d->s[i].p = bufs[i];
    }
    *h = calloc(1, sizeof **h);
    (*h)->d = d; (*h)->ref = 1;
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_free(hg_bulk_t h) { if (!h) return HG_SUCCESS; 
    if (--h->ref == 0 && !h->remote) {
        struct bdesc *d = h->d;
        d->dead = 1;
        /* as Mercury does, buffers it allocated itself go away with the handle */
        for (int i = 0; i < d->n; i++) if (d->s[i].own) { memset(d->s[i].p, 0xdb, d->s[i].z); free(d->s[i].p); }
    }
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_ref_incr(hg_bulk_t h) { h->ref++; return HG_SUCCESS; }
hg_size_t HG_Bulk_get_size(hg_bulk_t h) { return h ? h->d->tot : 0; }
hg_uint32_t HG_Bulk_get_segment_count(hg_bulk_t h) { return h ? h->d->n : 0; }
hg_return_t HG_Bulk_access(hg_bulk_t h, hg_size_t off, hg_size_t size, hg_uint8_t fl, hg_uint32_t max, void **bufs, hg_size_t *zs, hg_uint32_t *actual)
{
    hg_uint32_t k = 0;
    for (int i = 0; i < h->d->n && k < max && size; i++) {
        if (off >= h->d->s[i].z) { off -= h->d->s[i].z; continue; }
        hg_size_t z = h->d->s[i].z - off;
        if (z > size) z = size;
        bufs[k] = h->d->s[i].p + off;
        if (zs) zs[k] = z;
        size -= z; off = 0; k++;
    }
    if (actual) *actual = k;
    return HG_SUCCESS;
}
hg_return_t HG_Bulk_transfer(hg_context_t *x, hg_cb_t cb, void *arg, hg_bulk_op_t op, hg_addr_t oa, hg_bulk_t o, hg_size_t oo, hg_bulk_t l, hg_size_t lo, hg_size_t n, hg_op_id_t *id)
{
    if (!o || !l) return HG_INVALID_ARG;
    if (oo + n > o->d->tot || lo + n > l->d->tot) return HG_INVALID_ARG;
    if (o->d->dead) ex_fail("rdma-after-free", "bulk transfer on a remote buffer whose owner already deregistered it");
    struct bulkop *b = calloc(1, sizeof *b);
    *b = (struct bulkop){op, o->d, l->d, oo, lo, n, o, l};
    if (!sim_bulk_late) docopy(b);
    struct hg_cb_info ci = {.arg = arg, .type = HG_CB_BULK, .ret = HG_SUCCESS};
    ci.info.bulk.origin_handle = o; ci.info.bulk.local_handle = l; ci.info.bulk.op = op; ci.info.bulk.size = n;
    push(&x->c->inbox, (struct ev){.kind = E_BULK, .src = oa ? oa->cls : -1, .b = b, .cb = cb, .ci = ci});
    return HG_SUCCESS;
}
static int hasev(void *p) { struct hg_class *c = p; return c->inbox || c->cq; }
static int deliver(struct hg_class *c)
{
    /* channels: (kind, source) FIFO; the receiver's progress picks the channel */
    struct ev *ch[64]; int n = 0;
    for (int late = 0; late <= sim_bulk_park; late++) for (struct ev *e = c->inbox; e; e = e->next) {
        int i;
        if (e->parked != late) continue;
        for (i = 0; i < n; i++) if (ch[i]->kind == e->kind && ch[i]->src == e->src && !(sim_bulk_park && e->kind == E_BULK)) break;
        if (i == n && n < 64) ch[n++] = e;
    }
    if (!n) return 0;
    int k = 0;
    if (n > 1 && sim_window) k = sim_deliver_choice == 2 ? ex_choose(n, "deliver") : sim_deliver_choice == 1 ? ex_deviate(n, "deliver") : 0;
    if (sim_bulk_park) for (int i = 0; i < k; i++) if (ch[i]->kind == E_BULK) ch[i]->parked = 1;
    struct ev *e = ch[k], **pp = &c->inbox;
    while (*pp != e) pp = &(*pp)->next;
    *pp = e->next;
    e->next = NULL;
    if (e->kind == E_BULK && sim_bulk_late) {
        if (e->b->o->dead) ex_fail("rdma-after-free", "bulk transfer in flight while the owner deregistered the buffer");
        docopy(e->b);
    }
    struct ev **q = &c->cq;
    while (*q) q = &(*q)->next;
    *q = e;
    return 1;
}
hg_return_t HG_Progress(hg_context_t *x, unsigned timeout)
{
    struct hg_class *c = x->c;
    if (c->cq) return HG_SUCCESS;
    if (!c->inbox) {
        if (timeout == 0) return HG_TIMEOUT;
        sim_wait(hasev, c, "HG_Progress");
    }
    else if (A[cur].kind == ACT_SERVER) {
        /* let everybody else make progress first so that every pending message is visible to the choice */
        int other = 0;
        for (int i = 0; i < na; i++) if (i != cur && A[i].kind == ACT_CLIENT && runnable(&A[i])) other = 1;
        if (other || (sim_sched_choice && sim_window)) { A[cur].state = A_BLOCK; A[cur].ready = hasev; A[cur].rarg = c; A[cur].why = "HG_Progress"; yield_to_sched(); }
    }
    if (c->cq) return HG_SUCCESS;
    return deliver(c) ? HG_SUCCESS : HG_TIMEOUT;
}
hg_return_t HG_Trigger(hg_context_t *x, unsigned timeout, unsigned max, unsigned *actual)
{
    struct hg_class *c = x->c;
    unsigned         n = 0;
    while (n < max && c->cq) {
        struct ev *e = c->cq;
        c->cq = e->next;
        n++;
        ex_beat();
        if (e->kind == E_RPC) {
            struct rpcreg *r = findreg(c, e->h->info.id);
            if (!r || !r->cb) ex_fail("no-handler", "RPC arrived for which the receiver has no handler");
            r->cb(e->h);
        }
        else if (e->kind == E_RESP) {
            struct hg_cb_info ci = {.arg = e->h->arg, .type = HG_CB_FORWARD, .ret = HG_SUCCESS};
            ci.info.forward.handle = e->h;
            e->h->inflight = 0;
            if (e->h->cb) e->h->cb(&ci);
        }
        else if (e->cb) e->cb(&e->ci);
        free(e);
    }
    if (actual) *actual = n;
    return n ? HG_SUCCESS : HG_TIMEOUT;
}
const char *HG_Error_to_string(hg_return_t r) { return "err"; }

/* ---------------------------------------------------------------- procs */
hg_proc_op_t hg_proc_get_op(hg_proc_t p) { return p->op; }
hg_return_t hg_proc_memcpy(hg_proc_t p, void *d, hg_size_t n)
{
    if (p->op == HG_FREE) return HG_SUCCESS;
    if (p->op == HG_ENCODE) {
        if (p->pos + n > p->size) { p->size = (p->pos + n) * 2 + 64; p->buf = realloc(p->buf, p->size); }
        memcpy(p->buf + p->pos, d, n);
    }
    else {
        if (p->pos + n > p->size) return HG_OVERFLOW;
        memcpy(d, p->buf + p->pos, n);
    }
    p->pos += n;
    return HG_SUCCESS;
}
static hg_return_t pstr(hg_proc_t p, char **s)
{
    uint64_t    l;
    hg_return_t r;
    if (p->op == HG_FREE) { free(*s); *s = NULL; return HG_SUCCESS; }
    if (p->op == HG_ENCODE) {
        l = *s ? strlen(*s) + 1 : 0;
        hg_proc_memcpy(p, &l, 8);
        return l ? hg_proc_memcpy(p, *s, l) : HG_SUCCESS;
    }
    if ((r = hg_proc_memcpy(p, &l, 8)) != HG_SUCCESS) return r;
    if (!l) { *s = NULL; return HG_SUCCESS; }
    if (l > p->size - p->pos) return HG_OVERFLOW;
    *s = malloc(l);
    return hg_proc_memcpy(p, *s, l);
}
hg_return_t hg_proc_hg_const_string_t(hg_proc_t p, void *d) { return pstr(p, d); }
hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d) { return pstr(p, d); }
hg_return_t hg_proc_hg_bulk_t(hg_proc_t p, void *d)
{
    hg_bulk_t    *b = d;
    struct bdesc *x;
    hg_return_t   r;
    switch (p->op) {
        case HG_ENCODE: x = *b ? (*b)->d : NULL; return hg_proc_memcpy(p, &x, sizeof x);
        case HG_DECODE:
            if ((r = hg_proc_memcpy(p, &x, sizeof x)) != HG_SUCCESS) return r;
            if (!x) { *b = HG_BULK_NULL; return HG_SUCCESS; }
            *b = calloc(1, sizeof **b);
            (*b)->d = x; (*b)->ref = 1; (*b)->remote = 1;
            return HG_SUCCESS;
        default: if (*b) { HG_Bulk_free(*b); *b = HG_BULK_NULL; } return HG_SUCCESS;
    }
}
