#include "explore.h"
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <sched.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXCH   4096
#define MAXVIOL 96
#define HSLOTS  (1u << 22)
#define NOTELEN 6000

struct viol { char key[200]; char msg[1200]; char notes[NOTELEN]; int nch; int cost; unsigned short ch[MAXCH]; unsigned hits; };
struct shm {
    volatile uint64_t execs, choices, steps, cuts, nontrivial, pruned, states, stateovf, maxdepth, outcomes;
    volatile int      tokens, nviol, vlock, nsample, stop, diverged;
    struct viol       v[MAXVIOL];
    char              sample[8][1500];
    volatile uint64_t hs[HSLOTS];
};
static struct shm *S;
static unsigned short ch[MAXCH], rep[MAXCH], wid[MAXCH];
static int            nch, nrep, cost, budget = 1 << 30, engine, isroot = 1, replay_only, nodev;
static char           notes[NOTELEN];
static int            nnotes, nontriv;
static const char    *harness;
static char         **gargv;
static int            gargc, jobs = 8;
static double         cpu_limit = 20;
static jmp_buf        loopjmp;
static int            inloop, haveconc, worker, nworkers;
static long           maxexec;
static struct timespec t0;
static double         tlimit;
int                   ex_outfd = 1;

static void lock(volatile int *l) { while (__sync_lock_test_and_set(l, 1)) sched_yield(); }
static void unlock(volatile int *l) { __sync_lock_release(l); }
uint64_t ex_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}
uint64_t ex_hash_s(uint64_t h, const char *s) { return ex_hash(h, s, strlen(s) + 1); }
int ex_replaying(void) { return replay_only; }
const char *ex_param(const char *name, const char *dflt)
{
    size_t l = strlen(name);
    for (int i = 1; i < gargc; i++)
        if (!strncmp(gargv[i], name, l) && gargv[i][l] == '=')
            return gargv[i] + l + 1;
    return dflt;
}
long ex_iparam(const char *name, long d) { const char *s = ex_param(name, NULL); return s ? atol(s) : d; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9; }
void ex_beat(void)
{
    struct itimerval it = {{0, 0}, {(long)cpu_limit, 0}};
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}
void ex_note(const char *fmt, ...)
{
    va_list ap;
    if (nnotes > NOTELEN - 300) {
        if (nnotes < NOTELEN - 40) { strcpy(notes + nnotes, "...\n"); nnotes = NOTELEN - 40; }
        return;
    }
    va_start(ap, fmt);
    int k = vsnprintf(notes + nnotes, 250, fmt, ap);
    va_end(ap);
    if (k > 249) k = 249;
    nnotes += k;
    notes[nnotes++] = '\n';
    notes[nnotes]   = 0;
}
void ex_state(uint64_t h)
{
    if (!h) h = 1;
    unsigned i = (unsigned)(h ^ (h >> 32)) & (HSLOTS - 1);
    if (S->states > HSLOTS * 3ull / 4) { S->stateovf = 1; return; }
    for (;;) {
        uint64_t c = S->hs[i];
        if (c == h) return;
        if (!c) {
            if (__sync_bool_compare_and_swap(&S->hs[i], 0, h)) { __sync_fetch_and_add(&S->states, 1); return; }
            continue;
        }
        i = (i + 1) & (HSLOTS - 1);
    }
}
void ex_step(void) { __sync_fetch_and_add(&S->steps, 1); }
void ex_nontrivial(void) { nontriv = 1; }

static void finish_exec(void)
{
    __sync_fetch_and_add(&S->execs, 1);
    if (nontriv) __sync_fetch_and_add(&S->nontrivial, 1);
    if ((uint64_t)nch > S->maxdepth) S->maxdepth = nch;
    if (S->nsample < 8 && nnotes) {
        lock(&S->vlock);
        /* sample executions 1,2,4,8,.. so that the samples are not all the first subtree */
        uint64_t e = S->execs;
        if (S->nsample < 8 && (e >> (S->nsample * 3)) >= 1) { snprintf(S->sample[S->nsample++], sizeof S->sample[0], "%s", notes); }
        unlock(&S->vlock);
    }
}
static void leave(int code)
{
    if (engine == EX_FORK) {
        while (haveconc > 0) { if (wait(NULL) < 0 && errno == ECHILD) break; haveconc--; }
        if (!isroot) { /* give back the token if we own one */ }
        _exit(code);
    }
    longjmp(loopjmp, 1);
}
static void record(const char *key, const char *msg)
{
    lock(&S->vlock);
    int i;
    for (i = 0; i < S->nviol; i++)
        if (!strcmp(S->v[i].key, key)) break;
    if (i < MAXVIOL) {
        struct viol *v = &S->v[i];
        /* keep the shortest witness per key */
        if (i == S->nviol || cost < v->cost || (cost == v->cost && nch < v->nch)) {
            unsigned h = i == S->nviol ? 0 : v->hits;
            snprintf(v->key, sizeof v->key, "%s", key);
            snprintf(v->msg, sizeof v->msg, "%s", msg);
            memcpy(v->notes, notes, nnotes); v->notes[nnotes] = 0;
            v->nch = nch; v->cost = cost; memcpy(v->ch, ch, sizeof(ch[0]) * nch);
            v->hits = h;
        }
        v->hits++;
        if (i == S->nviol) S->nviol++;
    }
    unlock(&S->vlock);
}
void ex_fail(const char *key, const char *fmt, ...)
{
    char    m[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    record(key, m);
    nontriv = 1;
    finish_exec();
    leave(0);
    abort();
}
void ex_cut(void) { __sync_fetch_and_add(&S->cuts, 1); finish_exec(); leave(0); abort(); }
void ex_done(void) { finish_exec(); leave(0); abort(); }

/* AddressSanitizer: keep the kind of error and the innermost frames for the report */
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static char asan_kind[64], asan_msg[1000];
static void asan_report(const char *r)
{
    const char *p = strstr(r, "AddressSanitizer: ");
    size_t      n = 0;
    if (!p) return;
    p += 18;
    while (p[n] && p[n] != ' ' && p[n] != '\n' && n < sizeof asan_kind - 1) n++;
    snprintf(asan_kind, sizeof asan_kind, "%.*s", (int)n, p);
    n = snprintf(asan_msg, sizeof asan_msg, "AddressSanitizer: %s", asan_kind);
    for (int f = 0, shown = 0; f < 12 && shown < 5 && (p = strstr(p, " in ")); f++) {
        int l = strcspn(p, "\n(");
        if (strstr(p, "interceptors") && strstr(p, "interceptors") < p + l) { p += 4; continue; }
        n += snprintf(asan_msg + n, n < sizeof asan_msg ? sizeof asan_msg - n : 0, "%.*s", l < 140 ? l : 140, p);
        if (n >= sizeof asan_msg) break;
        shown++;
        p += 4;
    }
}
static void onsig(int sig)
{
    char k[80];
    signal(sig, SIG_DFL);
    if (ex_iparam("verbose", 0)) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
    if (sig == SIGVTALRM) {
        record("cpu-hang", "no progress: CPU time limit of the execution exceeded (endless loop)");
        ex_note("(killed: CPU limit)");
    }
    else if (asan_kind[0]) {
        snprintf(k, sizeof k, "asan-%s", asan_kind);
        record(k, asan_msg);
    }
    else {
        snprintf(k, sizeof k, "crash-signal-%d", sig);
        record(k, sig == SIGABRT ? "abort() in the code under test" : "memory fault / fatal signal in the code under test");
    }
    __sync_fetch_and_add(&S->execs, 1);
    if (engine == EX_LOOP) S->stop |= 2; /* this worker's remaining subtree is not explored */
    while (haveconc > 0) { if (wait(NULL) < 0) break; haveconc--; }
    _exit(9);
}
static void sigs(void)
{
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_report);
    static char st[1 << 16];
    stack_t     ss = {.ss_sp = st, .ss_size = sizeof st};
    sigaltstack(&ss, NULL);
    int s[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM};
    for (unsigned i = 0; i < sizeof s / sizeof *s; i++) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = onsig;
        sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
        sigaction(s[i], &sa, NULL);
    }
    ex_beat();
}

/* a child that neither finished its executions nor reported a crash (alternative a of this choice point) */
static void reap(int st, int a, int n, int costs)
{
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 9)) return;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { S->stop |= 4; return; } /* out of memory: no answer */
    wid[nch] = n; ch[nch++] = a; cost += costs;
    record("abnormal-exit", "the process under test ended on its own");
    __sync_fetch_and_add(&S->execs, 1);
    nch--; cost -= costs;
}

static int choose(int n, const char *label, int costs)
{
    if (n <= 1) return 0;
    if (nch >= MAXCH) { record("explorer-depth", "too many choice points"); leave(0); }
    __sync_fetch_and_add(&S->choices, 1);
    ex_beat();
    int c = 0;
    if (nch < nrep) {
        c = rep[nch];
        if (c >= n) { S->diverged = 1; record("replay-diverged", label); leave(0); }
        wid[nch]  = costs && !c && cost >= budget ? 1 : n;
        if (costs && c) cost++;
        ch[nch++] = c;
        return c;
    }
    if (replay_only) { wid[nch] = n; ch[nch++] = 0; return 0; }
    int eff = n;
    if (costs && cost >= budget) { eff = 1; __sync_fetch_and_add(&S->pruned, n - 1); }
    if (engine == EX_LOOP) {
        wid[nch]  = eff;
        ch[nch++] = 0;
        return 0;
    }
    if (tlimit > 0 && now() > tlimit) { S->stop |= 1; eff = 1; }
    for (int a = eff - 1; a >= 1; a--) {
        fflush(stdout); fflush(stderr);
        int tok  = __sync_fetch_and_sub(&S->tokens, 1);
        int conc = tok > 0;
        if (!conc) __sync_fetch_and_add(&S->tokens, 1);
        pid_t p = fork();
        if (p < 0) { /* out of processes: wait and retry */
            if (conc) __sync_fetch_and_add(&S->tokens, 1);
            usleep(20000);
            a++;
            continue;
        }
        if (p == 0) {
            isroot   = 0;
            haveconc = 0;
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            /* a concurrent child owns a token: hand it back when it (and its subtree) ends */
            if (conc) {
                pid_t q = fork();
                if (q != 0) {
                    int st;
                    if (q > 0) { while (waitpid(q, &st, 0) < 0 && errno == EINTR) ; reap(st, a, n, costs); }
                    __sync_fetch_and_add(&S->tokens, 1);
                    _exit(0);
                }
                prctl(PR_SET_PDEATHSIG, SIGKILL);
            }
            ex_beat();
            if (costs) cost++;
            wid[nch]  = n;
            ch[nch++] = a;
            return a;
        }
        if (conc) haveconc++;
        else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ; reap(st, a, n, costs); }
        ex_beat();
    }
    wid[nch]  = n;
    ch[nch++] = 0;
    return c;
}
int ex_choose(int n, const char *label) { return choose(n, label, 0); }
int ex_deviate(int n, const char *label) { return nodev ? 0 : choose(n, label, 1); }

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void reset_exec(void) { nch = 0; cost = 0; nnotes = 0; notes[0] = 0; nontriv = 0; }

static void loop_worker(void (*body)(void), int w, int nw)
{
    /* Partition: a worker runs the leaves whose (first two choices) index is congruent to w. */
    sigs();
    int done = 0;
    while (!done) {
        reset_exec();
        int skip = 0;
        if (setjmp(loopjmp) == 0) {
            inloop = 1;
            body();
            finish_exec();
        }
        if (tlimit > 0 && now() > tlimit) { S->stop |= 1; break; }
        (void)skip;
        /* odometer */
        int i = nch - 1;
        while (i >= 0) {
            if (ch[i] + 1 < wid[i]) break;
            i--;
        }
        if (i < 0) { done = 1; break; }
        memcpy(rep, ch, sizeof(ch[0]) * (i + 1));
        rep[i]++;
        nrep = i + 1;
    }
    (void)w; (void)nw; (void)inloop; (void)worker; (void)nworkers; (void)maxexec;
}
/* EX_LOOP in parallel: enumerate prefixes up to depth d sequentially, run each prefix's subtree in a child. */
static unsigned short floorlen;
static void loop_subtree(void (*body)(void), int plen)
{
    sigs();
    nrep = plen;
    for (;;) {
        reset_exec();
        if (setjmp(loopjmp) == 0) { body(); finish_exec(); }
        if (tlimit > 0 && now() > tlimit) { S->stop |= 1; break; }
        if (S->diverged) break;
        int i = nch - 1;
        while (i >= plen && ch[i] + 1 >= wid[i]) i--;
        if (i < plen) break;
        memcpy(rep, ch, sizeof(ch[0]) * (i + 1));
        rep[i]++;
        nrep = i + 1;
    }
}
static jmp_buf probejmp;
static int     probing, probe_depth;
static void loop_parallel(void (*body)(void))
{
    /* find all prefixes of length <= D by probing the body in children-safe manner: we only need the widths,
       which we learn by running the body with the prefix and default answers (counted once by the subtree run). */
    int D = (int)ex_iparam("split", 2);
    typedef struct { unsigned short c[8]; int n; } pf;
    pf  *q = malloc(sizeof(pf) * 200000);
    int  nq = 0, head = 0;
    memset(&q[nq++], 0, sizeof(pf));
    /* widths are probed in a child that reports through a pipe */
    while (head < nq) {
        if (q[head].n >= D) break;
        pf  p = q[head];
        int fd[2];
        if (pipe(fd)) exit(2);
        pid_t c = fork();
        if (c == 0) {
            close(fd[0]);
            uint64_t e0 = 0; (void)e0;
            static struct shm *priv;
            priv = mmap(NULL, sizeof *priv, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            S = priv; /* probe results do not count */
            sigs();
            nrep = p.n;
            memcpy(rep, p.c, sizeof(rep[0]) * p.n);
            reset_exec();
            if (setjmp(loopjmp) == 0) body();
            unsigned short w = nch > p.n ? wid[p.n] : 0;
            if (write(fd[1], &w, 2) != 2) _exit(1);
            _exit(0);
        }
        close(fd[1]);
        unsigned short w = 0;
        if (read(fd[0], &w, 2) != 2) w = 0;
        close(fd[0]);
        waitpid(c, NULL, 0);
        if (w == 0) { /* leaf (or crash while probing): keep as its own subtree at the end of the queue */
            pf t = p; t.n |= 0x100;
            if (nq < 200000) q[nq++] = t;
            head++;
            if (t.n & 0x100) { /* mark leaf */ }
            /* leaf prefixes must not be expanded again */
            while (head < nq && (q[head].n & 0x100)) head++;
            continue;
        }
        for (int a = 0; a < w; a++) {
            pf t = p; t.c[t.n++] = a;
            if (nq < 200000) q[nq++] = t;
        }
        head++;
        while (head < nq && (q[head].n & 0x100)) head++;
    }
    /* run: entries with n==D, or leaf-marked */
    int live = 0;
    for (int i = 0; i < nq; i++) {
        int n = q[i].n & 0xff, leaf = q[i].n & 0x100;
        if (!leaf && n < D) continue;
        while (live >= jobs) { wait(NULL); live--; }
        if (S->stop & 1) break;
        fflush(stdout); fflush(stderr);
        pid_t c = fork();
        if (c == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            memcpy(rep, q[i].c, sizeof(rep[0]) * n);
            loop_subtree(body, n);
            _exit(0);
        }
        live++;
    }
    while (live-- > 0) wait(NULL);
    (void)floorlen; (void)probejmp; (void)probing; (void)probe_depth; (void)loop_worker;
    free(q);
}

static int run_one(void (*body)(void), const unsigned short *c, int n)
{
    memcpy(rep, c, sizeof(rep[0]) * n);
    nrep        = n;
    replay_only = 1;
    pid_t p     = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        sigs();
        cpu_limit *= 3;
        reset_exec();
        if (engine == EX_LOOP) { if (setjmp(loopjmp) == 0) { body(); finish_exec(); } _exit(0); }
        body();
        ex_done();
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    replay_only = 0;
    return st;
}

void ex_args(int argc, char **argv) { gargc = argc; gargv = argv; }
int ex_main(int argc, char **argv, int eng, const char *name, void (*setup)(void), void (*body)(void))
{
    clock_gettime(CLOCK_MONOTONIC, &t0);
    gargc = argc; gargv = argv; engine = eng; harness = name;
    jobs      = (int)ex_iparam("jobs", 8);
    budget    = (int)ex_iparam("budget", 1 << 30);
    tlimit    = (double)ex_iparam("tlimit", 0);
    cpu_limit = (double)ex_iparam("cpu", 20);
    nodev     = budget == 0;
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    { /* an execution that eats memory fails like one that crashes, and does not take the machine with it */
        long a, b, c, d, e, data = 0;
        FILE *sm = fopen("/proc/self/statm", "r");
        if (sm) { if (fscanf(sm, "%ld %ld %ld %ld %ld %ld", &a, &b, &c, &d, &e, &data) != 6) data = 0; fclose(sm); }
        struct rlimit rl = {0, 0};
        rl.rlim_cur = rl.rlim_max = (rlim_t)data * sysconf(_SC_PAGESIZE) + ((rlim_t)ex_iparam("mem", 2500) << 20);
        setrlimit(RLIMIT_DATA, &rl);
    }
    S->tokens = jobs - 1;
    const char *rf = ex_param("replay", NULL), *of = ex_param("out", NULL);
    ex_outfd = dup(1);
    if (ex_iparam("verbose", 0) == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
    }
    FILE *out = of ? fopen(of, "w") : fdopen(dup(ex_outfd), "w");
    if (!out) return 2;
    static unsigned short rc[MAXCH];
    int                   rn = 0;
    char                  line[256];
    if (rf) {
        FILE *f = fopen(rf, "r");
        if (!f) { dprintf(ex_outfd, "cannot open replay file %s\n", rf); return 2; }
        static char lb[1 << 16];
        while (fgets(lb, sizeof lb, f)) {
            if (!strncmp(lb, "choices:", 8)) {
                char *p = lb + 8, *e;
                for (;;) { long v = strtol(p, &e, 10); if (e == p) break; rc[rn++] = v; p = e; }
            }
        }
        fclose(f);
    }
    (void)line;
    if (setup) setup();
    if (ex_iparam("debug", 0)) { /* one execution in this process, no handlers: for gdb */
        memcpy(rep, rc, sizeof(rep[0]) * rn);
        nrep = rn; replay_only = 1; isroot = 0;
        body();
        return 0;
    }
    if (rf) {
        run_one(body, rc, rn);
    }
    else if (engine == EX_LOOP) loop_parallel(body);
    else {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sigs();
            reset_exec();
            body();
            ex_done();
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
        reap(st, 0, 0, 0);
        if (!S->execs) S->stop |= 4;
    }
    double wall = now();
    /* confirm every violation by replaying its schedule in a fresh process, twice */
    int nv = S->nviol;
    fprintf(out, "{\"harness\":");
    jstr(out, name);
    fprintf(out, ",\"executions\":%llu,\"choice_points\":%llu,\"transitions\":%llu,\"states\":%llu,\"state_table_full\":%d,"
                 "\"horizon_cuts\":%llu,\"nontrivial\":%llu,\"pruned_by_budget\":%llu,\"max_choices\":%llu,\"time_capped\":%d,\"error\":%d,\"wall_s\":%.2f,",
            (unsigned long long)S->execs, (unsigned long long)S->choices, (unsigned long long)S->steps, (unsigned long long)S->states,
            (int)S->stateovf, (unsigned long long)S->cuts, (unsigned long long)S->nontrivial, (unsigned long long)S->pruned,
            (unsigned long long)S->maxdepth, S->stop & 1, (S->stop & 4) || S->diverged, wall);
    fprintf(out, "\"samples\":[");
    for (int i = 0; i < S->nsample; i++) { if (i) fputc(',', out); jstr(out, S->sample[i]); }
    fprintf(out, "],\"violations\":[");
    struct viol *cp = malloc(sizeof(struct viol) * (nv ? nv : 1));
    memcpy(cp, S->v, sizeof(struct viol) * nv);
    for (int i = 0; i < nv; i++) {
        struct viol *v = &cp[i];
        int          confirmed = 0;
        if (rf) confirmed = 2;
        else
            for (int k = 0; k < 2; k++) {
                S->nviol = 0;
                S->diverged = 0;
                run_one(body, v->ch, v->nch);
                if (S->nviol && !strcmp(S->v[0].key, v->key)) confirmed++;
            }
        fprintf(out, "%s{\"key\":", i ? "," : "");
        jstr(out, v->key);
        fprintf(out, ",\"message\":");
        jstr(out, v->msg);
        fprintf(out, ",\"history\":");
        jstr(out, v->notes);
        fprintf(out, ",\"hits\":%u,\"deviations\":%d,\"confirmed\":%d,\"choices\":[", v->hits, v->cost, confirmed);
        for (int j = 0; j < v->nch; j++) fprintf(out, "%s%d", j ? "," : "", v->ch[j]);
        fprintf(out, "]}");
    }
    fprintf(out, "]}\n");
    fclose(out);
    return 0;
}
__attribute__((weak)) const char *__asan_default_options(void) { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0"; }
