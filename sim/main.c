/* simrun server.so client.so [name=value ...]: run a client driver against real PDC servers under the simulator. */
#include "driver.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static const char   *srvso, *cliso;
static struct simcfg cfg = {1, 1, 1, 0, 1};
static void         *shared;
static int         (*srv_run[8][4])(int, char **);
static void        (*drv_main[8][4])(struct drv *);
static int           crashed, phase, crash_armed;
static char         *blob[2];
static size_t        bloblen[2];

static void *load(int which, const char *path)
{
    if (!blob[which]) {
        int fd = open(path, O_RDONLY);
        if (fd < 0) { perror(path); exit(2); }
        bloblen[which] = lseek(fd, 0, SEEK_END);
        blob[which]    = malloc(bloblen[which]);
        if (pread(fd, blob[which], bloblen[which], 0) != (ssize_t)bloblen[which]) exit(2);
        close(fd);
    }
    int m = memfd_create("so", 0);
    if (m < 0 || write(m, blob[which], bloblen[which]) != (ssize_t)bloblen[which]) { perror("memfd"); exit(2); }
    char p[64];
    snprintf(p, sizeof p, "/proc/self/fd/%d", m);
    void *h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!h) { dprintf(ex_outfd, "dlopen: %s\n", dlerror()); exit(2); }
    return h; /* m stays open so that the next copy gets another /proc/self/fd name */
}
struct sarg { int ph, r; };
static void server_main(void *a)
{
    struct sarg *s = a;
    char        *v[] = {"pdc_server", s->ph > 0 ? "restart" : NULL, NULL};
    srv_run[s->ph][s->r](s->ph > 0 ? 2 : 1, v);
}
static void client_main(void *a)
{
    struct drv *d = a;
    drv_main[d->phase][d->rank](d);
}
static int clients_of(int p) { const char *a = ex_param("apps", ""); return p < (int)strlen(a) ? a[p] - '0' : cfg.nclients; }
static void setup(void)
{
    setenv("PDC_TMPDIR", "/sim/tmp", 1);
    setenv("PDC_DATA_LOC", "/sim/data", 1);
    unsetenv("PDC_LOOKUP_ON_DEMAND");
    for (int p = 0; p < cfg.nphases; p++) {
        for (int r = 0; r < cfg.nservers; r++) {
            srv_run[p][r] = dlsym(load(0, srvso), "server_run");
            if (!srv_run[p][r]) { dprintf(ex_outfd, "no server_run\n"); exit(2); }
        }
        for (int r = 0; r < clients_of(p); r++) {
            void *h = load(1, cliso);
            drv_main[p][r] = dlsym(h, "driver_main");
        }
    }
    shared = mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
static int is_crashed(void *x) { return crashed; }
static int nclients_left(void);
static int clientids[8], serverids[8], cur_ncl;
/* same: bit p: phase p runs on the servers of phase p-1; apps=213: phases have 2, 1, 3 clients */
static int keep;
int sim_actor_done(int id);
static int nclients_left(void) { for (int i = 0; i < cur_ncl; i++) if (!sim_actor_done(clientids[i])) return 1; return 0; }
static int nservers_left(void) { for (int i = 0; i < cfg.nservers; i++) if (!sim_actor_done(serverids[i])) return 1; return 0; }
static int phase_over(void *x) { return is_crashed(x) || !nclients_left(); }
static int servers_over(void *x) { return is_crashed(x) || !nservers_left(); }
int  sim_crash_budget;
void sim_arm_crash(int on) { crash_armed = on; }
static void hook(const char *op, mnode *n, size_t off, const void *buf, size_t len)
{
    if (!crash_armed || crashed || sim_self() < 0) return;
    /* crash before this mutation, or (for writes) after a torn prefix of it */
    int k = ex_choose(len > 1 ? 3 : 2, "crash point");
    if (k == 0) return;
    ex_note("CRASH of all processes before %s %s off=%zu len=%zu%s", op, n->path, off, len, k == 2 ? " (half of it written)" : "");
    ex_nontrivial();
    if (k == 2) {
        void (*h)(const char *, mnode *, size_t, const void *, size_t) = memfs_hook;
        size_t half = len / 2;
        memfs_hook = NULL;
        memfs_put(n, off, buf, half);
        memfs_hook = h;
    }
    crashed = 1; crash_armed = 0;
    sim_wait(NULL, NULL, "crashed");
}
static void body(void)
{
    memfs_hook = hook;
    keep = ex_iparam("same", 0);
    for (phase = 0; phase < cfg.nphases; phase++) {
        int was = crashed;
        crashed = 0;
        int kept = phase && (keep >> phase & 1), ncl = clients_of(phase); /* kept: the next application on the same servers */
        if (phase && !kept) { sim_kill_all(); memfs_close_all(); memfs_heap_gone(); }
        int sw = kept ? -1 : sim_world(cfg.nservers), cw = sim_world(ncl);
        cur_ncl = ncl;
        for (int r = 0; r < cfg.nservers && !kept; r++) {
            struct sarg *s = malloc(sizeof *s);
            s->ph = phase; s->r = r;
            char nm[16]; snprintf(nm, sizeof nm, "server%d", r);
            serverids[r] = sim_spawn(nm, ACT_SERVER, sw, r, server_main, s);
        }
        sim_run_until(NULL, NULL); /* servers reach their event loop */
        if (!crashed) {
            for (int r = 0; r < ncl; r++) {
                struct drv *d = calloc(1, sizeof *d);
                *d = (struct drv){phase, r, ncl, cfg.nservers, shared, was, phase + 1 < cfg.nphases && (keep >> (phase + 1) & 1)};
                char nm[16]; snprintf(nm, sizeof nm, "client%d", r);
                clientids[r] = sim_spawn(nm, ACT_CLIENT, cw, r, client_main, d);
            }
            sim_run_until(phase_over, NULL);
            if (!crashed && nclients_left()) sim_run(); /* reports the hang */
            if (!crashed && cfg.clean_close && !(keep >> (phase + 1) & 1)) {
                sim_run_until(servers_over, NULL);
                if (sim_exited) ex_fail("exit", "the code under test called exit(%d)", sim_exited - 1);
                if (!crashed && nservers_left() && phase + 1 < cfg.nphases) ex_fail("server-hang", "a server did not terminate after close");
            }
        }
    }
    ex_done();
}
const char *__asan_default_options(void) { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0"; }
int main(int argc, char **argv)
{
    extern void ex_args(int, char **);
    if (argc < 3) return 2;
    srvso = argv[1]; cliso = argv[2];
    for (int i = 3; i < argc; i++) /* env:NAME=VALUE */
        if (!strncmp(argv[i], "env:", 4) && strchr(argv[i], '=')) {
            char *e = strdup(argv[i] + 4), *q = strchr(e, '=');
            *q = 0;
            setenv(e, q + 1, 1);
        }
    ex_args(argc, argv);
    void *h = dlopen(cliso, RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void (*dc)(struct simcfg *) = dlsym(h, "driver_config");
    if (!dc) return 2;
    dc(&cfg);
    dlclose(h);
    sim_sched_choice   = ex_iparam("sched", 0);
    sim_deliver_choice = ex_iparam("deliver", 0);
    sim_preempt_choice = ex_iparam("preempt", 0); sim_preempt_io = ex_iparam("preio", 1); sim_preempt_free = ex_iparam("prefree", 0);
    sim_bulk_park      = ex_iparam("bulkpark", 0);
    sim_bulk_late      = ex_iparam("bulklate", 1);
    return ex_main(argc, argv, EX_FORK, cliso, setup, body);
}
