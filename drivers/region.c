/* Region transfers against a per-cell register oracle.
 *
 * Every value written is unique per (write, cell).  The oracle keeps every write with its start/end event numbers; a read of
 * cell c over [s,e] may return write w iff w started before e and no other write to c both began after w ended and
 * ended before s (regular multi-writer register).  A cell with no completed write before s may also hold anything.
 *
 * mode=seq   : one client; op sequence of depth `depth`, each op write/read region r (start+wait), or advance the clock
 * mode=async : one client; ops start-write/start-read (up to `maxo` outstanding)/wait/status/wait_all
 * mode=multi : each client performs `depth` chosen ops without synchronisation (schedules explored by the simulator)
 */
#include "drvutil.h"
#include "pdc_interface.h"

struct wr { int obj, nd; uint64_t off[3], sz[3]; long start, end; };
#define NW 400
struct oracle { long clock; int n; struct wr w[NW]; };
static struct oracle *O;
static int nd, unit, ndone;
static uint64_t D[3] = {1, 1, 1};  /* the window of the object in which regions lie */
static uint64_t B[3], X[3] = {1, 1, 1}, DD[3]; /* where it starts, factor of region offsets (x0=..); dimensions of the object */
static pdc_var_type_t T;
static pdcid_t pdc, cont, obj[4];
static int nobj, me;

/* with a factor of offsets, regions are at multiples of X and shorter than it */
static uint64_t pos(int i, uint64_t x) { return X[i] > 1 ? (x - B[i]) / X[i] * D[i] + (x - B[i]) % X[i] : x - B[i]; }
static uint64_t ext(int i) { return X[i] > 1 ? D[i] * D[i] : D[i]; }
static uint64_t cellno(const uint64_t *x) { return (pos(0, x[0]) * ext(1) + pos(1, x[1])) * ext(2) + pos(2, x[2]); }
static uint64_t ncells(void) { return ext(0) * ext(1) * ext(2); }
static uint64_t val(int w, uint64_t cell) { return ((uint64_t)w * (ncells() | 1) + cell + 1) & (unit == 8 ? ~0ul : (1ul << 8 * unit) - 1); }
/* all hyper-rectangles */
static int nreg; static struct { uint64_t off[3], sz[3]; } R[513];
static void regions(void)
{
    long step = ex_iparam("step", 1), lim = ex_iparam("nreg", 512);
    uint64_t o[3], s[3], S[3] = {ex_iparam("s0", 1), ex_iparam("s1", 1), ex_iparam("s2", 1)};
    for (s[0] = D[0]; s[0] >= 1; s[0] -= 1) for (s[1] = D[1]; s[1] >= 1; s[1]--) for (s[2] = D[2]; s[2] >= 1; s[2]--)
        for (o[0] = 0; o[0] + s[0] <= D[0]; o[0] += step) for (o[1] = 0; o[1] + s[1] <= D[1]; o[1]++) for (o[2] = 0; o[2] + s[2] <= D[2]; o[2]++)
            if (nreg < lim) { memcpy(R[nreg].off, o, sizeof o); memcpy(R[nreg].sz, s, sizeof s); nreg++; }
    static const char *bn[] = {"b0", "b1", "b2"}, *tn[] = {"t0", "t1", "t2"}, *xn[] = {"x0", "x1", "x2"};
    for (int i = 0; i < nd; i++) { D[i] *= S[i]; B[i] = ex_iparam(bn[i], 0); X[i] = ex_iparam(xn[i], 1); DD[i] = B[i] + (X[i] > 1 ? X[i] * (D[i] - 1) : 0) + D[i] + ex_iparam(tn[i], 0); }
    for (int r = 0; r < nreg; r++) for (int i = 0; i < 3; i++) { R[r].off[i] = R[r].off[i] * S[i] * X[i] + B[i]; R[r].sz[i] *= S[i]; }
}
static const char *rs(int r)
{
    static char b[4][96]; static int k; char *p = b[k++ & 3]; int n = 0;
    for (int i = 0; i < nd; i++) n += sprintf(p + n, "%s%lu+%lu", i ? "," : "", R[r].off[i], R[r].sz[i]);
    return p;
}
static uint64_t vol(int r) { return R[r].sz[0] * R[r].sz[1] * R[r].sz[2]; }
struct op { int write, r, o, wid, flat; long start; pdcid_t id, lr, rr; unsigned char *buf, *snap; size_t len; int shift; };
#define GUARD 32
static void fillbuf(struct op *p)
{
    size_t lead = (size_t)p->shift * unit;
    if (p->write) {
        uint64_t k = 0, x[3];
        for (x[0] = 0; x[0] < R[p->r].sz[0]; x[0]++) for (x[1] = 0; x[1] < R[p->r].sz[1]; x[1]++) for (x[2] = 0; x[2] < R[p->r].sz[2]; x[2]++, k++) {
            uint64_t y[3] = {x[0] + R[p->r].off[0], x[1] + R[p->r].off[1], x[2] + R[p->r].off[2]}, v = val(p->wid, cellno(y));
            memcpy(p->buf + GUARD + lead + k * unit, &v, unit);
        }
    }
}
static void prep(struct op *p)
{
    uint64_t z[3] = {0, 0, 0}, fl[1] = {vol(p->r)};
    size_t lead = (size_t)p->shift * unit;
    p->len = GUARD + lead + vol(p->r) * unit + GUARD;
    p->buf = malloc(p->len); p->snap = malloc(p->len);
    memset(p->buf, 0xA5, p->len);
    fillbuf(p);
    memcpy(p->snap, p->buf, p->len);
    uint64_t lo[1] = {p->shift};
    if (p->flat || nd == 1) p->lr = PDCregion_create(1, nd == 1 || p->flat ? lo : z, fl);
    else p->lr = PDCregion_create(nd, z, R[p->r].sz);
    p->rr = PDCregion_create(nd, R[p->r].off, R[p->r].sz);
    p->id = PDCregion_transfer_create(p->buf + GUARD, p->write ? PDC_WRITE : PDC_READ, obj[p->o], p->lr, p->rr);
    if (!p->id) ex_fail("create", "transfer_create failed");
}
static void record(struct op *p)
{
    p->start = ++O->clock;
    if (p->write) {
        p->wid = O->n;
        if (O->n >= NW) ex_fail("harness", "too many writes");
        struct wr *w = &O->w[O->n++];
        w->obj = p->o; w->start = p->start; w->end = 0; w->nd = nd;
        memcpy(w->off, R[p->r].off, sizeof w->off); memcpy(w->sz, R[p->r].sz, sizeof w->sz);
    }
}
static void begin(struct op *p)
{
    record(p);
    prep(p);
}
static int covers(struct wr *w, const uint64_t *x)
{
    for (int i = 0; i < 3; i++) if (x[i] < w->off[i] || x[i] >= w->off[i] + w->sz[i]) return 0;
    return 1;
}
static void arrived(struct op *p)
{
    long e = ++O->clock;
    size_t lead = (size_t)p->shift * unit;
    if (p->write) {
        if (!O->w[p->wid].end) O->w[p->wid].end = e;
        if (memcmp(p->buf, p->snap, p->len)) ex_fail("user-buffer", "a write transfer changed the user's buffer (%s)", rs(p->r));
    }
    else {
        if (memcmp(p->buf, p->snap, GUARD + lead) || memcmp(p->buf + p->len - GUARD, p->snap + p->len - GUARD, GUARD))
            ex_fail("read-overrun", "reading region %s wrote outside the local region of the user's buffer", rs(p->r));
        uint64_t k = 0, x[3], h = 7;
        for (x[0] = 0; x[0] < R[p->r].sz[0]; x[0]++) for (x[1] = 0; x[1] < R[p->r].sz[1]; x[1]++) for (x[2] = 0; x[2] < R[p->r].sz[2]; x[2]++, k++) {
            uint64_t y[3] = {x[0] + R[p->r].off[0], x[1] + R[p->r].off[1], x[2] + R[p->r].off[2]}, v = 0;
            memcpy(&v, p->buf + GUARD + lead + k * unit, unit);
            int settled = 0, okv = 0, last = -1, safe = ex_iparam("safe", 0);
            for (int a = 0; a < O->n; a++) {
                struct wr *w = &O->w[a];
                if (w->obj != p->o || !covers(w, y)) continue;
                if (w->end && w->end < p->start) { settled = 1; last = a; }
                if (safe && w->start < e && (!w->end || w->end > p->start)) okv = 1; /* written while it is read: any value */
                if (w->start > e || v != val(a, cellno(y))) continue;
                int dead = 0;
                for (int b = 0; b < O->n && w->end; b++) {
                    struct wr *w2 = &O->w[b];
                    if (w2->obj == p->o && covers(w2, y) && w2->start > w->end && w2->end && w2->end < p->start) dead = 1;
                }
                if (!dead) okv = 1;
            }
            if (settled && !okv) {
                int wv = v ? (int)((v - 1) / (ncells() | 1)) : -1, cv = v ? (int)((v - 1) % (ncells() | 1)) : -1;
                ex_fail("stale-read", "client %d read object %d region %s: cell (%lu,%lu,%lu) is %lu (= write #%d of cell %d), but write #%d had completed before",
                        me, p->o, rs(p->r), y[0], y[1], y[2], v, wv, cv, last);
            }
            if (settled) { ex_nontrivial(); h = ex_hash(h, &v, sizeof v); }
        }
        ex_state(h);
    }
}
/* objects with POSIX consistency: starting a transfer includes waiting for it */
static void started(struct op *p) { if (ex_iparam("posix", 0)) arrived(p); }
static void finish(struct op *p)
{
    arrived(p);
    for (int u = 0; u < ex_iparam("reuse", 0); u++) { /* the same transfer once more, of other data */
        record(p);
        if (p->write) fillbuf(p); else memset(p->buf + GUARD, 0x5c + u, p->len - 2 * GUARD);
        memcpy(p->snap, p->buf, p->len);
        ex_note("use the %s %s once more", p->write ? "write" : "read", rs(p->r));
        if (u & 1 ? PDCregion_transfer_start_all(&p->id, 1) < 0 : PDCregion_transfer_start(p->id) < 0) ex_fail("start-again", "a finished transfer cannot be started again");
        if (u & 1 ? PDCregion_transfer_wait_all(&p->id, 1) < 0 : PDCregion_transfer_wait(p->id) < 0) ex_fail("wait-again", "waiting for a transfer started again fails");
        arrived(p);
    }
    if (PDCregion_transfer_close(p->id) < 0) ex_fail("close", "transfer_close failed");
    if (PDC_find_id(p->id)) ex_fail("handle-leak", "a transfer request is still registered after it was closed");
    PDCregion_close(p->lr); PDCregion_close(p->rr);
    free(p->buf); free(p->snap);
    ex_step();
}
static void run1(int write, int r, int o, int all, int flat, int shift)
{
    struct op p = {.write = write, .r = r, .o = o, .flat = flat, .shift = shift};
    begin(&p);
    if (all) {
        if (PDCregion_transfer_start_all(&p.id, 1) < 0) ex_fail("start", "start_all failed for %s %s", write ? "write" : "read", rs(r));
        if (PDCregion_transfer_wait_all(&p.id, 1) < 0) ex_fail("wait", "wait_all failed for %s %s", write ? "write" : "read", rs(r));
    }
    else {
        if (PDCregion_transfer_start(p.id) < 0) ex_fail("start", "start failed for %s %s", write ? "write" : "read", rs(r));
        if (PDCregion_transfer_wait(p.id) < 0) ex_fail("wait", "wait failed for %s %s", write ? "write" : "read", rs(r));
    }
    finish(&p);
}
/* ask the servers to write one object, or all, to storage: changes nothing a client can see */
static void flush_op(int o)
{
    if (o < nobj) { ex_note("client %d: flush object %d", me, o); if (PDCobj_flush_start(obj[o]) < 0) ex_fail("flush", "flush of object %d failed", o); }
    else { ex_note("client %d: flush all", me); if (PDCobj_flush_all_start() < 0) ex_fail("flush", "flush of all objects failed"); }
    ex_step();
}
static void opens(struct drv *d, int create)
{
    pdc = PDCinit("pdc");
    char nm[16];
    int col = ex_iparam("col", 0), root = ex_iparam("root", 0), maker = ex_iparam("maker", 0) % d->nclients; /* col: every client takes part in the creation */
    if (create && (d->rank == maker || col)) {
        pdcid_t cp = PDCprop_create(PDC_CONT_CREATE, pdc), op = PDCprop_create(PDC_OBJ_CREATE, pdc);
        cont = col ? PDCcont_create_col("c", cp) : PDCcont_create("c", cp);
        if (!cont) ex_fail("create", "container creation failed");
        PDCprop_set_obj_dims(op, nd, DD);
        PDCprop_set_obj_type(op, T);
        PDCprop_set_obj_transfer_region_type(op, (pdc_region_partition_t)ex_iparam("part", 1));
        if (ex_iparam("posix", 0)) PDCprop_set_obj_consistency_semantics(op, PDC_CONSISTENCY_POSIX);
        for (int o = 0; o < nobj; o++) {
            sprintf(nm, "o%d", o);
            if (!(obj[o] = col ? PDCobj_create_mpi(cont, nm, op, (root + o) % d->nclients, MPI_COMM_WORLD) : PDCobj_create(cont, nm, op))) ex_fail("create", "object creation failed");
        }
        PDCprop_close(cp); PDCprop_close(op);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (!create || (d->rank != maker && !col)) {
        for (int o = 0; o < nobj; o++) {
            sprintf(nm, "o%d", o);
            if (!(obj[o] = col ? PDCobj_open_col(nm, pdc) : PDCobj_open(nm, pdc))) ex_fail("open", "object %s cannot be opened", nm);
        }
    }
}
static void closes(void)
{
    for (int o = 0; o < nobj; o++) if (PDCobj_close(obj[o]) < 0) ex_fail("close", "object close failed");
    if (cont) PDCcont_close(cont);
    PDCclose(pdc);
}
/* many small regions, scattered over the object, before the explored operations */
static void prefill(int n)
{
    static const int st[] = {1, 3, 7, 11, 13};
    int len = ex_iparam("prelen", 1), slots = D[0] / (len + ex_iparam("pregap", 1)), k = 5;
    while (--k && slots % st[k] == 0) ;
    for (int i = 0; i < n; i++) {
        R[512].off[0] = B[0] + (uint64_t)(i * st[k] % slots) * (len + ex_iparam("pregap", 1)); R[512].sz[0] = len;
        for (int j = 1; j < 3; j++) { R[512].off[j] = B[j]; R[512].sz[j] = j < nd ? D[j] : 1; }
        run1(1, 512, i % nobj, 0, 0, 0);
        if (ex_iparam("preread", 0)) run1(0, 512, i % nobj, 0, 0, 0);
    }
}
static void seq(struct drv *d, int depth)
{
    int all = ex_iparam("all", 0), adv = ex_iparam("adv", 1), flat = ex_iparam("flat", 0),
        shift = ex_iparam("shift", 0), ro = ex_iparam("reads", 1);
    if (d->phase == 0) prefill(ex_iparam("prefill", 0));
    for (int i = 0; i < depth; i++) {
        /* the first operation is a write and the last one is not an advance: other sequences only repeat shorter ones */
        int nw = nreg * nobj, nr = O->n && i + d->phase && ro ? nreg * nobj : 0, na = adv && i && i < depth - 1 ? 1 : 0;
        int nf = ex_iparam("flush", 0) && i ? nobj + 1 : 0;
        int k = ex_choose(nw + na + nr + nf, "op");
        if (k >= nw + na + nr) flush_op(k - nw - na - nr);
        else if (k < nw) { ex_note("write o%d %s", k % nobj, rs(k / nobj)); run1(1, k / nobj, k % nobj, all, flat, shift); }
        else if (k < nw + na) { ex_note("advance clock"); sim_advance(ex_iparam("advms", 1100) / 1000.0); }
        else { k -= nw + na; ex_note("read o%d %s", k % nobj, rs(k / nobj)); run1(0, k / nobj, k % nobj, all, flat, shift); }
    }
    for (int o = 0; o < nobj; o++) {
        int any = 0;
        for (int a = 0; a < O->n; a++) any |= O->w[a].obj == o;
        if (!any) continue;
        run1(0, 0, o, all, flat, 0);
        if (adv) { ex_note("final: advance, read o%d whole", o); sim_advance(ex_iparam("advms", 1100) / 1000.0); run1(0, 0, o, all, flat, 0); }
    }
}
/* outstanding transfers; `objs`>1 exercises aggregation per server */
static void async(struct drv *d)
{
    int depth = ex_iparam("depth", 4), maxout = ex_iparam("maxo", 3), allowwa = ex_iparam("all", 1), adv = ex_iparam("adv", 0);
    struct op P[16]; int np = 0; /* outstanding, started */
    struct op Q[16]; int nq = 0; /* created, to be started together */
    sim_window = 1;
    for (int i = 0; i < depth || np || nq; i++) {
        int more = i < depth && np + nq < maxout;
        int ns = more ? nreg * nobj * (O->n && !ex_iparam("wo", 0) ? 2 : 1) : 0, nw = np, nt = ex_iparam("status", 0) ? np : 0;
        int nco = ex_iparam("closeobj", 0) && np && i < depth ? nobj : 0; /* close an object with its transfers outstanding */
        int nsa = nq ? 1 : 0, nwa = allowwa && np >= 2 ? 1 : 0, batch = allowwa && more ? ns : 0, na = adv && np ? 1 : 0;
        int nf = ex_iparam("flush", 0) && np && i < depth ? nobj + 1 : 0;
        int nag = ex_iparam("again", 0) && i < depth ? np : 0; /* start one that is started already, alone and with those created */
        if (i >= depth) { nt = 0; na = 0; batch = 0; ns = 0; }
        int tot = nsa + ns + nw + nwa + batch + nt + na + nco + nf + nag;
        if (!tot) break;
        int k = ex_choose(tot, "op");
        if (k < nsa) {
            pdcid_t ids[16];
            for (int j = 0; j < nq; j++) ids[j] = Q[j].id;
            ex_note("start_all of %d", nq);
            if (PDCregion_transfer_start_all(ids, nq) < 0) ex_fail("start", "start_all failed");
            for (int j = 0; j < nq; j++) { started(&Q[j]); P[np++] = Q[j]; }
            nq = 0;
            continue;
        }
        k -= nsa;
        if (k < ns + batch) {
            int b = k >= ns; if (b) k -= ns;
            struct op p = {.o = k % nobj, .r = k / nobj % nreg, .write = k / nobj / nreg == 0};
            begin(&p);
            ex_note("%s %s o%d %s", b ? "batch" : "start", p.write ? "write" : "read", p.o, rs(p.r));
            if (b) Q[nq++] = p;
            else { if (PDCregion_transfer_start(p.id) < 0) ex_fail("start", "start failed"); started(&p); P[np++] = p; }
            continue;
        }
        k -= ns + batch;
        if (k < nw + nt) {
            int st = k >= nw; if (st) k -= nw;
            if (st) {
                pdc_transfer_status_t s = 77;
                ex_note("status of outstanding %d", k);
                if (PDCregion_transfer_status(P[k].id, &s) < 0) ex_fail("status", "status failed");
                if (s != PDC_TRANSFER_STATUS_COMPLETE && s != PDC_TRANSFER_STATUS_PENDING && !ex_iparam("posix", 0)) /* posix: finished by start */ ex_fail("status-value", "status of an outstanding transfer is %d", (int)s);
                if (s == PDC_TRANSFER_STATUS_PENDING) continue;
                ex_note("  -> complete");
            }
            else {
                ex_note("wait for outstanding %d", k);
                if (PDCregion_transfer_wait(P[k].id) < 0) ex_fail("wait", "wait failed");
            }
            finish(&P[k]);
            for (int j = k + 1; j < np; j++) P[j - 1] = P[j];
            np--;
            continue;
        }
        k -= nw + nt;
        if (k < nwa) {
            pdcid_t ids[16];
            for (int j = 0; j < np; j++) ids[j] = P[j].id;
            ex_note("wait_all of %d", np);
            if (PDCregion_transfer_wait_all(ids, np) < 0) ex_fail("wait", "wait_all failed");
            for (int j = 0; j < np; j++) finish(&P[j]);
            np = 0;
            continue;
        }
        k -= nwa;
        if (k < nco) {
            char nm[16];
            int m = 0, created = 0;
            for (int j = 0; j < nq; j++) created |= Q[j].o == k;
            if (created) continue; /* transfers created but not started keep using the handle */
            ex_note("close object %d", k);
            if (PDCobj_close(obj[k]) < 0) ex_fail("close", "object close failed");
            for (int j = 0; j < np; j++) if (P[j].o == k) finish(&P[j]); else P[m++] = P[j];
            np = m;
            sprintf(nm, "o%d", k);
            if (!(obj[k] = PDCobj_open(nm, pdc))) ex_fail("open", "object %s cannot be opened again", nm);
            continue;
        }
        k -= nco;
        if (k < nf) { flush_op(k); continue; }
        k -= nf;
        if (k < nag) {
            pdcid_t ids[16]; int n = 0, gn; uint64_t *g, bad[4] = {91, 92, 93, 94};
            for (int j = 0; j < nq; j++) ids[n++] = Q[j].id;
            ids[n++] = P[k].id;
            ex_note("start outstanding %d again%s", k, nq ? " with those created" : "");
            if (PDCregion_transfer_start(P[k].id) >= 0) ex_fail("again", "a transfer that is outstanding can be started again");
            if (PDCregion_transfer_start_all(ids, n) >= 0) ex_fail("again", "a transfer that is outstanding can be started again in a batch");
            if (PDCobj_set_dims(obj[P[k].o], nd, bad) >= 0) ex_fail("set-dims", "the dimensions of an object can be changed while a transfer is outstanding");
            if (PDCobj_get_dims(obj[P[k].o], &gn, &g) < 0 || gn != nd || g[0] == 91) ex_fail("set-dims", "setting the dimensions was refused but changed them");
            free(g);
            continue;
        }
        ex_note("advance clock");
        sim_advance(ex_iparam("advms", 1100) / 1000.0);
    }
    sim_window = 0;
    if (ex_iparam("again", 0)) for (int o = 0; o < nobj; o++) {
        int gn; uint64_t *g;
        if (PDCobj_get_dims(obj[o], &gn, &g) < 0 || gn != nd || PDCobj_set_dims(obj[o], nd, g) < 0) ex_fail("set-dims", "dimensions cannot be set although no transfer is outstanding");
        free(g);
    }
    for (int o = 0; o < nobj; o++) {
        int any = 0;
        for (int a = 0; a < O->n; a++) any |= O->w[a].obj == o;
        if (any) { ex_note("final read o%d", o); run1(0, 0, o, 0, 0, 0); }
    }
}
/* many transfers outstanding at one time */
static void batch(struct drv *d)
{
    static const int NN[] = {2, 5, 17, 40, 100};
    static struct op P[100]; static pdcid_t ids[100];
    int n = NN[ex_choose(ex_iparam("sizes", 5), "transfers")], w = D[0] * nobj / n, turns = ex_iparam("turns", 2);
    if (!w) return;
    for (int t = 0; t < turns; t++) {
        int how = ex_choose(2, "start"), wait = ex_choose(3, "wait"), wr = t == 0 || ex_choose(2, "write");
        ex_note("%s %d transfers %s, wait %s", wr ? "write" : "read", n, how ? "together" : "one by one", wait == 2 ? "for all" : wait ? "in reverse" : "in order");
        for (int i = 0; i < n; i++) {
            R[i].off[0] = i / nobj * (uint64_t)w; R[i].sz[0] = w;
            for (int j = 1; j < 3; j++) { R[i].off[j] = 0; R[i].sz[j] = j < nd ? D[j] : 1; }
            memset(&P[i], 0, sizeof P[i]);
            P[i].r = i; P[i].o = i % nobj; P[i].write = wr;
            if (R[i].off[0] + w > D[0]) { n = i; break; }
            begin(&P[i]);
            ids[i] = P[i].id;
            if (!how && PDCregion_transfer_start(ids[i]) < 0) ex_fail("start", "start of transfer %d failed", i);
        }
        if (how && PDCregion_transfer_start_all(ids, n) < 0) ex_fail("start", "start_all of %d failed", n);
        if (wait == 2 && PDCregion_transfer_wait_all(ids, n) < 0) ex_fail("wait", "wait_all of %d failed", n);
        for (int i = 0; i < n && wait < 2; i++) if (PDCregion_transfer_wait(ids[wait ? n - 1 - i : i]) < 0) ex_fail("wait", "wait failed");
        for (int i = 0; i < n; i++) finish(&P[i]);
    }
    for (int o = 0; o < nobj; o++) { R[512].off[0] = 0; R[512].sz[0] = n / nobj * w; for (int j = 1; j < 3; j++) R[512].sz[j] = D[j]; if (R[512].sz[0]) run1(0, 512, o, 0, 0, 0); }
}
static void multi(struct drv *d)
{
    int depth = ex_iparam("depth", 2);
    MPI_Barrier(MPI_COMM_WORLD);
    sim_window = 1;
    for (int i = 0; i < depth; i++) {
        int nf = ex_iparam("flush", 0) ? nobj + 1 : 0;
        int k = ex_choose(2 * nreg + nf, "op");
        if (k >= 2 * nreg) { flush_op(k - 2 * nreg); continue; }
        ex_note("client %d: %s %s", me, k < nreg ? "write" : "read", rs(k % nreg));
        run1(k < nreg, k % nreg, 0, 0, 0, 0);
        if (ex_iparam("adv", 0) && me == 0) sim_advance(ex_iparam("advms", 1100) / 1000.0);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    sim_window = 0;
    if (me == 0 && O->n) { ex_note("final read"); run1(0, 0, 0, 0, 0, 0); sim_advance(ex_iparam("advms", 1100) / 1000.0); run1(0, 0, 0, 0, 0, 0); }
    MPI_Barrier(MPI_COMM_WORLD);
}
/* whole objects: PDCobj_put_data and PDCobj_get_data */
#define MAXPUT 4096
static void put(struct drv *d)
{
    static const int SZ[] = {4, 1, 7, 1000, 4096};
    static struct { int size; unsigned char b[MAXPUT]; } S[4];
    int depth = ex_iparam("depth", 3), names = ex_iparam("names", 2), sizes = ex_iparam("sizes", 3);
    pdcid_t h[4] = {0}; char nm[16];
    memset(S, 0, sizeof S);
    for (int i = 0; i < depth; i++) {
        int n = ex_choose(names, "name"), k = ex_choose(sizes + 3, "op");
        sprintf(nm, "put%d", n);
        if (k < sizes) {
            static unsigned char b[MAXPUT + 32], c[MAXPUT + 32];
            for (int j = 0; j < SZ[k]; j++) b[j] = (unsigned char)(i * 97 + n * 31 + j * 7 + j / 256 + 1);
            memcpy(c, b, sizeof b);
            ex_note("put %s, %d bytes", nm, SZ[k]);
            pdcid_t id = PDCobj_put_data(nm, b, SZ[k], cont);
            if (memcmp(b, c, sizeof b)) ex_fail("user-buffer", "PDCobj_put_data changed the user's buffer");
            if (S[n].size && id) ex_fail("put-twice", "an object that exists was created again");
            if (!S[n].size) {
                if (!id) ex_fail("put", "PDCobj_put_data of %d bytes failed", SZ[k]);
                S[n].size = SZ[k]; memcpy(S[n].b, b, SZ[k]); h[n] = id;
            }
        }
        else if (k == sizes) { ex_note("advance clock"); sim_advance(ex_iparam("advms", 1100) / 1000.0); }
        else if (S[n].size) {
            int again = k == sizes + 2;
            pdcid_t o = again ? PDCobj_open(nm, pdc) : h[n];
            ex_note("%s %s", again ? "open and get" : "get", nm);
            if (!o) ex_fail("open", "%s cannot be opened", nm);
            int part = ex_choose(2, "part") ? (S[n].size + 1) / 2 : S[n].size;
            unsigned char *b = malloc(part + GUARD);
            memset(b, 0xA5, part + GUARD);
            if (PDCobj_get_data(o, b, part) < 0) ex_fail("get", "PDCobj_get_data failed");
            if (memcmp(b, S[n].b, part)) ex_fail("get-value", "PDCobj_get_data of %s returns other bytes than were put", nm);
            for (int j = 0; j < GUARD; j++) if (b[part + j] != 0xA5) ex_fail("read-overrun", "PDCobj_get_data writes past the size it was given");
            free(b);
            ex_nontrivial();
            if (again && PDCobj_close(o) < 0) ex_fail("close", "object close failed");
        }
        ex_step();
    }
    for (int n = 0; n < names; n++) if (S[n].size) {
        static unsigned char b[MAXPUT];
        memset(b, 0, sizeof b);
        if (PDCobj_get_data(h[n], b, S[n].size) < 0 || memcmp(b, S[n].b, S[n].size)) ex_fail("get-value", "PDCobj_get_data of put%d returns other bytes than were put", n);
        ex_nontrivial();
        if (PDCobj_close(h[n]) < 0) ex_fail("close", "object close failed");
    }
}
static void look(void)
{
    for (int o = 0; o < nobj; o++) {
        int any = 0;
        for (int a = 0; a < O->n; a++) any |= O->w[a].obj == o;
        if (any) { ex_note("client %d: read o%d whole", me, o); run1(0, 0, o, 0, 0, 0); }
    }
}
void driver_config(struct simcfg *c)
{
    c->nservers = ex_iparam("ns", 1);
    c->nclients = ex_iparam("nc", 1);
    c->nphases  = 1 + ex_iparam("restart", 0);
}
void driver_main(struct drv *d)
{
    O = d->shared; me = d->rank;
    nd = ex_iparam("nd", 1); D[0] = ex_iparam("d0", 4); D[1] = nd > 1 ? ex_iparam("d1", 3) : 1; D[2] = nd > 2 ? ex_iparam("d2", 2) : 1;
    unit = ex_iparam("unit", 4);
    T = unit == 1 ? PDC_CHAR : unit == 2 ? PDC_INT16 : unit == 8 ? PDC_INT64 : PDC_INT;
    nobj = ex_iparam("objs", 1);
    regions();
    const char *m = ex_param("mode", "seq");
    opens(d, d->phase == 0);
    for (int o = 0; o < nobj; o++) {
        struct pdc_obj_info *in = PDCobj_get_info(obj[o]);
        if (!in || !in->obj_pt) ex_fail("info", "object %d has no information", o);
        int bad = (int)in->obj_pt->ndim != nd || in->obj_pt->type != T;
        for (int i = 0; i < nd && !bad; i++) bad = in->obj_pt->dims[i] != DD[i];
        if (bad) ex_fail("info", "object %d was opened with other dimensions or another type", o);
    }
    if (d->phase == 0) {
        if (!strcmp(m, "seq")) { if (!ex_iparam("maker", 0) || !me) seq(d, ex_iparam("depth", 3)); }
        else if (!strcmp(m, "async")) { if (!ex_iparam("maker", 0) || !me) async(d); }
        else if (!strcmp(m, "batch")) batch(d);
        else if (!strcmp(m, "put")) put(d);
        else multi(d);
        if (ex_iparam("maker", 0)) { MPI_Barrier(MPI_COMM_WORLD); if (me) look(); }
    }
    else {
        int after = ex_iparam("after", 0);
        if (ex_iparam("maker", 0) ? me != 0 : !after || ex_choose(2, "look")) { if (!me || ex_iparam("maker", 0)) look(); }
        if (ex_iparam("maker", 0)) { MPI_Barrier(MPI_COMM_WORLD); if (!me) look(); }
        if (after && me == 0) seq(d, after);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase < ex_iparam("restart", 0)) close_servers(d);
    closes();
}
