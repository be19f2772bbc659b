/* Objects of different dimensions, element types, partitions and consistency semantics used together.
 *
 * mode=seq  : every sequence of transfers of (parts of) them by nc clients in turn, clock advances and flushes; the content of
 *             every object is compared at the end, and after restarts
 * mode=batch: every choice of n transfers outstanding together (no two conflicting ones), started one by one or in one call
 *             and waited for one by one, in reverse or in one call; `rounds` times */
#include "demoutil.h"
#include "pdc_obj.h"
#define NO 6
static const struct { int nd; uint64_t d[3]; pdc_var_type_t t; int unit, part, cons; } P[NO] = {
    {1, {4}, PDC_INT, 4, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_EVENTUAL},
    {2, {4, 2}, PDC_DOUBLE, 8, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_COMMIT},
    {3, {2, 2, 3}, PDC_CHAR, 1, PDC_REGION_STATIC, PDC_CONSISTENCY_SESSION},
    {1, {6}, PDC_INT16, 2, PDC_OBJ_STATIC, PDC_CONSISTENCY_POSIX},
    {3, {4, 1, 2}, PDC_INT, 4, PDC_REGION_LOCAL, PDC_CONSISTENCY_EVENTUAL},
    {2, {2, 3}, PDC_FLOAT, 4, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_POSIX}};
static const char *ON[NO] = {"a", "b", "cc", "d", "ee", "f"};
#define MAXB 64
struct model { unsigned char c[NO][MAXB], w[NO][MAXB]; int nw, who, op, o, r, any[NO]; } *M; /* content and whether it was written, by byte */
static int me, nc, no, o0;
static pdcid_t cont, h[NO];
struct tr { int o, r, wr, conflict; pdcid_t id; unsigned char *b; uint64_t off[3], sz[3]; };

static const char *RN[] = {"whole", "first half", "second half", "middle"};
static int region(int o, int r, uint64_t *off, uint64_t *sz)
{
    for (int i = 0; i < 3; i++) { off[i] = 0; sz[i] = i < P[o].nd ? P[o].d[i] : 1; }
    uint64_t n = P[o].d[0];
    if (r == 1) sz[0] = n / 2;
    if (r == 2) { off[0] = n / 2; sz[0] = n - n / 2; }
    if (r == 3) { off[0] = n / 4; sz[0] = n - n / 4 - 1; int l = P[o].nd - 1; if (l) { off[l] = P[o].d[l] - 1; sz[l] = 1; } if (n == 2) { off[0] = 0; sz[0] = 2; } }
    return 1;
}
/* calls f for every cell of the region: index in the region, index in the object */
#define CELLS(o, off, sz, k, x) \
    for (uint64_t k = 0, i0 = 0; i0 < sz[0]; i0++) for (uint64_t i1 = 0; i1 < sz[1]; i1++) for (uint64_t i2 = 0; i2 < sz[2]; i2++, k++) \
        for (uint64_t x = ((i0 + off[0]) * (P[o].nd > 1 ? P[o].d[1] : 1) + i1 + off[1]) * (P[o].nd > 2 ? P[o].d[2] : 1) + i2 + off[2], once = 1; once; once = 0)
static void make(struct tr *t)
{
    int u = P[t->o].unit;
    uint64_t z[3] = {0, 0, 0};
    region(t->o, t->r, t->off, t->sz);
    t->b = malloc(MAXB);
    memset(t->b, 0xEE, MAXB);
    if (t->wr) {
        M->nw++; M->any[t->o] = 1;
        CELLS(t->o, t->off, t->sz, k, x) for (int j = 0; j < u; j++) {
            t->b[k * u + j] = M->c[t->o][x * u + j] = (unsigned char)(M->nw * 37 + x * u + j);
            M->w[t->o][x * u + j] = 1;
        }
    }
    pdcid_t lr = PDCregion_create(P[t->o].nd, z, t->sz), rr = PDCregion_create(P[t->o].nd, t->off, t->sz);
    t->id = PDCregion_transfer_create(t->b, t->wr ? PDC_WRITE : PDC_READ, h[t->o], lr, rr);
    if (!t->id) ex_fail("create", "transfer of %s", ON[t->o]);
    PDCregion_close(lr); PDCregion_close(rr);
}
static void done(struct tr *t)
{
    int u = P[t->o].unit, n = (int)(t->sz[0] * t->sz[1] * t->sz[2]) * u;
    if (!t->wr) {
        CELLS(t->o, t->off, t->sz, k, x) for (int j = 0; j < u; j++) if (M->w[t->o][x * u + j] && t->b[k * u + j] != M->c[t->o][x * u + j])
            ex_fail("data", "cell %d of %s (%s) reads %02x in byte %d, not %02x", (int)x, ON[t->o], RN[t->r], t->b[k * u + j], j, M->c[t->o][x * u + j]);
        for (int j = n; j < MAXB; j++) if (t->b[j] != 0xEE) ex_fail("overrun", "reading %s changed memory behind the buffer", ON[t->o]);
        ex_nontrivial();
    }
    if (PDCregion_transfer_close(t->id) < 0) ex_fail("close", "transfer of %s", ON[t->o]);
    free(t->b);
    ex_step();
}
static void run1(int o, int r, int wr)
{
    struct tr t = {.o = o, .r = r, .wr = wr};
    ex_note("client %d: %s %s of %s", me, wr ? "write" : "read", RN[r], ON[o]);
    make(&t);
    if (PDCregion_transfer_start(t.id) < 0) ex_fail("start", "transfer of %s", ON[o]);
    if (PDCregion_transfer_wait(t.id) < 0) ex_fail("wait", "transfer of %s", ON[o]);
    done(&t);
}
static void all(void)
{
    for (int c = 0; c < nc; c++) {
        MPI_Barrier(MPI_COMM_WORLD);
        if (c == me) for (int o = o0; o < o0 + no; o++) if (M->any[o]) run1(o, 0, 0);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
static void seq(int depth)
{
    int nr = ex_iparam("nr", 3), fl = ex_iparam("flush", 1), adv = ex_iparam("adv", 1);
    for (int i = 0; i < depth; i++) {
        MPI_Barrier(MPI_COMM_WORLD);
        if (me == 0) {
            int k = ex_choose(no * nr + adv + fl, "op");
            M->op = k < no * nr ? 0 : k < no * nr + adv ? 1 : 2;
            M->o = o0 + k % no; M->r = k / no;
            M->who = ex_choose(M->op ? 1 : nc, "who");
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if (me != M->who) continue;
        if (M->op == 0) run1(M->o, M->r, 1);
        else if (M->op == 1) { ex_note("advance"); sim_advance(1.1); }
        else { ex_note("flush all"); if (PDCobj_flush_all_start() < 0) ex_fail("flush", "flush all"); }
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
static int clash(struct tr *a, struct tr *b)
{
    uint64_t ao[3], as[3], bo[3], bs[3];
    if (a->o != b->o || (!a->wr && !b->wr)) return 0;
    region(a->o, a->r, ao, as); region(b->o, b->r, bo, bs);
    for (int i = 0; i < 3; i++) if (ao[i] + as[i] <= bo[i] || bo[i] + bs[i] <= ao[i]) return 0;
    return 1;
}
static void batch(void)
{
    int n = ex_iparam("n", 3), nr = ex_iparam("nr", 3), rounds = ex_iparam("rounds", 1);
    if (me) return;
    if (ex_iparam("prefill", 1)) for (int o = o0; o < o0 + no; o++) run1(o, 0, 1);
    for (int q = 0; q < rounds; q++) {
        struct tr T[8] = {0}; pdcid_t ids[8]; int m = 0, last = 0;
        for (int i = 0; i < n; i++) { /* in order: a batch is a set, except that transfers of one object may come in any order */
            int k = ex_choose(no * nr * 2, "transfer");
            T[m].o = o0 + k % no; T[m].r = k / no % nr; T[m].wr = k / no / nr == 0;
            (void)last;
            int bad = 0;
            for (int j = 0; j < m; j++) bad |= clash(&T[j], &T[m]);
            if (!bad) m++;
        }
        int how = ex_choose(2, "start"), wait = ex_choose(3, "wait");
        for (int i = 0; i < m; i++) { ex_note("%s %s of %s", T[i].wr ? "write" : "read", RN[T[i].r], ON[T[i].o]); make(&T[i]); ids[i] = T[i].id; }
        ex_note("start %s, wait %s", how ? "together" : "one by one", wait == 2 ? "for all" : wait ? "in reverse" : "in order");
        if (how) { if (PDCregion_transfer_start_all(ids, m) < 0) ex_fail("start", "start_all"); }
        else for (int i = 0; i < m; i++) if (PDCregion_transfer_start(ids[i]) < 0) ex_fail("start", "transfer of %s", ON[T[i].o]);
        if (wait == 2) { if (PDCregion_transfer_wait_all(ids, m) < 0) ex_fail("wait", "wait_all"); }
        else for (int i = 0; i < m; i++) if (PDCregion_transfer_wait(ids[wait ? m - 1 - i : i]) < 0) ex_fail("wait", "a transfer");
        for (int i = 0; i < m; i++) done(&T[i]);
    }
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); c->nclients = ex_iparam("nc", 1); c->nphases = 1 + ex_iparam("restart", 0); }
void driver_main(struct drv *d)
{
    M = d->shared; me = d->rank; nc = d->nclients; no = ex_iparam("no", 4); o0 = ex_iparam("o0", 0);
    begin();
    if (d->phase == 0) {
        if (me == 0) {
            cont = PDCcont_create("top", cp);
            for (int o = 0; o < o0 + no; o++) {
                uint64_t dd[3]; memcpy(dd, P[o].d, sizeof dd);
                pdcid_t p = oprop(P[o].nd, dd[0], dd[1], dd[2], P[o].t, P[o].part);
                PDCprop_set_obj_consistency_semantics(p, P[o].cons);
                pdcid_t x = PDCobj_create(cont, ON[o], p);
                if (!x) ex_fail("create", "object %s", ON[o]);
                PDCobj_close(x); PDCprop_close(p);
            }
            PDCcont_close(cont);
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    for (int o = o0; o < o0 + no; o++) if (!(h[o] = PDCobj_open(ON[o], pdc))) ex_fail("open", "object %s cannot be opened", ON[o]);
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase) all();
    else if (me == 0) for (int r = 1; r <= ex_iparam("pre", 0); r++) for (int o = o0; o < o0 + no; o++) run1(o, r, 1);
    if (d->phase == 0 || ex_iparam("after", 0)) { if (!strcmp(ex_param("mode", "seq"), "batch")) batch(); else seq(d->phase ? ex_iparam("after", 0) : ex_iparam("depth", 3)); }
    all();
    if (me == 0) ex_state(ex_hash(ex_hash(3, M->c, sizeof M->c), M->w, sizeof M->w));
    for (int o = o0; o < o0 + no; o++) if (PDCobj_close(h[o]) < 0) ex_fail("close", "object %s", ON[o]);
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase < ex_iparam("restart", 0)) close_servers(d);
    end();
}
