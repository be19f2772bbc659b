/* Region locks and mapped regions.
 *
 * mode=lock: every history of obtaining (blocking or not) and releasing locks of a few regions by several clients; a model
 *            knows the owner and the queue of each region.
 * mode=map:  every history of write and read sessions (lock, change or look at the mapped buffer, release) on mapped
 *            regions by several clients; a model knows the content of each region.
 * mode=race: all clients lock and release at the same time, in every schedule within the deviation bound; at most one holds
 *            a region, every waiting client gets it, and a refusal has a client to blame.
 * mode=maprace: each client maps a region of its own, and all do sessions and transfers at the same time. */
#include "demoutil.h"
#include "pdc_region.h"
#define NR 3
#define NC 3
struct model {
    int owner[NR], nq[NR], q[NR][NC];      /* -1 or client; waiting clients in order */
    int st[NC], turn, left, fin, pend;           /* 0 running, 1 blocked, 2 granted        */
    int nops, val[NR][16], used[NR], mapped[NR], lastv;
    struct { int op, r, who; } cur;
    struct { int r, who, refused; long a, b; } iv[64]; int niv; /* race: from the call of obtain to the return of release, or a refused call */
    struct { int r, v; long a, b; } w[64]; int nw; long clk;    /* maprace: from the call of the release of a write session to its return */
};
static struct model *M;
static int me, nc, nr, unit, len, nd, grid;
static uint64_t SZ[3];                     /* size of a region; regions tile the first dimension, or the last two (grid=1) */
static void place(int r, uint64_t *off)
{
    off[0] = off[1] = off[2] = 0;
    if (!grid) off[0] = r * SZ[0];
    else { off[nd - 1] = (r & 1) * SZ[nd - 1]; off[nd - 2] = (r >> 1) * SZ[nd - 2]; }
}
static pdcid_t obj, reg[NR];
static const char *WHO[] = {"held", "queued"};
static int my_turn(void *a) { return M->turn == me || M->fin; }
static int not_blocked(void *a) { return M->st[(long)a] == 0; }
static int all_done(void *a) { return M->left == 0; }
static int running(void) { int n = 0; for (int i = 0; i < nc; i++) n += M->st[i] == 0; return n; }
static void state(void)
{
    uint64_t h = ex_hash(5, M->owner, sizeof M->owner);
    h = ex_hash(h, M->q, sizeof M->q); h = ex_hash(h, M->nq, sizeof M->nq);
    ex_state(ex_hash(h, M->st, sizeof M->st));
}
static void unlock(int r)
{
    ex_note("client %d: release lock of region %d", me, r);
    if (M->owner[r] == me) {
        int w = -1;
        if (M->nq[r]) { w = M->q[r][0]; for (int i = 1; i < M->nq[r]; i++) M->q[r][i - 1] = M->q[r][i]; M->nq[r]--; M->st[w] = 2; }
        M->owner[r] = w;
        perr_t x = PDCreg_release_lock(obj, reg[r], PDC_WRITE);
        if (x < 0) ex_fail("release", "client %d cannot release the lock of region %d it holds", me, r);
        if (w >= 0) sim_wait(not_blocked, (void *)(long)w, "the next client in the queue gets the lock");
    } else {
        perr_t x = PDCreg_release_lock(obj, reg[r], PDC_WRITE);
        if (x >= 0) ex_fail("release-free", "releasing region %d which nobody has locked succeeds", r);
    }
    ex_step(); state();
}
static void lock(int r, int block)
{
    int held = M->owner[r] >= 0;
    ex_note("client %d: %s lock of region %d%s", me, block ? "wait for" : "try to", r, held ? " (held)" : "");
    if (!held) M->owner[r] = me;
    else if (block) { M->q[r][M->nq[r]++] = me; M->st[me] = 1; do M->turn = (M->turn + 1) % nc; while (M->st[M->turn]); }
    perr_t x = PDCreg_obtain_lock(obj, reg[r], PDC_WRITE, block ? PDC_BLOCK : PDC_NOBLOCK);
    if (block || !held) {
        if (x < 0) ex_fail("obtain", "client %d does not get the lock of region %d which is free", me, r);
        if (M->owner[r] != me) ex_fail("exclusion", "client %d gets the lock of region %d while client %d holds it", me, r, M->owner[r]);
        M->st[me] = 0;
        ex_nontrivial();
    } else if (x >= 0) ex_fail("exclusion", "client %d gets the lock of region %d while client %d holds it", me, r, M->owner[r]);
    ex_step(); state();
}
/* fill=N: client 0 holds the locks of N more regions behind the others from the beginning to the end; none can be had by
 * another client, each can be released */
static int nfill; static pdcid_t freg[200];
static void fill_lock(void)
{
    for (int i = 0; i < nfill; i++) {
        uint64_t off = NR * SZ[0] + 2 * i, sz = 1 + i % 2;
        freg[i] = PDCregion_create(1, &off, &sz);
    }
    if (me == 0 && nfill) {
        ex_note("client 0: lock %d more regions", nfill);
        for (int i = 0; i < nfill; i++) if (PDCreg_obtain_lock(obj, freg[i], PDC_WRITE, PDC_NOBLOCK) < 0) ex_fail("obtain", "client 0 does not get the lock of region %d of many which is free", i);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
static void fill_unlock(void)
{
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == nc - 1 && me) for (int i = 0; i < nfill; i++) if (PDCreg_obtain_lock(obj, freg[i], PDC_WRITE, PDC_NOBLOCK) >= 0) ex_fail("exclusion", "client %d gets the lock of region %d of many while client 0 holds it", me, i);
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0) for (int i = 0; i < nfill; i++) if (PDCreg_release_lock(obj, freg[(i * 7 + 3) % nfill], PDC_WRITE) < 0) ex_fail("release", "client 0 cannot release the lock of region %d of many", (i * 7 + 3) % nfill);
    MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < nfill; i++) {
        if (me == nc - 1 && me) {
            if (PDCreg_obtain_lock(obj, freg[i], PDC_WRITE, PDC_NOBLOCK) < 0) ex_fail("obtain", "client %d does not get the lock of region %d of many which is free", me, i);
            if (PDCreg_release_lock(obj, freg[i], PDC_WRITE) < 0) ex_fail("release", "client %d cannot release the lock of region %d of many", me, i);
        }
        PDCregion_close(freg[i]);
    }
}
static void lock_main(struct drv *d)
{
    fill_lock();
    for (;;) {
        sim_wait(my_turn, NULL, "turn");
        if (M->fin) break;
        if (!M->pend) {
            if (M->nops == 0) break;
            M->nops--;
            int x = ex_choose(nc, "who");
            if (M->st[x]) continue;                               /* blocked: skip */
            M->turn = x; M->pend = 1;
            continue;
        }
        M->pend = 0;
        int r = ex_choose(nr, "region"), op = ex_choose(3, "op");
        if (op == 2) { if (M->owner[r] >= 0 && M->owner[r] != me) continue; unlock(r); }
        else if (op == 1) { if (M->owner[r] == me || (M->owner[r] >= 0 && running() < 2)) continue; lock(r, 1); if (M->turn != me) continue; }
        else lock(r, 0);
    }
    /* everybody lets go, so that every waiting client gets its turn */
    M->fin = 1;
    for (int again = 1; again;) {
        again = 0;
        for (int r = 0; r < nr; r++) while (M->owner[r] == me) { unlock(r); again = 1; }
    }
    fill_unlock();
}
static int turn2(void *a) { return M->turn == me || M->left == 0; }
static void session(int *buf, int r, int wr)
{
    int old[16]; memcpy(old, buf, sizeof old);
    ex_note("client %d: %s session on region %d", me, wr ? "write" : "read", r);
    if (PDCreg_obtain_lock(obj, reg[r], wr ? PDC_WRITE : PDC_READ, PDC_NOBLOCK) < 0) ex_fail("obtain", "client %d does not get the lock of region %d", me, r);
    if (wr) for (int i = 0; i < len; i++) buf[i] = M->val[r][i] = ++M->lastv;
    else for (int i = 0; i < len; i++) buf[i] = -1 - i;
    M->used[r] |= wr;
    if (PDCreg_release_lock(obj, reg[r], wr ? PDC_WRITE : PDC_READ) < 0) ex_fail("release", "client %d cannot release region %d", me, r);
    if (!wr && M->used[r]) for (int i = 0; i < len; i++) if (buf[i] != M->val[r][i]) ex_fail("data", "after the read session cell %d of region %d is %d, not %d", i, r, buf[i], M->val[r][i]);
    ex_nontrivial();
    ex_step(); ex_state(ex_hash(ex_hash(9, M->val, sizeof M->val), M->mapped, sizeof M->mapped));
}
/* fill=N: client 0 has mapped N more regions; what it releases in each is there at the end */
static int fbuf[200][2];
static void fill_map(int end)
{
    uint64_t z = 0, off, sz;
    if (me == 0 && nfill) ex_note("client 0: %s sessions on %d more mapped regions", end ? "read" : "write", nfill);
    for (int j = 0; j < nfill && me == 0; j++) {
        int i = end ? (j * 7 + 3) % nfill : j;
        off = NR * SZ[0] + 2 * i; sz = 1 + i % 2;
        if (!end) {
            freg[i] = PDCregion_create(1, &off, &sz);
            pdcid_t l = PDCregion_create(1, &z, &sz);
            if (PDCbuf_obj_map(fbuf[i], PDC_INT, l, obj, freg[i]) < 0) ex_fail("map", "region %d of many", i);
            PDCregion_close(l);
        }
        if (PDCreg_obtain_lock(obj, freg[i], end ? PDC_READ : PDC_WRITE, PDC_NOBLOCK) < 0) ex_fail("obtain", "client 0 does not get the lock of region %d of many", i);
        for (int k = 0; k < (int)sz; k++) fbuf[i][k] = end ? -9 : 1000 + 2 * i + k;
        if (PDCreg_release_lock(obj, freg[i], end ? PDC_READ : PDC_WRITE) < 0) ex_fail("release", "client 0 cannot release region %d of many", i);
        for (int k = 0; k < (int)sz; k++) if (fbuf[i][k] != 1000 + 2 * i + k) ex_fail("data", "cell %d of region %d of many is %d, not %d", k, i, fbuf[i][k], 1000 + 2 * i + k);
        if (end) { if (PDCbuf_obj_unmap(obj, freg[i]) < 0) ex_fail("unmap", "region %d of many", i); PDCregion_close(freg[i]); }
    }
    if (end && me == 0) for (int i = 0; i < nfill; i++) {
        int b[2];
        off = NR * SZ[0] + 2 * i; sz = 1 + i % 2;
        xfer(obj, PDC_READ, b, 1, &off, &sz);
        for (int k = 0; k < (int)sz; k++) if (b[k] != 1000 + 2 * i + k) ex_fail("data", "a transfer reads cell %d of region %d of many as %d, not %d", k, i, b[k], 1000 + 2 * i + k);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
static void map_main(struct drv *d)
{
    fill_map(0);
    static int bufs[NC][NR][16];
    int own[NR] = {0}, xfers = ex_iparam("xfer", 0);
    uint64_t z[3] = {0, 0, 0};
    pdcid_t lr = PDCregion_create(nd, z, SZ);
    for (;;) {
        sim_wait(turn2, NULL, "turn");
        if (M->left == 0) break;
        if (!M->pend) {
            if (M->nops == 0) { M->left = 0; break; }
            M->nops--;
            M->turn = ex_choose(nc, "who");
            M->pend = 1;
            continue;
        }
        M->pend = 0;
        int r = ex_choose(nr, "region"), op = ex_choose(3 + xfers, "op");
        if (op == 2) {
            if (own[r]) {
                ex_note("client %d: unmap region %d", me, r);
                if (PDCbuf_obj_unmap(obj, reg[r]) < 0) ex_fail("unmap", "region %d", r);
                own[r] = M->mapped[r] = 0;
            } else if (!M->mapped[r]) {
                ex_note("client %d: map region %d", me, r);
                if (PDCbuf_obj_map(bufs[me][r], PDC_INT, lr, obj, reg[r]) < 0) ex_fail("map", "region %d", r);
                own[r] = M->mapped[r] = 1;
            } else continue;
            ex_step();
        } else if (op == 3) {
            if (!M->used[r]) continue;
            uint64_t off[3]; int b[16];
            place(r, off);
            ex_note("client %d: transfer region %d", me, r);
            xfer(obj, PDC_READ, b, nd, off, SZ);
            for (int i = 0; i < len; i++) if (b[i] != M->val[r][i]) ex_fail("data", "a transfer reads cell %d of region %d as %d, not %d", i, r, b[i], M->val[r][i]);
            ex_step();
        } else if (op == 4) {
            uint64_t off[3]; int b[16];
            place(r, off);
            ex_note("client %d: transfer to region %d", me, r);
            for (int i = 0; i < len; i++) b[i] = M->val[r][i] = ++M->lastv;
            M->used[r] = 1;
            xfer(obj, PDC_WRITE, b, nd, off, SZ);
            ex_step();
        } else if (own[r]) session(bufs[me][r], r, op == 0);
    }
    for (int r = 0; r < nr; r++) if (own[r]) { session(bufs[me][r], r, 0); if (PDCbuf_obj_unmap(obj, reg[r]) < 0) ex_fail("unmap", "region %d", r); }
    fill_map(1);
    PDCregion_close(lr);
}
static void race_main(struct drv *d)
{
    int depth = ex_iparam("depth", 1), kind[8][2];
    for (int i = 0; i < depth; i++) { kind[i][0] = ex_choose(nr, "region"); kind[i][1] = ex_choose(3, "how"); }
    MPI_Barrier(MPI_COMM_WORLD);
    sim_window = 1;
    for (int i = 0; i < depth; i++) {
        int r = kind[i][0], block = kind[i][1] < 2, acc = kind[i][1] == 1 ? PDC_READ : PDC_WRITE, k = M->niv++;
        M->iv[k].r = r; M->iv[k].who = me; M->iv[k].b = 1l << 60; M->iv[k].a = ++M->clk;
        ex_note("client %d: %s lock of region %d (%s)", me, block ? "wait for" : "try to", r, acc == PDC_READ ? "read" : "write");
        perr_t x = PDCreg_obtain_lock(obj, reg[r], acc, block ? PDC_BLOCK : PDC_NOBLOCK);
        ex_note("client %d: %s region %d", me, x < 0 ? "does not get" : "has", r);
        if (x < 0) {
            if (block) ex_fail("obtain", "client %d waited for the lock of region %d and does not get it", me, r);
            M->iv[k].b = ++M->clk; M->iv[k].refused = 1;
            continue;
        }
        if (M->owner[r] >= 0) ex_fail("exclusion", "client %d gets the lock of region %d while client %d holds it", me, r, M->owner[r]);
        M->owner[r] = me;
        if (kind[i][1] == 0) sim_advance(0.001); /* others run */
        M->owner[r] = -1;
        ex_note("client %d: release region %d", me, r);
        if (PDCreg_release_lock(obj, reg[r], acc) < 0) ex_fail("release", "client %d cannot release the lock of region %d it holds", me, r);
        M->iv[k].b = ++M->clk;
        ex_step();
        ex_nontrivial();
    }
    sim_window = 0;
    MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < M->niv && me == 0; i++) if (M->iv[i].refused) {
        int blame = 0;
        for (int j = 0; j < M->niv; j++) blame |= j != i && !M->iv[j].refused && M->iv[j].r == M->iv[i].r && M->iv[j].who != M->iv[i].who && M->iv[j].a < M->iv[i].b && M->iv[i].a < M->iv[j].b;
        if (!blame) ex_fail("refused", "client %d was refused the lock of region %d, which nobody held", M->iv[i].who, M->iv[i].r);
    }
    /* all locks are free again */
    for (int r = 0; r < nr && me == nc - 1; r++) {
        if (PDCreg_obtain_lock(obj, reg[r], PDC_WRITE, PDC_NOBLOCK) < 0) ex_fail("stuck", "the lock of region %d is free but refused", r);
        if (PDCreg_release_lock(obj, reg[r], PDC_WRITE) < 0) ex_fail("release", "region %d", r);
    }
    if (me == 0) state();
}
static void maprace_main(struct drv *d)
{
    static int buf[NC][16];
    int depth = ex_iparam("depth", 1), kind[8][2];
    uint64_t z[3] = {0, 0, 0};
    pdcid_t lr = PDCregion_create(nd, z, SZ);
    if (PDCbuf_obj_map(buf[me], PDC_INT, lr, obj, reg[me]) < 0) ex_fail("map", "region %d", me);
    for (int i = 0; i < depth; i++) { kind[i][0] = ex_choose(3, "what"); kind[i][1] = kind[i][0] == 2 ? ex_choose(nc, "region") : me; }
    MPI_Barrier(MPI_COMM_WORLD);
    if (ex_iparam("before", 1)) session(buf[me], me, 1);
    MPI_Barrier(MPI_COMM_WORLD);
    for (int r = 0; r < nc && me == 0; r++) { int k = M->nw++; M->w[k].r = r; M->w[k].v = M->val[r][0]; }
    MPI_Barrier(MPI_COMM_WORLD);
    sim_window = 1;
    for (int i = 0; i < depth; i++) {
        int r = kind[i][1];
        if (kind[i][0] == 0) { /* write session, values V, V+1, ... */
            int k = M->nw++, v = M->lastv + 1;
            M->lastv += len;
            M->w[k].r = r; M->w[k].v = v; M->w[k].a = M->w[k].b = 1l << 60;
            ex_note("client %d: write session on region %d, %d", me, r, v);
            if (PDCreg_obtain_lock(obj, reg[r], PDC_WRITE, PDC_NOBLOCK) < 0) ex_fail("obtain", "client %d does not get the lock of region %d", me, r);
            for (int j = 0; j < len; j++) buf[me][j] = M->val[r][j] = v + j;
            M->w[k].a = ++M->clk;
            if (PDCreg_release_lock(obj, reg[r], PDC_WRITE) < 0) ex_fail("release", "client %d cannot release region %d", me, r);
            M->w[k].b = ++M->clk;
            ex_note("client %d: released region %d", me, r);
        } else if (kind[i][0] == 1) session(buf[me], r, 0);
        else {
            uint64_t off[3]; int b[16];
            long t0 = ++M->clk;
            place(r, off);
            ex_note("client %d: transfer region %d", me, r);
            xfer(obj, PDC_READ, b, nd, off, SZ);
            long t1 = ++M->clk;
            for (int j = 0; j < len; j++) {
                int ok = 0;
                for (int k = 0; k < M->nw; k++) {
                    if (M->w[k].r != r || M->w[k].v + j != b[j] || M->w[k].a > t1) continue;
                    int over = 0; /* written over before the read began? */
                    for (int l = 0; l < M->nw; l++) over |= M->w[l].r == r && M->w[l].a > M->w[k].b && M->w[l].b < t0;
                    ok |= !over;
                }
                if (!ok) ex_fail("data", "client %d reads cell %d of region %d as %d, which was not written there or is written over", me, j, r, b[j]);
            }
            ex_nontrivial();
        }
        ex_step();
    }
    sim_window = 0;
    MPI_Barrier(MPI_COMM_WORLD);
    for (int r = 0; r < nc; r++) {
        uint64_t off[3]; int b[16];
        place(r, off);
        xfer(obj, PDC_READ, b, nd, off, SZ);
        for (int j = 0; j < len; j++) if (b[j] != M->val[r][j]) ex_fail("data", "client %d finally reads cell %d of region %d as %d, not %d", me, j, r, b[j], M->val[r][j]);
        MPI_Barrier(MPI_COMM_WORLD);
    }
    session(buf[me], me, 0);
    if (PDCbuf_obj_unmap(obj, reg[me]) < 0) ex_fail("unmap", "region %d", me);
    PDCregion_close(lr);
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); c->nclients = ex_iparam("nc", 2); }
void driver_main(struct drv *d)
{
    M = d->shared; me = d->rank; nc = d->nclients; nr = ex_iparam("nr", 2); len = ex_iparam("len", 2); unit = 4;
    nd = ex_iparam("nd", 1); grid = ex_iparam("grid", 0); nfill = ex_iparam("fill", 0);
    SZ[0] = nd == 1 ? len : len / 2; SZ[1] = 2; SZ[2] = 0;
    if (nd == 3) { SZ[0] = len / 4; SZ[1] = SZ[2] = 2; }
    int map = !strcmp(ex_param("mode", "lock"), "map");
    if (me == 0) { M->left = nc; M->nops = ex_iparam("depth", 3); for (int r = 0; r < NR; r++) M->owner[r] = -1; }
    begin();
    pdcid_t cont = PDCcont_create_col("c", cp), p;
    p = grid ? oprop(nd, nd == 2 ? 2 * SZ[0] : SZ[0], 2 * SZ[1], 2 * SZ[2], PDC_INT, ex_iparam("part", 0)) : oprop(nd, NR * SZ[0] + 2 * nfill, SZ[1], SZ[2], PDC_INT, ex_iparam("part", 0));
    obj = PDCobj_create_mpi(cont, "o", p, 0, MPI_COMM_WORLD);
    if (!obj) ex_fail("create", "object");
    PDCprop_close(p);
    for (int r = 0; r < nr; r++) {
        uint64_t off[3];
        place(r, off);
        reg[r] = PDCregion_create(nd, off, SZ);
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (!strcmp(ex_param("mode", "lock"), "race")) race_main(d);
    else if (!strcmp(ex_param("mode", "lock"), "maprace")) maprace_main(d);
    else if (map) map_main(d); else lock_main(d);
    MPI_Barrier(MPI_COMM_WORLD);
    for (int r = 0; r < nr; r++) PDCregion_close(reg[r]);
    PDCobj_close(obj); PDCcont_close(cont);
    end();
}
