/* Collective calls: all clients take part, all get the result the individual call would give.
 *
 * Every history (up to a depth) of collective creations of objects (by any root) and containers, individual creations,
 * deletions and tag updates; after every operation all clients collectively open every name and query tags, and the
 * result of each client is compared with the model.
 */
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont_pkg.h"
#include "pdc_cont.h"
#include "pdc_interface.h"
#include "pdc_mpi.h"
#define NN 3
#define NCN 2
static const char *NAME[NN] = {"ab", "bA", "q"}, *CN[NCN] = {"c", "d2"};
struct { int nd; uint64_t d[3]; pdc_var_type_t t; int part, cons; } static const P[] = {
    {1, {6}, PDC_INT, PDC_REGION_STATIC, PDC_CONSISTENCY_EVENTUAL}, {2, {2, 3}, PDC_DOUBLE, PDC_OBJ_STATIC, PDC_CONSISTENCY_POSIX}, {3, {2, 3, 4}, PDC_CHAR, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_EVENTUAL}};
struct model {
    struct { int live, v, tag, data; uint64_t id, cont; } o[NN];
    struct { int live; uint64_t id; } c[NCN];
    uint64_t got[8]; int gotn[8];
    uint64_t ids[200]; int nids;
    struct { int op, a, b, c; } cur;
};
static struct model *M;
static int me, nc, nn;
static pdcid_t pdc, cp, cont[NCN], kept[NN];
static uint64_t keptid[NN];

static void newid(uint64_t id, const char *what)
{
    if (!id) ex_fail("zero-id", "%s was given ID 0", what);
    for (int i = 0; i < M->nids; i++) if (M->ids[i] == id) ex_fail("duplicate-id", "%s was given ID %lu, which is taken", what, id);
    M->ids[M->nids++] = id;
}
/* every client says what it got; all must have got the same */
static uint64_t agree(uint64_t x, const char *what)
{
    M->got[me] = x;
    MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < nc; i++) if (M->got[i] != M->got[0]) ex_fail("disagree", "%s gave client %d %lu and client 0 %lu", what, i, M->got[i], M->got[0]);
    x = M->got[0];
    MPI_Barrier(MPI_COMM_WORLD);
    return x;
}
static pdcid_t mkprop(int v)
{
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    uint64_t d[3]; memcpy(d, P[v].d, sizeof d);
    PDCprop_set_obj_dims(p, P[v].nd, d);
    PDCprop_set_obj_type(p, P[v].t);
    PDCprop_set_obj_transfer_region_type(p, P[v].part);
    PDCprop_set_obj_consistency_semantics(p, P[v].cons);
    return p;
}
static void check(pdcid_t h, int n, int v, const char *what)
{
    struct pdc_obj_info *i = PDCobj_get_info(h);
    if (!i || !i->name || strcmp(i->name, NAME[n])) ex_fail("info", "client %d: object %s %s has no information", me, NAME[n], what);
    int bad = (int)i->obj_pt->ndim != P[v].nd || i->obj_pt->type != P[v].t || (int)i->obj_pt->region_partition != P[v].part || (int)i->obj_pt->consistency != P[v].cons;
    for (int k = 0; k < P[v].nd && !bad; k++) bad = i->obj_pt->dims[k] != P[v].d[k];
    if (bad) ex_fail("attributes", "client %d: object %s %s has other attributes than it was created with", me, NAME[n], what);
}
/* data written by the handle of one client is what every client reads, by the handle from the creation or a new one */
static size_t bytes(int v) { return v == 0 ? 24 : v == 1 ? 48 : 24; }
static void xfer(pdcid_t h, int n, int v, int wr, const char *what)
{
    unsigned char b[48]; uint64_t z[3] = {0, 0, 0};
    for (size_t i = 0; i < sizeof b; i++) b[i] = wr ? (unsigned char)(M->o[n].id * 7 + i * 3 + n + 1) : 0xEE;
    pdcid_t lr = PDCregion_create(P[v].nd, z, (uint64_t *)P[v].d), rr = PDCregion_create(P[v].nd, z, (uint64_t *)P[v].d);
    pdcid_t t = PDCregion_transfer_create(b, wr ? PDC_WRITE : PDC_READ, h, lr, rr);
    if (!t || PDCregion_transfer_start(t) < 0 || PDCregion_transfer_wait(t) < 0 || PDCregion_transfer_close(t) < 0) ex_fail("transfer", "client %d: transfer of object %s %s failed", me, NAME[n], what);
    PDCregion_close(lr); PDCregion_close(rr);
    for (size_t i = 0; i < bytes(v) && !wr; i++) if (b[i] != (unsigned char)(M->o[n].id * 7 + i * 3 + n + 1)) ex_fail("data", "client %d: byte %d of object %s, read %s, is not what was written", me, (int)i, NAME[n], what);
}
static void keep(int n, pdcid_t h) { if (kept[n]) PDCobj_close(kept[n]); kept[n] = h; keptid[n] = PDCobj_get_info(h)->meta_id; }
static void create(int n, int v, int root)
{
    if (!cont[0]) return;
    pdcid_t p = mkprop(v), h;
    if (me == 0) ex_note("create object %s together, root %d", NAME[n], root);
    h = PDCobj_create_mpi(cont[0], NAME[n], p, root, MPI_COMM_WORLD);
    PDCprop_close(p);
    int live = M->o[n].live;
    MPI_Barrier(MPI_COMM_WORLD);
    if (live) { if (h) ex_fail("create-twice", "client %d: creating object %s, which exists, succeeded", me, NAME[n]); return; }
    if (!h) ex_fail("create", "client %d: object %s cannot be created", me, NAME[n]);
    uint64_t id = agree(PDCobj_get_info(h)->meta_id, "the ID of a new object");
    check(h, n, v, "just created");
    if (me == 0) { newid(id, NAME[n]); M->o[n].live = 1; M->o[n].v = v; M->o[n].tag = M->o[n].data = 0; M->o[n].id = id; M->o[n].cont = M->c[0].id; }
    keep(n, h);
    MPI_Barrier(MPI_COMM_WORLD);
    M->o[n].data = 1;
    if (me == (root + 1) % nc) { ex_note("client %d writes object %s", me, NAME[n]); xfer(h, n, v, 1, "just created"); }
}
static void create_one(int n, int v)
{
    if (me != nc - 1 || !cont[0]) return;
    pdcid_t p = mkprop(v), h;
    ex_note("client %d creates object %s", me, NAME[n]);
    h = PDCobj_create(cont[0], NAME[n], p);
    PDCprop_close(p);
    if (M->o[n].live) { if (h) ex_fail("create-twice", "creating object %s, which exists, succeeded", NAME[n]); return; }
    if (!h) ex_fail("create", "object %s cannot be created", NAME[n]);
    M->o[n].live = 1; M->o[n].v = v; M->o[n].tag = M->o[n].data = 0; M->o[n].id = PDCobj_get_info(h)->meta_id; M->o[n].cont = M->c[0].id;
    newid(M->o[n].id, NAME[n]);
    keep(n, h);
}
/* one client deletes or tags the object by the handle it has from its creation, if any */
static void one(int n, int who, int del)
{
    if (me != who) return;
    int mine = M->o[n].live && kept[n] && keptid[n] == M->o[n].id;
    pdcid_t h = mine ? kept[n] : PDCobj_open(NAME[n], pdc);
    if (!h) { if (M->o[n].live) ex_fail("open", "client %d cannot open %s", me, NAME[n]); return; }
    ex_note("client %d %s object %s", me, del ? "deletes" : "tags", NAME[n]);
    if (del) { if (PDCobj_del(h) < 0) ex_fail("delete", "client %d cannot delete %s", me, NAME[n]); M->o[n].live = 0; }
    else { int v = 70 + me; if (PDCobj_put_tag(h, "k", &v, PDC_INT, sizeof v) < 0) ex_fail("put", "client %d cannot tag %s", me, NAME[n]); M->o[n].tag = v; }
    if (!mine) PDCobj_close(h);
    else if (del) { PDCobj_close(h); kept[n] = 0; }
}
static void create_cont(int n)
{
    if (me == 0) ex_note("create container %s together", CN[n]);
    if (cont[n]) { PDCcont_close(cont[n]); cont[n] = 0; }
    pdcid_t h = PDCcont_create_col(CN[n], cp);
    if (!h) ex_fail("cont-create", "client %d: container %s cannot be created", me, CN[n]);
    struct _pdc_id_info *i = PDC_find_id(h);
    uint64_t id = agree(((struct _pdc_cont_info *)i->obj_ptr)->cont_info_pub->meta_id, "the ID of a container");
    if (me == 0) {
        if (M->c[n].live) { if (M->c[n].id != id) ex_fail("cont-id", "container %s exists but creating it again gave another ID", CN[n]); }
        else newid(id, CN[n]);
        M->c[n].live = 1; M->c[n].id = id;
    }
    cont[n] = h;
}
static void del_cont(int n)
{
    if (me != nc - 1 || !M->c[n].live) return;
    ex_note("client %d deletes container %s", me, CN[n]);
    pdcid_t h = PDCcont_open(CN[n], pdc);
    if (!h || PDCcont_del(h) < 0) ex_fail("cont-delete", "container %s cannot be deleted", CN[n]);
    PDCcont_close(h);
    M->c[n].live = 0;
}
static void query(int value)
{
    pdc_kvtag_t q = {.name = (char *)"k", .value = &value, .type = PDC_INT, .size = sizeof value};
    int n = -1, want = 0; uint64_t *ids = NULL;
    if (PDC_Client_query_kvtag_mpi(&q, &n, &ids, MPI_COMM_WORLD) < 0) ex_fail("query", "client %d: collective tag query failed", me);
    for (int o = 0; o < nn; o++) {
        int hit = M->o[o].live && M->o[o].tag == value, got = 0;
        for (int i = 0; i < n; i++) got += ids[i] == M->o[o].id;
        if (M->o[o].live && got != hit) ex_fail(hit ? "query-missing" : "query-extra", "client %d: the tag query returned object %s %d times, expected %d", me, NAME[o], got, hit);
        want += hit;
    }
    if (n != want) ex_fail("query-extra", "client %d: the tag query returned %d objects, %d match", me, n, want);
    if (n > 0) { free(ids); ex_nontrivial(); }
}
static void audit(void)
{
    MPI_Barrier(MPI_COMM_WORLD);
    for (int n = 0; n < NCN; n++) {
        pdcid_t h = PDCcont_open_col(CN[n], pdc);
        if (!M->c[n].live) { if (h) ex_fail("cont-open-deleted", "client %d: container %s does not exist but was opened", me, CN[n]); continue; }
        if (!h) ex_fail("cont-open", "client %d: container %s exists but cannot be opened", me, CN[n]);
        struct _pdc_id_info *i = PDC_find_id(h);
        uint64_t id = ((struct _pdc_cont_info *)i->obj_ptr)->cont_info_pub->meta_id;
        if (id != M->c[n].id) ex_fail("cont-open-wrong", "client %d: opening container %s gave ID %lu instead of %lu", me, CN[n], id, M->c[n].id);
        PDCcont_close(h);
    }
    for (int n = 0; n < nn; n++) {
        pdcid_t h = PDCobj_open_col(NAME[n], pdc);
        if (!M->o[n].live) { if (h) ex_fail("open-deleted", "client %d: object %s does not exist but was opened", me, NAME[n]); continue; }
        if (!h) ex_fail("open", "client %d: object %s exists but cannot be opened", me, NAME[n]);
        if (PDCobj_get_info(h)->meta_id != M->o[n].id) ex_fail("open-wrong", "client %d: opening %s gave ID %lu instead of %lu", me, NAME[n], PDCobj_get_info(h)->meta_id, M->o[n].id);
        check(h, n, M->o[n].v, "opened together");
        /* the handle names the object on every client */
        int nd = 0; uint64_t *d = NULL; void *q = NULL; pdc_var_type_t ty; psize_t sz = 0;
        if (PDCobj_get_dims(h, &nd, &d) < 0 || nd != P[M->o[n].v].nd) ex_fail("attributes", "client %d: dimensions of %s", me, NAME[n]);
        perr_t r = PDCobj_get_tag(h, (char *)"k", &q, &ty, &sz);
        if (M->o[n].tag ? (r < 0 || sz != 4 || *(int *)q != M->o[n].tag) : (r >= 0 && sz != 0)) ex_fail("tag", "client %d: the tag of %s is not what was set", me, NAME[n]);
        if (M->o[n].data) {
            xfer(h, n, M->o[n].v, 0, "by a new handle");
            if (kept[n] && keptid[n] == M->o[n].id) xfer(kept[n], n, M->o[n].v, 0, "by the handle from its creation");
        }
        if (PDCobj_close(h) < 0) ex_fail("close", "client %d: close failed", me);
        ex_nontrivial();
    }
    for (int w = 0; w < nc; w++) query(70 + w);
    query(5);
    MPI_Barrier(MPI_COMM_WORLD);
}
/* many more objects created together, by every root; each is tagged (half of them alike) by one client and some are written */
static int nfill; static pdcid_t fh[150]; static uint64_t fid[150];
static void fname(int i, char *b) { sprintf(b, i % 2 ? "f%d" : "filler-with-a-rather-long-name-that-has-%d-at-its-end/of many", i); }
static void fill(void)
{
    if (me == 0 && nfill) ex_note("%d more objects created together", nfill);
    for (int i = 0; i < nfill; i++) {
        char b[100]; uint64_t d[2] = {3 + i, 2}; fname(i, b);
        pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
        PDCprop_set_obj_dims(p, 1 + i % 2, d); PDCprop_set_obj_type(p, PDC_CHAR); PDCprop_set_obj_transfer_region_type(p, i % 4);
        fh[i] = PDCobj_create_mpi(cont[0], b, p, i % nc, MPI_COMM_WORLD);
        PDCprop_close(p);
        if (!fh[i]) ex_fail("create", "client %d: object %d of many cannot be created", me, i);
        fid[i] = agree(PDCobj_get_info(fh[i])->meta_id, "the ID of a new object of many");
        if (me == 0) newid(fid[i], "an object of many");
        int v = i % 2 ? 900 : 1000 + i;
        if (me == i / 2 % nc && PDCobj_put_tag(fh[i], "fk", &v, PDC_INT, sizeof v) < 0) ex_fail("put", "client %d cannot tag object %d of many", me, i);
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
static void fcheck(void)
{
    uint64_t *ids = NULL; int v = 900, n = -1; char seen[150] = {0};
    for (int i = 0; i < nfill; i++) {
        char b[100]; fname(i, b);
        pdcid_t h = PDCobj_open_col(b, pdc);
        if (!h) ex_fail("open", "client %d: object %d of many exists but cannot be opened", me, i);
        struct pdc_obj_info *f = PDCobj_get_info(h);
        if (f->meta_id != fid[i]) ex_fail("open-wrong", "client %d: opening object %d of many gave ID %lu instead of %lu", me, i, f->meta_id, fid[i]);
        if ((int)f->obj_pt->ndim != 1 + i % 2 || f->obj_pt->dims[0] != 3 + i || (i % 2 && f->obj_pt->dims[1] != 2) || f->obj_pt->type != PDC_CHAR || (int)f->obj_pt->region_partition != i % 4)
            ex_fail("attributes", "client %d: object %d of many has other attributes than it was created with", me, i);
        if (PDCobj_get_info(fh[i])->meta_id != fid[i]) ex_fail("info", "client %d: the handle of object %d of many names another", me, i);
        PDCobj_close(h); PDCobj_close(fh[i]);
    }
    if (!nfill) return;
    pdc_kvtag_t q = {.name = (char *)"fk", .value = &v, .type = PDC_INT, .size = sizeof v};
    if (PDC_Client_query_kvtag_mpi(&q, &n, &ids, MPI_COMM_WORLD) < 0) ex_fail("query", "client %d: collective tag query failed", me);
    for (int k = 0; k < n; k++) {
        int i = 1;
        while (i < nfill && fid[i] != ids[k]) i += 2;
        if (i >= nfill || seen[i]++) ex_fail("query-extra", "client %d: the tag query returned ID %lu, which does not match or was there before", me, ids[k]);
    }
    if (n != nfill / 2) ex_fail("query-missing", "client %d: the tag query returned %d objects, %d match", me, n, nfill / 2);
    free(ids);
    MPI_Barrier(MPI_COMM_WORLD);
}
static int alphabet(int pick)
{
    int n = 0, nroot = ex_iparam("roots", nc), nvar = ex_iparam("nvar", 1);
#define ALT(OP, A, B, C) do { if (n++ == pick) { M->cur.op = OP; M->cur.a = A; M->cur.b = B; M->cur.c = C; } } while (0)
    for (int a = 0; a < nn; a++) {
        for (int v = 0; v < nvar; v++) for (int r = 0; r < nroot; r++) ALT(0, a, (a + v) % 3, r);
        ALT(1, a, (a + 1) % 3, 0);
        for (int w = 0; w < nc; w += nc > 1 ? nc - 1 : 1) { ALT(2, a, w, 0); ALT(2, a, w, 1); }
    }
    for (int a = 0; a < NCN; a++) { ALT(3, a, 0, 0); if (a) ALT(4, a, 0, 0); }
    return n;
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 2); c->nclients = ex_iparam("nc", 2); }
void driver_main(struct drv *d)
{
    M = d->shared; me = d->rank; nc = d->nclients; nn = ex_iparam("nn", 2);
    pdc = PDCinit("pdc");
    cp = PDCprop_create(PDC_CONT_CREATE, pdc);
    create_cont(0);
    MPI_Barrier(MPI_COMM_WORLD);
    nfill = ex_iparam("fill", 0);
    fill();
    for (int i = 0; i < ex_iparam("depth", 2); i++) {
        if (me == 0) alphabet(ex_choose(alphabet(-1), "op"));
        MPI_Barrier(MPI_COMM_WORLD);
        switch (M->cur.op) {
            case 0: create(M->cur.a, M->cur.b, M->cur.c); break;
            case 1: create_one(M->cur.a, M->cur.b); break;
            case 2: one(M->cur.a, M->cur.b, M->cur.c); break;
            case 3: create_cont(M->cur.a); break;
            case 4: del_cont(M->cur.a); break;
        }
        if (me == 0) ex_step();
        audit();
    }
    if (me == 0) ex_state(ex_hash(ex_hash(3, M->o, sizeof M->o), M->c, sizeof M->c));
    MPI_Barrier(MPI_COMM_WORLD);
    fcheck();
    for (int n = 0; n < NN; n++) if (kept[n]) PDCobj_close(kept[n]);
    for (int n = 0; n < NCN; n++) if (cont[n]) PDCcont_close(cont[n]);
    PDCprop_close(cp);
    PDCclose(pdc);
}
