/* Crash of all processes at any point while a checkpoint (or the normal close) writes its files, then restart.
 *
 * Two epochs: operations of epoch 1, checkpoint 1, operations of epoch 2, checkpoint 2 (how=ckpt) or normal close (how=close),
 * with a crash before or in the middle of any file mutation of epoch 2.  After the restart each server has to present exactly
 * what it held at checkpoint 1 or at checkpoint 2; which one is told by a tag of a sentinel object on that server.  Data that was
 * in storage at checkpoint 1 and not written since must still be there.
 */
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_interface.h"
perr_t PDC_Client_all_server_checkpoint();
uint32_t PDC_get_server_by_obj_id(uint64_t obj_id, int n_server);
uint32_t PDC_get_hash_by_name(const char *name);

#define NO 3
#define NC 2
static const char *ON[NO] = {"ab", "bA", "q"};  /* "ab" and "bA" have the same hash */
static const char *CN[NC] = {"c1", "d2"};
struct st { struct { int live, tag[2]; uint64_t id, dim; } o[NO]; struct { int live, tag; uint64_t id; } c[NC]; };
struct model {
    struct st now, snap[3];
    int epoch, done2, extra;             /* extra: object created after recovery */
    uint64_t extraid;
    int picked[4];                       /* which snapshot each server turned out to hold */
    unsigned char data[16]; int known[16]; /* region object: last written and possibly newer value */
    unsigned char maybe[16];
    char sent[4][8];
};
static struct model *M;
static pdcid_t pdc, cp, cont[NC];
static int ns, part;
static int srv_of(const char *n) { return PDC_get_hash_by_name(n) % ns; }
static pdcid_t mkobj(const char *n, uint64_t dim, int p)
{
    pdcid_t op = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_dims(op, 1, &dim);
    PDCprop_set_obj_type(op, PDC_CHAR);
    PDCprop_set_obj_transfer_region_type(op, p);
    pdcid_t o = PDCobj_create(cont[0], n, op);
    PDCprop_close(op);
    if (!o) ex_fail("create", "object %s cannot be created", n);
    return o;
}
static void write_region(pdcid_t o, uint64_t off, uint64_t n, int v)
{
    unsigned char b[16]; uint64_t z = 0;
    memset(b, v, sizeof b);
    pdcid_t l = PDCregion_create(1, &z, &n), r = PDCregion_create(1, &off, &n), t = PDCregion_transfer_create(b, PDC_WRITE, o, l, r);
    if (PDCregion_transfer_start(t) < 0 || PDCregion_transfer_wait(t) < 0) ex_fail("write", "region write failed");
    PDCregion_transfer_close(t); PDCregion_close(l); PDCregion_close(r);
    for (uint64_t i = 0; i < n; i++) M->maybe[off + i] = v;
}
static int alphabet(int pick, int e)
{
    int n = 0;
#define ALT(...) do { if (n++ == pick) { __VA_ARGS__; return -1; } } while (0)
    for (int i = 0; i < NO; i++) {
        if (M->now.o[i].live) {
            ALT(ex_note("epoch %d: delete object %s", e, ON[i]); pdcid_t h = PDCobj_open(ON[i], pdc); if (PDCobj_del(h) < 0) ex_fail("delete", "object %s", ON[i]); PDCobj_close(h); M->now.o[i].live = 0);
            for (int k = 0; k < 2; k++) ALT(ex_note("epoch %d: put tag t%d of %s", e, k, ON[i]); pdcid_t h = PDCobj_open(ON[i], pdc); char kn[3] = {'t', '0' + k, 0}; int v = e * 10 + k; if (PDCobj_put_tag(h, kn, &v, PDC_INT, sizeof v) < 0) ex_fail("put", "tag"); PDCobj_close(h); M->now.o[i].tag[k] = v);
        }
        else ALT(ex_note("epoch %d: create object %s", e, ON[i]); memset(&M->now.o[i], 0, sizeof M->now.o[i]); M->now.o[i].dim = 4 + e; pdcid_t h = mkobj(ON[i], 4 + e, PDC_REGION_STATIC); M->now.o[i].live = 1; M->now.o[i].id = PDCobj_get_info(h)->meta_id; PDCobj_close(h));
    }
    for (int i = 0; i < NC; i++) {
        if (M->now.c[i].live) {
            if (i) ALT(ex_note("epoch %d: delete container %s", e, CN[i]); if (PDCcont_del(cont[i]) < 0) ex_fail("cont-delete", "container %s", CN[i]); PDCcont_close(cont[i]); cont[i] = 0; M->now.c[i].live = 0);
            ALT(ex_note("epoch %d: put tag of container %s", e, CN[i]); int v = e * 10; if (PDCcont_put_tag(cont[i], "t", &v, PDC_INT, sizeof v) < 0) ex_fail("put", "tag"); M->now.c[i].tag = v);
        }
        else ALT(ex_note("epoch %d: create container %s", e, CN[i]); cont[i] = PDCcont_create(CN[i], cp); memset(&M->now.c[i], 0, sizeof M->now.c[i]); M->now.c[i].live = 1; M->now.c[i].id = PDCcont_get_info(CN[i])->meta_id);
    }
    return n;
}
static void audit(const char *when)
{
    int any;
    for (int s = 0; s < ns; s++) {
        pdcid_t h = PDCobj_open(M->sent[s], pdc);
        if (!h) ex_fail("lost", "%s: the object that marks server %d, part of every checkpoint, is gone", when, s);
        void *p = NULL; pdc_var_type_t t; psize_t z = 0;
        if (PDCobj_get_tag(h, "epoch", &p, &t, &z) < 0 || z != 4 || (*(int *)p != 1 && *(int *)p != 2)) ex_fail("lost", "%s: the tag that marks server %d is lost or wrong", when, s);
        M->picked[s] = *(int *)p;
        PDCobj_close(h);
        if (M->done2 > s && M->picked[s] != 2) ex_fail("old", "%s: checkpoint 2 was complete on server %d but it came up with checkpoint 1", when, s);
    }
    for (int i = 0; i < NO; i++) {
        struct st *S = &M->snap[M->picked[srv_of(ON[i])]];
        pdcid_t h = PDCobj_open(ON[i], pdc);
        if (!!h != S->o[i].live) ex_fail("object", "%s: object %s %s, unlike at the checkpoint (%d) its server came up with", when, ON[i], h ? "exists" : "does not exist", M->picked[srv_of(ON[i])]);
        if (!h) continue;
        if (PDCobj_get_info(h)->meta_id != S->o[i].id) ex_fail("object-id", "%s: object %s has another ID", when, ON[i]);
        int nd; uint64_t *d;
        if (PDCobj_get_dims(h, &nd, &d) < 0 || nd != 1 || d[0] != S->o[i].dim) ex_fail("dims", "%s: dims of %s", when, ON[i]);
        for (int k = 0; k < 2; k++) {
            char kn[3] = {'t', '0' + k, 0}; void *p = NULL; pdc_var_type_t t; psize_t z = 0;
            perr_t r = PDCobj_get_tag(h, kn, &p, &t, &z);
            if (!S->o[i].tag[k]) { if (r >= 0 && z) ex_fail("tag", "%s: %s has a tag %s it did not have", when, ON[i], kn); }
            else if (r < 0 || z != 4 || *(int *)p != S->o[i].tag[k]) ex_fail("tag", "%s: tag %s of %s is lost or wrong", when, kn, ON[i]);
        }
        PDCobj_close(h);
    }
    for (int i = 0; i < NC; i++) {
        struct st *S = &M->snap[M->picked[srv_of(CN[i])]];
        pdcid_t h = PDCcont_open(CN[i], pdc);
        if (!!h != S->c[i].live) ex_fail("container", "%s: container %s %s", when, CN[i], h ? "exists" : "does not exist");
        if (!h) continue;
        if (PDCcont_get_info(CN[i])->meta_id != S->c[i].id) ex_fail("container-id", "%s: container %s has another ID", when, CN[i]);
        void *p = NULL; pdc_var_type_t t; psize_t z = 0;
        perr_t r = PDCcont_get_tag(h, "t", &p, &t, &z);
        if (!S->c[i].tag) { if (r >= 0 && z) ex_fail("tag", "%s: container %s has a tag it did not have", when, CN[i]); }
        else if (r < 0 || z != 4 || *(int *)p != S->c[i].tag) ex_fail("tag", "%s: tag of container %s is lost or wrong", when, CN[i]);
        cont[i] = h;
    }
    if (ex_iparam("data", 1)) {
        pdcid_t o = PDCobj_open("rr", pdc);
        if (!o) ex_fail("lost", "%s: the object with region data is gone", when);
        unsigned char b[8]; uint64_t z = 0, n = 8;
        memset(b, 0xee, sizeof b);
        pdcid_t l = PDCregion_create(1, &z, &n), r = PDCregion_create(1, &z, &n), t = PDCregion_transfer_create(b, PDC_READ, o, l, r);
        if (PDCregion_transfer_start(t) < 0 || PDCregion_transfer_wait(t) < 0) ex_fail("read", "%s: region read failed", when);
        PDCregion_transfer_close(t); PDCregion_close(l); PDCregion_close(r);
        for (int i = 0; i < 8; i++) if (b[i] != M->data[i] && b[i] != M->maybe[i]) ex_fail("data", "%s: cell %d is %d; in storage at checkpoint 1: %d, written since: %d", when, i, b[i], M->data[i], M->maybe[i]);
        PDCobj_close(o);
    }
    any = M->picked[0]; for (int s = 1; s < ns; s++) any = any * 3 + M->picked[s];
    ex_state(ex_hash(ex_hash_s(any, when), &M->snap, sizeof M->snap));
}
void driver_config(struct simcfg *c)
{
    c->nservers = ex_iparam("ns", 2);
    c->nclients = 1;
    c->nphases = ex_iparam("again", 0) ? 3 : 2;
    c->clean_close = 0;
}
void driver_main(struct drv *d)
{
    M = d->shared; ns = d->nservers; part = ex_iparam("part", 1);
    pdc = PDCinit("pdc");
    cp = PDCprop_create(PDC_CONT_CREATE, pdc);
    if (d->phase == 0) {
        cont[0] = PDCcont_create(CN[0], cp);
        M->now.c[0].live = 1; M->now.c[0].id = PDCcont_get_info(CN[0])->meta_id;
        for (int s = 0, k = 0; s < ns; k++) {
            sprintf(M->sent[s], "s%d", k);
            if (srv_of(M->sent[s]) != s) continue;
            pdcid_t h = mkobj(M->sent[s++], 4, PDC_REGION_STATIC);
            int v = 1;
            PDCobj_put_tag(h, "epoch", &v, PDC_INT, sizeof v);
            PDCobj_close(h);
        }
        pdcid_t rr = mkobj("rr", 8, part);
        write_region(rr, 0, 4, 17);
        write_region(rr, 4, 4, 18);
        /* to storage: by the flush thread, or on demand */
        int store = ex_iparam("store", 0) ? ex_choose(2, "store") + 1 : 0;
        if (store == 0) sim_advance(3);
        else if (store == 1) { ex_note("flush the object"); if (PDCobj_flush_start(rr) < 0) ex_fail("flush", "flush failed"); }
        else { ex_note("flush all"); if (PDCobj_flush_all_start() < 0) ex_fail("flush", "flush failed"); }
        memcpy(M->data, M->maybe, 16);
        for (int i = 0; i < ex_iparam("pre", 1); i++) { int k = ex_choose(alphabet(-1, 1) + 1, "op"); if (k) alphabet(k - 1, 1); ex_step(); }
        M->snap[1] = M->now;
        ex_note("checkpoint 1");
        PDC_Client_all_server_checkpoint();
        pdcid_t x = PDCobj_open(M->sent[0], pdc); PDCobj_close(x); /* the servers are done writing */
        if (ns > 1) { x = PDCobj_open(M->sent[1], pdc); PDCobj_close(x); }
        sim_arm_crash(1);
        for (int i = 0; i < ex_iparam("post", 1); i++) { int k = ex_choose(alphabet(-1, 2) + 1, "op"); if (k) alphabet(k - 1, 2); ex_step(); }
        if (ex_iparam("wr", 1)) { write_region(rr, 2, 1, 33); if (ex_iparam("flush2", 0)) sim_advance(3); if (ex_iparam("store", 0)) PDCobj_flush_start(rr); }
        for (int s = 0; s < ns; s++) { pdcid_t h = PDCobj_open(M->sent[s], pdc); int v = 2; PDCobj_put_tag(h, "epoch", &v, PDC_INT, sizeof v); PDCobj_close(h); }
        M->snap[2] = M->now;
        PDCobj_close(rr);
        if (ex_iparam("fail", 0)) { /* a write of the checkpoint fails (file system full) instead of a crash */
            sim_arm_crash(0);
            memfs_fail_after = ex_choose(ex_iparam("fail", 0), "which write fails");
            ex_note("checkpoint 2, write %d fails", memfs_fail_after);
            memfs_fail_next = 1;
            PDC_Client_all_server_checkpoint();
            for (int s = 0; s < ns; s++) { x = PDCobj_open(M->sent[s], pdc); if (!x) ex_fail("lost", "a failed checkpoint write made an object inaccessible"); PDCobj_close(x); }
            memfs_fail_next = 0;
            ex_note("then all processes are killed");
        }
        else if (!strcmp(ex_param("how", "ckpt"), "ckpt")) {
            ex_note("checkpoint 2");
            PDC_Client_all_server_checkpoint();
            for (int s = 0; s < ns; s++) { x = PDCobj_open(M->sent[s], pdc); PDCobj_close(x); }
            M->done2 = ns;
            sim_arm_crash(0);
            ex_note("then all processes are killed");
        }
        else { close_servers(d); M->done2 = ns; sim_arm_crash(0); }
    }
    else if (d->phase == 1) {
        audit("after the restart");
        if (ex_iparam("again", 0)) {
            int clash = 0;
            pdcid_t h = mkobj("late", 4, PDC_REGION_STATIC);
            M->extraid = PDCobj_get_info(h)->meta_id;
            for (int i = 0; i < NO; i++) { struct st *S = &M->snap[M->picked[srv_of(ON[i])]]; clash |= S->o[i].live && S->o[i].id == M->extraid; }
            for (int i = 0; i < NC; i++) { struct st *S = &M->snap[M->picked[srv_of(CN[i])]]; clash |= S->c[i].live && S->c[i].id == M->extraid; }
            if (clash) ex_fail("duplicate-id", "an object created after the restart got the ID of one that exists");
            PDCobj_close(h);
            memset(M->picked, 0, sizeof M->picked);
            close_servers(d);
        }
    }
    else {
        M->done2 = 0;
        audit("after the second restart");
        pdcid_t h = PDCobj_open("late", pdc);
        if (!h || PDCobj_get_info(h)->meta_id != M->extraid) ex_fail("object", "the object created after the crash and closed normally is gone or another one");
        PDCobj_close(h);
    }
    for (int i = 0; i < NC; i++) if (cont[i]) PDCcont_close(cont[i]);
    PDCprop_close(cp);
    PDCclose(pdc);
}
