/* Client handles and property lists.
 * mode=life : every sequence of create / open / dup / close operations over all kinds of handles, against a model of the
 *             live ones; after every step each live handle describes its own object, each dead one is refused, and the
 *             iterators visit exactly the live containers and objects.
 * mode=prop : every sequence of setter calls on property lists (and duplicates of them, and objects created from them).
 * mode=bad  : every API function with every kind of invalid handle: refused with an error, nothing else happens. */
#include "drvutil.h"
#include "pdc_prop_pkg.h"
#include "pdc_obj_pkg.h"
enum { KCP, KOP, KC, KO, KR, KT, NKIND };
#define NS 3
static const char *KN[] = {"container property", "object property", "container", "object", "region", "transfer"};
struct prop { int ndim; uint64_t dims[4]; int type, part, cons; uint32_t user, step; char app[40], loc[40], tags[40]; int userset; void *buf; };
struct h { pdcid_t id; int live; int c; char name[16]; struct prop p; uint64_t meta; int nd; uint64_t off[3], sz[3]; int life; };
static struct h H[NKIND][NS];
static pdcid_t pdc, dead[64]; static int deadk[64], ndead, seq;
static int buf[64];

static int dims_eq(const struct prop *p, size_t nd, const uint64_t *d) { if ((int)nd != p->ndim) return 0; for (int i = 0; i < p->ndim; i++) if (d[i] != p->dims[i]) return 0; return 1; }
static const char *nz(const char *s) { return s ? s : ""; }
static void check_prop(int s)
{
    struct h *h = &H[KOP][s];
    struct pdc_obj_prop *g = PDCobj_prop_get_info(h->id);
    if (!g) ex_fail("prop-info", "property %d cannot be read", s);
    if (g->obj_prop_id != h->id) ex_fail("prop-id", "property %d reports the ID of another", s);
    if (!dims_eq(&h->p, g->ndim, g->dims)) ex_fail("prop-dims", "property %d: %d dimensions of %d..., set were %d of %d...", s, (int)g->ndim, g->ndim ? (int)g->dims[0] : -1, h->p.ndim, (int)h->p.dims[0]);
    if ((int)g->type != h->p.type) ex_fail("prop-type", "property %d: type %d, set was %d", s, g->type, h->p.type);
    if ((int)g->region_partition != h->p.part) ex_fail("prop-partition", "property %d: partition %d, set was %d", s, g->region_partition, h->p.part);
    if ((int)g->consistency != h->p.cons) ex_fail("prop-consistency", "property %d: consistency %d, set was %d", s, g->consistency, h->p.cons);
    free(g->dims); free(g);
    struct _pdc_obj_prop *q = PDC_obj_prop_get_info(h->id);
    if (!q) ex_fail("prop-info", "property %d cannot be read", s);
    if (q->user_id != h->p.user) ex_fail("prop-user", "property %d: user %u, set was %u", s, q->user_id, h->p.user);
    if (q->time_step != h->p.step) ex_fail("prop-step", "property %d: time step %u, set was %u", s, q->time_step, h->p.step);
    if (strcmp(nz(q->app_name), h->p.app)) ex_fail("prop-app", "property %d: application %s, set was %s", s, nz(q->app_name), h->p.app);
    if (strcmp(nz(q->tags), h->p.tags)) ex_fail("prop-tags", "property %d: tags %s, set was %s", s, nz(q->tags), h->p.tags);
    if (strcmp(nz(q->data_loc), h->p.loc)) ex_fail("prop-loc", "property %d: location %s, set was %s", s, nz(q->data_loc), h->p.loc);
    if (q->buf != h->p.buf) ex_fail("prop-buf", "property %d: another buffer than was set", s);
    PDC_obj_prop_free(q);
}
static void check_obj(int s)
{
    struct h *h = &H[KO][s];
    struct pdc_obj_info *g = PDCobj_get_info(h->id);
    if (!g) ex_fail("obj-info", "object %s cannot be read", h->name);
    if (strcmp(nz(g->name), h->name)) ex_fail("obj-name", "the handle of object %s describes %s", h->name, nz(g->name));
    if (g->local_id != h->id) ex_fail("obj-id", "object %s reports another handle", h->name);
    if (h->meta && g->meta_id != h->meta) ex_fail("obj-meta", "object %s changed its ID", h->name);
    h->meta = g->meta_id;
    if (!dims_eq(&h->p, g->obj_pt->ndim, g->obj_pt->dims)) ex_fail("obj-dims", "object %s has %d dimensions of %d..., created with %d of %d...", h->name, (int)g->obj_pt->ndim, g->obj_pt->ndim ? (int)g->obj_pt->dims[0] : -1, h->p.ndim, (int)h->p.dims[0]);
    if ((int)g->obj_pt->type != h->p.type) ex_fail("obj-type", "object %s has type %d, created with %d", h->name, g->obj_pt->type, h->p.type);
    if ((int)g->obj_pt->region_partition != h->p.part) ex_fail("obj-partition", "object %s has partition %d, created with %d", h->name, g->obj_pt->region_partition, h->p.part);
    if ((int)g->obj_pt->consistency != h->p.cons) ex_fail("obj-consistency", "object %s has consistency %d, created with %d", h->name, g->obj_pt->consistency, h->p.cons);
    int nd = -1; uint64_t *d = NULL;
    if (PDCobj_get_dims(h->id, &nd, &d) < 0 || !dims_eq(&h->p, nd, d)) ex_fail("obj-get-dims", "PDCobj_get_dims of object %s is wrong", h->name);
    free(d);
    void **b = PDCobj_buf_retrieve(h->id);
    if (!b || *b != h->p.buf) ex_fail("obj-buf", "object %s has another buffer", h->name);
    struct _pdc_obj_info *q = PDC_obj_get_info(h->id);
    if (!q || q->obj_info_pub->local_id != h->id || strcmp(nz(q->obj_info_pub->name), h->name)) ex_fail("obj-info", "object %s cannot be read", h->name);
    if (q->obj_pt->buf != h->p.buf) ex_fail("obj-buf", "object %s reports another buffer", h->name);
    if (q->obj_pt->user_id != h->p.user || q->obj_pt->time_step != h->p.step) ex_fail("obj-props", "object %s has user %u and time step %u, created with %u and %u", h->name, q->obj_pt->user_id, q->obj_pt->time_step, h->p.user, h->p.step);
    if (strcmp(nz(q->obj_pt->app_name), h->p.app) && (h->p.app[0] || strcmp(nz(q->obj_pt->app_name), "Noname"))) ex_fail("obj-props", "object %s has application %s, created with %s", h->name, nz(q->obj_pt->app_name), h->p.app);
    if (!dims_eq(&h->p, q->obj_pt->obj_prop_pub->ndim, q->obj_pt->obj_prop_pub->dims)) ex_fail("obj-dims", "object %s reports other dimensions", h->name);
    PDC_free_obj_info(q);
    free(g->name); free(g->obj_pt->dims); free(g->obj_pt); free(g);
}
static int err_ptr(void *p) { return p == NULL; }
static void check_dead(pdcid_t id, int kind)
{
    for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) if (H[k][s].live && H[k][s].id == id) ex_fail("reuse", "a closed handle was handed out again");
    if (kind == KOP && !err_ptr(PDCobj_prop_get_info(id))) ex_fail("dead", "a closed object property is still accepted");
    if (kind == KCP && !err_ptr(PDCcont_prop_get_info(id))) ex_fail("dead", "a closed container property is still accepted");
    if (kind == KO && !err_ptr(PDCobj_get_info(id))) ex_fail("dead", "a closed object is still accepted");
    if (kind == KR && !err_ptr(PDCregion_get_info(id))) ex_fail("dead", "a closed region is still accepted");
    if (kind == KC && PDCcont_persist(id) >= 0) ex_fail("dead", "a closed container is still accepted");
    if (kind == KT) { pdc_transfer_status_t st; if (PDCregion_transfer_status(id, &st) >= 0) ex_fail("dead", "a closed transfer is still accepted"); }
}
/* many other handles, all of which must stay what they are: properties, regions, containers, and objects of the first of them */
static pdcid_t fh[4][300]; static int nfill;
static int fdead(int i) { return i % 3 == 1; } /* these are closed again at once */
static void fill(int n)
{
    char nm[32];
    nfill = n;
    if (n) ex_note("%d more handles of each kind, a third of them closed again", n);
    for (int i = 0; i < n; i++) {
        uint64_t off = 1000 + i, sz = i + 1, dim = 5 + i;
        fh[0][i] = PDCprop_create(PDC_OBJ_CREATE, pdc);
        PDCprop_set_obj_dims(fh[0][i], 1, &dim); PDCprop_set_obj_type(fh[0][i], PDC_INT); PDCprop_set_obj_user_id(fh[0][i], i);
        fh[1][i] = PDCregion_create(1, &off, &sz);
        sprintf(nm, "fc%d", i); fh[2][i] = PDCcont_create(nm, H[KCP][0].id);
        sprintf(nm, "fo%d", i); fh[3][i] = PDCobj_create(fh[2][0], nm, fh[0][i]);
        for (int k = 0; k < 4; k++) if (!fh[k][i]) ex_fail("create", "a handle cannot be created after %d of its kind", i);
    }
    for (int i = 0; i < n; i++) if (fdead(i))
        if (PDCprop_close(fh[0][i]) < 0 || PDCregion_close(fh[1][i]) < 0 || PDCcont_close(fh[2][i]) < 0 || PDCobj_close(fh[3][i]) < 0) ex_fail("close", "handles %d of many cannot be closed", i);
    if (n) ex_step();
}
static int fname(const char *s, char c) { int i; char x; return nfill && sscanf(s, "f%c%d", &x, &i) == 2 && x == c && i >= 0 && i < nfill && !fdead(i) ? i : -1; }
static void fcheck(void)
{
    for (int i = 0; i < nfill; i++) {
        char nm[32];
        if (fdead(i)) {
            check_dead(fh[0][i], KOP); check_dead(fh[1][i], KR); check_dead(fh[2][i], KC); check_dead(fh[3][i], KO);
            continue;
        }
        struct _pdc_obj_prop *q = PDC_obj_prop_get_info(fh[0][i]);
        if (!q || (int)q->user_id != i || q->obj_prop_pub->ndim != 1 || q->obj_prop_pub->dims[0] != 5 + i) ex_fail("prop-info", "object property %d of many is wrong", i);
        PDC_obj_prop_free(q);
        struct pdc_region_info *r = PDCregion_get_info(fh[1][i]);
        if (!r || r->offset[0] != 1000 + i || r->size[0] != 1 + i) ex_fail("region", "region %d of many is wrong", i);
        struct pdc_obj_info *g = PDCobj_get_info(fh[3][i]);
        sprintf(nm, "fo%d", i);
        if (!g || strcmp(nz(g->name), nm) || g->obj_pt->dims[0] != 5 + i) ex_fail("obj-info", "object %d of many is wrong", i);
        free(g->name); free(g->obj_pt->dims); free(g->obj_pt); free(g);
        for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) for (int f = 0; f < 4; f++) if (H[k][s].live && H[k][s].id == fh[f][i]) ex_fail("unique", "two live handles are equal");
    }
    if (!nfill) return;
    char os[300] = {0}; int n = 0;
    for (obj_handle *it = PDCobj_iter_start(fh[2][0]); !PDCobj_iter_null(it); it = PDCobj_iter_next(it, fh[2][0])) {
        struct pdc_obj_info *g = PDCobj_iter_get_info(it); int i = fname(nz(g->name), 'o');
        if (++n > 400) ex_fail("obj-iter-end", "the object iterator does not end");
        if (i < 0 || os[i]++) ex_fail("obj-iter", "the iterator of a container of many objects visits %s wrongly", nz(g->name));
        free(g->obj_pt->dims); free(g->obj_pt); free(g);
    }
    for (int i = 0; i < nfill; i++) if (!fdead(i) && !os[i]) ex_fail("obj-iter-miss", "the iterator of a container of many objects misses object %d", i);
}
static void audit(void)
{
    fcheck();
    for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) {
        struct h *h = &H[k][s];
        if (!h->live) continue;
        for (int k2 = 0; k2 < NKIND; k2++) for (int s2 = 0; s2 < NS; s2++) if ((k2 != k || s2 != s) && H[k2][s2].live && H[k2][s2].id == h->id) ex_fail("unique", "two live handles are equal");
        if (k == KOP) check_prop(s);
        if (k == KO) check_obj(s);
        if (k == KCP) {
            struct _pdc_cont_prop *g = PDCcont_prop_get_info(h->id);
            if (!g || g->cont_prop_id != h->id || (int)g->cont_life != h->life) ex_fail("contprop", "container property %d is wrong", s);
            free(g->pdc); free(g);
        }
        if (k == KR) {
            struct pdc_region_info *g = PDCregion_get_info(h->id);
            if (!g || (int)g->ndim != h->nd || g->local_id != h->id) ex_fail("region", "region %d is wrong", s);
            for (int i = 0; i < h->nd; i++) if (g->offset[i] != h->off[i] || g->size[i] != h->sz[i]) ex_fail("region", "region %d has another extent", s);
        }
    }
    for (int i = 0; i < ndead; i++) check_dead(dead[i], deadk[i]);
    /* iterators */
    int seen[NS] = {0}, n = 0; char fs[300] = {0};
    for (cont_handle *it = PDCcont_iter_start(); !PDCcont_iter_null(it); it = PDCcont_iter_next(it)) {
        struct pdc_cont_info *g = PDCcont_iter_get_info(it); int s;
        if (++n > 20 + nfill) ex_fail("cont-iter-end", "the container iterator does not end");
        if ((s = fname(g->name, 'c')) >= 0) { if (fs[s]++) ex_fail("cont-iter", "the container iterator visits %s twice", g->name); continue; }
        for (s = 0; s < NS; s++) if (H[KC][s].live && H[KC][s].id == g->local_id) break;
        if (s == NS || seen[s]++ || strcmp(g->name, H[KC][s].name)) ex_fail("cont-iter", "the container iterator visits %s wrongly", g->name);
    }
    for (int i = 0; i < nfill; i++) if (!fdead(i) && !fs[i]) ex_fail("cont-iter-miss", "the container iterator misses fc%d", i);
    for (int s = 0; s < NS; s++) if (H[KC][s].live && !seen[s]) ex_fail("cont-iter-miss", "the container iterator misses %s", H[KC][s].name);
    for (int c = 0; c < NS; c++) if (H[KC][c].live) {
        int os[NS] = {0}; n = 0;
        for (obj_handle *it = PDCobj_iter_start(H[KC][c].id); !PDCobj_iter_null(it); it = PDCobj_iter_next(it, H[KC][c].id)) {
            struct pdc_obj_info *g = PDCobj_iter_get_info(it); int s;
            if (++n > 20) ex_fail("obj-iter-end", "the object iterator does not end");
            for (s = 0; s < NS; s++) if (H[KO][s].live && H[KO][s].id == g->local_id) break;
            if (s == NS || os[s]++ || H[KO][s].c != c) ex_fail("obj-iter", "the iterator of container %s visits object %s", H[KC][c].name, nz(g->name));
            free(g->obj_pt->dims); free(g->obj_pt); free(g);
        }
        for (int s = 0; s < NS; s++) if (H[KO][s].live && H[KO][s].c == c && !os[s]) ex_fail("obj-iter-miss", "the iterator of container %s misses object %s", H[KC][c].name, H[KO][s].name);
    }
}
static int slot(int k) { for (int s = 0; s < ex_iparam("slots", 2); s++) if (!H[k][s].live) return s; return -1; }
static int any(int k) { for (int s = NS; s--; ) if (H[k][s].live) return s; return -1; }
static void born(int k, int s, pdcid_t id) { if (!id) ex_fail("create", "a %s cannot be created", KN[k]); H[k][s].id = id; H[k][s].live = 1; ex_step(); }
static void fresh_prop(struct prop *p) { memset(p, 0, sizeof *p); p->type = PDC_UNKNOWN; p->part = PDC_REGION_STATIC; p->cons = PDC_CONSISTENCY_EVENTUAL; }
static void new_cp(void) { int s = slot(KCP); if (s < 0) return; ex_note("create container property %d", s); born(KCP, s, PDCprop_create(PDC_CONT_CREATE, pdc)); H[KCP][s].life = PDC_PERSIST; }
static void new_op(void) { int s = slot(KOP); if (s < 0) return; ex_note("create object property %d", s); born(KOP, s, PDCprop_create(PDC_OBJ_CREATE, pdc)); fresh_prop(&H[KOP][s].p); }
static void dup_op(int from) { int s = slot(KOP); if (s < 0 || !H[KOP][from].live) return; ex_note("duplicate object property %d as %d", from, s); born(KOP, s, PDCprop_obj_dup(H[KOP][from].id)); H[KOP][s].p = H[KOP][from].p; H[KOP][s].p.loc[0] = 0; H[KOP][s].p.buf = NULL; }
static void new_cont(void) { int s = slot(KC), p = any(KCP); if (s < 0 || p < 0) return; sprintf(H[KC][s].name, "c%d", seq++); ex_note("create container %s", H[KC][s].name); born(KC, s, PDCcont_create(H[KC][s].name, H[KCP][p].id)); }
static void new_obj(int c) { int s = slot(KO), p = any(KOP); if (s < 0 || p < 0 || !H[KC][c].live) return; sprintf(H[KO][s].name, "o%d", seq++); H[KO][s].p = H[KOP][p].p; H[KO][s].c = c; H[KO][s].meta = 0; ex_note("create object %s in %s from property %d", H[KO][s].name, H[KC][c].name, p); born(KO, s, PDCobj_create(H[KC][c].id, H[KO][s].name, H[KOP][p].id)); }
static void open_obj(void) { int s = slot(KO), o = any(KO); if (s < 0 || o < 0) return; H[KO][s] = H[KO][o]; H[KO][s].p.buf = NULL; ex_note("open object %s again", H[KO][o].name); born(KO, s, PDCobj_open(H[KO][o].name, pdc)); H[KO][s].c = -1; }
static void new_reg(void) { int s = slot(KR); if (s < 0) return; H[KR][s].nd = 1 + seq % 3; for (int i = 0; i < 3; i++) { H[KR][s].off[i] = seq + i; H[KR][s].sz[i] = 1 + i; } seq++; ex_note("create region %d", s); born(KR, s, PDCregion_create(H[KR][s].nd, H[KR][s].off, H[KR][s].sz)); }
static void new_tr(void)
{
    int s = slot(KT), o = any(KO); uint64_t z = 0, one = 1;
    if (s < 0 || o < 0 || H[KO][o].p.ndim != 1) return;
    pdcid_t l = PDCregion_create(1, &z, &one), r = PDCregion_create(1, &z, &one);
    ex_note("create transfer %d on %s", s, H[KO][o].name);
    born(KT, s, PDCregion_transfer_create(buf, PDC_WRITE, H[KO][o].id, l, r));
    H[KT][s].c = o;
    PDCregion_close(l); PDCregion_close(r);
}
static void kill_h(int k, int s)
{
    if (!H[k][s].live) return;
    if (k == KO) for (int t = 0; t < NS; t++) if (H[KT][t].live && H[KT][t].c == s) kill_h(KT, t); /* a transfer does not outlive its object handle */
    if (k == KC) for (int o = 0; o < NS; o++) if (H[KO][o].c == s) H[KO][o].c = -1;
    ex_note("close %s %d", KN[k], s);
    perr_t r = k == KCP || k == KOP ? PDCprop_close(H[k][s].id) : k == KC ? PDCcont_close(H[k][s].id) : k == KO ? PDCobj_close(H[k][s].id) : k == KR ? PDCregion_close(H[k][s].id) : PDCregion_transfer_close(H[k][s].id);
    if (r < 0) ex_fail("close", "%s %d cannot be closed", KN[k], s);
    dead[ndead] = H[k][s].id; deadk[ndead++] = k;
    H[k][s].live = 0; ex_step();
}
static const uint64_t DIMS[][3] = {{4}, {3, 2}, {2, 5, 7}};
static void set(int p, int a, int v)
{
    if (!H[KOP][p].live) return;
    struct prop *m = &H[KOP][p].p; pdcid_t id = H[KOP][p].id; perr_t r = 0; char t[40]; sprintf(t, v ? "%c%d, a longer value than the first" : "%c%d", 'a' + a, v); /* both from short to long and back */
    ex_note("property %d: set attribute %d to value %d", p, a, v);
    switch (a) {
        case 0: { uint64_t d[3]; memcpy(d, DIMS[v], sizeof d); r = PDCprop_set_obj_dims(id, v + 1, d); m->ndim = v + 1; memcpy(m->dims, d, sizeof d); d[0] = 99; break; }
        case 1: r = PDCprop_set_obj_type(id, v ? PDC_DOUBLE : PDC_INT); m->type = v ? PDC_DOUBLE : PDC_INT; break;
        case 2: r = PDCprop_set_obj_transfer_region_type(id, v ? PDC_REGION_DYNAMIC : PDC_OBJ_STATIC); m->part = v ? PDC_REGION_DYNAMIC : PDC_OBJ_STATIC; break;
        case 3: r = PDCprop_set_obj_consistency_semantics(id, v ? PDC_CONSISTENCY_POSIX : PDC_CONSISTENCY_COMMIT); m->cons = v ? PDC_CONSISTENCY_POSIX : PDC_CONSISTENCY_COMMIT; break;
        case 4: r = PDCprop_set_obj_user_id(id, 7 + v); m->user = 7 + v; break;
        case 5: r = PDCprop_set_obj_time_step(id, 3 + v); m->step = 3 + v; break;
        case 6: r = PDCprop_set_obj_app_name(id, t); strcpy(m->app, t); break;
        case 7: r = PDCprop_set_obj_data_loc(id, t); strcpy(m->loc, t); break;
        case 9: r = PDCprop_set_obj_buf(id, &buf[v]); m->buf = &buf[v]; break;
        case 8: r = PDCprop_set_obj_tags(id, t); strcpy(m->tags, t); break;
    }
    if (r < 0) ex_fail("set", "the setter failed");
    ex_step();
}
static int alt(const char *mode, int pick)
{
    int n = 0;
#define ALT(C, X) do { if ((C) && n++ == pick) { X; return 0; } } while (0)
    if (!strcmp(mode, "life")) {
        ALT(slot(KCP) >= 0, new_cp()); ALT(slot(KOP) >= 0, new_op());
        for (int s = 0; s < NS; s++) ALT(slot(KOP) >= 0 && H[KOP][s].live, dup_op(s));
        ALT(slot(KC) >= 0 && any(KCP) >= 0, new_cont());
        for (int s = 0; s < NS; s++) ALT(slot(KO) >= 0 && any(KOP) >= 0 && H[KC][s].live, new_obj(s));
        ALT(slot(KO) >= 0 && any(KO) >= 0, open_obj()); ALT(slot(KR) >= 0, new_reg());
        ALT(slot(KT) >= 0 && any(KO) >= 0 && H[KO][any(KO)].p.ndim == 1, new_tr());
        for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) ALT(H[k][s].live, kill_h(k, s));
    }
    else {
        ALT(slot(KOP) >= 0, new_op());
        for (int s = 0; s < 2; s++) ALT(slot(KOP) >= 0 && H[KOP][s].live, dup_op(s));
        ALT(slot(KO) >= 0 && any(KOP) >= 0, new_obj(0));
        for (int s = 0; s < 2; s++) ALT(H[KOP][s].live, kill_h(KOP, s));
        for (int p = 0; p < ex_iparam("props", 2); p++) for (int a = 0; a < 10; a++) for (int v = 0; v < (a ? 2 : 3); v++) ALT(H[KOP][p].live, set(p, a, v));
    }
    return n;
}
#define GOOD(K) (H[K][0].id)
#define NF 61
static void bad(void)
{
    static const char *what[] = {"closed", "zero", "never issued", "of no kind", "all ones"};
    pdcid_t cp = H[KCP][0].id, op = H[KOP][0].id, c = H[KC][0].id, o = H[KO][0].id, r = H[KR][0].id, x; (void)cp;
    int f = ex_iparam("f", -1) >= 0 ? ex_iparam("f", 0) : ex_choose(NF, "function"), w = ex_choose(5, "invalid handle");
    int kind = f < 11 || (f > 54 && f < 58) || f == 59 ? KOP : f < 15 ? KCP : f < 22 ? KC : f < 33 ? KO : f < 41 ? KR : f < 47 ? KT : f < 50 ? KC : f < 54 || f == 58 ? KO : f == 60 ? KC : KCP;
    pdcid_t tmpl = H[kind][0].id;
    if (w == 0) {
        /* open one more of that kind and close it */
        if (kind == KCP) { x = PDCprop_create(PDC_CONT_CREATE, pdc); PDCprop_close(x); }
        else if (kind == KOP) { x = PDCprop_create(PDC_OBJ_CREATE, pdc); PDCprop_close(x); }
        else if (kind == KC) { x = PDCcont_open(H[KC][0].name, pdc); PDCcont_close(x); }
        else if (kind == KO) { x = PDCobj_open(H[KO][0].name, pdc); PDCobj_close(x); }
        else if (kind == KR) { x = PDCregion_create(1, H[KR][0].off, H[KR][0].sz); PDCregion_close(x); }
        else { x = PDCregion_transfer_create(buf, PDC_WRITE, o, r, r); PDCregion_transfer_close(x); }
    }
    else x = w == 1 ? 0 : w == 2 ? tmpl + 1000 : w == 3 ? (pdcid_t)77 << 55 : ~(pdcid_t)0;
    ex_note("function %d with a handle that is %s (%s)", f, what[w], KN[kind]);
    int ok = 1, nd = 0, v = 1; uint64_t d[1] = {4}, *pd = NULL; void *pv = NULL; pdc_var_type_t ty; psize_t vs; pdc_transfer_status_t st;
    pdcid_t two[2];
#define ISERR(E) ok = (E) < 0
#define ISZERO(E) ok = (E) == 0
#define ISNULL(E) ok = (E) == NULL
    switch (f) {
        case 0: ISERR(PDCprop_close(x)); break;
        case 1: ISZERO(PDCprop_obj_dup(x)); break;
        case 2: ISNULL(PDCobj_prop_get_info(x)); break;
        case 3: ISERR(PDCprop_set_obj_dims(x, 1, d)); break;
        case 4: ISERR(PDCprop_set_obj_type(x, PDC_INT)); break;
        case 5: ISERR(PDCprop_set_obj_user_id(x, 1)); break;
        case 6: ISERR(PDCprop_set_obj_time_step(x, 1)); break;
        case 7: ISERR(PDCprop_set_obj_app_name(x, "a")); break;
        case 8: ISERR(PDCprop_set_obj_transfer_region_type(x, PDC_OBJ_STATIC)); break;
        case 9: ISERR(PDCprop_set_obj_buf(x, buf)); break;
        case 10: ISZERO(PDCobj_create(c, "badprop", x)); break;
        case 11: ISERR(PDCprop_close(x)); break;
        case 12: ISNULL(PDCcont_prop_get_info(x)); break;
        case 13: ISERR(PDCprop_set_cont_lifetime(x, PDC_TRANSIENT)); break;
        case 14: ISZERO(PDCcont_create("badprop", x)); break;
        case 15: ISERR(PDCcont_close(x)); break;
        case 16: ISERR(PDCcont_persist(x)); break;
        case 17: ISZERO(PDCobj_create(x, "badcont", op)); break;
        case 18: ISERR(PDCcont_put_tag(x, "k", &v, PDC_INT, sizeof v)); break;
        case 19: ISERR(PDCcont_get_tag(x, "k", &pv, &ty, &vs)); break;
        case 20: ISERR(PDCcont_del_tag(x, "k")); break;
        case 21: ISERR(PDCcont_del(x)); break;
        case 22: ISERR(PDCobj_close(x)); break;
        case 23: ISNULL(PDCobj_get_info(x)); break;
        case 24: ISERR(PDCobj_set_dims(x, 1, d)); break;
        case 25: ISERR(PDCobj_get_dims(x, &nd, &pd)); break;
        case 26: ISNULL(PDCobj_buf_retrieve(x)); break;
        case 27: ISERR(PDCobj_put_tag(x, "k", &v, PDC_INT, sizeof v)); break;
        case 28: ISERR(PDCobj_get_tag(x, "k", &pv, &ty, &vs)); break;
        case 29: ISERR(PDCobj_del_tag(x, "k")); break;
        case 30: ISERR(PDCobj_del(x)); break;
        case 31: ISZERO(PDCregion_transfer_create(buf, PDC_WRITE, x, r, r)); break;
        case 32: ISERR(PDCreg_obtain_lock(x, r, PDC_WRITE, PDC_NOBLOCK)); break;
        case 33: ISERR(PDCregion_close(x)); break;
        case 34: ISNULL(PDCregion_get_info(x)); break;
        case 35: ISZERO(PDCregion_transfer_create(buf, PDC_WRITE, o, x, r)); break;
        case 36: ISZERO(PDCregion_transfer_create(buf, PDC_WRITE, o, r, x)); break;
        case 37: ISERR(PDCbuf_obj_map(buf, PDC_INT, x, o, r)); break;
        case 38: ISERR(PDCbuf_obj_map(buf, PDC_INT, r, o, x)); break;
        case 39: ISERR(PDCreg_obtain_lock(o, x, PDC_WRITE, PDC_NOBLOCK)); break;
        case 40: ISERR(PDCreg_release_lock(o, x, PDC_WRITE)); break;
        case 41: ISERR(PDCregion_transfer_start(x)); break;
        case 42: ISERR(PDCregion_transfer_wait(x)); break;
        case 43: ISERR(PDCregion_transfer_status(x, &st)); break;
        case 44: ISERR(PDCregion_transfer_close(x)); break;
        case 45: two[0] = H[KT][0].id; two[1] = x; ISERR(PDCregion_transfer_start_all(two, 2)); break;
        case 46: two[0] = H[KT][0].id; two[1] = x; PDCregion_transfer_start(two[0]); ISERR(PDCregion_transfer_wait_all(two, 2)); PDCregion_transfer_wait(two[0]); break;
        case 47: two[0] = o; ISERR(PDCcont_put_objids(x, 1, two)); break;
        case 48: two[0] = o; ISERR(PDCcont_del_objids(x, 1, two)); break;
        case 49: ISZERO(PDCobj_put_data("baddata", buf, 8, x)); break;
        case 50: two[0] = o; two[1] = x; ISERR(PDCcont_put_objids(c, 2, two)); break;
        case 51: two[0] = o; two[1] = x; ISERR(PDCcont_del_objids(c, 2, two)); break;
        case 52: ISERR(PDCobj_get_data(x, buf, 8)); break;
        case 53: ISERR(PDCreg_release_lock(x, r, PDC_WRITE)); break;
        case 54: ISZERO(PDCcont_create_col("badprop", x)); break;
        case 55: ISERR(PDCprop_set_obj_consistency_semantics(x, PDC_CONSISTENCY_POSIX)); break;
        case 56: ISERR(PDCprop_set_obj_tags(x, "t")); break;
        case 57: ISERR(PDCprop_set_obj_data_loc(x, "l")); break;
        case 58: ISERR(PDCobj_flush_start(x)); break;
        case 59: ISZERO(PDCobj_create_mpi(c, "badprop", x, 0, MPI_COMM_WORLD)); break;
        case 60: ISZERO(PDCobj_create_mpi(x, "badcont", op, 0, MPI_COMM_WORLD)); break;
    }
    ex_step();
    if (!ok) ex_fail("accepted", "function %d accepts a handle that is %s", f, what[w]);
    /* the valid handles still work */
    if (PDCobj_put_tag(o, "k", &v, PDC_INT, sizeof v) < 0 || PDCobj_get_tag(o, "k", &pv, &ty, &vs) < 0 || *(int *)pv != v) ex_fail("after", "tags do not work after function %d was refused", f);
    buf[0] = 4711;
    if (f != 46) { if (PDCregion_transfer_start(H[KT][0].id) < 0 || PDCregion_transfer_wait(H[KT][0].id) < 0) ex_fail("after", "the transfer does not work after function %d was refused", f); }
    else { PDCregion_transfer_close(H[KT][0].id); H[KT][0].live = 0; }
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); }
void driver_main(struct drv *d)
{
    const char *mode = ex_param("mode", "life"); (void)d;
    pdc = PDCinit("pdc");
    if (!strcmp(mode, "prop") || ex_iparam("warm", 0)) { new_cp(); new_cont(); new_op(); set(0, 0, 0); set(0, 1, 0); set(0, 4, 0); }
    if (ex_iparam("fill", 0)) fill(ex_iparam("fill", 0));
    if (ex_iparam("warm", 0)) { new_cont(); new_obj(0); new_obj(1); new_reg(); new_tr(); }
    if (!strcmp(mode, "bad")) { new_cp(); new_op(); set(0, 0, 0); set(0, 1, 0); set(0, 4, 0); new_cont(); new_obj(0); H[KR][0].nd = 1; H[KR][0].off[0] = 0; H[KR][0].sz[0] = 1; born(KR, 0, PDCregion_create(1, H[KR][0].off, H[KR][0].sz)); new_tr(); audit(); bad(); }
    else for (int i = 0, n = ex_iparam("depth", 3); i < n; i++) {
        { int k = alt(mode, -1); if (k) alt(mode, ex_choose(k, "op")); }
        if (i + 1 == n || ex_iparam("each", 0)) audit();
    }
    audit();
    uint64_t h = 3; for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) { h = ex_hash(h, &H[k][s].live, sizeof(int)); if (H[k][s].live) h = ex_hash(h, &H[k][s].p, sizeof(struct prop)); }
    for (int k = 0; k < NKIND; k++) for (int s = 0; s < NS; s++) if (H[k][s].live) { ex_nontrivial(); k = NKIND - 1; break; } /* something was there to be audited */
    ex_state(h);
    PDCclose(pdc);
}
