/* Objects, containers and tags against a reference model; operations are taken in turn by `nc` clients.
 *
 * mode=obj  : create / delete (by handle, by name) / set_dims of objects in containers
 * mode=tag  : put / delete tags of objects and containers (some of which share names or name hashes), delete an object
 * mode=cont : create / delete containers, add / remove members
 * After every sequence all clients audit every name; with restart=1 they do it again after the servers were restarted.
 */
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_interface.h"

#define NN 4
#define NK 3
static const char *NAME[NN] = {"ab", "bA", "q", "r"}; /* "ab" and "bA" have the same hash */
static const char *CN[NN] = {"ab", "c2", "q", "d"};  /* containers share names (and hashes) with objects, not hashes with each other */
static const char *KEY[NK] = {"k", "k2", "color"};
static const char LONG1[] = "this is the name of an object, of a container and of a tag, and it has more than one hundred characters (no. ab)",
                  LONG2[] = "this is the name of an object, of a container and of a tag, and it has more than one hundred characters (no. bA)";
struct val { pdc_var_type_t t; int n; const void *p; };
static const int32_t I1[] = {7}, I2[] = {7, 9};
static const double D1[] = {2.5};
static const float F1[] = {-1.5f, 0};
static const int64_t L1[] = {1ll << 40};
static char BIGS[5001]; static int BIGI[1500]; /* filled at start */
static const struct val V[] = {{PDC_STRING, 4, "red"}, {PDC_INT, 4, I1}, {PDC_DOUBLE, 8, D1}, {PDC_INT, 8, I2}, {PDC_STRING, 7, "redder"},
    {PDC_FLOAT, 8, F1}, {PDC_INT64, 8, L1}, {PDC_STRING, sizeof BIGS, BIGS}, {PDC_INT, sizeof BIGI, BIGI}, {PDC_CHAR, 3, "abc"}, {PDC_STRING, 1, ""}};
static int nv, v0, p0;
struct prop { int nd; uint64_t d[4]; pdc_var_type_t t; int part, cons; uint32_t user, ts; const char *app, *tags; };
static const struct prop P[] = {
    {1, {4}, PDC_INT, PDC_REGION_STATIC, PDC_CONSISTENCY_EVENTUAL, 5, 0, "vpic", "t1"},
    {2, {2, 3}, PDC_DOUBLE, PDC_OBJ_STATIC, PDC_CONSISTENCY_POSIX, 5, 0, "vpic", "t2;t1"},
    {3, {2, 3, 4}, PDC_CHAR, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_EVENTUAL, 6, 1, "hacc", NULL},
    {4, {5000000007, 1, 70000, 3}, PDC_FLOAT, PDC_REGION_LOCAL, PDC_CONSISTENCY_SESSION, 4000000001u, 0, "an application with a name that is rather long, 64 characters", "a tag that is longer than all others"},
    {3, {4294967296, 4294967297, 2}, PDC_UINT64, PDC_REGION_DYNAMIC, PDC_CONSISTENCY_COMMIT, 0, 1, "x", "t"},
};
struct obj { int live, v; uint64_t cont, id, d[4]; int tag[NK], nx, app; char xt[32]; }; /* app: index of the application it was moved to; xt: text tags added */
static const char *APP[] = {NULL, "hacc", "moved to another application", "y"};
#define XTMAX 9 /* tag: 1 + index in V */
struct con { int live; uint64_t id; int tag[NK], nx; }; /* nx: number of extra tags */
#define NF 300
#define NST 150
struct fill { uint64_t id, cont; int v, tag; };
struct model {
    struct obj o[NN][2]; /* by name and time step */
    struct con c[NN];
    struct fill f[NF]; int nf, nfc; uint64_t fc[NF];
    struct { int live, v; uint64_t id; } st[NST + 1]; /* NAME[0] at time steps 10, 11, ... (fillts of them, and one more) */
    uint64_t ids[1000]; int nids;
    uint64_t seen[1000]; int nseen;
    struct { int op, a, b, c, who; } cur;
};
static struct model *M;
static int me, nn, nnc, keep;
static pdcid_t pdc, kept[NN], cont[NN], cont_prop;
static uint64_t contid[NN]; /* which container this client's handle is for (another client may have deleted and recreated it) */

static void newid(uint64_t id, const char *what)
{
    if (!id) ex_fail("zero-id", "%s was given ID 0", what);
    for (int i = 0; i < M->nids; i++) if (M->ids[i] == id) ex_fail("duplicate-id", "%s was given ID %lu, which is the ID of another object or container", what, id);
    M->ids[M->nids++] = id;
}
static pdcid_t mkprop(int v)
{
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    uint64_t d[4]; memcpy(d, P[v].d, sizeof d);
    PDCprop_set_obj_dims(p, P[v].nd, d);
    PDCprop_set_obj_type(p, P[v].t);
    PDCprop_set_obj_transfer_region_type(p, P[v].part);
    PDCprop_set_obj_consistency_semantics(p, P[v].cons);
    PDCprop_set_obj_user_id(p, P[v].user);
    PDCprop_set_obj_time_step(p, P[v].ts);
    PDCprop_set_obj_app_name(p, (char *)P[v].app);
    if (P[v].tags) PDCprop_set_obj_tags(p, (char *)P[v].tags);
    return p;
}
/* many time steps of one name */
static int nst;
static pdcid_t steph[NST + 1];
static int open_cont(int n);
static int stepi(int x) { return x == 0 ? 0 : x == 1 ? nst / 2 : x == 2 ? nst - 1 : nst; }
static void create_step(int i, int other)
{
    pdcid_t p = mkprop((i + other) % 2);
    PDCprop_set_obj_time_step(p, 10 + i);
    if (!M->c[0].live || !cont[0]) return;
    ex_note("client %d: create object %s at time step %d", me, NAME[0], 10 + i);
    pdcid_t h = PDCobj_create(cont[0], NAME[0], p);
    PDCprop_close(p);
    if (M->st[i].live) { if (h) ex_fail("create-twice", "creating object %s at time step %d, which exists, succeeded", NAME[0], 10 + i); return; }
    if (!h) ex_fail("create", "object %s cannot be created at time step %d", NAME[0], 10 + i);
    M->st[i].live = 1; M->st[i].v = (i + other) % 2;
    newid(M->st[i].id = PDCobj_get_info(h)->meta_id, NAME[0]);
    if (i == stepi(0) || i == stepi(1) || i == stepi(2) || i == stepi(3)) { if (steph[i]) PDCobj_close(steph[i]); steph[i] = h; }
    else PDCobj_close(h);
}
static void delete_step(int i, int byname)
{
    if (byname) {
        pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
        PDCprop_set_obj_time_step(p, 10 + i);
        ex_note("client %d: delete object by name %s at time step %d", me, NAME[0], 10 + i);
        PDC_Client_delete_metadata((char *)NAME[0], p);
        PDCprop_close(p);
        M->st[i].live = 0;
        return;
    }
    if (!steph[i]) return;
    ex_note("client %d: delete object %s at time step %d", me, NAME[0], 10 + i);
    int mine = M->st[i].live && PDCobj_get_info(steph[i])->meta_id == M->st[i].id;
    perr_t r = PDCobj_del(steph[i]);
    if (mine && r < 0) ex_fail("delete", "object %s cannot be deleted at time step %d", NAME[0], 10 + i);
    if (!mine && r >= 0) ex_fail("delete-twice", "deleting object %s at time step %d, which is deleted already, succeeded", NAME[0], 10 + i);
    if (mine) M->st[i].live = 0;
    PDCobj_close(steph[i]); steph[i] = 0;
}
static void audit_steps(void)
{
    for (int i = 0; i <= (nst ? nst : -1); i++) {
        pdc_metadata_t *m = NULL; uint32_t sid;
        perr_t r = PDC_Client_query_metadata_name_timestep(NAME[0], 10 + i, &m, &sid);
        if (!M->st[i].live) { if (r >= 0 && m && m->obj_id) ex_fail("query-deleted", "object %s at time step %d does not exist but its metadata was found", NAME[0], 10 + i); continue; }
        if (r < 0 || !m || m->obj_id != M->st[i].id || m->time_step != 10 + i || (int)m->ndim != P[M->st[i].v].nd || m->data_type != P[M->st[i].v].t || (int)m->user_id != (int)P[M->st[i].v].user)
            ex_fail("query-name", "metadata of %s at time step %d not found or wrong", NAME[0], 10 + i);
        free(m);
        ex_nontrivial();
    }
    /* none of them can be created again */
    if (open_cont(0)) for (int i = 0; i <= (nst ? nst : -1); i++) if (M->st[i].live) create_step(i, i & 1);
}
static pdcid_t handle(int n, int *opened)
{
    *opened = 0;
    if (keep && kept[n]) return kept[n];
    *opened = 1;
    return PDCobj_open(NAME[n], pdc);
}
static void create_obj(int n, int v, int c)
{
    struct obj *o = &M->o[n][P[v].ts];
    if (o->live && o->app) return; /* another object: of the old application */
    pdcid_t p = mkprop(v);
    ex_note("client %d: create object %s (variant %d) in container %s", me, NAME[n], v, CN[c]);
    pdcid_t h = PDCobj_create(cont[c], NAME[n], p);
    PDCprop_close(p);
    if (o->live) {
        if (h) ex_fail("create-twice", "creating object %s, which exists, succeeded", NAME[n]);
        return;
    }
    if (!h) ex_fail("create", "object %s cannot be created", NAME[n]);
    struct pdc_obj_info *i = PDCobj_get_info(h);
    if (!i || strcmp(i->name, NAME[n])) ex_fail("info", "PDCobj_get_info of created object %s", NAME[n]);
    newid(i->meta_id, NAME[n]);
    memset(o, 0, sizeof *o);
    o->live = 1; o->v = v; o->id = i->meta_id; o->cont = contid[c]; memcpy(o->d, P[v].d, sizeof o->d);
    if (keep && P[v].ts == 0) { if (kept[n]) PDCobj_close(kept[n]); kept[n] = h; }
    else if (PDCobj_close(h) < 0) ex_fail("close", "closing object %s", NAME[n]);
}
static void del_obj(int n)
{
    struct obj *o = &M->o[n][0];
    int op; pdcid_t h = handle(n, &op);
    ex_note("client %d: delete object %s", me, NAME[n]);
    if (!h) { if (o->live) ex_fail("open", "object %s exists but cannot be opened", NAME[n]); return; }
    if (op && !o->live) ex_fail("open-deleted", "object %s does not exist but was opened", NAME[n]);
    struct pdc_obj_info *i = PDCobj_get_info(h);
    int mine = o->live && i->meta_id == o->id;
    perr_t r = PDCobj_del(h);
    if (mine && r < 0) ex_fail("delete", "object %s cannot be deleted", NAME[n]);
    if (!mine && r >= 0) ex_fail("delete-twice", "deleting object %s, which is deleted already, succeeded", NAME[n]);
    if (mine) o->live = 0;
    PDCobj_close(h);
    if (!op) kept[n] = 0;
}
static void delname_obj(int n)
{
    struct obj *o = &M->o[n][0];
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_time_step(p, 0);
    ex_note("client %d: delete object by name %s", me, NAME[n]);
    PDC_Client_delete_metadata((char *)NAME[n], p);
    o->live = 0;
    PDCprop_close(p);
}
static void setdims(int n, int x)
{
    struct obj *o = &M->o[n][0];
    int op; pdcid_t h = handle(n, &op);
    if (!h) { if (o->live) ex_fail("open", "object %s exists but cannot be opened", NAME[n]); return; }
    struct pdc_obj_info *i = PDCobj_get_info(h);
    int mine = o->live && i->meta_id == o->id, nd = P[o->v].nd;
    if (mine) {
        uint64_t d[4], *g; int gn;
        for (int k = 0; k < nd; k++) d[k] = P[o->v].d[k] + x + k;
        ex_note("client %d: set dims of %s", me, NAME[n]);
        for (int k = nd == 1 ? 2 : nd - 1; k <= nd + 1 && k <= 4; k += 2) { /* another number of dimensions is refused */
            uint64_t bad[4] = {71, 72, 73, 74}, *was; int wn;
            if (PDCobj_get_dims(h, &wn, &was) < 0 || wn != nd) ex_fail("get-dims", "dims of %s cannot be read", NAME[n]);
            if (PDCobj_set_dims(h, k, bad) >= 0) ex_fail("set-dims-number", "%s with %d dimensions is given %d", NAME[n], nd, k);
            if (PDCobj_get_dims(h, &gn, &g) < 0 || gn != nd || memcmp(g, was, nd * sizeof *d)) ex_fail("get-dims-refused", "setting dims of %s was refused but changed them", NAME[n]);
            free(g); free(was);
        }
        if (PDCobj_set_dims(h, nd, d) < 0) ex_fail("set-dims", "dims of %s cannot be set", NAME[n]);
        memcpy(o->d, d, nd * sizeof *d);
        if (PDCobj_get_dims(h, &gn, &g) < 0 || gn != nd || memcmp(g, d, nd * sizeof *d)) ex_fail("get-dims", "dims of %s read back differ from those just set", NAME[n]);
        free(g);
    }
    else if (!o->live) { /* the handle outlived the object */
        uint64_t bad[4] = {71, 72, 73, 74}, *g, *g2; int gn, gn2;
        if (PDCobj_get_dims(h, &gn, &g) < 0) ex_fail("get-dims", "dims of %s cannot be read", NAME[n]);
        ex_note("client %d: set dims of %s, which is deleted", me, NAME[n]);
        if (PDCobj_set_dims(h, gn, bad) >= 0) ex_fail("set-dims-deleted", "dims of %s, which is deleted, can be set", NAME[n]);
        if (PDCobj_get_dims(h, &gn2, &g2) < 0 || gn != gn2 || memcmp(g, g2, gn * sizeof *g)) ex_fail("get-dims-refused", "setting dims of %s, which is deleted, changed the handle", NAME[n]);
        free(g); free(g2);
    }
    if (op) PDCobj_close(h);
}
static void addtext(int n, int t)
{
    struct obj *o = &M->o[n][0];
    int op; pdcid_t h = handle(n, &op);
    if (!h) { if (o->live) ex_fail("open", "object %s exists but cannot be opened", NAME[n]); return; }
    int mine = o->live && PDCobj_get_info(h)->meta_id == o->id;
    if (strlen(o->xt) < XTMAX || !mine) {
        const char *x = t ? "t1" : "other";
        ex_note("client %d: add text tag %s to %s", me, x, NAME[n]);
        perr_t r = PDC_Client_add_tag(h, x);
        if (mine && r < 0) ex_fail("add-tag", "text tag cannot be added to %s", NAME[n]);
        if (!mine && r >= 0) ex_fail("add-tag-deleted", "a text tag was added to %s, which is deleted", NAME[n]);
        if (mine) { strcat(o->xt, ","); strcat(o->xt, x); }
    }
    if (op) PDCobj_close(h);
}
static void update(int n, int app)
{
    struct obj *o = &M->o[n][0];
    pdc_metadata_t *m = NULL; uint32_t sid;
    if (PDC_Client_query_metadata_name_timestep(NAME[n], 0, &m, &sid) < 0 || !m || !m->obj_id) { if (o->live) ex_fail("query-name", "metadata of %s not found", NAME[n]); return; }
    pdc_metadata_t u = *m;
    strcpy(u.app_name, APP[app]); u.tags[0] = 0; strcpy(u.data_location, app == 1 ? "/p" : "/the/place/it is");
    ex_note("client %d: move %s to application %s", me, NAME[n], APP[app]);
    if (PDC_Client_update_metadata(m, &u) < 0) ex_fail("update", "metadata of %s cannot be updated", NAME[n]);
    o->app = app;
    free(m);
}
static const char *appof(struct obj *o) { return o->app ? APP[o->app] : P[o->v].app; }
static char *tagsof(struct obj *o) { static char b[200]; sprintf(b, "%s%s", P[o->v].tags ? P[o->v].tags : " ", o->xt); return b; }
static void create_cont(int n)
{
    ex_note("client %d: create container %s", me, CN[n]);
    if (cont[n]) { PDCcont_close(cont[n]); cont[n] = 0; }
    cont[n] = PDCcont_create(CN[n], cont_prop);
    if (!cont[n]) ex_fail("cont-create", "container %s cannot be created", CN[n]);
    struct pdc_cont_info *i = PDCcont_get_info(CN[n]);
    if (!i || strcmp(i->name, CN[n])) ex_fail("cont-info", "PDCcont_get_info of %s", CN[n]);
    if (M->c[n].live) { if (i->meta_id != M->c[n].id) ex_fail("cont-id", "container %s exists but creating it again gave another ID", CN[n]); }
    else {
        newid(i->meta_id, "a container");
        memset(&M->c[n], 0, sizeof M->c[n]);
        M->c[n].live = 1; M->c[n].id = i->meta_id;
    }
    contid[n] = i->meta_id;
}
static int open_cont(int n)
{
    if (cont[n]) return 1;
    cont[n] = PDCcont_open(CN[n], pdc);
    if (!cont[n]) return 0;
    contid[n] = PDCcont_get_info(CN[n])->meta_id;
    if (!M->c[n].live) ex_fail("cont-open-deleted", "container %s does not exist but was opened", CN[n]);
    if (contid[n] != M->c[n].id) ex_fail("cont-open-wrong", "opening container %s gave ID %lu instead of %lu", CN[n], contid[n], M->c[n].id);
    return 1;
}
static void del_cont(int n)
{
    ex_note("client %d: delete container %s", me, CN[n]);
    if (!open_cont(n)) { if (M->c[n].live) ex_fail("cont-open", "container %s exists but cannot be opened", CN[n]); return; }
    perr_t r = PDCcont_del(cont[n]);
    int mine = M->c[n].live && contid[n] == M->c[n].id;
    if (mine && r < 0) ex_fail("cont-delete", "container %s cannot be deleted", CN[n]);
    if (!mine && r >= 0) ex_fail("cont-delete-twice", "deleting container %s, which is deleted already, succeeded", CN[n]);
    if (mine) M->c[n].live = 0;
    PDCcont_close(cont[n]); cont[n] = 0;
}
/* tag targets: 0..nn-1 objects, nn.. containers */
static const char *tn(int t) { static char b[200]; sprintf(b, "%s %s", t < nn ? "object" : "container", t < nn ? NAME[t] : CN[t - nn]); return b; }
static pdcid_t th(int t, int *opened)
{
    if (t < nn) return handle(t, opened);
    *opened = 0;
    return open_cont(t - nn) ? cont[t - nn] : 0;
}
static int *ttag(int t) { return t < nn ? M->o[t][0].tag : M->c[t - nn].tag; }
static int tstale(int t) { return t >= nn && contid[t - nn] != M->c[t - nn].id; }
static int tlive(int t) { return t < nn ? M->o[t][0].live : M->c[t - nn].live; }
static void put(int t, int k, int v)
{
    int op; pdcid_t h = th(t, &op);
    ex_note("client %d: put tag %s=#%d on %s", me, KEY[k], v, tn(t));
    if (!h) { if (tlive(t)) ex_fail("open", "%s exists but cannot be opened", tn(t)); return; }
    perr_t r = t < nn ? PDCobj_put_tag(h, (char *)KEY[k], (void *)V[v].p, V[v].t, V[v].n) : PDCcont_put_tag(h, (char *)KEY[k], (void *)V[v].p, V[v].t, V[v].n);
    if (tstale(t)) return;
    if (tlive(t) && r < 0) ex_fail("put", "tag %s of %s cannot be set", KEY[k], tn(t));
    if (!tlive(t) && r >= 0) ex_fail("put-deleted", "setting a tag of deleted %s succeeded", tn(t));
    if (tlive(t)) ttag(t)[k] = v + 1;
    if (op) PDCobj_close(h);
}
static void deltag(int t, int k)
{
    int op; pdcid_t h = th(t, &op);
    ex_note("client %d: delete tag %s of %s", me, KEY[k], tn(t));
    if (!h) { if (tlive(t)) ex_fail("open", "%s exists but cannot be opened", tn(t)); return; }
    perr_t r = t < nn ? PDCobj_del_tag(h, (char *)KEY[k]) : PDCcont_del_tag(h, (char *)KEY[k]);
    if (tstale(t)) return;
    if (tlive(t) && ttag(t)[k] && r < 0) ex_fail("deltag", "tag %s of %s cannot be deleted", KEY[k], tn(t));
    if (tlive(t)) ttag(t)[k] = 0;
    if (op) PDCobj_close(h);
}
static void audit_tags(int t, pdcid_t h, int nk)
{
    for (int k = 0; k < nk; k++) {
        void *p = (void *)1; pdc_var_type_t ty = 99; psize_t sz = 12345;
        int w = ttag(t)[k];
        perr_t r = t < nn ? PDCobj_get_tag(h, (char *)KEY[k], &p, &ty, &sz) : PDCcont_get_tag(h, (char *)KEY[k], &p, &ty, &sz);
        if (!w) { if (r >= 0 && sz != 0) ex_fail("tag-ghost", "tag %s of %s was never set or is deleted, but has a value of %d bytes", KEY[k], tn(t), (int)sz); continue; }
        if (r < 0 || !p || sz != V[w - 1].n || memcmp(p, V[w - 1].p, sz)) ex_fail("tag-value", "tag %s of %s: value (%d bytes) is not the one last set (#%d)", KEY[k], tn(t), (int)sz, w - 1);
        if (ty != V[w - 1].t) ex_fail("tag-type", "tag %s of %s has type %d, was set with type %d", KEY[k], tn(t), (int)ty, (int)V[w - 1].t);
        free(p);
        ex_nontrivial();
    }
}
/* extra objects, containers and tags, which no operation may disturb */
static const char *fname(int i) { static char b[160]; sprintf(b, i % 5 == 4 ? "a fill object with a name that is considerably longer than the others, to be sure; its number is %d" : "fill%d", i); return b; }
static int xval(int i, char *b) { if (i % 7 == 3) { memset(b, 'a' + i % 26, 3000); b[3000] = 0; return 3001; } memcpy(b, &i, 4); return 4; }
static void fill(void)
{
    char b[4000];
    M->nf = ex_iparam("fill", 0); M->nfc = ex_iparam("fillc", 0);
    for (int i = 0; i < M->nf; i++) {
        int v = i % 2;
        pdcid_t p = mkprop(v), h = PDCobj_create(cont[i % nnc] ? cont[i % nnc] : cont[0], fname(i), p);
        PDCprop_close(p);
        if (!h) ex_fail("create", "object %s cannot be created", fname(i));
        M->f[i].id = PDCobj_get_info(h)->meta_id; M->f[i].v = v; M->f[i].cont = cont[i % nnc] ? contid[i % nnc] : contid[0];
        newid(M->f[i].id, "object");
        if (ex_iparam("fillt", 0)) {
            const struct val *x = &V[i % ex_iparam("tagmod", 5)];
            if (PDCobj_put_tag(h, "k2", (void *)x->p, x->t, x->n) < 0) ex_fail("put", "tag of object %s cannot be set", fname(i));
            M->f[i].tag = 1 + i % ex_iparam("tagmod", 5);
        }
        PDCobj_close(h);
    }
    for (int i = 0; i < M->nfc; i++) {
        sprintf(b, "cont%d", i);
        pdcid_t h = PDCcont_create(b, cont_prop);
        if (!h) ex_fail("cont-create", "container %s cannot be created", b);
        newid(M->fc[i] = PDCcont_get_info(b)->meta_id, "container");
        PDCcont_close(h);
    }
    for (int t = 0; t < nn + nnc; t += nn) {
        int op, nx = ex_iparam("fillk", 0), n; pdcid_t h; char k[16];
        if (!nx || !tlive(t)) continue;
        h = th(t, &op);
        for (int i = 0; i < nx; i++) {
            sprintf(k, "x%d", i); n = xval(i, b);
            if ((t < nn ? PDCobj_put_tag(h, k, b, n == 4 ? PDC_INT : PDC_STRING, n) : PDCcont_put_tag(h, k, b, n == 4 ? PDC_INT : PDC_STRING, n)) < 0) ex_fail("put", "tag %s of %s cannot be set", k, tn(t));
        }
        if (op) PDCobj_close(h);
        if (t < nn) M->o[t][0].nx = nx; else M->c[t - nn].nx = nx;
    }
}
static void audit_fill(void)
{
    char b[4000], k[16];
    for (int i = 0; i < M->nf; i++) {
        pdcid_t h = PDCobj_open(fname(i), pdc);
        struct pdc_obj_info *x = h ? PDCobj_get_info(h) : NULL;
        const struct prop *p = &P[M->f[i].v];
        if (!x || x->meta_id != M->f[i].id || strcmp(x->name, fname(i))) ex_fail("fill-open", "object %s cannot be opened or is another one", fname(i));
        if (x->obj_pt->type != p->t || (int)x->obj_pt->ndim != p->nd || memcmp(x->obj_pt->dims, p->d, p->nd * 8)) ex_fail("fill-dims", "object %s has other dimensions or type", fname(i));
        if (M->f[i].tag) {
            const struct val *v = &V[M->f[i].tag - 1]; void *q = NULL; pdc_var_type_t ty; psize_t sz = 0;
            if (PDCobj_get_tag(h, "k2", &q, &ty, &sz) < 0 || sz != v->n || ty != v->t || memcmp(q, v->p, sz)) ex_fail("fill-tag", "the tag of object %s is lost or wrong", fname(i));
            free(q);
        }
        PDCobj_close(h);
    }
    for (int i = 0; i < M->nfc; i++) {
        sprintf(b, "cont%d", i);
        pdcid_t h = PDCcont_open(b, pdc);
        if (!h || PDCcont_get_info(b)->meta_id != M->fc[i]) ex_fail("fill-cont", "container %s cannot be opened or is another one", b);
        PDCcont_close(h);
    }
    for (int t = 0; t < nn + nnc; t += nn) {
        int op, nx = t < nn ? M->o[t][0].nx : M->c[t - nn].nx; pdcid_t h;
        if (!nx || !tlive(t)) continue;
        h = th(t, &op);
        for (int i = 0; i < nx; i++) {
            void *q = NULL; pdc_var_type_t ty; psize_t sz = 0; int n;
            sprintf(k, "x%d", i); n = xval(i, b);
            perr_t r = t < nn ? PDCobj_get_tag(h, k, &q, &ty, &sz) : PDCcont_get_tag(h, k, &q, &ty, &sz);
            if (r < 0 || (int)sz != n || memcmp(q, b, n)) ex_fail("fill-tag", "tag %s of %s is lost or wrong", k, tn(t));
            free(q);
        }
        if (op) PDCobj_close(h);
    }
}
static int smatch(const char *pat, const char *s) /* leading and/or trailing * */
{
    int n = strlen(pat), pre = n && pat[0] == '*', suf = n && pat[n - 1] == '*';
    char b[32]; int m = 0;
    for (int i = pre; i < n - (suf && n > pre); i++) b[m++] = pat[i];
    b[m] = 0;
    int L = strlen(s);
    if (pre && suf) return strstr(s, b) != NULL;
    if (pre) return L >= m && !strcmp(s + L - m, b);
    if (suf) return !strncmp(s, b, m);
    return !strcmp(s, b);
}
static void audit_query(int nk)
{
    static const char *KP[] = {"k", "k2", "k*", "*2", "*o*", "none", "*"};
    static const struct val QV[] = {{PDC_STRING, 4, "red"}, {PDC_STRING, 5, "red*"}, {PDC_STRING, 7, "*dder*"}, {PDC_INT, 4, I1}, {PDC_DOUBLE, 8, D1}, {PDC_INT, 8, I2}, {PDC_STRING, 2, "*"}, {PDC_FLOAT, 4, I1}, {PDC_UINT, 4, I1}, {PDC_INT64, 8, D1}, {PDC_STRING, 1, ""}, {PDC_CHAR, 4, "red"}};
    for (unsigned a = 0; a < sizeof KP / sizeof *KP - !!ex_iparam("fillk", 0); a++) for (unsigned b = 0; b < sizeof QV / sizeof *QV; b++) {
        pdc_kvtag_t q = {.name = (char *)KP[a], .value = (void *)QV[b].p, .type = QV[b].t, .size = QV[b].n};
        int n = -1; uint64_t *ids = NULL;
        if (PDC_Client_query_kvtag(&q, &n, &ids) < 0) ex_fail("query", "tag query %s failed", KP[a]);
        int want = 0;
        for (int f = 0; f < M->nf; f++) {
            int got = 0; const struct val *v = &V[M->f[f].tag - 1];
            for (int i = 0; i < n; i++) if (ids[i] == M->f[f].id) got++;
            int hit = M->f[f].tag && smatch(KP[a], "k2") && v->t == QV[b].t && (v->t == PDC_STRING ? smatch(QV[b].p, v->p) : v->n == QV[b].n && !memcmp(v->p, QV[b].p, v->n));
            if (got != hit) ex_fail(hit ? "query-missing" : "query-extra", "tag query %s = value %u returned object %s %d times, expected %d", KP[a], b, fname(f), got, hit);
            want += got;
        }
        for (int o = 0; o < nn; o++) {
            struct obj *x = &M->o[o][0];
            int hit = 0, got = 0;
            if (x->live) for (int k = 0; k < nk; k++) if (x->tag[k]) {
                const struct val *v = &V[x->tag[k] - 1];
                if (!smatch(KP[a], KEY[k]) || v->t != QV[b].t) continue;
                if (v->t == PDC_STRING ? smatch(QV[b].p, v->p) : v->n == QV[b].n && !memcmp(v->p, QV[b].p, v->n)) hit = 1;
            }
            for (int i = 0; i < n; i++) if (ids[i] == x->id) got++;
            if (x->live && got != 0 && !hit) ex_fail("query-extra", "tag query %s = value %u returned object %s, which has no such tag", KP[a], b, NAME[o]);
            if (x->live && got > 1 && a < 2) ex_fail("query-twice", "tag query %s = value %u returned object %s %d times", KP[a], b, NAME[o], got);
            if (x->live && hit && !got) ex_fail("query-missing", "tag query %s = value %u did not return object %s", KP[a], b, NAME[o]);
            if (x->live) want += got; 
        }
        if (n != want) ex_fail("query-ghost", "tag query %s = value %u returned %d IDs, %d of them of objects that exist", KP[a], b, n, want);
        free(ids);
    }
}
static void audit_obj(int n)
{
    struct obj *o = &M->o[n][0];
    pdcid_t h = PDCobj_open(NAME[n], pdc);
    if (!o->live) { if (h) ex_fail("open-deleted", "object %s does not exist but was opened", NAME[n]); }
    else {
        const struct prop *p = &P[o->v];
        if (!h) ex_fail("open", "object %s exists but cannot be opened", NAME[n]);
        struct pdc_obj_info *i = PDCobj_get_info(h);
        if (!i || strcmp(i->name, NAME[n]) || i->meta_id != o->id) ex_fail("open-wrong", "opening %s gave object %s with ID %lu instead of %lu", NAME[n], i ? i->name : "?", i ? i->meta_id : 0, o->id);
        if (i->obj_pt->type != p->t) ex_fail("type", "object %s was created with type %d, now %d", NAME[n], (int)p->t, (int)i->obj_pt->type);
        if (i->obj_pt->region_partition != p->part) ex_fail("partition", "object %s was created with partition %d, now %d", NAME[n], p->part, (int)i->obj_pt->region_partition);
        if (i->obj_pt->consistency != p->cons) ex_fail("consistency", "object %s was created with consistency %d, now %d", NAME[n], p->cons, (int)i->obj_pt->consistency);
        int gn = 0; uint64_t *g = NULL;
        if (PDCobj_get_dims(h, &gn, &g) < 0 || gn != p->nd || memcmp(g, o->d, gn * sizeof *g)) ex_fail("dims", "object %s has %d dims, first %lu; expected %d, %lu", NAME[n], gn, g ? g[0] : 0, p->nd, o->d[0]);
        if ((int)i->obj_pt->ndim != p->nd || memcmp(i->obj_pt->dims, o->d, gn * sizeof *g)) ex_fail("dims", "PDCobj_get_info of %s has other dims than PDCobj_get_dims", NAME[n]);
        free(g);
        if (PDCobj_close(h) < 0) ex_fail("close", "closing %s", NAME[n]);
        ex_nontrivial();
    }
    for (int ts = 0; ts < 2; ts++) {
        pdc_metadata_t *m = NULL; uint32_t sid;
        struct obj *x = &M->o[n][ts];
        perr_t r = PDC_Client_query_metadata_name_timestep(NAME[n], ts, &m, &sid);
        if (!x->live && r >= 0 && m && m->obj_id) ex_fail("query-deleted", "object %s at time step %d does not exist but its metadata was found (ID %lu)", NAME[n], ts, m->obj_id);
        if (!x->live && ts == 0) {
            pdc_metadata_t *m2 = NULL;
            PDC_Client_query_metadata_name_only(NAME[n], &m2);
            if (m2) ex_fail("query-deleted", "object %s does not exist but its metadata was found when all servers were asked", NAME[n]);
        }
        if (!x->live) continue;
        const struct prop *p = &P[x->v];
        if (r < 0 || !m || m->obj_id != x->id) ex_fail("query-name", "metadata of %s at time step %d not found or wrong", NAME[n], ts);
        if (m->user_id != p->user || m->time_step != p->ts || strcmp(m->app_name, appof(x)) || strcmp(m->obj_name, NAME[n]) || m->data_type != p->t || m->ndim != p->nd || m->dims[0] != x->d[0])
            ex_fail("attributes", "attributes of %s (user %d app %s step %d type %d ndim %d dim %lu) are not those it was created with", NAME[n], m->user_id, m->app_name, m->time_step, m->data_type, (int)m->ndim, m->dims[0]);
        if (ts == 0) {
            pdc_metadata_t *m2 = NULL;
            if (PDC_Client_query_metadata_name_only(NAME[n], &m2) < 0 || !m2 || m2->obj_id != x->id) ex_fail("query-name", "metadata of %s not found or wrong when any server is asked", NAME[n]);
            free(m2);
        }
        if (m->cont_id != x->cont) ex_fail("container", "object %s says it is in container %lu, was created in %lu", NAME[n], m->cont_id, x->cont);
        if (x->app && strcmp(m->data_location, x->app == 1 ? "/p" : "/the/place/it is")) ex_fail("attributes", "the location of %s is '%s'", NAME[n], m->data_location);
        if (strcmp(m->tags, tagsof(x))) ex_fail("attributes", "the tags of %s are '%s', not '%s'", NAME[n], m->tags, tagsof(x));
        if (p->nd > 1 && m->dims[1] != x->d[1]) ex_fail("dims", "second dimension of %s is %lu, not %lu", NAME[n], m->dims[1], x->d[1]);
        free(m);
    }
}
/* metadata queries: user, application, name, time steps, dimensions, tag text; 0 / -1 / NULL means any */
static const struct mq { int all, user; const char *app, *name; int from, to, nd; const char *tags; } MQ[] = {
    {1, -1, NULL, NULL, -1, -1, -1, NULL}, {0, 5, NULL, NULL, -1, -1, -1, NULL}, {0, -1, "hacc", NULL, -1, -1, -1, NULL},
    {0, -1, NULL, NULL, -1, -1, 3, NULL}, {0, -1, NULL, NULL, 1, 2, -1, NULL}, {0, -1, NULL, NULL, 1, 1, -1, NULL},
    {0, -1, NULL, "bA", -1, -1, -1, NULL}, {0, -1, NULL, NULL, -1, -1, -1, "t1"}, {0, -1, NULL, "ab", -1, -1, 1, NULL},
    {0, 5, "vpic", "ab", -1, -1, 2, "t2"}, {0, -1, NULL, NULL, 11, 13, -1, NULL}, {0, -1, "hac", "a", -1, -1, -1, NULL}};
#define NMQ ((int)(sizeof MQ / sizeof *MQ))
static int satisfies(int v, int ts, const char *name, const char *app, const char *tags, const struct mq *q)
{
    const struct prop *p = &P[v];
    if (q->all) return 1;
    return (q->user <= 0 || p->user == (uint32_t)q->user) && (!q->app || !strcmp(app, q->app)) && (!q->name || !strcmp(name, q->name)) &&
           (q->from <= 0 || q->to <= 0 || (ts >= q->from && ts <= q->to)) && (q->nd <= 0 || p->nd == q->nd) && (!q->tags || (tags && strstr(tags, q->tags)));
}
static void audit_list(struct drv *d)
{
    for (int qi = 0; qi < NMQ; qi++) {
        const struct mq *q = &MQ[qi];
        MPI_Barrier(MPI_COMM_WORLD);
        if (me == 0) M->nseen = 0;
        MPI_Barrier(MPI_COMM_WORLD);
        int n = 0; pdc_metadata_t **m = NULL;
        perr_t r = q->all ? PDC_Client_list_all(&n, &m) : PDC_partial_query(0, q->user, q->app, q->name, q->from, q->to, q->nd, q->tags, &n, &m);
        if (r < 0) ex_fail("list", "listing objects failed (query %d, client %d)", qi, me);
        for (int i = 0; i < n; i++) if (M->nseen < 1000) M->seen[M->nseen++] = m[i]->obj_id;
        MPI_Barrier(MPI_COMM_WORLD);
        if (me == 0) {
            int live = 0;
            for (int a = 0; a < nn; a++) for (int ts = 0; ts < 2; ts++) if (M->o[a][ts].live && satisfies(M->o[a][ts].v, ts, NAME[a], appof(&M->o[a][ts]), tagsof(&M->o[a][ts]), q)) {
                int c = 0; live++;
                for (int i = 0; i < M->nseen; i++) c += M->seen[i] == M->o[a][ts].id;
                if (c != 1) ex_fail("list-missing", "metadata query %d listed object %s (step %d) %d times", qi, NAME[a], ts, c);
            }
            for (int f = 0; f < M->nf; f++) {
                int c = 0;
                if (!satisfies(M->f[f].v, P[M->f[f].v].ts, fname(f), P[M->f[f].v].app, P[M->f[f].v].tags, q)) continue;
                live++;
                for (int i = 0; i < M->nseen; i++) c += M->seen[i] == M->f[f].id;
                if (c != 1) ex_fail("list-missing", "metadata query %d listed object %s %d times", qi, fname(f), c);
            }
            for (int i = 0; i <= (nst ? nst : -1); i++) if (M->st[i].live) {
                int c = 0;
                if (!satisfies(M->st[i].v, 10 + i, NAME[0], P[M->st[i].v].app, P[M->st[i].v].tags, q)) continue;
                live++;
                for (int k = 0; k < M->nseen; k++) c += M->seen[k] == M->st[i].id;
                if (c != 1) ex_fail("list-missing", "metadata query %d listed object %s at time step %d %d times", qi, NAME[0], 10 + i, c);
            }
            if (M->nseen != live) ex_fail("list-extra", "metadata query %d listed %d objects, %d match", qi, M->nseen, live);
        }
    }
}
static void audit_conts(void)
{
    for (int n = 0; n < nnc; n++) {
        if (cont[n]) { PDCcont_close(cont[n]); cont[n] = 0; }
        pdcid_t h = PDCcont_open(CN[n], pdc);
        if (!M->c[n].live) { if (h) ex_fail("cont-open-deleted", "container %s does not exist but was opened", CN[n]); continue; }
        if (!h) ex_fail("cont-open", "container %s exists but cannot be opened", CN[n]);
        struct pdc_cont_info *i = PDCcont_get_info(CN[n]);
        if (!i || i->meta_id != M->c[n].id) ex_fail("cont-open-wrong", "opening container %s gave ID %lu instead of %lu", CN[n], i ? i->meta_id : 0, M->c[n].id);
        cont[n] = h; contid[n] = i->meta_id;
    }
}
static void audit(struct drv *d, const char *mode)
{
    int nk = ex_iparam("nk", 2);
    MPI_Barrier(MPI_COMM_WORLD);
    audit_conts();
    for (int n = 0; n < nn; n++) audit_obj(n);
    if (me == d->nclients - 1) { audit_fill(); audit_steps(); }
    if (!strcmp(mode, "tag")) {
        for (int t = 0; t < nn + nnc; t++) {
            int op; pdcid_t h;
            if (!tlive(t)) continue;
            h = th(t, &op);
            if (!h) ex_fail("open", "%s exists but cannot be opened", tn(t));
            audit_tags(t, h, nk);
            if (op) PDCobj_close(h);
        }
        if (ex_iparam("query", 0) && (me == 0 || ex_iparam("qall", 0))) audit_query(nk);
    }
    if (ex_iparam("list", 1)) audit_list(d);
    uint64_t h = ex_hash_s(7, mode);
    h = ex_hash(h, M->st, sizeof M->st); h = ex_hash(h, M->o, sizeof M->o); h = ex_hash(h, M->c, sizeof M->c);
    ex_state(h);
}
/* additions and removals of different numbers of (different) objects: the room for members is extended, or just suffices */
static void members_many(int c, int k, int del)
{
    static pdcid_t h[80]; static int nh;
    if (!open_cont(c)) return;
    for (; nh < M->nf && nh < 80; nh++) if (!(h[nh] = PDCobj_open(fname(nh), pdc))) ex_fail("fill-open", "object %s cannot be opened", fname(nh));
    if (k > nh) k = nh;
    ex_note("client %d: %s %d members of container %s", me, del ? "remove" : "add", k, CN[c]);
    perr_t r = del ? PDCcont_del_objids(cont[c], k, h + nh - k) : PDCcont_put_objids(cont[c], k, h);
    if (M->c[c].live && contid[c] == M->c[c].id && r < 0) ex_fail("members", "members of container %s cannot be changed", CN[c]);
}
static void members(int c, int how)
{
    /* members are opaque to clients; this only must not fail or corrupt memory */
    int k = how == 0 ? 1 : how == 1 ? 70 : 2;
    pdcid_t ids[70]; int op = 0;
    if (!open_cont(c)) return;
    pdcid_t h = handle(0, &op);
    if (!h) return;
    for (int i = 0; i < k; i++) ids[i] = h;
    ex_note("client %d: %s %d members of container %s", me, how == 2 ? "remove" : "add", k, CN[c]);
    perr_t r = how == 2 ? PDCcont_del_objids(cont[c], k, ids) : PDCcont_put_objids(cont[c], k, ids);
    if (M->c[c].live && contid[c] == M->c[c].id && r < 0) ex_fail("members", "members of container %s cannot be changed", CN[c]);
    if (op) PDCobj_close(h);
}
static int alphabet(const char *mode, int pick)
{
    int n = 0, nvar = ex_iparam("nvar", 2), nk = ex_iparam("nk", 2), objs = !strcmp(mode, "obj"), tags = !strcmp(mode, "tag"), conts = !strcmp(mode, "cont");
#define ALT(OP, A, B, C) do { if (n++ == pick) { M->cur.op = OP; M->cur.a = A; M->cur.b = B; M->cur.c = C; } } while (0)
    if (objs) for (int a = 0; a < nn; a++) {
        for (int v = 0; v < nvar; v++) ALT(0, a, v + p0, v % nnc);
        ALT(1, a, 0, 0);
        if (ex_iparam("delname", 1)) ALT(2, a, 0, 0);
        if (ex_iparam("setdims", 1)) ALT(3, a, 1, 0);
        if (ex_iparam("text", 0)) { ALT(11, a, 0, 0); ALT(11, a, 1, 0); ALT(12, a, 1, 0); ALT(12, a, 2, 0); }
    }
    if (objs && nst) for (int a = 0; a < 4; a++) { ALT(9, a, 0, 0); ALT(9, a, 1, 0); ALT(10, a, 0, 0); ALT(10, a, 1, 0); }
    if (tags) {
        for (int a = 0; a < nn + nnc; a++) for (int k = 0; k < nk; k++) {
            for (int v = 0; v < nv; v++) ALT(4, a, k, v + v0);
            ALT(5, a, k, 0);
        }
        if (ex_iparam("del", 1)) for (int a = 0; a < nn; a++) ALT(1, a, 0, 0);
        if (ex_iparam("recreate", 0)) ALT(0, 0, 0, 0);
    }
    if (conts && ex_iparam("sizes", 0)) {
        static const int S[] = {1, 20, 44, 64, 65};
        for (int k = 0; k < 5; k++) { ALT(13, nnc - 1, S[k], 0); if (k != 2 && k != 3) ALT(13, nnc - 1, S[k], 1); }
    }
    else if (conts) {
        for (int a = 0; a < nnc; a++) { ALT(6, a, 0, 0); ALT(7, a, 0, 0); }
        if (ex_iparam("members", 1)) for (int a = 0; a < nnc; a++) for (int h = 0; h < 3; h++) ALT(8, a, h, 0);
        ALT(0, 0, 0, 0); ALT(1, 0, 0, 0);
    }
    return n;
}
static void act(void)
{
    switch (M->cur.op) {
        case 0: if (!M->c[M->cur.c].live || !open_cont(M->cur.c)) break; create_obj(M->cur.a, M->cur.b, M->cur.c); break;
        case 1: del_obj(M->cur.a); break;
        case 2: delname_obj(M->cur.a); break;
        case 3: setdims(M->cur.a, M->cur.b); break;
        case 4: put(M->cur.a, M->cur.b, M->cur.c); break;
        case 5: deltag(M->cur.a, M->cur.b); break;
        case 6: create_cont(M->cur.a); break;
        case 7: del_cont(M->cur.a); break;
        case 9: create_step(stepi(M->cur.a), M->cur.b); break;
        case 10: delete_step(stepi(M->cur.a), M->cur.b); break;
        case 11: addtext(M->cur.a, M->cur.b); break;
        case 12: update(M->cur.a, M->cur.b); break;
        case 8: members(M->cur.a, M->cur.b); break;
        case 13: members_many(M->cur.a, M->cur.b, M->cur.c); break;
    }
    ex_step();
}
void driver_config(struct simcfg *c)
{
    c->nservers = ex_iparam("ns", 1);
    c->nclients = ex_iparam("nc", 1);
    c->nphases  = 1 + ex_iparam("restart", 0);
}
void driver_main(struct drv *d)
{
    const char *mode = ex_param("mode", "obj");
    M = d->shared; me = d->rank;
    nn = ex_iparam("nn", 2); nnc = ex_iparam("nnc", 2); nv = ex_iparam("nv", 2); keep = ex_iparam("keep", 0); v0 = ex_iparam("v0", 0); p0 = ex_iparam("p0", 0); nst = ex_iparam("fillts", 0);
    memset(BIGS, 'r', sizeof BIGS - 1); memcpy(BIGS, "red", 3);
    for (int i = 0; i < 1500; i++) BIGI[i] = i * 7 + 7;
    if (ex_iparam("names", 0) == 1) { NAME[0] = CN[0] = LONG1; NAME[1] = LONG2; NAME[2] = "an object"; NAME[3] = "an object2"; KEY[0] = LONG2; KEY[1] = LONG1; KEY[2] = "an object"; }
    if (ex_iparam("nocollide", 0)) NAME[1] = "b";
    if (ex_iparam("contcollide", 0)) CN[1] = "bA";
    pdc = PDCinit("pdc");
    cont_prop = PDCprop_create(PDC_CONT_CREATE, pdc);
    if (d->phase == 0) {
        if (me == 0) {
            if (strcmp(mode, "cont")) for (int c = 0; c < nnc; c++) create_cont(c);
            else if (ex_iparam("first", 1)) create_cont(0);
            if (!strcmp(mode, "tag")) for (int a = 0; a < nn; a++) create_obj(a, 0, 0);
            fill();
            for (int i = 0; i < nst; i++) create_step(i, 0);
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    else if (me == 0) { /* what was deleted before the restart is forgotten, its ID may come back */
        M->nids = 0;
        for (int n = 0; n < NN; n++) {
            for (int ts = 0; ts < 2; ts++) if (M->o[n][ts].live) M->ids[M->nids++] = M->o[n][ts].id;
            if (M->c[n].live) M->ids[M->nids++] = M->c[n].id;
        }
        for (int i = 0; i < M->nf; i++) M->ids[M->nids++] = M->f[i].id;
        for (int i = 0; i < M->nfc; i++) M->ids[M->nids++] = M->fc[i];
        for (int i = 0; i <= nst; i++) if (M->st[i].live) M->ids[M->nids++] = M->st[i].id;
    }
    MPI_Barrier(MPI_COMM_WORLD);
    int depth = ex_iparam("depth", 3), nc = d->nclients;
    for (int i = 0; i < depth; i++) {
        if (d->phase && !ex_iparam("after", 0)) break;
        if (me == 0) {
            int k = ex_choose(alphabet(mode, -1) * nc, "op");
            alphabet(mode, k / nc);
            M->cur.who = k % nc;
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if (me == M->cur.who) act();
        MPI_Barrier(MPI_COMM_WORLD);
    }
    if (d->phase) ex_note("audit after restart");
    audit(d, mode);
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase && d->phase == ex_iparam("restart", 0) && ex_iparam("newobj", 0) && me == 0) {
        /* IDs handed out after the restart must be new ones */
        if (open_cont(0)) { M->o[3][0].live = 0; create_obj(3, 0, 0); }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase + 1 < 1 + ex_iparam("restart", 0)) close_servers(d);
    for (int i = 0; i <= nst; i++) if (steph[i]) PDCobj_close(steph[i]);
    for (int n = 0; n < NN; n++) { if (kept[n]) PDCobj_close(kept[n]); if (cont[n]) PDCcont_close(cont[n]); }
    PDCprop_close(cont_prop);
    PDCclose(pdc);
}
