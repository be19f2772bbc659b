/* Clients operating on the same objects and containers at the same time: the results of every schedule have to be those of some
 * order of the operations in which each takes effect between its call and its return (linearizability, decided per name, as
 * an operation touches one name), and what is found afterwards has to be what that order leaves.
 *
 * what=obj : create / open / delete objects, set / read / delete their tag, query tags
 * what=cont: create / open / delete containers, set / read / delete their tag
 */
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_interface.h"

#define NN 2
#define MAXH 64
enum { CREATE, OPEN, DEL, PUT1, PUT2, GET, DELTAG, QUERY, LIST, NOP };
static const char *ON[] = {"create", "open", "delete", "put tag=1 on", "put tag=2 on", "get tag of", "delete tag of", "tag query: ", "look up metadata of"};
static const char *NAME[NN] = {"ab", "bA"}; /* the same hash */
struct ev { int op, n, who; uint64_t id; int ok, val; long inv, res; };
struct model { struct ev e[MAXH]; int ne; long clk; uint64_t ids[MAXH]; int nids; int prog[4][4][2], init[NN], pre; } *M;
static int me, cn, nn;
static pdcid_t pdc, root, h[NN], prop;

static struct ev *inv(int op, int n)
{
    if (M->ne >= MAXH) ex_fail("harness", "history too long");
    struct ev *e = &M->e[M->ne++];
    e->op = op; e->n = n; e->who = me; e->inv = ++M->clk;
    return e;
}
static void res(struct ev *e)
{
    e->res = ++M->clk;
    ex_note("client %d: %s %s -> %s, ID %lu, value %d [%ld, %ld]", me, ON[e->op], NAME[e->n], e->ok ? "done" : "no", e->id, e->val, e->inv, e->res);
}
static pdcid_t xopen(int n) { return cn ? PDCcont_open(NAME[n], pdc) : PDCobj_open(NAME[n], pdc); }
static uint64_t idof(pdcid_t x, int n) { return cn ? PDCcont_get_info(NAME[n])->meta_id : PDCobj_get_info(x)->meta_id; }
static void xclose(int n) { if (h[n]) { if ((cn ? PDCcont_close(h[n]) : PDCobj_close(h[n])) < 0) ex_fail("close", "a handle of %s cannot be closed", NAME[n]); } h[n] = 0; }
static int same(const char *a, const char *b) { return a && !strcmp(a, b); }
static uint64_t cur[NN]; /* the ID this client's handle is for */
static void doop(int op, int n)
{
    struct ev *e;
    int v = op == PUT2 ? 2 : 1;
    if (op == NOP) return;
    if (op == QUERY) {
        int32_t i1 = 1; pdc_kvtag_t q = {.name = "k", .size = 4, .type = PDC_INT, .value = &i1};
        uint64_t *ids = NULL; int c = 0;
        struct ev *ee[NN];
        for (int i = 0; i < nn; i++) ee[i] = inv(QUERY, i);
        if (PDC_Client_query_kvtag(&q, &c, &ids) < 0) ex_fail("query", "tag query failed");
        for (int i = 0; i < nn; i++) {
            /* which of the IDs found belong to this name is known when all IDs are: val = -1, id = index of the list */
            ee[i]->ok = c; ee[i]->val = 0;
            if (c > 1 + (nn > 1)) ex_fail("query-extra", "%d IDs found, more than there are objects", c);
            for (int j = 0; j < c; j++) { if (!j) ee[i]->id = ids[j]; else ee[i]->val = (int)(ids[j] % 1000000007u); }
            res(ee[i]);
        }
        return;
    }
    if (op == LIST) {
        pdc_metadata_t *m = NULL; uint32_t sid;
        e = inv(OPEN, n); /* as good as an open: the object with its ID, or nothing */
        perr_t r = PDC_Client_query_metadata_name_timestep(NAME[n], 0, &m, &sid);
        e->ok = r >= 0 && m && m->obj_id; e->id = e->ok ? m->obj_id : 0;
        res(e);
        free(m);
        return;
    }
    if (op == CREATE) {
        xclose(n);
        e = inv(CREATE, n);
        h[n] = cn ? PDCcont_create(NAME[n], prop) : PDCobj_create(root, NAME[n], prop);
        e->ok = h[n] != 0; e->id = e->ok ? idof(h[n], n) : 0;
        cur[n] = e->id;
        res(e);
        return;
    }
    if (!h[n] || op == OPEN) {
        xclose(n);
        e = inv(OPEN, n);
        h[n] = xopen(n);
        e->ok = h[n] != 0; e->id = e->ok ? idof(h[n], n) : 0;
        if (e->ok && !same(cn ? PDCcont_get_info(NAME[n])->name : PDCobj_get_info(h[n])->name, NAME[n])) ex_fail("open-wrong", "opening %s gave another one", NAME[n]);
        cur[n] = e->id;
        res(e);
        if (op == OPEN || !h[n]) return;
    }
    e = inv(op, n); e->id = cur[n];
    int32_t x = v; void *p = NULL; pdc_var_type_t ty = 99; psize_t sz = 0; perr_t r;
    switch (op) {
        case DEL: r = cn ? PDCcont_del(h[n]) : PDCobj_del(h[n]); e->ok = r >= 0; break;
        case PUT1: case PUT2: r = cn ? PDCcont_put_tag(h[n], "k", &x, PDC_INT, 4) : PDCobj_put_tag(h[n], "k", &x, PDC_INT, 4); e->ok = r >= 0; e->val = v; break;
        case GET:
            r = cn ? PDCcont_get_tag(h[n], "k", &p, &ty, &sz) : PDCobj_get_tag(h[n], "k", &p, &ty, &sz);
            e->ok = r >= 0 && sz;
            if (e->ok && (sz != 4 || ty != PDC_INT || !p)) ex_fail("get", "a tag of %d bytes and type %d, set with 4 bytes and type %d", (int)sz, ty, PDC_INT);
            e->val = e->ok ? *(int *)p : 0;
            if (e->ok) free(p);
            break;
        case DELTAG: r = cn ? PDCcont_del_tag(h[n], "k") : PDCobj_del_tag(h[n], "k"); e->ok = r >= 0; break;
    }
    res(e);
    if (op == DEL) xclose(n);
}
/* is there an order? state: id (0: does not exist), tag (0: none) */
static int search(int n, unsigned long done, uint64_t id, int tag)
{
    long first = 1l << 60; int left = 0;
    for (int i = 0; i < M->ne; i++) if (M->e[i].n == n && !(done >> i & 1)) { left++; if (M->e[i].res < first) first = M->e[i].res; }
    if (!left) return 1;
    for (int i = 0; i < M->ne; i++) {
        struct ev *e = &M->e[i];
        if (e->n != n || done >> i & 1 || e->inv > first) continue;
        uint64_t id2 = id; int tag2 = tag, live = id && id == e->id;
        switch (e->op) {
            case CREATE:
                if (id) { if (cn ? !e->ok || e->id != id : e->ok) continue; } /* an existing container is opened, an existing object not created again */
                else { if (!e->ok) continue; id2 = e->id; tag2 = 0; }
                break;
            case OPEN: if (id ? !e->ok || e->id != id : e->ok) continue; break;
            case DEL: if (live != e->ok) continue; if (live) id2 = 0; break;
            case PUT1: case PUT2: if (live != e->ok) continue; if (live) tag2 = e->val; break;
            case GET: if (live && tag ? !e->ok || e->val != tag : e->ok) continue; break;
            case DELTAG: if (live && tag && !e->ok) continue; if (!live && e->ok && cn == 0 && ex_iparam("strict", 0)) continue; if (live) tag2 = 0; break;
            case QUERY: {
                int in = id && e->ok && (e->id == id || (e->ok > 1 && e->val == (int)(id % 1000000007u)));
                if ((id && tag == 1) != in) continue;
                break;
            }
        }
        if (search(n, done | 1ul << i, id2, tag2)) return 1;
    }
    return 0;
}
static void judge(void)
{
    /* IDs given by different creations differ */
    for (int i = 0; i < M->ne; i++) for (int j = 0; j < i; j++) {
        struct ev *a = &M->e[i], *b = &M->e[j];
        if (a->op == CREATE && b->op == CREATE && a->ok && b->ok && a->id == b->id && (!cn || a->n != b->n)) ex_fail("duplicate-id", "two creations gave the ID %lu", a->id);
    }
    /* IDs found by queries are of things that were created */
    for (int i = 0; i < M->ne; i++) if (M->e[i].op == QUERY && M->e[i].ok) {
        int known = 0;
        for (int j = 0; j < M->ne; j++) known |= M->e[j].op == CREATE && M->e[j].id == M->e[i].id;
        if (!known) ex_fail("query-ghost", "the query found ID %lu, which was never given", M->e[i].id);
    }
    for (int n = 0; n < nn; n++) if (!search(n, 0, 0, 0)) {
        static char b[4096]; int k = 0;
        for (int i = 0; i < M->ne; i++) if (M->e[i].n == n) k += sprintf(b + k, "; client %d %s %s: %d, ID %lu, value %d [%ld, %ld]", M->e[i].who, ON[M->e[i].op], NAME[n], M->e[i].ok, M->e[i].id, M->e[i].val, M->e[i].inv, M->e[i].res);
        ex_fail("not-linearizable", "no order of the operations on %s explains their results%s", NAME[n], b);
    }
    ex_nontrivial();
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 2); c->nclients = ex_iparam("nc", 2); c->nphases = 1 + ex_iparam("restart", 0); c->clean_close = 1; }
void driver_main(struct drv *d)
{
    int nops = ex_iparam("ops", 1), nc = d->nclients;
    M = d->shared; me = d->rank;
    cn = same(ex_param("what", "obj"), "cont"); nn = ex_iparam("names", 2);
    if (!cn && !ex_iparam("collide", 1)) NAME[1] = "bB"; /* containers with names of the same hash: a known finding of C12 */
    if (cn) NAME[1] = "c2";
    pdc = PDCinit("pdc");
    pdcid_t cp = PDCprop_create(PDC_CONT_CREATE, pdc);
    if (cn) prop = cp;
    else {
        uint64_t dims[1] = {4};
        root = PDCcont_create_col("top", cp);
        prop = PDCprop_create(PDC_OBJ_CREATE, pdc);
        PDCprop_set_obj_dims(prop, 1, dims); PDCprop_set_obj_type(prop, PDC_INT);
        PDCprop_set_obj_user_id(prop, 5); PDCprop_set_obj_app_name(prop, "x");
    }
    if (d->phase == 0) {
        if (me == 0) {
            M->pre = ex_choose(ex_iparam("inits", 3), "before: nothing, first exists, first has a tag"); /* by name 0 only */
            int ks = ex_iparam("kinds", 8);
            for (int c = 0; c < nc; c++) for (int i = 0; i < nops; i++) {
                int k = ex_choose(ks * nn, "operation") + ex_iparam("k0", 0) * nn;
                M->prog[c][i][0] = k / nn; M->prog[c][i][1] = k % nn;
            }

            if (M->pre) doop(CREATE, 0);
            if (M->pre == 2) doop(PUT1, 0);
            if (ex_iparam("stale", 0) == 0) xclose(0);
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if (ex_iparam("opened", 0) && M->pre) doop(OPEN, 0); /* all hold a handle */
        MPI_Barrier(MPI_COMM_WORLD);
        sim_window = 1;
        for (int i = 0; i < nops; i++) {
            int op = M->prog[me][i][0];
            static const int OC[] = {CREATE, OPEN, DEL, PUT1, PUT2, GET, DELTAG}, OO[] = {CREATE, DEL, PUT1, OPEN, PUT2, GET, DELTAG, QUERY, LIST};
            doop(cn ? OC[op] : OO[op], M->prog[me][i][1]);
        }
        sim_window = 0;
        MPI_Barrier(MPI_COMM_WORLD);
    }
    /* audit by all, in turn */
    for (int c = 0; c < nc; c++) {
        MPI_Barrier(MPI_COMM_WORLD);
        if (c == me) {
            for (int n = 0; n < nn; n++) { doop(OPEN, n); if (h[n]) doop(GET, n); xclose(n); }
            if (!cn) doop(QUERY, 0);
        }
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (me == 0) judge();
    MPI_Barrier(MPI_COMM_WORLD);
    if (ex_iparam("restart", 0) && d->phase == 0) close_servers(d);
}
