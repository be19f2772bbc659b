/* pdc_ls (src/tools/pdc_ls.c, compiled in) on the checkpoints the servers left when they were closed.
 *
 * All sequences of operations up to the depth; after the servers are closed, every way to call the tool on what they left is
 * tried and its JSON output compared with the model: the containers with their objects, and each object's attributes and
 * stored regions.
 */
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_interface.h"
#include <regex.h>
#define main ls_tool_main
#define check ls_tool_check
#define add ls_tool_add
#define newList ls_tool_newList
#define pdc_server_rank_g ls_tool_rank
#define pdc_server_size_g ls_tool_size
#define total_mem_usage_g ls_tool_mem
#include "pdc_ls.c"
#undef main
#undef check
#undef add
#include "cjson/cJSON.c"

#define NO 3
#define FAR 4294967296ull
static const char *ON[NO] = {"ab", "bA%s%n", "q.1"};
static const char *CN[2] = {"c1", "d2"};
static struct { int nd; uint64_t d[2], x0; pdc_var_type_t t; const char *tn; int u, user, ts; const char *app, *tag; } P[3] = {
    {1, {4}, 0, PDC_INT, "PDC_INT", 4, 0, 0, "", ""},
    {2, {4, 2}, 0, PDC_CHAR, "PDC_CHAR", 1, 7, 3, "vpic %d", "t=1"},
    {1, {FAR + 10}, FAR, PDC_DOUBLE, "PDC_DOUBLE", 8, 3000000, 0, "hacc", "red"},
};
struct model { struct { int live, v, c, w[2], m[2], kv; uint64_t id; } o[NO]; uint64_t contid[2]; int deleted; };
static struct model *M;
static pdcid_t pdc, cp, cont[2], hnd[NO];

static void create(int i, int v, int c)
{
    ex_note("create object %s (variant %d) in container %s", ON[i], v, CN[c]);
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_dims(p, P[v].nd, P[v].d);
    PDCprop_set_obj_type(p, P[v].t);
    PDCprop_set_obj_user_id(p, P[v].user);
    PDCprop_set_obj_time_step(p, P[v].ts);
    if (*P[v].app) PDCprop_set_obj_app_name(p, (char *)P[v].app);
    if (*P[v].tag) PDCprop_set_obj_tags(p, (char *)P[v].tag);
    PDCprop_set_obj_transfer_region_type(p, ex_iparam("part", 0));
    pdcid_t h = PDCobj_create(cont[c], ON[i], p);
    PDCprop_close(p);
    if (!h) ex_fail("create", "object %s cannot be created", ON[i]);
    memset(&M->o[i], 0, sizeof M->o[i]);
    M->o[i].live = 1; M->o[i].v = v; M->o[i].c = c; M->o[i].id = PDCobj_get_info(h)->meta_id;
    hnd[i] = h;
}
static void del(int i)
{
    ex_note("delete object %s", ON[i]);
    if (PDCobj_del(hnd[i]) < 0) ex_fail("delete", "object %s", ON[i]);
    PDCobj_close(hnd[i]);
    M->o[i].live = 0; hnd[i] = 0; M->deleted = 1;
}
static void wr(int i, int half)
{
    int v = M->o[i].v;
    ex_note("write half %d of object %s", half, ON[i]);
    uint64_t z[2] = {0, 0}, off[2] = {P[v].x0 + 2 * half, 0}, n[2] = {2, P[v].d[1]};
    char b[64]; memset(b, 7, sizeof b);
    pdcid_t l = PDCregion_create(P[v].nd, z, n), r = PDCregion_create(P[v].nd, off, n), t = PDCregion_transfer_create(b, PDC_WRITE, hnd[i], l, r);
    if (PDCregion_transfer_start(t) < 0 || PDCregion_transfer_wait(t) < 0) ex_fail("write", "region write failed");
    PDCregion_transfer_close(t); PDCregion_close(l); PDCregion_close(r);
    M->o[i].w[half] = 1;
}
static void kv(int i)
{
    ex_note("put a tag of object %s", ON[i]);
    if (PDCobj_put_tag(hnd[i], "key", "value", PDC_STRING, 6) < 0) ex_fail("put", "tag");
    M->o[i].kv++;
}
/* many other objects in many other containers; object i has the 2nd, 4th, ... cell written, one by one, up to fw(i) cells */
#define NF 120
static int nfill, nfc;
struct fmodel { uint64_t id[NF], cid[NF]; };
static struct fmodel *F;
static void fn(int i, char *b) { sprintf(b, "f%c%c", 'c' + i % 11, 'c' + i / 11); }
static int fi(const char *s) { for (int i = 0; i < nfill; i++) { char b[8]; fn(i, b); if (!strcmp(b, s)) return i; } return -1; }
static int fw(int i) { return i == 0 ? 40 : i % 3; }
static void fill(void)
{
    pdcid_t fc[NF] = {0}; char b[32];
    if (nfill) ex_note("%d more containers, %d more objects", nfc, nfill);
    for (int i = 0; i < nfc; i++) { sprintf(b, "fcont%d", i); fc[i] = PDCcont_create(b, cp); F->cid[i] = PDCcont_get_info(b)->meta_id; }
    for (int i = 0; i < nfill; i++) {
        uint64_t d = 100 + i, z = 0, one = 1; int v = i;
        pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
        PDCprop_set_obj_dims(p, 1, &d); PDCprop_set_obj_type(p, PDC_INT); PDCprop_set_obj_time_step(p, i); PDCprop_set_obj_transfer_region_type(p, ex_iparam("part", 0));
        fn(i, b);
        pdcid_t h = PDCobj_create(fc[i % nfc], b, p);
        PDCprop_close(p);
        if (!h) ex_fail("create", "object %d of many cannot be created", i);
        F->id[i] = PDCobj_get_info(h)->meta_id;
        for (int k = 0; k < fw(i); k++) {
            uint64_t off = 2 * k;
            pdcid_t l = PDCregion_create(1, &z, &one), r = PDCregion_create(1, &off, &one), t = PDCregion_transfer_create(&v, PDC_WRITE, h, l, r);
            if (PDCregion_transfer_start(t) < 0 || PDCregion_transfer_wait(t) < 0) ex_fail("write", "region write failed");
            PDCregion_transfer_close(t); PDCregion_close(l); PDCregion_close(r);
        }
        PDCobj_close(h);
    }
    for (int i = 0; i < nfc; i++) PDCcont_close(fc[i]);
}
static int alphabet(int pick)
{
    int n = 0, nv = ex_iparam("nv", 3), no = ex_iparam("no", 2);
#define ALT(...) do { if (n++ == pick) { __VA_ARGS__; return -1; } } while (0)
    for (int i = 0; i < no; i++) {
        if (M->o[i].live) { ALT(del(i)); for (int h = 0; h < 2; h++) ALT(wr(i, h)); if (ex_iparam("kv", 1)) ALT(kv(i)); }
        else for (int v = 0; v < nv; v++) for (int c = 0; c < 2; c++) ALT(create(i, v, c));
    }
    if (ex_iparam("kv", 1)) ALT(ex_note("put a tag of container %s", CN[1]); if (PDCcont_put_tag(cont[1], "ckey", "cvalue", PDC_STRING, 7) < 0) ex_fail("put", "container tag"));
    return n;
}
static cJSON *run(const char *a1, const char *a2, const char *a3, const char *a4, const char *a5, const char *a6, const char *what)
{
    char *v[12] = {"pdc_ls", (char *)a1}; int n = 2;
    if (a2) v[n++] = (char *)a2; if (a3) v[n++] = (char *)a3; if (a4) v[n++] = (char *)a4; if (a5) v[n++] = (char *)a5; if (a6) v[n++] = (char *)a6;
    v[n++] = "-json"; v[n++] = "ls.json"; v[n] = NULL;
    ex_note("pdc_ls %s", what);
    remove("ls.json");
    ls_tool_main(n, v);
    ex_step();
    FILE *f = fopen("ls.json", "r");
    if (!f) ex_fail("no-output", "pdc_ls %s: no output file", what);
    static char buf[1 << 21];
    size_t k = fread(buf, 1, sizeof buf - 1, f);
    fclose(f);
    buf[k] = 0;
    cJSON *j = cJSON_Parse(buf);
    if (!j) ex_fail("no-json", "pdc_ls %s: the output is not JSON: %.200s", what, buf);
    if (getenv("LSDUMP")) fprintf(stderr, "%s\n%s\n", what, buf);
    return j;
}
static double num(cJSON *o, const char *k, const char *what) { cJSON *x = cJSON_GetObjectItem(o, k); if (!cJSON_IsNumber(x)) ex_fail("attribute", "pdc_ls %s: %s is missing", what, k); return x->valuedouble; }
static const char *str(cJSON *o, const char *k, const char *what) { cJSON *x = cJSON_GetObjectItem(o, k); if (!cJSON_IsString(x)) ex_fail("attribute", "pdc_ls %s: %s is missing", what, k); return x->valuestring; }
static int nregions;
static void fobject(int i, cJSON *o, int regions, const char *what)
{
    if (num(o, "obj_id", what) != F->id[i]) ex_fail("attribute", "pdc_ls %s: ID of object %d of many", what, i);
    if (num(o, "user_id", what) != 0 || num(o, "time_step", what) != i || num(o, "num_dims", what) != 1 || strcmp(str(o, "data_type", what), "PDC_INT")) ex_fail("attribute", "pdc_ls %s: attributes of object %d of many", what, i);
    cJSON *d = cJSON_GetObjectItem(o, "dims"), *r, *l;
    if (cJSON_GetArraySize(d) != 1 || cJSON_GetArrayItem(d, 0)->valuedouble != 100 + i) ex_fail("dims", "pdc_ls %s: dims of object %d of many", what, i);
    if (!regions) return;
    char seen[100 + NF] = {0};
    l = cJSON_GetObjectItem(o, "region_list_info");
    if (!cJSON_IsArray(l)) ex_fail("regions", "pdc_ls %s: no regions of object %d of many", what, i);
    cJSON_ArrayForEach(r, l) {
        double A = cJSON_GetArrayItem(cJSON_GetObjectItem(r, "start"), 0)->valuedouble, N = cJSON_GetArrayItem(cJSON_GetObjectItem(r, "count"), 0)->valuedouble;
        if (num(r, "num_dims", what) != 1 || num(r, "unit_size", what) != 4 || A < 0 || N < 1 || A + N > 100 + i) ex_fail("regions", "pdc_ls %s: region %g+%g of object %d of many", what, A, N, i);
        for (int k = A; k < A + N; k++) seen[k] = 1;
        nregions++;
    }
    for (int k = 0; k < 100 + i; k++) if (seen[k] != (k % 2 == 0 && k / 2 < fw(i))) ex_fail("regions", "pdc_ls %s: element %d of object %d of many is %s", what, k, i, seen[k] ? "in a listed region but was not written" : "in no listed region but was written");
}
static void object(int i, cJSON *o, int regions, const char *what)
{
    int v = M->o[i].v;
    if (num(o, "obj_id", what) != M->o[i].id) ex_fail("attribute", "pdc_ls %s: ID of %s", what, ON[i]);
    if (num(o, "user_id", what) != P[v].user || num(o, "time_step", what) != P[v].ts || num(o, "num_dims", what) != P[v].nd || strcmp(str(o, "data_type", what), P[v].tn))
        ex_fail("attribute", "pdc_ls %s: attributes of %s", what, ON[i]);
    if ((*P[v].app && strcmp(str(o, "app_name", what), P[v].app)) || (*P[v].tag && strcmp(str(o, "tags", what), P[v].tag))) ex_fail("attribute", "pdc_ls %s: application or tags of %s", what, ON[i]);
    cJSON *d = cJSON_GetObjectItem(o, "dims");
    if (cJSON_GetArraySize(d) != P[v].nd) ex_fail("dims", "pdc_ls %s: dims of %s", what, ON[i]);
    for (int k = 0; k < P[v].nd; k++) if (cJSON_GetArrayItem(d, k)->valuedouble != P[v].d[k]) ex_fail("dims", "pdc_ls %s: dims of %s", what, ON[i]);
    if (!regions) return;
    cJSON *r, *l = cJSON_GetObjectItem(o, "region_list_info");
    int seen[4][2] = {{0}};
    if (!cJSON_IsArray(l)) ex_fail("regions", "pdc_ls %s: no regions of %s", what, ON[i]);
    cJSON_ArrayForEach(r, l) {
        cJSON *s = cJSON_GetObjectItem(r, "start"), *c = cJSON_GetObjectItem(r, "count");
        if (num(r, "num_dims", what) != P[v].nd || cJSON_GetArraySize(s) != P[v].nd || cJSON_GetArraySize(c) != P[v].nd || num(r, "unit_size", what) != P[v].u) ex_fail("regions", "pdc_ls %s: a region of %s has other dimensions or another unit", what, ON[i]);
        int a[2] = {0, 0}, n[2] = {1, 1};
        for (int k = 0; k < P[v].nd; k++) {
            double A = cJSON_GetArrayItem(s, k)->valuedouble - (k ? 0 : P[v].x0), N = cJSON_GetArrayItem(c, k)->valuedouble;
            if (A < 0 || N < 1 || A + N > (k ? P[v].d[1] : 4)) ex_fail("regions", "pdc_ls %s: region %g+%g (dimension %d) of %s was not written", what, A, N, k, ON[i]);
            a[k] = A; n[k] = N;
        }
        for (int x = a[0]; x < a[0] + n[0]; x++) for (int y = a[1]; y < a[1] + n[1]; y++) seen[x][y] = 1;
        const char *loc = str(r, "storage_loc", what);
        char id[64]; sprintf(id, "%lu", M->o[i].id);
        if (!strstr(loc, id)) ex_fail("regions", "pdc_ls %s: storage location %s of %s", what, loc, ON[i]);
        nregions++;
    }
    for (int x = 0; x < 4; x++) for (int y = 0; y < (P[v].nd == 2 ? 2 : 1); y++) if (seen[x][y] != M->o[i].w[x / 2])
        ex_fail("regions", "pdc_ls %s: element (%d, %d) of %s is %s", what, x, y, ON[i], seen[x][y] ? "in a listed region but was not written" : "in no listed region but was written");
}
/* objects in want[] are listed, each once, under their containers, and no others */
static void compare(cJSON *j, const int *want, int all, int regions, int names, int ids, int summary, const char *what)
{
    int seen[NO] = {0}, total = 0, fseen[NF] = {0};
    nregions = 0;
    cJSON *e, *o;
    cJSON_ArrayForEach(e, j) {
        if (strncmp(e->string, "cont_id: ", 9)) continue;
        int c = -1;
        for (int k = 0; k < 2; k++) { char b[64]; sprintf(b, "%lu", M->contid[k]); if (!strcmp(b, e->string + 9)) c = k; }
        for (cJSON *f = e->next; f; f = f->next) if (!strcmp(f->string, e->string)) ex_fail("cont-twice", "pdc_ls %s: container %s is listed twice", what, e->string);
        int fc = -1;
        for (int k = 0; k < nfc; k++) { char b[64]; sprintf(b, "%lu", F->cid[k]); if (!strcmp(b, e->string + 9)) fc = k; }
        if (c < 0 && fc < 0) ex_fail("cont", "pdc_ls %s: unknown container %s", what, e->string);
        cJSON_ArrayForEach(o, e) {
            const char *n = str(o, "obj_name", what);
            int i = 0;
            while (i < NO && strcmp(ON[i], n)) i++;
            int f = fi(n);
            if (f >= 0 && all) {
                if (fseen[f]++) ex_fail("twice", "pdc_ls %s: object %s is listed twice", what, n);
                if (f % nfc != fc) ex_fail("cont", "pdc_ls %s: object %s is listed in another container", what, n);
                fobject(f, o, regions, what);
                total++;
                continue;
            }
            if (i == NO || !M->o[i].live || !want[i]) ex_fail("extra", "pdc_ls %s: object %s is listed", what, n);
            if (seen[i]++) ex_fail("twice", "pdc_ls %s: object %s is listed twice", what, n);
            if (M->o[i].c != c) ex_fail("cont", "pdc_ls %s: object %s is listed in another container", what, n);
            object(i, o, regions, what);
            total++;
            ex_nontrivial();
        }
    }
    for (int i = 0; i < NO; i++) if (M->o[i].live && want[i] && !seen[i]) ex_fail("missing", "pdc_ls %s: object %s is not listed", what, ON[i]);
    for (int i = 0; i < nfill; i++) if (all && !fseen[i]) ex_fail("missing", "pdc_ls %s: object %d of many is not listed", what, i);
    cJSON *l = cJSON_GetObjectItem(j, "all_obj_names");
    if (names) {
        if (cJSON_GetArraySize(l) != total) ex_fail("names", "pdc_ls %s: %d names of %d objects", what, cJSON_GetArraySize(l), total);
        for (int i = 0; i < NO; i++) if (seen[i]) { int k = 0; cJSON_ArrayForEach(o, l) k += !strcmp(o->valuestring, ON[i]); if (k != 1) ex_fail("names", "pdc_ls %s: name %s is listed %d times", what, ON[i], k); }
    } else if (l) ex_fail("names", "pdc_ls %s: lists the names", what);
    l = cJSON_GetObjectItem(j, "all_obj_ids");
    if (ids) {
        if (cJSON_GetArraySize(l) != total) ex_fail("ids", "pdc_ls %s: %d IDs of %d objects", what, cJSON_GetArraySize(l), total);
        for (int i = 0; i < NO; i++) if (seen[i]) { int k = 0; cJSON_ArrayForEach(o, l) k += o->valuedouble == M->o[i].id; if (k != 1) ex_fail("ids", "pdc_ls %s: ID of %s is listed %d times", what, ON[i], k); }
    } else if (l) ex_fail("ids", "pdc_ls %s: lists the IDs", what);
    if (summary) {
        int a = -1, b = -1, c = -1, nobj = 0;
        sscanf(str(j, "summary", what), "pdc_ls found: %d containers, %d objects, %d regions", &a, &b, &c);
        for (int i = 0; i < NO; i++) nobj += M->o[i].live;
        if (a != 2 + nfc || b != nobj + nfill || (M->deleted ? c < nregions : c != nregions)) ex_fail("summary", "pdc_ls %s: %s; there are %d, %d and %d", what, str(j, "summary", what), 2 + nfc, nobj + nfill, nregions);
    }
    cJSON_Delete(j);
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); c->nclients = 1; c->nphases = 2; }
void driver_main(struct drv *d)
{
    M = d->shared; F = (void *)(M + 1);
    nfill = ex_iparam("fill", 0); nfc = ex_iparam("fillc", 1) * !!nfill;
    const char *dir = ex_param("dir", "/sim/tmp");
    if (d->phase == 0) {
        pdc = PDCinit("pdc");
        cp = PDCprop_create(PDC_CONT_CREATE, pdc);
        for (int c = 0; c < 2; c++) { cont[c] = PDCcont_create(CN[c], cp); M->contid[c] = PDCcont_get_info(CN[c])->meta_id; }
        fill();
        for (int i = 0; i < ex_iparam("pre", 0); i++) create(i, i, i & 1);
        for (int i = 0; i < ex_iparam("depth", 3); i++) alphabet(ex_choose(alphabet(-1), "op"));
        close_servers(d);
        PDCclose(pdc);
        return;
    }
    int all[NO] = {1, 1, 1}, w[NO];
    char b[256], m[256];
    FILE *f = fopen("/sim/tmp/0/metadata_checkpoint.0.new", "w"); /* as a crash in the middle of a checkpoint leaves it */
    if (f) { fwrite("\1\0\0", 1, 3, f); fclose(f); }
    f = fopen("/sim/tmp/0/other_file", "w"); if (f) fclose(f);
    ex_state(ex_hash(3, M->o, sizeof M->o));
    sprintf(b, "%s/", dir);
    compare(run(dir, "-s", "-ln", "-li", NULL, NULL, "DIR -s -ln -li"), all, 1, 1, 1, 1, 1, "DIR -s -ln -li");
    compare(run(b, "-li", NULL, NULL, NULL, NULL, "DIR/ -li"), all, 1, 1, 0, 1, 0, "DIR/ -li");
    if (d->nservers == 1) {
        compare(run("/sim/tmp/0/metadata_checkpoint.0", "-ln", NULL, NULL, NULL, NULL, "FILE -ln"), all, 1, 1, 1, 0, 0, "FILE -ln");
        compare(run("/sim/tmp/0", NULL, NULL, NULL, NULL, NULL, "DIR/0"), all, 1, 1, 0, 0, 0, "DIR/0");
        compare(run("/sim/tmp/0/", NULL, NULL, NULL, NULL, NULL, "DIR/0/"), all, 1, 1, 0, 0, 0, "DIR/0/");
    }
    static const char *RX[] = {"^q", "b", "a$", "[b", "zz*", "[0-9]"};
    for (int k = 0; k < 6; k++) {
        regex_t re;
        int bad = regcomp(&re, RX[k], 0);
        for (int i = 0; i < NO; i++) w[i] = bad ? !strcmp(RX[k], ON[i]) : !regexec(&re, ON[i], 0, NULL, 0);
        sprintf(m, "DIR -n %s -ln", RX[k]);
        compare(run(dir, "-n", RX[k], "-ln", NULL, NULL, m), w, 0, 1, 1, 0, 0, m);
    }
    for (int i = 0; i < NO; i++) if (M->o[i].live) {
        memset(w, 0, sizeof w); w[i] = 1;
        sprintf(b, "^%lu$", M->o[i].id); sprintf(m, "DIR -i ID of %s -li", ON[i]);
        compare(run(dir, "-i", b, "-li", NULL, NULL, m), w, 0, 1, 0, 1, 0, m);
        for (int k = 0; k < NO; k++) {
            w[i] = k == i;
            sprintf(m, "DIR -i ID of %s -n %s", ON[i], k == 1 ? "bA" : ON[k]);
            compare(run(dir, "-i", b, "-n", k == 1 ? "bA" : ON[k], NULL, m), w, 0, 1, 0, 0, 0, m);
        }
    }
}
