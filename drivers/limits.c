/* Names and texts of every length around the limits: accepted, and then kept as given, or refused, and then without a trace. */
#include "drvutil.h"
#include "pdc_interface.h"
static pdcid_t pdc, cp;
static const int LEN[] = {1, 255, 256, 511, 512, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 5000};
#define NL 14
static char buf[NL][5001];
static char *text(int i, char c) { memset(buf[i], c, LEN[i]); buf[i][LEN[i]] = 0; return buf[i]; }
static pdc_metadata_t *query(const char *n)
{
    pdc_metadata_t *m = NULL; uint32_t sid;
    return PDC_Client_query_metadata_name_timestep(n, 0, &m, &sid) < 0 || !m || !m->obj_id ? NULL : m;
}
static pdcid_t prop(int nd)
{
    uint64_t d[8] = {2, 3, 4, 5, 6, 7, 8, 9};
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_dims(p, nd, d); PDCprop_set_obj_type(p, PDC_INT); return p;
}
/* everything else still works */
static void alive(pdcid_t c, const char *n, int there)
{
    pdc_metadata_t *m = query("plain"); void *v = NULL; pdc_var_type_t t; psize_t s = 0; pdcid_t h = PDCobj_open("plain", pdc);
    if (!m || !h || strcmp(m->app_name, "app") || strcmp(m->data_location, "/loc") || strcmp(m->tags, "k=v") || m->ndim != 2 || m->dims[0] != 2 || m->dims[1] != 3) ex_fail("other", "another object is lost or changed");
    if (PDCobj_get_tag(h, "tag", &v, &t, &s) < 0 || s != 4 || *(int *)v != 77) ex_fail("other-tag", "the tag of another object is lost or changed");
    free(v); PDCobj_close(h);
    pdcid_t k = PDCcont_open("c", pdc); if (!k) ex_fail("other-cont", "a container is lost"); PDCcont_close(k);
    if (n) { pdcid_t o = PDCobj_open(n, pdc); if (!o != !there) ex_fail("name", "an object %s", there ? "created cannot be opened" : "refused can be opened"); if (o) PDCobj_close(o); }
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); c->nclients = 1; c->nphases = 1 + ex_iparam("restart", 0); }
static struct sh { int kind, i, ok; char tags[6000]; } *S;
void driver_main(struct drv *d)
{
    S = d->shared;
    pdc = PDCinit("pdc"); cp = PDCprop_create(PDC_CONT_CREATE, pdc);
    pdcid_t c = d->phase ? PDCcont_open("c", pdc) : PDCcont_create("c", cp), p, o; int x = 77;
    if (!c) ex_fail("cont", "no container");
    static const char *what[] = {"object name", "application name", "text tags", "location", "text tag added", "container name", "dimensions", "location updated", "tag name"};
    if (!d->phase) {
        p = prop(2); PDCprop_set_obj_app_name(p, "app"); PDCprop_set_obj_data_loc(p, "/loc"); PDCprop_set_obj_tags(p, "k=v");
        o = PDCobj_create(c, "plain", p); if (!o || PDCobj_put_tag(o, "tag", &x, PDC_INT, 4) < 0) ex_fail("create", "plain"); PDCobj_close(o); PDCprop_close(p);
        S->kind = ex_choose(9, "kind"); S->i = ex_choose(S->kind == 6 ? 8 : NL, "length"); *S->tags = 0;
    }
    int k = S->kind, i = S->i, l = LEN[i]; char *t = text(i, 'n'); const char *n = k == 0 ? t : "it"; pdc_metadata_t *m;
    if (!d->phase) {
        if (k == 6) ex_note("an object of %d dimensions", i + 1); else ex_note("%s of %d characters", what[k], l);
        p = prop(k == 6 ? i + 1 : 1);
        if (k == 1) PDCprop_set_obj_app_name(p, t);
        if (k == 2) PDCprop_set_obj_tags(p, t);
        if (k == 3) PDCprop_set_obj_data_loc(p, t);
        if (k == 5) {
            pdcid_t q = PDCcont_create(t, cp); S->ok = q != 0; if (!q && l < 1000) ex_fail("refused", "a container name of %d characters is refused", l);
            if (q) PDCcont_close(q);
        }
        else {
            o = PDCobj_create(c, n, p); S->ok = o != 0;
            int must = k == 0 || k == 1 ? l < 1024 : k == 2 ? l < 2048 : k == 3 ? l < 1024 : k == 6 ? i < 4 : 1;
            if (!o && must) ex_fail("refused", "creating it is refused");
            if (o && k == 6 && i >= 4) ex_fail("accepted", "an object with %d dimensions is created", i + 1);
            if (o && k == 4) { /* more and more of them */
                char *u = S->tags; strcpy(u, " ");
                for (int r = 0; r < (l < 300 ? 12 : 4); r++) {
                    int fit = strlen(u) + 1 + l < 2048; perr_t e = PDC_Client_add_tag(o, t);
                    ex_note("add it: %s", e < 0 ? "refused" : "accepted");
                    if (e < 0 && fit) ex_fail("refused", "a text tag of %d characters is refused although there is room for it", l);
                    if (e >= 0) { if (!fit) ex_fail("accepted", "a text tag of %d characters is accepted after %d", l, (int)strlen(u)); strcat(u, ","); strcat(u, t); }
                    if (!(m = query(n)) || strcmp(m->tags, u)) ex_fail("tags", "the text tags are not those added");
                }
            }
            if (o && k == 7) {
                m = query(n); pdc_metadata_t w = *m; w.app_name[0] = w.tags[0] = 0; memset(w.data_location, 'u', sizeof w.data_location); w.data_location[l < (int)sizeof w.data_location ? l : (int)sizeof w.data_location - 1] = 0;
                if (PDC_Client_update_metadata(m, &w) < 0) ex_fail("update", "the location cannot be updated"); strcpy(S->tags, w.data_location);
            }
            if (o && k == 8) { if (PDCobj_put_tag(o, t, &x, PDC_INT, 4) < 0) ex_fail("tag", "a tag with a name of %d characters is refused", l); }
            if (o) PDCobj_close(o);
        }
        PDCprop_close(p);
        ex_step();
    }
    alive(c, k == 5 ? NULL : n, S->ok);
    if (k == 5) {
        pdcid_t q = PDCcont_open(t, pdc); if (!q != !S->ok) ex_fail("cont", "a container %s", S->ok ? "created cannot be opened" : "refused can be opened"); if (q) PDCcont_close(q);
    }
    else if (S->ok) {
        if (!(m = query(n))) ex_fail("query", "it is not found");
        if (strcmp(m->obj_name, n) || strcmp(m->app_name, k == 1 ? t : "Noname") || (k != 4 && strcmp(m->tags, k == 2 ? t : " ")) || (k == 4 && strcmp(m->tags, S->tags)) || (k != 7 && strcmp(m->data_location, k == 3 ? t : " ")) || (k == 7 && strcmp(m->data_location, S->tags))) ex_fail("text", "a text of it is not the one given");
        if ((int)m->ndim != (k == 6 ? i + 1 : 1)) ex_fail("dims", "it has %d dimensions", (int)m->ndim);
        for (int a = 0; a < (int)m->ndim; a++) if (m->dims[a] != 2u + a) ex_fail("dims", "dimension %d is %lu", a, m->dims[a]);
        if (k == 8) { pdcid_t h = PDCobj_open(n, pdc); void *v = NULL; pdc_var_type_t ty; psize_t s = 0; if (PDCobj_get_tag(h, t, &v, &ty, &s) < 0 || s != 4 || *(int *)v != 77) ex_fail("tag", "the tag is lost"); free(v); PDCobj_close(h); }
    }
    if (d->phase == ex_iparam("restart", 0)) { /* gone again */
        p = prop(1);
        ex_note("delete it by name");
        if (k != 5) { PDC_Client_delete_metadata((char *)n, p); if (PDCobj_open(n, pdc)) ex_fail("deleted", "it can be opened although it is deleted"); }
        PDCprop_close(p);
        alive(c, NULL, 0);
    }
    if (l > 500 || k == 6) ex_nontrivial();
    ex_state(ex_hash(k * 100 + i, &S->ok, 4));
    PDCcont_close(c); PDCprop_close(cp);
    if (d->phase < ex_iparam("restart", 0)) close_servers(d);
    PDCclose(pdc);
}
