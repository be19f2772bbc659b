#ifndef DEMOUTIL_H
#define DEMOUTIL_H
#include "drvutil.h"
#include "pdc_obj_pkg.h"
#include "pdc_interface.h"
static pdcid_t pdc, cp;
static inline void begin(void) { pdc = PDCinit("pdc"); cp = PDCprop_create(PDC_CONT_CREATE, pdc); }
static inline void end(void) { PDCprop_close(cp); PDCclose(pdc); }
static inline pdcid_t oprop(int nd, uint64_t a, uint64_t b, uint64_t c, pdc_var_type_t t, int part)
{
    uint64_t d[3] = {a, b, c};
    pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
    PDCprop_set_obj_dims(p, nd, d);
    PDCprop_set_obj_type(p, t);
    PDCprop_set_obj_transfer_region_type(p, part);
    return p;
}
static inline pdcid_t mkobj(pdcid_t cont, const char *n, int nd, uint64_t a, uint64_t b, uint64_t c, pdc_var_type_t t, int part)
{
    pdcid_t p = oprop(nd, a, b, c, t, part), o = PDCobj_create(cont, n, p);
    PDCprop_close(p);
    if (!o) ex_fail("create", "object %s", n);
    return o;
}
static inline pdcid_t xstart(pdcid_t o, pdc_access_t how, void *buf, int nd, const uint64_t *off, const uint64_t *sz)
{
    uint64_t z[3] = {0, 0, 0}, o2[3], s2[3], n = 1;
    for (int i = 0; i < nd; i++) { o2[i] = off[i]; s2[i] = sz[i]; n *= sz[i]; }
    pdcid_t l = PDCregion_create(nd, z, s2), r = PDCregion_create(nd, o2, s2);
    pdcid_t t = PDCregion_transfer_create(buf, how, o, l, r);
    if (!t || PDCregion_transfer_start(t) < 0) ex_fail("start", "transfer");
    PDCregion_close(l); PDCregion_close(r);
    return t;
}
static inline void xwait(pdcid_t t)
{
    if (PDCregion_transfer_wait(t) < 0) ex_fail("wait", "transfer");
    PDCregion_transfer_close(t);
}
static inline void xfer(pdcid_t o, pdc_access_t how, void *buf, int nd, const uint64_t *off, const uint64_t *sz) { xwait(xstart(o, how, buf, nd, off, sz)); }
/* 1-D int objects */
static inline void put1(pdcid_t o, uint64_t off, uint64_t n, int first) { int b[64]; for (uint64_t i = 0; i < n; i++) b[i] = first + i; xfer(o, PDC_WRITE, b, 1, &off, &n); }
static inline void want1(pdcid_t o, uint64_t off, uint64_t n, const int *w)
{
    int b[64]; memset(b, 0x55, sizeof b);
    xfer(o, PDC_READ, b, 1, &off, &n);
    for (uint64_t i = 0; i < n; i++) if (b[i] != w[i]) ex_fail("data", "cell %d is %d, not %d", (int)(off + i), b[i], w[i]);
}
static inline void audit_int_tag(pdcid_t o, const char *k, int there, int v)
{
    void *p = NULL; pdc_var_type_t t; psize_t s = 0;
    perr_t r = PDCobj_get_tag(o, (char *)k, &p, &t, &s);
    if (!there) { if (r >= 0 && s) ex_fail("tag", "tag %s should not exist", k); return; }
    if (r < 0 || s != 4 || *(int *)p != v) ex_fail("tag", "tag %s is lost or wrong", k);
    free(p);
}
#endif
