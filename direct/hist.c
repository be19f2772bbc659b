// src: api/pdc_analysis/pdc_hist_pkg.c
/* Histograms: every small array, range and number of bins.
 *   what=one  : bins are contiguous and ascending, and each element is counted once, in the bin that holds it; copies are equal
 *   what=gen  : the same for histograms made by sampling an array
 *   what=merge: merged histograms count and span what their parts do */
#include "explore.h"
#include "pdc_hist_pkg.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
pdc_histogram_t *PDC_create_hist(pdc_var_type_t dtype, int nbin, double min, double max); /* not in the header */
perr_t PDC_hist_incr_all(pdc_histogram_t *hist, pdc_var_type_t dtype, uint64_t n, void *data);
static const pdc_var_type_t TY[] = {PDC_INT, PDC_FLOAT, PDC_DOUBLE, PDC_INT64, PDC_UINT64, PDC_UINT};
static const double V[] = {0, 1, 0.5, 50.1, 3, 47, 48.5, 100, 1e-9, 12345, 1000000007, -1, -3.7, -50, -0.25};
#define NVAL 15
static double put(int ty, void *b, int i, double v) /* stores v as the type, returns what is stored */
{
    switch (TY[ty]) {
        case PDC_INT: return ((int *)b)[i] = v;
        case PDC_FLOAT: return ((float *)b)[i] = v;
        case PDC_DOUBLE: return ((double *)b)[i] = v;
        case PDC_INT64: return ((int64_t *)b)[i] = v;
        case PDC_UINT64: return ((uint64_t *)b)[i] = v < 0 ? -v : v;
        default: return ((uint32_t *)b)[i] = v < 0 ? -v : v;
    }
}
static int usz(int ty) { return TY[ty] == PDC_INT || TY[ty] == PDC_FLOAT || TY[ty] == PDC_UINT ? 4 : 8; }
static uint64_t tot(pdc_histogram_t *h) { uint64_t s = 0; for (int i = 0; i < h->nbin; i++) s += h->bin[i]; return s; }
static void shape(pdc_histogram_t *h, const char *w)
{
    if (h->nbin < 2 || h->nbin > 10000) ex_fail("bins", "%s has %d bins", w, h->nbin);
    for (int i = 0; i < h->nbin; i++) {
        if (h->range[2 * i] > h->range[2 * i + 1]) ex_fail("range", "bin %d of %s ends at %g before it starts at %g", i, w, h->range[2 * i + 1], h->range[2 * i]);
        if (i && h->range[2 * i] != h->range[2 * i - 1]) ex_fail("gap", "bin %d of %s starts at %.17g, the one before ends at %.17g", i, w, h->range[2 * i], h->range[2 * i - 1]);
    }
}
static void counted(pdc_histogram_t *h, const double *x, int n, const char *w)
{
    shape(h, w);
    for (int i = 0; i < h->nbin; i++) {
        uint64_t c = 0;
        for (int j = 0; j < n; j++) c += (x[j] >= h->range[2 * i] || !i) && (i == h->nbin - 1 || x[j] < h->range[2 * i + 1]);
        if (h->bin[i] != c) ex_fail("count", "bin %d [%.17g, %.17g] of %s counts %d of %d values", i, h->range[2 * i], h->range[2 * i + 1], w, (int)h->bin[i], (int)c);
    }
    for (int j = 0; j < n; j++) if (x[j] < h->range[0] || x[j] > h->range[2 * h->nbin - 1]) ex_fail("extent", "%s spans [%g, %g] but counts %g", w, h->range[0], h->range[2 * h->nbin - 1], x[j]);
}
static void same(pdc_histogram_t *a, pdc_histogram_t *b, const char *w)
{
    if (a->nbin != b->nbin || a->dtype != b->dtype || a->incr != b->incr || a->range == b->range || a->bin == b->bin) ex_fail("copy", "%s differs", w);
    if (memcmp(a->range, b->range, sizeof(double) * 2 * a->nbin) || memcmp(a->bin, b->bin, sizeof(uint64_t) * a->nbin)) ex_fail("copy", "%s differs", w);
}
/* about as many bins as asked for, unless the values are too close together for that */
static void width(pdc_histogram_t *h, int nb, double mn, double mx, int sampled)
{
    double w = (mx - mn) / (nb - 2), big = fabs(mn) > fabs(mx) ? fabs(mn) : fabs(mx);
    if (h->incr > w && h->incr != 1.0 && h->incr > big * 4e-16) ex_fail("width", "%d bins from %g to %g are %g wide", nb, mn, mx, h->incr);
    if (h->nbin > 2 * nb + 2) ex_fail("width", "%d bins instead of about %d", h->nbin, nb);
    if (!sampled && h->incr <= w && h->nbin < nb - 2) ex_fail("width", "%d bins instead of %d", h->nbin, nb);
}
static void one(void)
{
    int ty = ex_choose(6, "type"), nb = 4 + ex_choose(ex_iparam("nbins", 3), "bins"), lo = ex_choose(NVAL, "min"), hi = ex_choose(NVAL, "max"), n = 1 + ex_choose(ex_iparam("n", 2), "elements");
    if (ex_iparam("fifty", 0)) nb = 50;
    double m[2], x[8]; void *b = malloc(usz(ty) * n); char two[16];
    m[0] = put(ty, two, 0, V[lo]); m[1] = put(ty, two, 1, V[hi]);
    ex_note("type %d, %d bins from %g to %g", TY[ty], nb, m[0], m[1]);
    pdc_histogram_t *h = PDC_create_hist(TY[ty], nb, m[0], m[1]);
    if (!h != (m[0] > m[1])) ex_fail("create", "histogram %s", h ? "of an empty range" : "refused");
    if (h) width(h, nb, m[0], m[1], 0);
    if (PDC_create_hist(TY[ty], 3, 0, 1)) ex_fail("create", "histogram of 3 bins");
    if (!h) { free(b); return; }
    for (int i = 0; i < n; i++) { x[i] = put(ty, b, i, V[ex_choose(NVAL, "element")]); ex_note("element %.17g", x[i]); }
    for (int i = 0; i < h->nbin; i++) if (h->bin[i]) ex_fail("count", "a new histogram is not empty");
    if (PDC_hist_incr_all(h, TY[(ty + 1) % 6], n, b) >= 0 || PDC_hist_incr_all(h, TY[ty], 0, b) >= 0) ex_fail("incr", "elements of another type are counted");
    if (PDC_hist_incr_all(h, TY[ty], n, b) < 0) ex_fail("incr", "counting fails");
    counted(h, x, n, "the histogram");
    pdc_histogram_t *e = PDC_create_hist(TY[ty], nb, m[0], m[1]);
    e->incr = 0; /* bins of unknown width are searched instead of computed */
    PDC_hist_incr_all(e, TY[ty], n, b); counted(e, x, n, "the histogram with bins of unknown width"); PDC_free_hist(e);
    pdc_histogram_t *d = PDC_dup_hist(h), c = {0};
    same(h, d, "the duplicate"); PDC_copy_hist(&c, h); same(h, &c, "the copy");
    PDC_hist_incr_all(h, TY[ty], n, b);
    if (tot(h) != 2u * n || tot(d) != n || tot(&c) != n) ex_fail("copy", "a copy changes with the original");
    ex_step(); ex_nontrivial(); ex_state(ex_hash(5, x, sizeof(double) * n));
    PDC_free_hist(h); PDC_free_hist(d); free(c.range); free(c.bin); free(b);
}
static void gen(void)
{
    static const int N[] = {1, 2, 5, 19, 20, 21, 30, 45, 64};
    int ty = ex_choose(6, "type"), n = N[ex_choose(9, "n")], a = ex_choose(NVAL, "value"), s = ex_choose(NVAL, "step"), w = ex_choose(3, "shape"); double x[64];
    void *b = malloc(usz(ty) * n); srand(1 + ex_choose(ex_iparam("seeds", 2), "seed"));
    ex_note("type %d, %d elements from %g in steps of %g, shape %d", TY[ty], n, V[a], V[s], w);
    for (int i = 0; i < n; i++) x[i] = put(ty, b, i, V[a] + V[s] * (w == 0 ? i : w == 1 ? i % 3 : (i * 7) % n) * (fabs(V[s]) > 1e6 && TY[ty] != PDC_DOUBLE ? 0 : 1));
    pdc_histogram_t *h = PDC_gen_hist(TY[ty], n, b);
    if (!h) ex_fail("gen", "no histogram");
    counted(h, x, n, "the histogram");
    double mn = x[0], mx = x[0]; int l = h->nbin - 1;
    for (int i = 1; i < n; i++) { if (x[i] < mn) mn = x[i]; if (x[i] > mx) mx = x[i]; }
    width(h, 50, mn, mx, 1);
    if (h->range[0] != mn || !h->bin[0]) ex_fail("extent", "the histogram starts at %g, not %g", h->range[0], mn);
    if ((h->range[2 * l + 1] != mx || !h->bin[l]) && !(h->nbin == 2 && !h->bin[l])) ex_fail("extent", "the histogram ends at %g, not %g", h->range[2 * l + 1], mx);
    if (x[0] < h->range[1] - h->incr || x[0] > h->range[2 * l] + h->incr) ex_fail("extent", "the first value %g is not within the bins [%g, %g]", x[0], h->range[1], h->range[2 * l]); /* it is always sampled */
    if (PDC_gen_hist(TY[ty], 0, b) || PDC_gen_hist(TY[ty], n, NULL)) ex_fail("gen", "histogram of nothing");
    ex_step(); ex_nontrivial(); ex_state(ex_hash(6, x, sizeof(double) * n));
    PDC_free_hist(h); free(b);
}
static void merge(void)
{
    int nv = ex_iparam("values", 7), k = 1 + ex_choose(ex_iparam("parts", 2), "parts"), n = ex_iparam("n", 1), ty = ex_choose(2, "type") * 2, fail = 0; pdc_histogram_t *h[4]; double mn = 1e300, mx = -1e300; uint64_t sum = 0;
    static const int VI[] = {0, 4, 7, 12, 3, 2, 11};
    for (int i = 0; i < k; i++) {
        int lo = ex_choose(nv, "min"), hi = ex_choose(nv, "max"), t = i && ex_choose(2, "other type") ? 3 : ty; char b[64], two[16];
        double m0 = put(t, two, 0, V[VI[lo]]), m1 = put(t, two, 1, V[VI[hi]]);
        if (m0 > m1) { while (i--) PDC_free_hist(h[i]); return; }
        fail |= t != ty;
        h[i] = PDC_create_hist(TY[t], 4, m0, m1);
        for (int j = 0; j < n; j++) { double x = put(t, b, j, V[VI[ex_choose(nv, "element")]]); ex_note("part %d from %g to %g holds %g", i, m0, m1, x); }
        PDC_hist_incr_all(h[i], TY[t], n, b); sum += n;
        if (h[i]->range[0] < mn) mn = h[i]->range[0];
        if (h[i]->range[2 * h[i]->nbin - 1] > mx) mx = h[i]->range[2 * h[i]->nbin - 1];
    }
    pdc_histogram_t *r = PDC_merge_hist(k, h);
    if (fail) { if (r) ex_fail("merge", "histograms of different types are merged"); for (int i = 0; i < k; i++) PDC_free_hist(h[i]); return; }
    if (!r) ex_fail("merge", "refused");
    shape(r, "the merged histogram");
    if (tot(r) != sum) ex_fail("merge-total", "the merged histogram counts %d of %d values", (int)tot(r), (int)sum);
    if (r->range[0] != mn || r->range[2 * r->nbin - 1] != mx) ex_fail("merge-extent", "the merged histogram spans [%g, %g], not [%g, %g]", r->range[0], r->range[2 * r->nbin - 1], mn, mx);
    int base = 0;
    for (int i = 1; i < k; i++) if (h[i]->incr > h[base]->incr) base = i;
    if (r->incr != h[base]->incr) ex_fail("merge-width", "bins of width %g", r->incr);
    for (int b = 0; b < r->nbin; b++) {
        uint64_t in = 0, may = 0; double c = r->range[2 * b], d = r->range[2 * b + 1];
        for (int i = 0; i < k; i++) for (int j = 0; j < h[i]->nbin; j++) {
            double p = h[i]->range[2 * j], q = h[i]->range[2 * j + 1];
            int inside = i == base ? j == b : p >= c && q <= d && p < q;
            if (inside) in += h[i]->bin[j]; else if (i != base && p <= d && q >= c) may += h[i]->bin[j];
        }
        if (r->bin[b] < in || r->bin[b] > in + may) ex_fail("merge-bin", "bin %d [%g, %g] of the merged histogram counts %d values, not %d", b, c, d, (int)r->bin[b], (int)in);
    }
    ex_step(); ex_nontrivial(); ex_state(ex_hash(7, r->bin, sizeof(uint64_t) * r->nbin));
    for (int i = 0; i < k; i++) PDC_free_hist(h[i]);
    PDC_free_hist(r);
    if (PDC_merge_hist(0, h) || PDC_merge_hist(1, NULL) || PDC_dup_hist(NULL)) ex_fail("merge", "of nothing");
    PDC_free_hist(NULL);
}
static void body(void)
{
    const char *w = ex_param("what", "one");
    if (!strcmp(w, "one")) one();
    else if (!strcmp(w, "gen")) gen();
    else merge();
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-hist", NULL, body); }
