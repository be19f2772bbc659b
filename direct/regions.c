// src: utils/pdc_region_utils.c
/* The arithmetic of regions on which every transfer rests: for all pairs of small regions, in up to three dimensions and far
 * from the origin, the overlap, containment and copies between them, element by element against a scan over all elements. */
#include "explore.h"
#include "pdc_region.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int check_overlap(int ndim, uint64_t *offset1, uint64_t *size1, uint64_t *offset2, uint64_t *size2);
int PDC_region_overlap_detect(int ndim, uint64_t *offset1, uint64_t *size1, uint64_t *offset2, uint64_t *size2, uint64_t **output_offset, uint64_t **output_size);
int memcpy_subregion(int ndim, uint64_t unit, pdc_access_t access_type, char *buf, uint64_t *size, char *sub_buf, uint64_t *sub_offset, uint64_t *sub_size);
int memcpy_overlap_subregion(int ndim, uint64_t unit, char *buf, uint64_t *offset, uint64_t *size, char *buf2, uint64_t *offset2, uint64_t *size2, uint64_t *overlap_offset, uint64_t *overlap_size);
int detect_region_contained(uint64_t *offset, uint64_t *size, uint64_t *offset2, uint64_t *size2, int ndim);
static int nd; static uint64_t unit, base;
static uint64_t vol(uint64_t *s) { uint64_t v = 1; for (int d = 0; d < nd; d++) v *= s[d]; return v; }
/* the index of the element c in the region o, s, or -1 */
static int64_t at(uint64_t *c, uint64_t *o, uint64_t *s) { int64_t x = 0; for (int d = 0; d < nd; d++) { if (c[d] < o[d] || c[d] - o[d] >= s[d]) return -1; x = x * s[d] + (c[d] - o[d]); } return x; }
static char *mk(uint64_t *s, char seed) { uint64_t n = vol(s) * unit; char *p = malloc(n); for (uint64_t i = 0; i < n; i++) p[i] = (char)(seed + i * 37 + (i >> 3)); return p; }
static void coord(uint64_t i, uint64_t *o, uint64_t *s, uint64_t *c) { for (int d = nd - 1; d >= 0; d--) { c[d] = o[d] + i % s[d]; i /= s[d]; } }
static char *str(uint64_t *o, uint64_t *s) { static char b[4][120]; static int k; char *r = b[k++ % 4]; int n = 0; for (int d = 0; d < nd; d++) n += sprintf(r + n, "[%llu,+%llu)", (long long)o[d], (long long)s[d]); return r; }
static void body(void)
{
    nd = ex_iparam("nd", 1);
    int no = ex_iparam("off", 4), ns = ex_iparam("size", 4); uint64_t o1[3], s1[3], o2[3], s2[3], c[3];
    static const uint64_t B[] = {0, 4294967294ull, 1ull << 40}, U[] = {1, 3, 4, 8};
    base = B[ex_choose(3, "base")]; unit = U[ex_choose(ex_iparam("units", 4), "unit")];
    for (int d = 0; d < nd; d++) { o1[d] = base + ex_choose(no, "offset"); s1[d] = 1 + ex_choose(ns, "size"); o2[d] = base + ex_choose(no, "offset"); s2[d] = 1 + ex_choose(ns, "size"); }
    ex_note("%s and %s, elements of %d bytes", str(o1, s1), str(o2, s2), (int)unit);
    uint64_t n = 0, v1 = vol(s1), v2 = vol(s2);
    for (uint64_t i = 0; i < v1; i++) { coord(i, o1, s1, c); n += at(c, o2, s2) >= 0; }
    if (!check_overlap(nd, o1, s1, o2, s2) != !n) ex_fail("overlap", "%s and %s share %d elements, check_overlap says %d", str(o1, s1), str(o2, s2), (int)n, check_overlap(nd, o1, s1, o2, s2));
    uint64_t *oo = (void *)1, *os = (void *)1;
    PDC_region_overlap_detect(nd, o1, s1, o2, s2, &oo, &os);
    if (!n) { if (oo || os) ex_fail("overlap", "an overlap is returned for disjoint regions"); ex_step(); ex_state(ex_hash(nd, o1, sizeof o1)); }
    else {
        ex_nontrivial();
        if (!oo || !os) ex_fail("overlap", "no overlap of %s and %s", str(o1, s1), str(o2, s2));
        if (vol(os) != n) ex_fail("overlap", "%s and %s overlap in %s, which has %d elements, not %d", str(o1, s1), str(o2, s2), str(oo, os), (int)vol(os), (int)n);
        for (uint64_t i = 0; i < n; i++) { coord(i, oo, os, c); if (at(c, o1, s1) < 0 || at(c, o2, s2) < 0) ex_fail("overlap", "the overlap %s of %s and %s is not in both", str(oo, os), str(o1, s1), str(o2, s2)); }
        if (!detect_region_contained(o1, s1, o2, s2, nd) != (n != v1)) ex_fail("contained", "%s in %s: %d", str(o1, s1), str(o2, s2), detect_region_contained(o1, s1, o2, s2, nd));
        /* copy what they share from the first to the second */
        char *a = mk(s1, 1), *b = mk(s2, 100), *b0 = mk(s2, 100), *a0 = mk(s1, 1);
        memcpy_overlap_subregion(nd, unit, a, o1, s1, b, o2, s2, oo, os);
        for (uint64_t i = 0; i < v2; i++) { coord(i, o2, s2, c); int64_t k = at(c, o1, s1); if (memcmp(b + i * unit, k >= 0 ? a0 + k * unit : b0 + i * unit, unit)) ex_fail("copy", "copying the overlap of %s into %s: element %d is wrong", str(o1, s1), str(o2, s2), (int)i); }
        if (memcmp(a, a0, v1 * unit)) ex_fail("copy", "the source of a copy changed");
        if (n == v1) { /* the first is a part of the second: take it out and put it back */
            uint64_t rel[3]; for (int d = 0; d < nd; d++) rel[d] = o1[d] - o2[d];
            memcpy(b, b0, v2 * unit);
            memcpy_subregion(nd, unit, PDC_WRITE, b, s2, a, rel, s1);
            for (uint64_t i = 0; i < v1; i++) { coord(i, o1, s1, c); if (memcmp(a + i * unit, b0 + at(c, o2, s2) * unit, unit)) ex_fail("part", "taking %s out of %s: element %d is wrong", str(o1, s1), str(o2, s2), (int)i); }
            if (memcmp(b, b0, v2 * unit)) ex_fail("part", "the source of a copy changed");
            memcpy(a, a0, v1 * unit);
            memcpy_subregion(nd, unit, PDC_READ, b, s2, a, rel, s1);
            for (uint64_t i = 0; i < v2; i++) { coord(i, o2, s2, c); int64_t k = at(c, o1, s1); if (memcmp(b + i * unit, k >= 0 ? a0 + k * unit : b0 + i * unit, unit)) ex_fail("part", "putting %s into %s: element %d is wrong", str(o1, s1), str(o2, s2), (int)i); }
        }
        free(a); free(b); free(a0); free(b0); free(oo);
        ex_step(); ex_state(ex_hash(ex_hash(n, o1, nd * 8), s1, nd * 8));
    }
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-regions", NULL, body); }
