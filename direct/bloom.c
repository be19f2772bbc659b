// src: server/dablooms/pdc_dablooms.c server/dablooms/pdc_murmur.c
/* The filter that lets a server skip searching long lists of objects: every sequence of additions and removals up to a depth,
 * on filters of several capacities and error rates that start empty or filled.  What is in it is never denied; an empty one
 * denies everything; what is not in it is rarely admitted.
 *   what=count: the filter of one list; what=scale: the one that grows */
#include "explore.h"
#include "pdc_dablooms.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int nk, in[400], scale, seq, id[400]; static counting_bloom_t *C; static scaling_bloom_t *S;
static const char *key(int i) { static char b[80]; sprintf(b, i % 3 == 0 ? "%d" : i % 3 == 1 ? "user 1 app object_%d step 0" : "a rather long name of an object, number %d, of an application", i); return b; }
static void add(int i) { const char *s = key(i); if (scale) { id[i] = ++seq; scaling_bloom_add(S, s, strlen(s), id[i]); } else counting_bloom_add(C, s, strlen(s)); in[i] = 1; }
static void del(int i) { const char *s = key(i); if (scale) scaling_bloom_remove(S, s, strlen(s), id[i]); else counting_bloom_remove(C, s, strlen(s)); in[i] = 0; }
static int has(int i) { const char *s = key(i); return scale ? scaling_bloom_check(S, s, strlen(s)) : counting_bloom_check(C, s, strlen(s)); }
/* the largest counter: the counters end at 15, a filter in which one would pass that makes no promise */
static int largest(void) { int m = 0; for (unsigned i = 0; i < C->size; i++) { int n = (unsigned char)C->bitmap->array[i / 2 + C->offset]; n = i % 2 ? n & 15 : n >> 4; if (n > m) m = n; } return m; }
static void check(int cap, double rate)
{
    int n = 0, fp = 0, m = 400;
    for (int i = 0; i < nk; i++) { n += in[i]; if (in[i] && !has(i)) ex_fail("denied", "'%s' was added and is denied", key(i)); if (in[i]) ex_nontrivial(); }
    for (int i = 0; i < nk; i++) fp += !in[i] && has(i);
    for (int i = 1000; i < 1000 + m; i++) fp += !!has(i);
    if (!n && fp) ex_fail("empty", "an empty filter admits %d of %d names", fp, m + nk);
    if (cap >= 70 && n <= cap && fp > 3 * rate * m + 4) ex_fail("admits", "a filter of %d names (made for %d) admits %d of %d others", n, cap, fp, m);
    ex_state(ex_hash(n, in, sizeof in));
}
static void body(void)
{
    static const int CAP[] = {4, 16, 70, 1000}; static const double RATE[] = {0.05, 0.01, 0.3};
    scale = !strcmp(ex_param("what", "count"), "scale");
    int depth = ex_iparam("depth", 4), w = ex_iparam("win", 4), cap = CAP[ex_choose(4, "capacity")]; double rate = RATE[ex_choose(3, "rate")];
    int over = 0, f = ex_choose(scale ? 3 : 4, "fill"), fill = f == 0 ? 0 : f == 1 ? cap - w : scale ? 3 * cap : cap / 2; /* below the capacity, in a growing filter also beyond */
    if (fill < 0) fill = 0; if (f == 3) { fill = cap < 300 ? 4 * cap : 300; over = 1; } if (fill > 300) fill = 300;
    ex_note("capacity %d, error rate %g, filled with %d", cap, rate, fill);
    memset(in, 0, sizeof in); seq = 0; nk = w + fill;
    /* memory that is not zero: the filter has to care */
    void *p[8]; for (int i = 0; i < 8; i++) { p[i] = malloc(3000 << (i % 4)); memset(p[i], 0xff, 3000 << (i % 4)); } for (int i = 0; i < 8; i++) free(p[i]);
    if (scale) S = new_scaling_bloom(cap, rate); else C = new_counting_bloom(cap, rate);
    if (scale ? !S : !C) ex_fail("create", "the filter cannot be created");
    check(cap, rate);
    for (int i = w; i < nk; i++) { if (over && largest() > 15 - 1 - w) { nk = i; fill = i - w; break; } add(i); if (!has(i)) ex_fail("denied", "'%s' was just added and is denied", key(i)); }
    check(cap, rate);
    for (int d = 0; d < depth; d++) {
        int x = ex_choose(w + (fill > 1), "name"), i = x < w ? x : nk - 1;
        ex_note("%s %s", in[i] ? "remove" : "add", key(i));
        if (in[i]) del(i); else add(i);
        ex_step(); check(cap, rate);
    }
    for (int i = 0; i < nk; i++) if (in[i]) del(i);
    check(cap, rate);
    if (scale) free_scaling_bloom(S); else free_counting_bloom(C);
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-bloom", NULL, body); }
