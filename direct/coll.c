/* The collections of src/commons: every sequence of operations up to a depth, from many starting fills (empty, around every
 * change of capacity, wrapped around), compared with plain arrays.
 *   what=deque | vector | sets (union and intersection) | words (comparison and hash functions) */
#include "explore.h"
#include "pdc_deque.h"
#include "pdc_vector.h"
#include "pdc_set.h"
#include "pdc_hash.h"
#include "pdc_hash_table.h"
#include "pdc_compare.h"
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern HashTableHashFunc pdc_default_string_hash_func_ptr, pdc_default_integer_hash_func_ptr, pdc_default_long_hash_func_ptr, pdc_default_uint64_hash_func_ptr;
extern HashTableEqualFunc pdc_default_string_equal_func_ptr, pdc_default_integer_equal_func_ptr, pdc_default_long_equal_func_ptr, pdc_default_uint64_equal_func_ptr;

/* ---- deque */
static PDC_deque_t D;
static long Q[4096]; static int qa, qb; static long ctr; /* the model is Q[qa..qb) */
static void dq(int op)
{
    long v, w;
    switch (op) {
        case 0: ctr++; PDC_deque_push_back(&D, (void *)ctr); Q[qb++] = ctr; break;
        case 1: ctr++; PDC_deque_push_front(&D, (void *)ctr); Q[--qa] = ctr; break;
        case 2: v = (long)PDC_deque_pop_front(&D); w = qa < qb ? Q[qa++] : 0; if (v != w) ex_fail("deque", "taking the first element yields %ld instead of %ld", v, w); break;
        case 3: v = (long)PDC_deque_pop_back(&D); w = qa < qb ? Q[--qb] : 0; if (v != w) ex_fail("deque", "taking the last element yields %ld instead of %ld", v, w); break;
    }
    if (D.size != (size_t)(qb - qa)) ex_fail("deque-size", "the deque counts %zu elements instead of %d", D.size, qb - qa);
}
static void deque(void)
{
    static const int fills[] = {0, 1, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 64, 65};
    static const char *op[] = {"push back", "push front", "pop front", "pop back"};
    int f = ex_iparam("fill", 0) ? ex_iparam("fill", 0) + ex_choose(3, "fill") : fills[ex_choose(18, "fill")], how = ex_choose(3, "how"), spin = ex_choose(3, "spin") * 7, depth = ex_iparam("depth", 5);
    qa = qb = 2048; ctr = 0;
    PDC_deque_init(&D);
    ex_note("%d elements, put %s, the start moved by %d", f, how == 0 ? "at the back" : how == 1 ? "at the front" : "at both ends", spin);
    for (int i = 0; i < spin; i++) { dq(0); dq(2); }
    for (int i = 0; i < f; i++) dq(how == 2 ? i & 1 : how);
    for (int i = 0; i < depth; i++) { int o = ex_choose(4, "op"); ex_note("%s", op[o]); dq(o); ex_step(); uint64_t h = ex_hash(f, &D.size, 8); h = ex_hash(h, &qa, 4); ex_state(h); }
    if (ex_iparam("long", 0)) for (int i = 0; i < 70; i++) dq(ex_iparam("long", 0) & 1 ? 0 : 1);
    int last = ex_choose(2, "drain");
    while (qa < qb) dq(2 + last);
    dq(2 + last);
    dq(0); dq(1); dq(0); dq(3); dq(2);
    PDC_deque_free(&D);
}

/* ---- vector */
static void vector(void)
{
    static const size_t caps[] = {1, 2, 3, 4, 7, 100}; static const double fac[] = {2.0, 1.5, 1.1, 3.0, 1.0};
    int c = ex_choose(7, "capacity"), depth = ex_iparam("depth", 6), f0 = c < 6 ? ex_choose(5, "factor") : 0, n = 0;
    PDC_VECTOR *v = c < 6 ? pdc_vector_create(caps[c], fac[f0]) : pdc_vector_new();
    ex_note("vector of capacity %zu, factor %g", c < 6 ? caps[c] : 100, fac[f0]);
    int fill = ex_choose(4, "fill") * 5; if (c > 4) fill = fill ? 95 + fill / 5 : 0;
    if (ex_iparam("fill", 0)) fill = ex_iparam("fill", 0);
    for (int i = 0; i < fill; i++) { int *p = malloc(4); *p = ++n; pdc_vector_add(v, p); }
    for (int d = 0; d < depth; d++) {
        int o = ex_choose(3, "op");
        if (o == 0) { int *p = malloc(4); *p = ++n; ex_note("add"); pdc_vector_add(v, p); }
        else if (o == 1) { ex_note("factor 1.2"); pdc_vector_set_expansion_factor(v, 1.2); if (pdc_vector_get_expansion_factor(v) != 1.2) ex_fail("vector-factor", "the expansion factor is not the one set"); }
        else { ex_note("add nothing"); pdc_vector_add(v, NULL); }
        if (pdc_vector_size(v) != (size_t)n) ex_fail("vector-size", "the vector has %zu elements instead of %d", pdc_vector_size(v), n);
        for (int i = 0; i < n; i++) { int *p = pdc_vector_get(v, i); if (!p || *p != i + 1) ex_fail("vector", "element %d is %d", i, p ? *p : -1); }
        if (pdc_vector_get(v, n) || pdc_vector_get(v, (size_t)-1)) ex_fail("vector", "there is an element past the end");
        ex_step(); ex_state(ex_hash(n, &v->capacity, 8));
    }
    PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(v);
    for (int i = 0; i < n; i++) { if (!pdc_vector_iterator_has_next(it)) ex_fail("vector-iterate", "the iteration ends after %d of %d", i, n); int *p = pdc_vector_iterator_next(it); if (!p || *p != i + 1) ex_fail("vector-iterate", "element %d of the iteration is %d", i, p ? *p : -1); }
    if (pdc_vector_iterator_has_next(it) || pdc_vector_iterator_next(it)) ex_fail("vector-iterate", "the iteration goes on after the end");
    pdc_vector_iterator_destroy(it);
    pdc_vector_destroy(v);
}

/* ---- sets: union and intersection of every pair of subsets */
static uint64_t N[400];
static unsigned h8(SetValue v) { return (unsigned)*(uint64_t *)v; }
static int e8(SetValue a, SetValue b) { return *(uint64_t *)a == *(uint64_t *)b; }
static void holds(Set *s, const char *in, int n, const char *what)
{
    int want = 0, got = 0; char seen[400] = {0};
    for (int i = 0; i < n; i++) { want += in[i]; if (!!set_query(s, &N[i]) != in[i]) ex_fail("set-op", "the %s %s %lu", what, in[i] ? "misses" : "contains", N[i]); }
    SetIterator it; memset(&it, 0x5A, sizeof it); set_iterate(s, &it);
    while (set_iter_has_more(&it)) { uint64_t *p = set_iter_next(&it); int i = (int)(p - N); if (i < 0 || i >= n || !in[i] || seen[i]++) ex_fail("set-op", "iterating the %s yields a wrong element", what); got++; }
    if (set_iter_next(&it) != SET_NULL) ex_fail("set-op", "the iteration goes on after the end");
    if (got != want || set_num_entries(s) != (unsigned)want) ex_fail("set-op", "the %s has %d elements (counts %u) instead of %d", what, got, set_num_entries(s), want);
    SetValue *a = set_to_array(s); memset(seen, 0, sizeof seen);
    for (int k = 0; k < want; k++) { int i = (int)((uint64_t *)a[k] - N); if (i < 0 || i >= n || !in[i] || seen[i]++) ex_fail("set-op", "the array of the %s is wrong", what); }
    free(a);
}
static void sets(void)
{
    int w = ex_iparam("win", 5), fa = ex_iparam("fa", 0), fb = ex_iparam("fb", 0), n = w + fa + fb;
    static char A[400], B[400], U[400], I[400]; memset(A, 0, sizeof A); memset(B, 0, sizeof B);
    Set *a = set_new(h8, e8), *b = set_new(h8, e8);
    for (int i = 0; i < w; i++) N[i] = 3 + (i < 3 ? i * 193ull : (1ull << 32) * (i - 2) + 3);
    for (int i = w; i < n; i++) N[i] = 1000003ull * i;
    for (int i = w; i < n; i++) { if (i < w + fa || i % 3 == 0) { A[i] = 1; set_insert(a, &N[i]); } if (i >= w + fa || i % 5 == 0) { B[i] = 1; set_insert(b, &N[i]); } }
    for (int i = 0; i < w; i++) { int c = ex_choose(4, "in"); if (c & 1) { A[i] = 1; set_insert(a, &N[i]); } if (c & 2) { B[i] = 1; set_insert(b, &N[i]); } }
    for (int i = 0; i < n; i++) { U[i] = A[i] || B[i]; I[i] = A[i] && B[i]; }
    Set *u = set_union(a, b), *x = set_intersection(a, b), *y = set_intersection(b, a);
    if (!u || !x || !y) ex_fail("set-op", "the union or intersection fails");
    holds(a, A, n, "first set"); holds(b, B, n, "second set"); holds(u, U, n, "union"); holds(x, I, n, "intersection"); holds(y, I, n, "other intersection");
    ex_step(); ex_state(ex_hash(ex_hash(1, A, n), B, n));
    set_free(a); set_free(b); set_free(u); set_free(x); set_free(y);
}

/* ---- comparison and hash functions on every pair of short words and of some numbers */
static int sg(long x) { return x < 0 ? -1 : x > 0; }
static void word(char *s, const char *what) { static const char al[] = "aAbBz_\xe9"; int n = ex_choose(ex_iparam("len", 3) + 1, what); for (int i = 0; i < n; i++) s[i] = al[ex_choose(7, "letter")]; s[n] = 0; }
#define W(C, ...) do { if (!(C)) ex_fail("words", __VA_ARGS__); } while (0)
static void words(void)
{
    static const uint64_t X[] = {0, 1, 2, 0x7fffffff, 0x80000000ull, 0xffffffffull, 1ull << 32, (1ull << 32) + 1, 0x7fffffffffffffffull, ~0ull};
    if (ex_choose(2, "kind")) {
        uint64_t a = X[ex_choose(10, "a")], b = X[ex_choose(10, "b")]; int i = (int)a, j = (int)b; long l = (long)a, m = (long)b;
        W(int_equal(&i, &j) == (i == j) && sg(int_compare(&i, &j)) == (i < j ? -1 : i > j), "int %d %d", i, j);
        W(ui64_equal(&a, &b) == (a == b) && sg(ui64_compare(&a, &b)) == (a < b ? -1 : a > b), "uint64 %lu %lu", a, b);
        W(pointer_equal((void *)a, (void *)b) == (a == b) && sg(pointer_compare((void *)a, (void *)b)) == (a < b ? -1 : a > b), "pointer %lu %lu", a, b);
        W(!pdc_default_integer_equal_func_ptr(&i, &j) == (i != j) && !pdc_default_long_equal_func_ptr(&l, &m) == (l != m) && !pdc_default_uint64_equal_func_ptr(&a, &b) == (a != b), "numbers %lu %lu", a, b);
        uint64_t a2 = a; int i2 = i; long l2 = l;
        W(int_hash(&i) == int_hash(&i2) && ui64_hash(&a) == ui64_hash(&a2) && pdc_default_integer_hash_func_ptr(&i) == pdc_default_integer_hash_func_ptr(&i2) && pdc_default_long_hash_func_ptr(&l) == pdc_default_long_hash_func_ptr(&l2) && pdc_default_uint64_hash_func_ptr(&a) == pdc_default_uint64_hash_func_ptr(&a2), "hashes of %lu differ", a);
    }
    else {
        char s[8], t[8]; word(s, "s"); word(t, "t"); int c = strcmp(s, t), same = !strcasecmp(s, t);
        W(!string_equal(s, t) == (c != 0) && sg(string_compare(s, t)) == sg(c), "'%s' '%s'", s, t);
        W(!string_nocase_equal(s, t) == !same && !string_nocase_compare(s, t) == same && sg(string_nocase_compare(s, t)) == -sg(string_nocase_compare(t, s)), "'%s' '%s' without case", s, t);
        W(!pdc_default_string_equal_func_ptr(s, t) == (c != 0), "'%s' '%s' (default)", s, t);
        if (!c) W(string_hash(s) == string_hash(t) && pdc_default_string_hash_func_ptr(s) == pdc_default_string_hash_func_ptr(t), "hashes of '%s' differ", s);
        if (same) W(string_nocase_hash(s) == string_nocase_hash(t), "hashes of '%s' and '%s' without case differ", s, t);
    }
    ex_step();
}
static void body(void)
{
    const char *w = ex_param("what", "deque");
    if (!strcmp(w, "deque")) deque(); else if (!strcmp(w, "vector")) vector(); else if (!strcmp(w, "sets")) sets(); else words();
    ex_nontrivial();
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-coll", NULL, body); }
