// src: server/pdc_hash-table.c
/* The hash table that holds metadata and the set that collects query results: every sequence of inserts and removals up to
 * a depth over keys that share buckets, started empty or just below a resize, compared with a plain array after each one. */
#include "explore.h"
#ifdef COMMONS_TABLE
#include "pdc_hash_table.h"
#else
#include "pdc_hash-table.h"
#endif
#include "pdc_set.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint32_t K[2000]; static int nk; static long V[2000]; static int freedk, freedv;
static unsigned hash(HashTableKey k) { return *(uint32_t *)k; }
static int eq(HashTableKey a, HashTableKey b) { return *(uint32_t *)a == *(uint32_t *)b; }
static void fk(void *k) { freedk++; free(k); }
static void fv(void *v) { freedv++; free(v); }
static uint32_t *mk(uint32_t v) { uint32_t *p = malloc(4); *p = v; return p; }
static long *mv(long v) { long *p = malloc(8); *p = v; return p; }
static int idx(uint32_t k) { for (int i = 0; i < nk; i++) if (K[i] == k) return i; return -1; }
static HashTable *H; static Set *S;
static void check(void)
{
    int n = 0, seen[2000]; uint64_t h = 0;
    for (int i = 0; i < nk; i++) {
        long *v = hash_table_lookup(H, &K[i]);
        if ((v ? *v : 0) != V[i]) ex_fail("lookup", "looking up %u yields %ld instead of %ld", K[i], v ? *v : 0, V[i]);
        n += V[i] != 0; h = ex_hash(h, &V[i], 8); seen[i] = 0;
    }
    if (hash_table_num_entries(H) != (unsigned)n) ex_fail("count", "the table counts %u entries instead of %d", hash_table_num_entries(H), n);
    HashTableIterator it; memset(&it, 0x5A, sizeof it); hash_table_iterate(H, &it); int c = 0;
    while (hash_table_iter_has_more(&it)) {
        HashTablePair p = hash_table_iter_next(&it);
        int i = idx(*(uint32_t *)p.key);
        if (i < 0 || seen[i]++ || *(long *)p.value != V[i]) ex_fail("iterate", "iteration yields %u (%ld) wrongly", *(uint32_t *)p.key, *(long *)p.value);
        c++;
    }
    if (c != n) ex_fail("iterate", "iteration yields %d of %d entries", c, n);
    ex_state(h);
}
static void tab(void)
{
    static long ctr; int fill = ex_iparam("fill", 0), depth = ex_iparam("depth", 5), w = ex_iparam("win", 5), mod = ex_iparam("mod", 193);
    H = hash_table_new(hash, eq); hash_table_register_free_functions(H, fk, fv);
    nk = 0; ctr = 0; memset(V, 0, sizeof V); freedk = freedv = 0;
    for (int i = 0; i < w; i++) K[nk++] = 5 + (i < 3 ? i * mod : 3 + i);  /* three share a bucket */
    for (int i = 0; i < fill; i++) { K[nk] = 1000003u * i + 17; V[nk] = ++ctr; hash_table_insert(H, mk(K[nk]), mv(ctr)); nk++; }
    int ins = fill, rem = 0; 
    check();
    for (int d = 0; d < depth; d++) {
        int k = ex_choose(w * 2 + (fill > 2 ? 2 : 0), "op"), i = k < 2 * w ? k / 2 : w + (k - 2 * w) * (fill - 1);
        if (k < 2 * w && k % 2 == 0) { ex_note("insert %u", K[i]); if (!hash_table_insert(H, mk(K[i]), mv(++ctr))) ex_fail("insert", "insert fails"); V[i] = ctr; ins++; }
        else { ex_note("remove %u", K[i]); int r = hash_table_remove(H, &K[i]); if (!r != !V[i]) ex_fail("remove", "removing %u returns %d", K[i], r); rem++; V[i] = 0; }
        ex_step(); check();
    }
    hash_table_free(H);
    if (freedk != ins || freedv != ins) ex_fail("free", "%d keys and %d values freed of %d", freedk, freedv, ins);
}
static uint64_t ihash(SetValue v) { return *(uint64_t *)v; }
static int ieq(SetValue a, SetValue b) { return *(uint64_t *)a == *(uint64_t *)b; }
static uint64_t *m8(uint64_t v) { uint64_t *p = malloc(8); *p = v; return p; }
static void scheck(int n, const uint64_t *k, const char *in)
{
    int want = 0, c = 0;
    for (int i = 0; i < n; i++) { want += in[i]; if (!!set_query(S, (void *)&k[i]) != in[i]) ex_fail("set-query", "the set %s %lu", in[i] ? "misses" : "contains", k[i]); }
    if (set_num_entries(S) != (unsigned)want) ex_fail("set-count", "the set counts %u entries instead of %d", set_num_entries(S), want);
    SetIterator it; char seen[2000] = {0}; set_iterate(S, &it);
    while (set_iter_has_more(&it)) { uint64_t v = *(uint64_t *)set_iter_next(&it); int i; for (i = 0; i < n && k[i] != v; i++); if (i == n || !in[i] || seen[i]++) ex_fail("set-iterate", "iterating the set yields %lu wrongly", v); c++; }
    if (c != want) ex_fail("set-iterate", "iterating the set yields %d of %d", c, want);
    if (want) { uint64_t **a = (uint64_t **)set_to_array(S); memset(seen, 0, sizeof seen); for (c = 0; c < want; c++) { int i; for (i = 0; i < n && k[i] != *a[c]; i++); if (i == n || !in[i] || seen[i]++) ex_fail("set-array", "the array of the set has %lu wrongly", *a[c]); } free(a); }
}
static void set(void)
{
    static uint64_t k[2000]; static char in[2000]; int n = 0, fill = ex_iparam("fill", 0), depth = ex_iparam("depth", 5), w = ex_iparam("win", 5), mod = ex_iparam("mod", 193);
    memset(in, 0, sizeof in);
    S = set_new(ihash, ieq); set_register_free_function(S, free);
    for (int i = 0; i < w; i++) k[n++] = 7 + (i < 3 ? (uint64_t)i * mod : (1ull << 32) * (i - 2)); /* some differ above 32 bits only */
    for (int i = 0; i < fill; i++) { k[n] = 1000000001ull * (i + 2); in[n] = 1; if (!set_insert(S, m8(k[n]))) ex_fail("set-insert", "insert fails"); n++; }
    scheck(n, k, in);
    for (int d = 0; d < depth; d++) {
        int c = ex_choose(w * 2 + (fill > 2 ? 2 : 0), "op"), i = c < 2 * w ? c / 2 : w + (c - 2 * w) * (fill - 1);
        if (c < 2 * w && c % 2 == 0) { uint64_t *p = m8(k[i]); ex_note("insert %lu", k[i]); int r = set_insert(S, p); if (!r != in[i]) ex_fail("set-insert", "inserting %lu returns %d", k[i], r); if (!r) free(p); in[i] = 1; }
        else { ex_note("remove %lu", k[i]); int r = set_remove(S, &k[i]); if (!!r != in[i]) ex_fail("set-remove", "removing %lu returns %d", k[i], r); in[i] = 0; }
        ex_step(); scheck(n, k, in); ex_state(ex_hash(3, in, n));
    }
    set_free(S);
}
static void body(void) { if (ex_iparam("set", 0)) set(); else tab(); ex_nontrivial(); }
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-hashtab", NULL, body); }
