/* The adaptive radix tree under the distributed index: every sequence of inserts and deletes up to a depth, over families
 * of keys that make every node size, with and without long common prefixes and keys that are prefixes of others; after each
 * operation the tree answers every exact, prefix and whole iteration like a sorted map. */
#include "explore.h"
#include "art.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXK 400
static char *K[MAXK]; static int nk; static uint64_t V[MAXK]; /* 0: absent */
static art_tree T;
static int visited[MAXK], lastidx, ordered;
static const char *PFX; static int npfx;
static int find(const unsigned char *k, uint32_t l) { for (int i = 0; i < nk; i++) if (strlen(K[i]) == l && !memcmp(K[i], k, l)) return i; return -1; }
static int cb(void *data, const unsigned char *k, uint32_t l, void *v)
{
    int i = find(k, l);
    if (i < 0) ex_fail("iter-unknown", "%s iteration yields a key of %u bytes that was never inserted", (char *)data, l);
    if (visited[i]++) ex_fail("iter-twice", "%s iteration (prefix '%.*s') yields %s twice", (char *)data, npfx, PFX, K[i]);
    if (!V[i] || (uint64_t)v != V[i]) ex_fail("iter-value", "%s iteration yields %s with value %lu instead of %lu", (char *)data, K[i], (uint64_t)v, V[i]);
    return 0;
}
static int stopat;
static int cbstop(void *data, const unsigned char *k, uint32_t l, void *v) { return ++*(int *)data == stopat ? 77 : 0; }
static void prefix(const char *p, int l)
{
    PFX = p; npfx = l; memset(visited, 0, sizeof visited); int want = 0;
    unsigned char *e = (unsigned char *)strndup(p, l);
    if (art_iter_prefix(&T, e, l, cb, "prefix")) ex_fail("iter-rc", "prefix iteration fails");
    for (int i = 0; i < nk; i++) { int m = V[i] && !strncmp(K[i], p, l); want += m; if (m != visited[i]) ex_fail("iter-prefix", "iterating the prefix '%.*s' %s %s", l, p, m ? "misses" : "yields", K[i]); }
    stopat = 1; int n = 0, rc = art_iter_prefix(&T, e, l, cbstop, &n);
    if (want && (rc != 77 || n != 1)) ex_fail("iter-stop", "a prefix iteration whose callback stops it goes on (rc %d, %d calls)", rc, n);
    free(e);
}
static void check(void)
{
    uint64_t h = 0; int n = 0, mn = -1, mx = -1;
    for (int i = 0; i < nk; i++) {
        int l = strlen(K[i]); unsigned char *e = (unsigned char *)strdup(K[i]);
        uint64_t v = (uint64_t)art_search(&T, e, l); free(e);
        if (v != V[i]) ex_fail("search", "searching %s yields %lu instead of %lu", K[i], v, V[i]);
        if (V[i]) { n++; if (mn < 0 || strcmp(K[i], K[mn]) < 0) mn = i; if (mx < 0 || strcmp(K[i], K[mx]) > 0) mx = i; }
        h = ex_hash(h, &V[i], 8);
    }
    if (art_size(&T) != (uint64_t)n) ex_fail("size", "the size of the tree is %lu instead of %d", art_size(&T), n);
    PFX = ""; npfx = 0; memset(visited, 0, sizeof visited); 
    if (art_iter(&T, cb, "whole")) ex_fail("iter-rc", "iteration fails");
    for (int i = 0; i < nk; i++) if (visited[i] != !!V[i]) ex_fail("iter-all", "iterating the tree misses %s", K[i]);
    if (ex_iparam("minmax", 0)) {
        art_leaf *a = art_minimum(&T), *b = art_maximum(&T);
        if (n ? !a || find(a->key, a->key_len) != mn : !!a) ex_fail("minimum", "the smallest key is %s instead of %s", a ? "another" : "none", mn < 0 ? "none" : K[mn]);
        if (n ? !b || find(b->key, b->key_len) != mx : !!b) ex_fail("maximum", "the largest key is %s instead of %s", b ? "another" : "none", mx < 0 ? "none" : K[mx]);
    }
    ex_state(h);
}
static void prefixes(void) { prefix("", 0); for (int i = 0; i < nk; i++) for (int l = 1; l <= (int)strlen(K[i]); l++) prefix(K[i], l); prefix("~none", 5); }
static void addkey(const char *s) { K[nk++] = strdup(s); }
static uint64_t ctr;
static void ins(int i)
{
    int l = strlen(K[i]); unsigned char *e = (unsigned char *)strdup(K[i]);
    uint64_t o = (uint64_t)art_insert(&T, e, l, (void *)++ctr); free(e);
    if (o != V[i]) ex_fail("insert-old", "inserting %s returns %lu as the replaced value instead of %lu", K[i], o, V[i]);
    V[i] = ctr; ex_step();
}
static void del(int i)
{
    int l = strlen(K[i]); unsigned char *e = (unsigned char *)strdup(K[i]);
    uint64_t o = (uint64_t)art_delete(&T, e, l); free(e);
    if (o != V[i]) ex_fail("delete-old", "deleting %s returns %lu instead of %lu", K[i], o, V[i]);
    V[i] = 0; ex_step();
}
static void body(void)
{
    int depth = ex_iparam("depth", 4), fam = ex_iparam("fam", 0), op0;
    memset(&T, 0, sizeof T); nk = 0; memset(V, 0, sizeof V); ctr = 0;
    art_tree_init(&T);
    char b[64];
    if (fam == 0) { /* every string of up to n characters of a small alphabet: prefixes of each other included */
        static const char *A[] = {"", "a", "b", "aa", "ab", "ba", "aaa", "aab", "aba", "abb", "bb", "bba"};
        int n = ex_iparam("nk", 7); for (int i = 1; i <= n; i++) addkey(A[i]);
    } else if (fam == 1) { /* long common prefixes around the inline limit, splits inside and at its ends */
        static const char *A[] = {"abcdefghijklmnop", "abcdefghijklmnoq", "abcdefghijk", "abcdefghijkl", "abcdefghij", "abcdefghi", "abcdeZ", "abcdefghijklmZ", "abcdefghijZ", "Z", "abcdefghijklmnopqrst"};
        int n = ex_iparam("nk", 6); for (int i = 0; i < n; i++) addkey(A[i]);
    } else if (fam == 2) { /* a node with many children: fill keys inserted up front, then every sequence around the size limits */
        int fill = ex_iparam("fill", 16); const char *pre = ex_param("pre", "");
        for (int i = 0; i < fill + 2; i++) { sprintf(b, "%s%c%s", pre, 1 + (i * 37) % 255, ex_param("suf", "")); addkey(b); }
        for (int i = 0; i < fill - 1; i++) ins(i);
        ctr = 1000;
    }
    ex_note("%d keys", nk);
    check(); prefixes();
    int lo = fam == 2 ? nk - ex_iparam("win", 4) : 0, w = nk - lo;
    if (fam == 2 && lo < 0) { lo = 0; w = nk; }
    for (int d = 0; d < depth; d++) {
        op0 = ex_choose(w * 2, "op");
        int i = lo + op0 / 2, ins_ = op0 % 2 == 0;
        if (fam == 2 && i == lo) i = 0; /* the window has the first key and the last ones */
        ex_note("%s %s", ins_ ? "insert" : "delete", K[i]);
        if (ins_) ins(i); else del(i);
        check(); if (d == depth - 1 || ex_iparam("allp", 0)) prefixes();
    }
    if (ex_iparam("drain", 1)) { /* delete everything, in both orders: every shrink step */
        int o = ex_choose(2, "drain");
        for (int k = 0; k < nk; k++) { del(o ? nk - 1 - k : k); check(); }
        prefixes();
        if (o) for (int k = 0; k < nk; k++) { ins(nk - 1 - k); check(); }
    }
    art_tree_destroy(&T);
    for (int i = 0; i < nk; i++) free(K[i]);
    ex_nontrivial();
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-art", NULL, body); }
