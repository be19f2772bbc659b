// wrap: thpool_init
/* Routing of the distributed index: every keyword of a bounded set, every number of servers up to a bound, every answer
 * of the load callback: a query for any affix reaches a server that was told to index the keyword, a delete reaches all. */
#include "explore.h"
#include "dart_core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifndef DART_ALPHABET_SIZE
#define DART_ALPHABET_SIZE 27
#endif
void *__wrap_thpool_init(int n) { return NULL; }
static int flip, calls;
static dart_server load(uint32_t id) { dart_server s = {id, 0, 0}; s.indexed_word_count = flip ? (calls++ & 1 ? 0 : 10) : 5; return s; }
static DART D;
static int ns, rep;
typedef unsigned char srvset[512];
#define MAXL 12
/* servers told to index each suffix of w, for the two answers of the load callback */
static void holders(char *w, srvset h[2][MAXL])
{
    int l = strlen(w);
    memset(h, 0, sizeof(srvset) * 2 * MAXL);
    for (flip = 0; flip < 2; flip++) {
        index_hash_result_t *r = NULL; calls = 0;
        int n = DART_hash(&D, w, OP_INSERT, load, &r);
        if (n <= 0) ex_fail("insert-nowhere", "%d servers: inserting %s reaches no server", ns, w);
        for (int i = 0; i < n; i++) {
            int o = l - (int)strlen(r[i].key);
            if (r[i].server_id >= (unsigned)ns) ex_fail("server-range", "%d servers: inserting %s is sent to server %u", ns, w, r[i].server_id);
            if (o < 0 || strcmp(w + o, r[i].key)) ex_fail("insert-key", "%d servers: inserting %s indexes %s", ns, w, r[i].key);
            h[flip][o][r[i].server_id] = 1;
        }
        free(r);
    }
}
static void ask(char *w, char *tok, dart_op_type_t op, int at, srvset h[2][MAXL], const char *what)
{
    for (int k = 0; k <= rep; k++) {
        index_hash_result_t *r = NULL;
        int n = DART_hash(&D, tok, op, NULL, &r), ok = 0;
        for (int i = 0; i < n; i++) if (r[i].server_id >= (unsigned)ns) ex_fail("server-range", "%d servers: the %s query %s goes to server %u", ns, what, tok, r[i].server_id);
        for (int o = 0; o <= at && !ok; o++) {
            int hit[2] = {0, 0};
            for (int p = 0; p < 2; p++) for (int i = 0; i < n; i++) hit[p] |= h[p][o][r[i].server_id];
            ok = hit[0] && hit[1];
        }
        if (!ok) ex_fail("unreached", "%d servers, %d replicas: the %s query %s can miss the keyword %s (0x%02x...)", ns, rep, what, tok, w, (unsigned char)w[0]);
        free(r);
        ex_step();
    }
}
static void one(char *w)
{
    static srvset h[2][MAXL];
    int l = strlen(w);
    holders(w, h);
    for (int a = 0; a < l; a++) {
        for (int b = a + 1; b <= l; b++) {
            char t[MAXL + 1]; memcpy(t, w + a, b - a); t[b - a] = 0;
            ask(w, t, OP_INFIX_QUERY, a, h, "infix");
            if (a == 0) ask(w, t, OP_PREFIX_QUERY, 0, h, "prefix");
            if (b == l) ask(w, t, OP_SUFFIX_QUERY, a, h, "suffix");
            if (a == 0 && b == l) ask(w, t, OP_EXACT_QUERY, 0, h, "exact");
        }
    }
    index_hash_result_t *r = NULL;
    int n = DART_hash(&D, w, OP_DELETE, NULL, &r);
    for (int o = 0; o < l; o++) for (int s = 0; s < ns; s++) if (h[0][o][s] || h[1][o][s]) {
        int f = 0;
        for (int i = 0; i < n; i++) f |= r[i].server_id == (unsigned)s && !strcmp(r[i].key, w + o);
        if (!f) ex_fail("delete-unreached", "%d servers: deleting %s does not reach server %d which can hold its suffix %s", ns, w, s, w + o);
    }
    free(r);
    ex_state(ex_hash(ns, w, l));
}
static const char *CH = "am\xc3z\xa9Z0b_.\xff~";
static void body(void)
{
    int maxns = ex_iparam("maxns", 12), len = ex_iparam("len", 3), nch = ex_iparam("nch", 6);
    ns = 1 + ex_choose(maxns, "ns"); if (ex_iparam("ns", 0)) ns = ex_iparam("ns", 0);
    rep = ns / 10; rep = rep > 0 ? rep : 2;
    dart_space_init(&D, 1, ns, DART_ALPHABET_SIZE, 0, rep);
    int kind = ex_choose(2, "kind");
    char w[MAXL + 1] = "";
    if (kind == 0) { /* every keyword of one or two printable characters starting with a given one */
        int c = 32 + ex_choose(224, "first");
        ex_note("%d servers, keywords of one and two characters starting with 0x%02x", ns, c);
        w[0] = c; w[1] = 0; one(w);
        for (int d = c < 127 ? 32 : 128; d < (c < 127 ? 127 : 192); d++) { w[1] = d; w[2] = 0; one(w); }
    } else {         /* every keyword up to a length over a small alphabet */
        int c = ex_choose(nch, "first"), d = ex_choose(nch, "second");
        ex_note("%d servers, keywords %c%c...", ns, CH[c], CH[d]);
        w[0] = CH[c]; w[1] = CH[d];
        for (int l = 3; l <= len; l++) {
            int n = 1; for (int i = 2; i < l; i++) n *= nch;
            for (int x = 0; x < n; x++) { int y = x; for (int i = 2; i < l; i++) { w[i] = CH[y % nch]; y /= nch; } w[l] = 0; one(w); }
        }
    }
    ex_nontrivial();
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-dartroute", NULL, body); }
