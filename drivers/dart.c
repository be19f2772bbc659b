/* The distributed inverted index: every history of inserts and deletes of (key, value, object) references up to a
 * depth, by several clients on several servers; then every query form over every affix of the vocabulary, against a
 * brute-force scan of the reference set. */
#include "drvutil.h"
#include "pdc_client_connect.h"
#include "dart_core.h"
#define NKEY 8
#define NVAL 6
#define NID  3
static const char *KV[][NKEY] = {
    {"ab", "cd", "ef", 0},                 /* no shared suffixes */
    {"ab", "b", "cab", 0},                 /* suffixes of each other */
    {"a", "m", "z", "Q", "7", "_", 0},     /* single characters, spread over the regions */
    {"abcd", "abce", "xbcd", 0},           /* common prefixes and suffixes */
    {"aa", "ama", "zzz", 0},
    {"temperature", "temp", "velocity_x", 0},
    {"a-rather-long-attribute-name", "another-long-attribute-name", 0},
};
static const char *VV[][NVAL] = {
    {"12", "34", "56", 0}, {"2", "12", "212", 0}, {"1", "x", 0}, {"1234", "1235", "9234", 0}, {"00", "0", 0}, {"hot", "hotter", 0}, {"a-rather-long-value", "another-long-value.", 0},
};
struct model { unsigned char t[NKEY][NVAL][NID], dmg[NKEY][NVAL][NID]; /* a delete of an entry sharing a suffix came later */ struct { int op, k, v, id, who; } cur; int what[8][8]; /* race: the operations of each client */ };
static struct model *M;
static const char **K, **V;
static int nkey, nval, nid, me;
static const uint64_t ID[NID] = {1000000001ull, 2000000007ull, 1ull << 40};
static dart_hash_algo_t algo;

static int starts(const char *s, const char *t, size_t n) { return strlen(s) >= n && !strncmp(s, t, n); }
static int ends(const char *s, const char *t, size_t n) { return strlen(s) >= n && !strncmp(s + strlen(s) - n, t, n); }
static int has(const char *s, const char *t, size_t n) { for (; strlen(s) >= n; s++) { if (!strncmp(s, t, n)) return 1; if (!*s) break; } return 0; }
static int last(const char *s) { return s[strlen(s) - 1]; }
/* what the documentation promises */
static int match(const char *s, const char *p)
{
    size_t n = strlen(p);
    int a = n && p[0] == '*', b = n > (size_t)a && p[n - 1] == '*';
    const char *t = p + a; size_t tn = n - a - b;
    return a && b ? has(s, t, tn) : a ? ends(s, t, tn) : b ? starts(s, t, tn) : !strcmp(s, p);
}
/* what an index that treats every suffix as an entry of its own answers: exact ~ suffix, prefix ~ infix */
static int match_sfx(const char *s, const char *p)
{
    size_t n = strlen(p);
    int a = n && p[0] == '*', b = n > (size_t)a && p[n - 1] == '*';
    const char *t = p + a; size_t tn = n - a - b;
    return b ? has(s, t, tn) : ends(s, t, tn);
}
static int pats(const char **w, int nw, char out[][40], int max)
{
    int n = 0;
    for (int i = 0; i < nw; i++) {
        int l = strlen(w[i]);
        for (int a = 0; a < l; a++) for (int b = a + 1; b <= l; b++) {
            if (l > 4 && b - a != 1 && b - a != 2 && b - a != l && a && b != l) continue;
            for (int f = 0; f < 4; f++) {
                char p[40];
                if ((f == 0 && (a || b < l)) || (f == 1 && a) || (f == 2 && b < l)) { if (f || !ex_iparam("affix_exact", 1)) continue; }
                snprintf(p, sizeof p, "%s%.*s%s", f & 2 ? "*" : "", b - a, w[i] + a, f & 1 ? "*" : "");
                int dup = 0;
                for (int j = 0; j < n; j++) dup |= !strcmp(out[j], p);
                if (!dup && n < max) strcpy(out[n++], p);
            }
        }
    }
    return n;
}
/* further references which no operation may disturb: many objects under one entry, many entries */
static int nfi, nfe;
#define FI 5000000000ull
#define FE 6000000000ull
static const char *fk(int i) { static char b[64]; sprintf(b, i % 4 == 3 ? "%d a key with a rather long name" : "%cf%d_k", 'a' + i % 26, i); return b; }
static const char *fv(int i) { static char b[64]; sprintf(b, "%cvalue%d.", 'A' + i % 7, i % 5); return b; }
/* qmpi: all clients search together and all get the result */
static perr_t search(char *q, int *n, uint64_t **out)
{
    if (ex_iparam("qmpi", 0)) return PDC_Client_search_obj_ref_through_dart_mpi(algo, q, REF_PRIMARY_ID, n, out, MPI_COMM_WORLD);
    return PDC_Client_search_obj_ref_through_dart(algo, q, REF_PRIMARY_ID, n, out);
}
static void query(const char *kp, const char *vp, int strict)
{
    char q[100]; int n = -1; uint64_t *out = NULL;
    snprintf(q, sizeof q, "%s=%s", kp, vp);
    perr_t r = search(q, &n, &out);
    if (r < 0) ex_fail("query", "search %s failed", q);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (out[i] == out[j]) ex_fail("duplicate", "search %s returned object %d twice", q, i);
    for (int i = 0; i < n; i++) { int ok = 0; for (int d = 0; d < nid; d++) ok |= out[i] == ID[d]; ok |= out[i] - FI < (uint64_t)nfi || out[i] - FE < (uint64_t)nfe; if (!ok) ex_fail("foreign", "search %s returned the unknown object %llx", q, (long long)out[i]); }
    for (int d = 0; d < nid; d++) {
        int got = 0, want = 0, weak = 0, sure = 0;
        for (int i = 0; i < n; i++) got |= out[i] == ID[d];
        for (int k = 0; k < nkey; k++) for (int v = 0; v < nval; v++) if (M->t[k][v][d]) { want |= match(K[k], kp) && match(V[v], vp); sure |= match(K[k], kp) && match(V[v], vp) && !M->dmg[k][v][d]; weak |= match_sfx(K[k], kp) && match_sfx(V[v], vp); }
        if (want && !got && !sure && ex_iparam("sharedel", 0)) ex_fail("missing-shared-suffix", "search %s does not return object %d any more: another entry of it with a common suffix was deleted", q, d);
        if (sure) ex_nontrivial();
        if (sure && !got) ex_fail("missing", "search %s does not return object %d", q, d);
        if (got && !weak) ex_fail("false-hit", "search %s returns object %d which has no such entry", q, d);
        if (got && !want && strict) ex_fail("suffix-hit", "search %s returns object %d of which only a suffix of a key or value matches", q, d);
    }
    for (int f = 0; f < nfi + nfe; f++) {
        uint64_t id = f < nfi ? FI + f : FE + f - nfi; const char *k = f < nfi ? K[0] : fk(f - nfi), *v = f < nfi ? V[0] : fv(f - nfi); int got = 0;
        for (int i = 0; i < n; i++) got |= out[i] == id;
        if (!got && match(k, kp) && match(v, vp)) ex_fail("missing", "search %s does not return the object of %s=%s (%llu)", q, k, v, (long long)id);
        if (got && !(match_sfx(k, kp) && match_sfx(v, vp))) ex_fail("false-hit", "search %s returns the object of %s=%s", q, k, v);
    }
    free(out);
}
static void audit(void)
{
    static char kp[600][40], vp[600][40];
    int nk = pats(K, nkey, kp, 600), nv = pats(V, nval, vp, 600), strict = ex_iparam("strict", 0), exact = ex_iparam("exact", 0);
    for (int i = 0; i < nk; i++) for (int j = 0; j < nv; j++) {
        if (exact && (strchr(kp[i], '*'))) continue;
        query(kp[i], vp[j], strict);
    }
    for (int f = 0; f < nfe; f++) {
        char k[70], v[70];
        strcpy(k, fk(f)); strcpy(v, fv(f)); query(k, v, 0);
        if (f % 9) continue;
        sprintf(v, "*%d*", f % 5); query(k, v, 0);
        strcpy(k + 4, "*"); query(k, v, 0);
        sprintf(k, "*%s", fk(f) + 2); query(k, "*.", 0);
    }
    query("*", V[0], 0); query("*", "*", 0); query(K[0], "*", 0); query("*", "noval", 0); query("nokey", "*", 0);
    { int n = -1; uint64_t *out = NULL; if (search("novalue", &n, &out) >= 0) ex_fail("malformed", "a search without '=' succeeds"); }
    query("nokey", V[0], strict); query(K[0], "noval", strict);
    ex_state(ex_hash(11, M->t, sizeof M->t));
}
void driver_config(struct simcfg *c) { c->nservers = ex_iparam("ns", 1); c->nclients = ex_iparam("nc", 1); c->nphases = 1 + ex_iparam("restart", 0); }
/* all clients at the same time, each with an object of its own: some operations on any entries, or searches meanwhile, which
 * must return what is there all the time; afterwards the index holds exactly what was inserted and not deleted */
static void change(int k, int v, int del)
{
    char ks[40], vs[40]; strcpy(ks, K[k]); strcpy(vs, V[v]);
    ex_note("client %d: %s %s=%s object %d", me, del ? "delete" : "insert", ks, vs, me);
    if ((del ? PDC_Client_delete_obj_ref_from_dart(algo, ks, vs, REF_PRIMARY_ID, ID[me]) : PDC_Client_insert_obj_ref_into_dart(algo, ks, vs, REF_PRIMARY_ID, ID[me])) < 0) ex_fail("op", "the operation failed");
    M->t[k][v][me] = !del;
    if (!del) M->dmg[k][v][me] = 0;
    else for (int a = 0; a < nkey; a++) for (int b = 0; b < nval; b++) M->dmg[a][b][me] |= last(K[a]) == last(ks) && last(V[b]) == last(vs);
    ex_step();
}
static void race(int nc)
{
    int n = ex_iparam("depth", 1), all = nkey * nval, del = ex_iparam("del", 1), se = ex_iparam("search", 0), op[8];
    nid = nc;
    if (me == 0) for (int c = 0; c < nc; c++) for (int i = 0; i < n + ex_iparam("pre", 1); i++) M->what[c][i] = ex_choose(i < ex_iparam("pre", 1) ? all : all * (1 + del + se), "op");
    MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < ex_iparam("pre", 1); i++) change(M->what[me][i] / nval, M->what[me][i] % nval, 0); /* something is there */
    MPI_Barrier(MPI_COMM_WORLD);
    for (int i = 0; i < n; i++) op[i] = M->what[me][ex_iparam("pre", 1) + i];
    sim_window = 1;
    for (int i = 0; i < n; i++) {
        int o = op[i] / all, k = op[i] % all / nval, v = op[i] % nval;
        if (o < 1 + del) { change(k, v, del && o == 1); continue; }
        char q[100]; int nr = 0; uint64_t *r = NULL; unsigned char before[NID];
        memcpy(before, M->t[k][v], sizeof before);
        sprintf(q, "%s=%s", K[k], V[v]);
        ex_note("client %d: search %s", me, q);
        if (PDC_Client_search_obj_ref_through_dart(algo, q, REF_PRIMARY_ID, &nr, &r) < 0) ex_fail("search", "the search failed");
        for (int c = 0; c < nc; c++) {
            int touched = 0, got = 0;
            for (int j = 0; j < n + ex_iparam("pre", 1) && c != me; j++) { int x = M->what[c][j]; if (j >= ex_iparam("pre", 1) && x < all * (1 + del) && x >= all) touched = 1; }
            for (int j = 0; j < nr; j++) got += r[j] == ID[c];
            if (got > 1) ex_fail("twice", "search %s returns object %d %d times", q, c, got);
            if (before[c] && !touched && !M->dmg[k][v][c] && !got) ex_fail("missing", "search %s does not return object %d, which is there all the time", q, c);
        }
        free(r);
        ex_step();
    }
    MPI_Barrier(MPI_COMM_WORLD);
    sim_window = 0;
}
void driver_main(struct drv *d)
{
    M = d->shared; me = d->rank;
    int kv = ex_iparam("kv", 0), vv = ex_iparam("vv", 0), depth = d->phase ? ex_iparam("after", 1) : ex_iparam("depth", 2), nc = d->nclients, del = ex_iparam("del", 1);
    K = KV[kv]; V = VV[vv]; nid = ex_iparam("nid", 2);
    for (nkey = 0; K[nkey]; nkey++); for (nval = 0; V[nval]; nval++);
    if (nkey > ex_iparam("nkey", 9)) nkey = ex_iparam("nkey", 9);
    if (nval > ex_iparam("nval", 9)) nval = ex_iparam("nval", 9);
    algo = ex_iparam("algo", DART_HASH);
    pdcid_t pdc = PDCinit("pdc");
    MPI_Barrier(MPI_COMM_WORLD);
    nfi = ex_iparam("fillid", 0); nfe = ex_iparam("fillent", 0);
    for (int f = 0; f < nfi + nfe && me == 0 && !d->phase; f++) {
        char k[64], v[64];
        strcpy(k, f < nfi ? K[0] : fk(f - nfi)); strcpy(v, f < nfi ? V[0] : fv(f - nfi));
        if (PDC_Client_insert_obj_ref_into_dart(algo, k, v, REF_PRIMARY_ID, f < nfi ? FI + f : FE + f - nfi) < 0) ex_fail("op", "an insert failed");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (ex_iparam("race", 0)) race(d->nclients);
    else for (int i = 0; i < depth; i++) {
        if (me == 0) {
            int all = nkey * nval * nid, x = ex_choose(all * (1 + del) * nc, "op");
            M->cur.who = x % nc; x /= nc; M->cur.op = x / all; x %= all;
            M->cur.id = x % nid; x /= nid; M->cur.v = x % nval; M->cur.k = x / nval;
        }
        MPI_Barrier(MPI_COMM_WORLD);
        if (me == M->cur.who) {
            char k[40], v[40]; perr_t r;
            strcpy(k, K[M->cur.k]); strcpy(v, V[M->cur.v]);
            ex_note("client %d: %s %s=%s object %d", me, M->cur.op ? "delete" : "insert", k, v, M->cur.id);
            if (M->cur.op) r = PDC_Client_delete_obj_ref_from_dart(algo, k, v, REF_PRIMARY_ID, ID[M->cur.id]);
            else r = PDC_Client_insert_obj_ref_into_dart(algo, k, v, REF_PRIMARY_ID, ID[M->cur.id]);
            if (r < 0) ex_fail("op", "the operation failed");
            M->t[M->cur.k][M->cur.v][M->cur.id] = !M->cur.op;
            if (!M->cur.op) M->dmg[M->cur.k][M->cur.v][M->cur.id] = 0;
            else for (int a = 0; a < nkey; a++) for (int b = 0; b < nval; b++) M->dmg[a][b][M->cur.id] |= last(K[a]) == last(k) && last(V[b]) == last(v);
            ex_step();
        }
        MPI_Barrier(MPI_COMM_WORLD);
    }
    if (me == 0 || ex_iparam("qall", 0) || ex_iparam("qmpi", 0)) audit();
    MPI_Barrier(MPI_COMM_WORLD);
    if (d->phase < ex_iparam("restart", 0)) close_servers(d);
    PDCclose(pdc);
}
