/* Tags kept as text ("key=value,key=value") and the queries generated for a tag: every small tag list, word and query.
 *   what=list: matching of tag lists against key and value patterns and ranges
 *   what=gen : the query generated for a tag matches it, and can be taken apart again
 *   what=str : the string functions below them */
#include "explore.h"
#include "query_utils.h"
#include "string_utils.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char *exact(const char *s) { size_t n = strlen(s) + 1; return memcpy(malloc(n), s, n); } /* reads past the end show */
static int want(const char *s, const char *p)
{
    int n = strlen(p), a = n && p[0] == '*', b = n && p[n - 1] == '*', l = strlen(s);
    if (n == 1 && a) return 1;
    const char *t = p + a; int k = n - a - b;
    if (!a && !b) return !strcmp(s, p);
    if (!a) return l >= k && !memcmp(s, t, k);
    if (!b) return l >= k && !memcmp(s + l - k, t, k);
    for (int i = 0; i + k <= l; i++) if (!memcmp(s + i, t, k)) return 1;
    return 0;
}
static void list(void)
{
    static const char *K[] = {"a", "ab", "b", "ba"}, *V[] = {"1", "12", "a", "", "-3", "1=2"};
    static const char *KP[] = {"a", "a*", "*b", "*a*", "*", "ab", "c"}, *VP[] = {"1", "1*", "*2", "*a*", "*", "", "-3", "x"};
    /* pad: so many other tags before or after them (or, with 2 more choices, one of them first), longer than the buffers of one line */
    static const char *k[300], *v[300]; static char s[40000], pk[64], pv[80]; int m0 = ex_choose(ex_iparam("tags", 3) + 1, "tags"), pad = ex_iparam("pad", 0), at = pad ? ex_choose(m0 + 1, "padding at") : 0, n = 0;
    memset(pk, 'z', 50); memset(pv, '9', 70); *s = 0; char *o = s;
    for (int i = 0; i <= m0; i++) {
        if (i == at) for (int x = 0; x < pad; x++) { k[n] = pk; v[n] = pv; o += sprintf(o, "%s%s=%s", n ? "," : "", pk, pv); n++; }
        if (i == m0) break;
        k[n] = K[ex_choose(4, "key")]; v[n] = V[ex_choose(6, "value")]; o += sprintf(o, "%s%s=%s", n ? "," : "", k[n], v[n]); n++;
    }
    char *t = exact(s); if (pad) ex_note("%d tags, %d of them others at %d", n, pad, at); else ex_note("tags '%s'", t);
    for (int i = 0; i < 7; i++) {
        int has = 0; for (int x = 0; x < n; x++) has |= want(k[x], KP[i]);
        if (!has_tag_p(t, KP[i]) != !has || !has_tag(t, KP[i]) != !has) ex_fail("has-tag", "has_tag says that '%s' %s", KP[i], has ? "is not there" : "is there");
        for (int j = 0; j < 8; j++) {
            int m = -1; for (int x = n; x--; ) if (want(k[x], KP[i]) && want(v[x], VP[j])) m = x;
            char *r = k_v_matches_p(t, KP[i], VP[j]), e[140] = ""; if (m >= 0) sprintf(e, "%s=%s", k[m], v[m]);
            if (!r != (m < 0) || (r && strcmp(r, e))) ex_fail("matches", "the tag for '%s'='%s' is '%s', not '%s'", KP[i], VP[j], r ? r : "(none)", e);
            if (!is_value_match_p(t, KP[i], VP[j]) != (m < 0) || !is_value_match(t, KP[i], VP[j]) != (m < 0)) ex_fail("value-match", "'%s'='%s' is said to %smatch", KP[i], VP[j], m < 0 ? "" : "not ");
        }
        static const int R[][2] = {{1, 1}, {0, 5}, {2, 20}, {-5, -1}, {-3, 12}, {13, 99}};
        int one = -1, cnt = 0; for (int x = 0; x < n; x++) if (want(k[x], KP[i])) { cnt++; one = x; }
        if (cnt > 1 || (cnt == 1 && v[one] != V[0] && v[one] != V[1] && v[one] != V[4])) continue; /* a number, in one tag only */
        for (int j = 0; j < 6; j++) {
            int x = one < 0 ? 0 : atoi(v[one]), w = one >= 0 && x >= R[j][0] && x <= R[j][1];
            if (!is_value_in_range(t, KP[i], R[j][0], R[j][1]) != !w) ex_fail("range", "'%s' is said %sto be in %d to %d", KP[i], w ? "not " : "", R[j][0], R[j][1]);
        }
    }
    if (strcmp(t, s)) ex_fail("changed", "matching changes the list to '%s'", t);
    for (int x = 0; x < n; x++) {
        char b[140]; sprintf(b, "%s=%s", k[x], v[x]); char *p = exact(b), *a = get_key(p, '='), *c = get_value(p, '=');
        if (!a || strcmp(a, k[x]) || !c || strcmp(c, v[x])) ex_fail("split", "'%s' is taken apart as '%s' and '%s'", p, a ? a : "(null)", c ? c : "(null)");
        free(p); free(a); free(c);
    }
    ex_step(); if (n) ex_nontrivial(); ex_state(ex_hash_s(1, t));
    free(t);
}
/* long=N: N more characters in the middle */
static char *gen(const char *what, int min, int max, const char *al) { int n = min + ex_choose(max - min + 1, what), m = strlen(al), l = ex_iparam("long", 0); char *e = malloc(n + l + 1); for (int i = 0; i < n; i++) { if (i == n / 2 && l) { memset(e + i, al[0], l); e += l; } e[i] = al[ex_choose(m, "c")]; } e[n] = 0; return n ? e - l : (memset(e, al[0], l), e[l] = 0, e); }
static void expect(const char *w, int type, int a, char *o)
{
    int l = strlen(w); if (a > l) a = l;
    if (type == 0) strcpy(o, w);
    if (type == 1) sprintf(o, "%.*s*", a, w);
    if (type == 2) sprintf(o, "*%s", w + l - a);
    if (type == 3) sprintf(o, "*%s*", w + l - a);
}
static void query(void)
{
    char *n = gen("name", 3, ex_iparam("len", 4), "ab"), e[400], f[400]; int kt = ex_choose(4, "key query"), aff = 1 + ex_choose(5, "affix"), str = ex_choose(2, "type"), num = 0, lo = 0, hi = 0, vt;
    pdc_kvtag_t tag = {0}; char *v = NULL;
    tag.name = n;
    if (str) { v = gen("value", 3, ex_iparam("len", 4), "xy"); vt = ex_choose(4, "value query"); tag.value = v; tag.type = PDC_STRING; tag.size = strlen(v) + 1; }
    else { static const int X[] = {0, 7, -12, 2147483647, -2147483647 - 1}; num = X[ex_choose(5, "number")]; vt = 4 + ex_choose(2, "value query"); lo = X[ex_choose(5, "low")]; hi = X[ex_choose(5, "high")]; tag.value = &num; tag.type = PDC_INT; tag.size = 4; }
    query_gen_input_t in = {&tag, kt, vt, aff, lo, hi}; query_gen_output_t out = {0};
    ex_note("tag %s=%s, query types %d and %d, affix %d", n, str ? v : "(number)", kt, vt, aff);
    gen_query_key_value(&in, &out); ex_step();
    expect(n, kt, aff, e);
    if (str) expect(v, vt, aff, f); else if (vt == 4) sprintf(f, "%d", num); else sprintf(f, "%d~%d", lo, hi);
    if (!out.key_query || strcmp(out.key_query, e) || out.key_query_len != strlen(e)) ex_fail("key-query", "the query for the key is '%s', not '%s'", out.key_query ? out.key_query : "(null)", e);
    if (!out.value_query || strcmp(out.value_query, f) || out.value_query_len != strlen(f)) ex_fail("value-query", "the query for the value is '%s', not '%s'", out.value_query ? out.value_query : "(null)", f);
    if (!simple_matches(n, out.key_query) || (str && !simple_matches(v, out.value_query))) ex_fail("no-match", "the tag does not match the query made for it (%s=%s)", e, f);
    char *q = gen_query_str(&out), *a = q ? get_key(q, '=') : NULL, *b = q ? get_value(q, '=') : NULL, w[900];
    sprintf(w, "%s=%s", e, f);
    if (!q || strcmp(q, w)) ex_fail("query-string", "the query is '%s', not '%s'", q ? q : "(null)", w);
    if (!a || strcmp(a, e) || !b || strcmp(b, f)) ex_fail("split", "the query '%s' is taken apart wrongly", q);
    free(q); free(a); free(b); free_query_output(&out); free(n); free(v);
    ex_nontrivial(); ex_state(ex_hash_s(2, w));
}
static void str(void)
{
    char *s = gen("string", 0, ex_iparam("len", 4), "ab,"), *t = gen("other", 0, 2, "ab"), *r; int l = strlen(s), k = strlen(t);
    ex_note("'%s' and '%s'", s, t);
    if (!startsWith(s, t) != !!strncmp(s, t, k)) ex_fail("starts", "'%s' '%s'", s, t);
    if (!endsWith(s, t) != !(l >= k && !strcmp(s + l - k, t))) ex_fail("ends", "'%s' '%s'", s, t);
    if (!contains(s, t) != !strstr(s, t) || indexOfStr(s, t) != (strstr(s, t) ? strstr(s, t) - s : -1)) ex_fail("contains", "'%s' '%s'", s, t);
    if (startsWith(s, NULL) || startsWith(NULL, s) || endsWith(s, NULL) || endsWith(NULL, s) || simple_matches(s, NULL) || simple_matches(NULL, s)) ex_fail("null", "'%s' matches NULL", s);
    if (!equals(s, t) != !!strcmp(s, t)) ex_fail("equals", "'%s' '%s'", s, t);
    if (indexOf(s, ',') != (strchr(s, ',') ? strchr(s, ',') - s : -1)) ex_fail("index", "'%s'", s);
    for (int a = -1; a <= l + 2; a++) for (int b = -1; b <= l + 2; b++) {
        r = substring(s, a, b);
        int e = b > l ? l : b;
        if (a < 0 || b < a || b < 0) { if (r) ex_fail("substring", "'%s' from %d to %d is '%s'", s, a, b, r); continue; }
        if (a > l) { if (r && *r) ex_fail("substring", "'%s' from %d to %d is '%s'", s, a, b, r); free(r); continue; }
        if (!r || (int)strlen(r) != e - a || memcmp(r, s + a, e - a)) ex_fail("substring", "'%s' from %d to %d is '%s'", s, a, b, r ? r : "(null)");
        free(r);
    }
    r = reverse_str(s); for (int i = 0; i <= l; i++) if (!r || r[i] != (i == l ? 0 : s[l - 1 - i])) ex_fail("reverse", "'%s' reversed is '%s'", s, r ? r : "(null)"); free(r);
    char **p = NULL; int n = 0, w = 1; for (int i = 0; i < l; i++) w += s[i] == ',';
    if (split_string(s, ",", &p, &n) != w || n != w) ex_fail("split-string", "'%s' is split into %d parts", s, n);
    const char *x = s; for (int i = 0; i < n; i++) { int m = strcspn(x, ","); if ((int)strlen(p[i]) != m || memcmp(p[i], x, m)) ex_fail("split-string", "part %d of '%s' is '%s'", i, s, p[i]); x += m + 1; free(p[i]); } free(p);
    r = dsprintf("%s-%d-%s", s, l, t); char b[900]; sprintf(b, "%s-%d-%s", s, l, t); if (strcmp(r, b)) ex_fail("dsprintf", "'%s'", r); free(r);
    ex_step(); if (l && k) ex_nontrivial(); ex_state(ex_hash_s(ex_hash_s(3, s), t));
    free(s); free(t);
}
static void body(void) { const char *w = ex_param("what", "list"); if (!strcmp(w, "list")) list(); else if (!strcmp(w, "gen")) query(); else str(); }
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-tagtext", NULL, body); }
