/* Wildcard matching of tag queries: every name and pattern over a small alphabet up to a length. */
#include "explore.h"
#include "string_utils.h"
#include <stdlib.h>
#include <string.h>
static int want(const char *s, const char *p)
{
    int n = strlen(p), a = n && p[0] == '*', b = n && p[n - 1] == '*', l = strlen(s);
    if (n == 1 && a) return 1;
    const char *t = p + a; int k = n - a - b;
    if (!a && !b) return !strcmp(s, p);
    if (!a) return l >= k && !memcmp(s, t, k);
    if (!b) return l >= k && !memcmp(s + l - k, t, k);
    for (int i = 0; i + k <= l; i++) if (!memcmp(s + i, t, k)) return 1;
    return 0;
}
static char *gen(int len, const char *al, char *e) { int n = strlen(al); for (int i = 0; i < len; i++) e[i] = al[ex_choose(n, "c")]; e[len] = 0; return e; }
static void body(void)
{
    int ls = ex_choose(ex_iparam("len", 5) + 1, "len"), lp = ex_choose(ex_iparam("plen", 4) + 1, "plen");
    int a = ex_choose(2, "lead"), b = ex_choose(2, "trail");
    char *s = malloc(ls + 1), *p = malloc(lp + a + b + 1), *q = p; /* exact allocations: reads past the ends show */
    gen(ls, ex_param("alpha", "ab"), s);
    if (a) *q++ = '*';
    gen(lp, ex_param("alpha", "ab"), q); q += lp;
    if (b) *q++ = '*'; 
    *q = 0;
    ex_note("'%s' against '%s'", s, p);
    int g = simple_matches(s, p); ex_step();
    if (!!g != want(s, p)) ex_fail("match", "'%s' %s the pattern '%s'", s, g ? "matches" : "does not match", p);
    ex_state(ex_hash(ls, p, strlen(p)));
    if (lp && ls) ex_nontrivial();
    free(s); free(p);
}
int main(int argc, char **argv) { return ex_main(argc, argv, EX_LOOP, "direct-patmatch", NULL, body); }
