//@ prop C19
//@ srcs src/gstring_var.c src/gstring.c
//@ job name=varexp for=N:0..4/0..5 bound="every template of N arbitrary bytes; each variable is unknown or one of three values (empty, one and two characters)" D=N={N},VH_INPLACE=16 unwind=17 w={N*N} timeout=800
//@ job name=brace for=N:1..4/1..6 bound="every ${...} reference whose body is N arbitrary bytes, followed by any byte" D=N={N},VH_INPLACE=16 unwind=17 w={N}
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/gstring.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif
#define MX (N + 5)

static uint8_t s[MX + 1]; static int len;
static int nv, from[MX], to[MX], val[MX], calls, badkey;
static const char *const V[4] = { 0, "", "x", "$y" };
static int vch(uint8_t c)
{
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '$' || c == '#' || c == '@' || c == '?' || c == '*'
        || c == '!' || c == '<' || c == '>' || c == '%' || c == '^' || c == '&' || c == '-' || c == '_' || c == '|' || c == ':' || c == '.';
}
static const char *find(void *cookie, const char *key)
{
    int k = calls++;
    if (cookie != (void *)&nv) badkey = 1;
    for (int j = 0; j < MX; j++) {
        if (j != k) continue;
        if (j >= nv) { badkey = 1; return V[2]; }
        for (int i = 0; i < MX; i++) if (i < to[j] - from[j] && (uint8_t)key[i] != s[from[j] + i]) { badkey = 1; return V[2]; }
        if (key[to[j] - from[j]]) badkey = 1;
        for (int v = 0; v < 4; v++) if (val[j] == v) return V[v];
    }
    return 0;
}

static void run(void)
{
    uint8_t out[2 * MX + 1]; int n = 0, p = 0, err = 0; gstr g;
    for (int i = 0; i < MX; i++) val[i] = (int)nd_small(0, 3);
    for (int k = 0; k < len; k++) {
        if (err || p >= len) break;
        uint8_t c = s[p];
        if (c != '$') { out[n++] = c; p++; continue; }
        if (p > 0 && s[p - 1] == '\\') { out[n - 1] = '$'; p++; continue; }
        int e = p + 1, a = e;
        if (s[e] == '{') {
            a = e + 1; e = len;
            for (int i = MX; i > 0; i--) if (i < len && i >= a && s[i] == '}') e = i;
            if (e >= len || e == a) { err = -EINVAL; break; }
            p = e + 1;
        } else {
            for (int i = 0; i < len; i++) if (e == i && vch(s[i])) e++;
            if (e == a) { err = -EINVAL; break; }
            p = e;
        }
        from[nv] = a; to[nv] = e;
        int v = val[nv++];
        if (v == 0) err = -ENOENT;
        else if (v == 2) out[n++] = 'x';
        else if (v == 3) { out[n++] = '$'; out[n++] = 'y'; }
    }
    g.cap = 16; g.len = (size_t)len; g.str = malloc(16); NOFAIL(g.str);
    for (int i = 0; i < len; i++) g.str[i] = (char)s[i];
    g.str[len] = 0;
    int r = gstr_varexp(&g, find, &nv);
    CHECK(!badkey, "the lookup is asked for exactly the names referenced, in order");
    CHECK(r == err, "0, -ENOENT for an unknown variable, -EINVAL for a malformed reference");
    CHECK(g.cap > g.len, "the capacity covers the result");
    if (err == 0 && r == 0) {
        CHECK(calls == nv, "every reference is looked up once");
        CHECK(g.len == (size_t)n, "the result has the expanded length");
        ASSUME(g.len == (size_t)n);
        for (int i = 0; i < 2 * N + 3; i++) if (i < n) CHECK((uint8_t)g.str[i] == out[i], "references are replaced, all other text is kept in order");
        CHECK(g.str[n] == 0, "the result is terminated");
        REACH("end");
    }
    gstr_fini(&g);
}
void h_varexp(void)
{
    for (int i = 0; i < N; i++) { s[i] = nd_u8(); ASSUME(s[i]); }
    len = N;
    run();
}
void h_brace(void)
{
    s[0] = '$'; s[1] = '{';
    for (int i = 0; i < N; i++) { s[2 + i] = nd_u8(); ASSUME(s[2 + i] && s[2 + i] != '$'); }
    s[2 + N] = '}'; s[3 + N] = nd_u8(); ASSUME(s[3 + N] && s[3 + N] != '$');
    len = N + 4;
    run();
}
