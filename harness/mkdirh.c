//@ prop C47
//@ srcs
//@ default unwind=14 flags="--max-field-sensitivity-array-size 256"
//@ job name=mk for=N:0..8/0..11 tD=LEN={N},VH_PM=12 D=LEN={N},VH_PM=8 bound="every path of {N} characters made of names and slashes, every existing part of it (as directories or ending in a file), every failing call"
/* mkdirhier.c is taken in as source over a file system of the harness's own:
 * the directories along the path, of which the first Depth exist */
#include "vh.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <sys/stat.h>
#undef PATH_MAX
#define PATH_MAX VH_PM
static int vh_stat(const char *p, struct stat *st), vh_mkdir(const char *p, mode_t m);
#define stat(p, s) vh_stat(p, s)
#define lstat(p, s) vh_stat(p, s)
#define mkdir vh_mkdir
#include "mkdirhier.c"
#undef stat
#undef mkdir

static char P[LEN + 1];
static unsigned Total, Depth, Op, FailAt; static int IsFile, FailErr, Failed; static mode_t Mode;

/* how many names are in the first n characters (a name cut short is not one) */
static unsigned names(unsigned n)
{
    unsigned k = 0;
    for (unsigned i = 0; i < LEN; i++) if (i < n && P[i] != '/' && (i == 0 || P[i - 1] == '/')) k++;
    return k;
}
static unsigned prefix(const char *p, int *slash)
{
    unsigned n = 0; int cut = 1;
    for (n = 0; n < LEN && p[n]; n++) CHECK(p[n] == P[n], "only directories along the path are touched");
    CHECK(p[n] == 0, "only directories along the path are touched");
    if (n < LEN && n && P[n] != '/' && P[n - 1] != '/') CHECK(cut == 0, "names are not cut short");
    *slash = n && P[n - 1] == '/';
    return n;
}
static int fault(void) { if (Op++ == FailAt) { errno = FailErr; return Failed = 1; } return 0; }
static int vh_stat(const char *p, struct stat *st)
{
    int slash; unsigned n = prefix(p, &slash), k = names(n);
    if (fault()) return -1;
    if (n == 0) { errno = ENOENT; return -1; }
    if (n >= PATH_MAX) { errno = ENAMETOOLONG; return -1; }
    if (k == 0 && P[0] != '/') { errno = ENOENT; return -1; }
    if (IsFile && (k > Depth || (k == Depth && slash))) { errno = ENOTDIR; return -1; }
    if (k > Depth) { errno = ENOENT; return -1; }
    st->st_mode = IsFile && k == Depth ? S_IFREG | 0600 : S_IFDIR | 0700;
    return 0;
}
static int vh_mkdir(const char *p, mode_t m)
{
    int slash; unsigned n = prefix(p, &slash), k = names(n);
    CHECK(m == Mode, "directories get the requested mode");
    if (n == 0) { errno = ENOENT; return -1; }
    if (IsFile && k > Depth) { errno = ENOTDIR; return -1; }
    if (k <= Depth) { errno = EEXIST; return -1; }
    if (k > Depth + 1) { errno = ENOENT; return -1; }
    if (fault()) return -1;
    Depth = k;
    return 0;
}
void h_mk(void)
{
    for (int i = 0; i < LEN; i++) { P[i] = nd_u8(); ASSUME(P[i] == '/' || P[i] == 'a' || P[i] == 'b'); }
    Total = names(LEN); Depth = nd_small(0, LEN); ASSUME(Depth <= Total);
    IsFile = nd_bool(); ASSUME(!IsFile || Depth > 0);
    FailAt = nd_u8(); FailErr = nd_small(1, 100); ASSUME(FailErr != ENOENT && FailErr != EEXIST);
    Mode = nd_u16();
    unsigned was = Depth;
    int r = mkdirhier(P, Mode);
    if (r == 0) CHECK(Depth == Total && !IsFile && (LEN == 0 || !(P[0] == '/') || 1), "success means the whole path is there");
    if (r == 0) CHECK(LEN > 0, "an empty path is no directory");
    if (LEN > 0 && LEN < PATH_MAX && !Failed && !IsFile) CHECK(r == 0, "what can be made is made");
    if (r != 0) {
        CHECK(r < 0 && r > -200, "an error is a negative errno");
        if (Failed && FailAt > 0) CHECK(r == -FailErr || r == -ENAMETOOLONG, "the error is the one the file system gave");
        if (LEN >= PATH_MAX) CHECK(r == -ENAMETOOLONG && Depth == was, "a path that is too long is refused");
    }
#if LEN > 1 && LEN < VH_PM
    if (r == 0 && was + 1 == Depth) REACH("made");
#else
    REACH("end");
#endif
}
