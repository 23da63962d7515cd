//@ prop C46
//@ srcs
//@ default unwind=125 cc="-DVH_DECDIV" flags="--max-field-sensitivity-array-size 256 --object-bits 12"
//@ job name=rotate for=N:1..4/1..7 D=KEEP={N},BL=2 bound="keeping {N}: every set of existing generations and directories in their way, every failing file-system call, state examined after every call"
//@ job name=long entry=h_rotate for=L:11..15/8..15 tD=KEEP=4,BL={L},VH_PM=16 D=KEEP=2,BL={L},VH_PM=16 bound="a name of {L} characters where paths are limited to 15, keeping 2 (4): same"
//@ job name=bysize for=N:1..2 D=KEEP={N},BL=2 bound="every file size and limit, every kind of file, every failing call"
/* rotatefile.c is taken in as source over a file system of the harness's own */
#include "vh.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include <sys/stat.h>
#ifdef VH_PM
#undef PATH_MAX
#define PATH_MAX VH_PM
#else
#undef PATH_MAX
#define PATH_MAX 64
#endif
static int vh_stat(const char *p, struct stat *st), vh_rename(const char *a, const char *b), vh_unlink(const char *p);
#define stat(p, s) vh_stat(p, s)
#define lstat(p, s) vh_stat(p, s)
#define rename vh_rename
#define unlink vh_unlink
#define remove vh_unlink
#include "rotatefile.c"
#undef stat

/* slot 0 is the file, slot g + 1 its generation g; slots past SLOTS are empty */
#define SLOTS (KEEP + 4)
static char Base[BL + 1];
static uint8_t Kind[SLOTS], Id[SLOTS], Kind0[SLOTS];    /* 0 absent, 1 file, 2 directory */
static unsigned Op, FailAt; static int FailErr, Failed, Started; static uint64_t Size;

static unsigned slot(const char *p)
{
    unsigned i, v = 0;
    CHECK(Started && p != 0, "called with a path");
    for (i = 0; i < BL; i++) if (p[i] != Base[i]) { CHECK(0, "only the file and its generations are touched"); return SLOTS; }
    if (!p[i]) return 0;
    if (p[i] != '.' || p[i + 1] < '0' || p[i + 1] > '9') { CHECK(0, "only the file and its numbered generations are touched"); return SLOTS; }
    for (i++; p[i]; i++) {
        if (p[i] < '0' || p[i] > '9' || v > 10000) { CHECK(0, "generations have plain numbers"); return SLOTS; }
        v = v * 10 + (p[i] - '0');
    }
    return v + 1;
}
static int toolong(const char *p) { unsigned i; for (i = 0; p[i]; i++) ; return i >= PATH_MAX; }
/* no wanted generation is missing or present twice, whatever happens next */
static void whole(void)
{
    for (unsigned s = 0; s < KEEP; s++) {
        unsigned n = 0;
        for (unsigned j = 0; j <= KEEP; j++) if (Kind[j] == 1 && Id[j] == s) n++;
        CHECK(Kind0[s] != 1 || n == 1, "every generation still wanted exists exactly once");
    }
}
static int fault(void) { if (Op++ == FailAt) { errno = FailErr; return 1; } return 0; }
static int vh_stat(const char *p, struct stat *st)
{
    unsigned s = slot(p);
    if (toolong(p)) { errno = ENAMETOOLONG; Failed = ENAMETOOLONG; return -1; }
    if (fault()) { Failed = FailErr; return -1; }
    if (s >= SLOTS || !Kind[s]) { errno = ENOENT; return -1; }
    st->st_mode = Kind[s] == 1 ? S_IFREG | 0600 : S_IFDIR | 0700;
    st->st_size = Size;
    return 0;
}
static int vh_rename(const char *a, const char *b)
{
    unsigned s = slot(a), t = slot(b);
    CHECK(t == s + 1, "a generation moves to the next number");
    if (s + 1 >= SLOTS || t != s + 1) return 0;
    if (fault()) { Failed = FailErr; return -1; }
    if (!Kind[s]) { errno = ENOENT; Failed = ENOENT; return -1; }
    if (Kind[t] == 2) { errno = EISDIR; Failed = EISDIR; return -1; }
    CHECK(!Kind[t] || t == KEEP, "only the oldest generation is ever overwritten");
    Kind[t] = Kind[s]; Id[t] = Id[s]; Kind[s] = 0;
    whole();
    return 0;
}
static int vh_unlink(const char *p)
{
    unsigned s = slot(p);
    CHECK(s > KEEP, "only generations beyond the limit are deleted");
    if (fault()) return -1;
    if (s >= SLOTS || !Kind[s]) { errno = ENOENT; return -1; }
    if (Kind[s] == 2) { errno = EISDIR; return -1; }
    Kind[s] = 0;
    whole();
    return 0;
}
static void start(void)
{
    for (int i = 0; i < BL; i++) Base[i] = 'a' + i;
    for (unsigned i = 0; i < SLOTS; i++) { Kind0[i] = Kind[i] = nd_small(0, 2); Id[i] = i; }
    FailAt = nd_u8(); FailErr = nd_small(1, 100); ASSUME(FailErr != ENOENT);
    Started = 1;
}
static void finish(int r)
{
    int dir = 0;
    for (unsigned s = 0; s < KEEP; s++) if (Kind0[s] == 2) dir = 1;
    if (r == 0) {
        CHECK(!Failed, "a failing rename or inquiry is reported");
        CHECK(!dir, "something other than a file in the way is reported");
        CHECK(Kind[0] == 0, "the file itself has moved");
        for (unsigned s = 0; s < KEEP; s++) {
            if (Kind0[s] == 1) CHECK(Kind[s + 1] == 1 && Id[s + 1] == s, "each generation moved to the next number");
            else if (s + 1 < KEEP) CHECK(Kind[s + 1] == 0, "nothing else takes a number");
            else CHECK(Kind[KEEP] == Kind0[KEEP], "the oldest stays when nothing replaces it");
        }
        if (FailAt >= Op) for (unsigned s = KEEP + 1; s < SLOTS; s++) CHECK(Kind[s] != 1, "generations beyond the limit are gone");
    } else {
        CHECK(r == -Failed || (r == -EINVAL && !Failed && dir) || (r == -ENAMETOOLONG && BL + 3 > PATH_MAX), "the error is the one the file system gave");
    }
    whole();
}
void h_rotate(void)
{
    start();
    int r = rotate_filename(Base, KEEP, 0);
    finish(r);
#if !defined(VH_PM) || BL + 3 <= VH_PM
    if (r == 0 && Kind0[0] == 1) REACH("rotated");
    if (r < 0 && Failed) REACH("failed");
#else
    REACH("too long");
#endif
}
void h_bysize(void)
{
    start();
    Size = nd_u64() >> 1; uint64_t mb = nd_u64();
    int r = rotate_filename_by_size(Base, KEEP, mb, 0);
    if (FailAt == 0) CHECK(r == -FailErr && Op == 1, "the size cannot be told");
    else if (!Kind0[0]) CHECK(r == 0 && Op == 1, "a missing file needs no rotation");
    else if (Kind0[0] == 2) CHECK(r == -EINVAL && Op == 1, "only files are rotated");
    else if ((Size >> 20) <= mb) CHECK(r == 0 && Op == 1, "a file within its limit is left alone");
    else { finish(r); if (r == 0) REACH("rotated"); }
    whole();
}
