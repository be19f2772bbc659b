/* In-memory file system behind the libc calls PDC makes (linked with --wrap). Forked with the process. */
#include "sim.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#define NN 512
#define FDBASE 1000
#define PG 4096
static mnode *nodes[NN];
static int    nn;
static struct { mnode *n; long off; int flags, used; } fds[1024];
void (*memfs_hook)(const char *, mnode *, size_t, const void *, size_t);
int memfs_fail_next, memfs_fail_after;

static void norm(const char *p, char *o)
{
    int j = 0;
    for (int i = 0; p[i] && j < 500; i++) {
        if (p[i] == '/' && j && o[j - 1] == '/') continue;
        if (p[i] == '.' && (i == 0 || p[i - 1] == '/') && (p[i + 1] == '/' || !p[i + 1])) { if (p[i + 1]) i++; continue; }
        o[j++] = p[i];
    }
    if (j > 1 && o[j - 1] == '/') j--;
    o[j] = 0;
}
mnode *memfs_find(const char *path)
{
    char b[512];
    norm(path, b);
    for (int i = 0; i < nn; i++)
        if (nodes[i]->exists && !strcmp(nodes[i]->path, b)) return nodes[i];
    return NULL;
}
mnode *memfs_create(const char *path)
{
    if (nn >= NN) { fprintf(stderr, "memfs full\n"); abort(); }
    mnode *n = calloc(1, sizeof *n);
    norm(path, n->path);
    n->exists   = 1;
    nodes[nn++] = n;
    return n;
}
int    memfs_count(void) { return nn; }
mnode *memfs_at(int i) { return nodes[i]; }
void   memfs_close_all(void) { memset(fds, 0, sizeof fds); }
uint64_t memfs_hash(void)
{
    uint64_t h = 7;
    for (int i = 0; i < nn; i++)
        if (nodes[i]->exists) { h = ex_hash_s(h, nodes[i]->path); h = ex_hash(h, &nodes[i]->size, sizeof nodes[i]->size); for (int j = 0; j < nodes[i]->npg; j++) { h = ex_hash(h, &nodes[i]->pg[j].no, sizeof(size_t)); h = ex_hash(h, nodes[i]->pg[j].p, PG); } }
    return h;
}
static void mut(const char *op, mnode *n, size_t off, const void *b, size_t len) { if (memfs_hook) memfs_hook(op, n, off, b, len); }
/* contents are kept in pages, so that files may have holes */
static unsigned char *page(mnode *n, size_t no, int create)
{
    int lo = 0, hi = n->npg;
    while (lo < hi) { int m = (lo + hi) / 2; if (n->pg[m].no < no) lo = m + 1; else hi = m; }
    if (lo < n->npg && n->pg[lo].no == no) return n->pg[lo].p;
    if (!create) return NULL;
    if (n->npg == n->pgcap) { n->pgcap = n->pgcap * 2 + 4; n->pg = realloc(n->pg, n->pgcap * sizeof *n->pg); }
    memmove(n->pg + lo + 1, n->pg + lo, (n->npg - lo) * sizeof *n->pg);
    n->npg++; n->pg[lo].no = no;
    return n->pg[lo].p = calloc(1, PG);
}
void memfs_put(mnode *n, size_t off, const void *b, size_t len)
{
    if (off + len > n->size) n->size = off + len;
    for (const char *s = b; len; ) {
        size_t o = off % PG, k = PG - o < len ? PG - o : len;
        memcpy(page(n, off / PG, 1) + o, s, k);
        s += k; off += k; len -= k;
    }
}
static void settle(mnode *n, size_t sz)
{
    if (sz < n->size) {
        while (n->npg && n->pg[n->npg - 1].no * PG >= sz) free(n->pg[--n->npg].p);
        unsigned char *p = sz % PG ? page(n, sz / PG, 0) : NULL;
        if (p) memset(p + sz % PG, 0, PG - sz % PG);
    }
    n->size = sz;
}
static int mopen(const char *path, int flags)
{
    mnode *n = memfs_find(path);
    if (n && n->isdir) { errno = EISDIR; return -1; }
    if (!n) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        n = memfs_create(path);
        n->exists = 0;
        mut("create", n, 0, NULL, 0);
        n->exists = 1;
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if ((flags & O_TRUNC) && n->size) { mut("trunc", n, 0, NULL, 0); settle(n, 0); }
    for (int i = 0; i < 1024; i++)
        if (!fds[i].used) {
            fds[i].used = 1; fds[i].n = n; fds[i].off = 0; fds[i].flags = flags;
            return FDBASE + i;
        }
    errno = EMFILE;
    return -1;
}
#define PRE(what) if (fd >= FDBASE) sim_preempt(what)
static int isfd(int fd) { return fd >= FDBASE && fd < FDBASE + 1024 && fds[fd - FDBASE].used; }
static ssize_t mpread(mnode *n, void *b, size_t len, long off)
{
    if (off < 0) { errno = EINVAL; return -1; }
    if ((size_t)off >= n->size) return 0;
    if (len > n->size - off) len = n->size - off;
    for (size_t d = 0; d < len; ) {
        size_t o = (off + d) % PG, k = PG - o < len - d ? PG - o : len - d;
        unsigned char *p = page(n, (off + d) / PG, 0);
        if (p) memcpy((char *)b + d, p + o, k); else memset((char *)b + d, 0, k);
        d += k;
    }
    return len;
}
static ssize_t mpwrite(mnode *n, const void *b, size_t len, long off)
{
    if (off < 0) { errno = EINVAL; return -1; }
    if (off + len > (1ull << 43)) { errno = EFBIG; return -1; }
    if (memfs_fail_next && memfs_fail_after-- <= 0) { memfs_fail_next--; errno = EIO; return -1; }
    mut("write", n, off, b, len);
    memfs_put(n, off, b, len);
    return len;
}
int __wrap_open(const char *p, int f, ...) { return mopen(p, f); }
int __wrap_open64(const char *p, int f, ...) { return mopen(p, f); }
int __wrap_creat(const char *p, mode_t m) { return mopen(p, O_CREAT | O_TRUNC | O_WRONLY); }
int __wrap_close(int fd)
{
    if (!isfd(fd)) { errno = EBADF; return -1; }
    fds[fd - FDBASE].used = 0;
    return 0;
}
#define F(fd) fds[(fd)-FDBASE]
#define CK(fd) if (!isfd(fd)) { errno = EBADF; return -1; }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { PRE("read"); CK(fd); return mpread(F(fd).n, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { CK(fd); return mpread(F(fd).n, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { PRE("write"); CK(fd); return mpwrite(F(fd).n, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { CK(fd); return mpwrite(F(fd).n, b, n, o); }
ssize_t __wrap_read(int fd, void *b, size_t n) { PRE("read"); CK(fd); ssize_t r = mpread(F(fd).n, b, n, F(fd).off); if (r > 0) F(fd).off += r; return r; }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
    if (fd >= 0 && fd < 3) return n;
    PRE("write");
    CK(fd);
    if (F(fd).flags & O_APPEND) F(fd).off = F(fd).n->size;
    ssize_t r = mpwrite(F(fd).n, b, n, F(fd).off);
    if (r > 0) F(fd).off += r;
    return r;
}
off_t __wrap_lseek(int fd, off_t o, int w)
{ PRE("seek");
    CK(fd);
    long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? F(fd).off : (long)F(fd).n->size;
    if (b + o < 0) { errno = EINVAL; return -1; }
    return F(fd).off = b + o;
}
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_ftruncate(int fd, off_t l) { CK(fd); mut("trunc", F(fd).n, l, NULL, 0); settle(F(fd).n, l); return 0; }
int __wrap_truncate(const char *p, off_t l) { mnode *n = memfs_find(p); if (!n) { errno = ENOENT; return -1; } mut("trunc", n, l, NULL, 0); settle(n, l); return 0; }
int __wrap_fsync(int fd) { CK(fd); return 0; }
int __wrap_fdatasync(int fd) { CK(fd); return 0; }
static int mstat(mnode *n, struct stat *s)
{
    memset(s, 0, sizeof *s);
    s->st_mode = n->isdir ? S_IFDIR | 0755 : S_IFREG | 0644;
    s->st_size = n->size;
    s->st_blksize = 4096;
    return 0;
}
int __wrap_stat(const char *p, struct stat *s) { mnode *n = memfs_find(p); if (!n) { errno = ENOENT; return -1; } return mstat(n, s); }
int __wrap_fstat(int fd, struct stat *s) { CK(fd); return mstat(F(fd).n, s); }
int __wrap_access(const char *p, int m) { if (!memfs_find(p)) { errno = ENOENT; return -1; } return 0; }
int __wrap_mkdir(const char *p, mode_t m)
{
    if (memfs_find(p)) { errno = EEXIST; return -1; }
    memfs_create(p)->isdir = 1;
    return 0;
}
int __wrap_unlink(const char *p)
{
    mnode *n = memfs_find(p);
    if (!n) { errno = ENOENT; return -1; }
    mut("unlink", n, 0, NULL, 0);
    n->exists = 0;
    return 0;
}
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b)
{
    mnode *n = memfs_find(a), *o = memfs_find(b);
    if (!n) { errno = ENOENT; return -1; }
    mut("rename", n, 0, b, strlen(b));
    if (o && o != n) o->exists = 0;
    norm(b, n->path);
    return 0;
}
/* the shell commands PDC uses; mv from /tmp to elsewhere copies, as it does between file systems */
static void mkdirs(char *p)
{
    for (char *q = p + 1; *q; q++) if (*q == '/') { *q = 0; __wrap_mkdir(p, 0755); *q = '/'; }
    __wrap_mkdir(p, 0755);
}
int __wrap_system(const char *c)
{
    char a[512], b[512];
    if (sscanf(c, "mkdir -p %511s", a) == 1) { mkdirs(a); return 0; }
    int cp = !strncmp(c, "cp ", 3), f = 0;
    if (sscanf(c, "mv %n%511s %511s", &f, a, b) == 2 || (cp && sscanf(c, "cp %n%511s %511s", &f, a, b) == 2) || sscanf(c, "mv -f %n%511s %511s", &f, a, b) == 2) {
        mnode *d = memfs_find(b);
        if (!memfs_find(a)) return 256;
        if (d && d->isdir) { strcat(b, "/"); strcat(b, strrchr(a, '/') ? strrchr(a, '/') + 1 : a); }
        if (!cp && (strncmp(a, "/tmp/", 5) != 0) == (strncmp(b, "/tmp/", 5) != 0)) return __wrap_rename(a, b) ? 256 : 0;
        if (!cp) __wrap_unlink(b);
        int i = mopen(a, O_RDONLY), o = mopen(b, O_CREAT | O_TRUNC | O_WRONLY), bad = 0;
        char buf[4096];
        ssize_t n;
        while (!bad && (n = __wrap_read(i, buf, sizeof buf)) > 0) bad = __wrap_write(o, buf, n) != n;
        __wrap_close(i); __wrap_close(o);
        if (bad) return 256;
        if (!cp) __wrap_unlink(a);
        return 0;
    }
    return 0;
}
/* directories: "." and "..", then the entries in the order of their creation */
struct mdir { char path[512]; int i; struct dirent d; };
DIR *__wrap_opendir(const char *p)
{
    mnode *n = memfs_find(p);
    if (!n || !n->isdir) { errno = n ? ENOTDIR : ENOENT; return NULL; }
    struct mdir *m = calloc(1, sizeof *m);
    strcpy(m->path, n->path);
    m->i = -2;
    return (DIR *)m;
}
struct dirent *__wrap_readdir(DIR *dp)
{
    struct mdir *m = (struct mdir *)dp;
    size_t l = strlen(m->path);
    for (; m->i < nn; m->i++) {
        const char *e;
        if (m->i < 0) e = m->i == -2 ? "." : "..";
        else {
            mnode *n = nodes[m->i];
            if (!n->exists || strncmp(n->path, m->path, l) || n->path[l] != '/' || !n->path[l + 1] || strchr(n->path + l + 1, '/')) continue;
            e = n->path + l + 1;
        }
        m->i++;
        snprintf(m->d.d_name, sizeof m->d.d_name, "%s", e);
        m->d.d_type = DT_UNKNOWN;
        return &m->d;
    }
    return NULL;
}
int __wrap_closedir(DIR *dp) { free(dp); return 0; }
/* stdio */
static ssize_t ck_read(void *c, char *b, size_t n) { return __wrap_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = __wrap_write((int)(long)c, b, n); return r < 0 ? 0 : r; }
static int     ck_seek(void *c, off64_t *o, int w) { off_t r = __wrap_lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int     ck_close(void *c) { return __wrap_close((int)(long)c); }
static FILE *files[1024];
FILE *__wrap_fopen(const char *p, const char *m)
{
    int fl = 0, plus = strchr(m, '+') != NULL;
    if (m[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (m[0] == 'w') fl = O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
    else fl = O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
    int fd = mopen(p, fl);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(long)fd, m, io);
    if (f) setvbuf(f, NULL, _IOFBF, 4096);
    if (f && fd - FDBASE < 1024) files[fd - FDBASE] = f;
    return f;
}
int __wrap_fileno(FILE *f) { for (int i = 0; i < 1024; i++) if (files[i] == f && fds[i].used) return FDBASE + i; return fileno(f); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
char *__wrap_mkdtemp(char *t) { return t; }

/* heap of the servers: what a server process allocated is gone (here: overwritten) once the process is gone */
#include <malloc.h>
static void **hp; static size_t hcap, hn;
static size_t hslot(void *p) { size_t i = ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (hcap - 1); while (hp[i] && hp[i] != p) i = (i + 1) & (hcap - 1); return i; }
static void *track(void *p)
{
    if (!p) return p;
    if ((hn + 1) * 2 > hcap) {
        void **o = hp; size_t c = hcap;
        hcap = c ? c * 2 : 4096; hp = calloc(hcap, sizeof *hp);
        for (size_t i = 0; i < c; i++) if (o[i]) hp[hslot(o[i])] = o[i];
        free(o);
    }
    size_t i = hslot(p);
    if (!hp[i]) { hp[i] = p; hn++; }
    return p;
}
static void untrack(void *p)
{
    if (!p || !hcap) return;
    size_t i = hslot(p), j = i;
    if (!hp[i]) return;
    hn--;
    for (;;) { /* backward shift deletion */
        hp[i] = NULL;
        for (;;) {
            j = (j + 1) & (hcap - 1);
            if (!hp[j]) return;
            size_t k = ((uintptr_t)hp[j] >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (hcap - 1);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
            break;
        }
        hp[i] = hp[j]; i = j;
    }
}
#define PREH(what) if (sim_preempt_free) sim_preempt(what) /* the heap calls of a server stand for its other memory accesses */
void *__wrap_malloc(size_t n) { PREH("malloc"); return track(malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { PREH("malloc"); return track(calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { untrack(p); return track(realloc(p, n)); }
void  __wrap_free(void *p) { untrack(p); free(p); PREH("free"); }
char *__wrap_strdup(const char *s) { return track(strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { return track(strndup(s, n)); }
void  memfs_heap_gone(void) { for (size_t i = 0; i < hcap; i++) if (hp[i]) memset(hp[i], 0xdb, malloc_usable_size(hp[i])); memset(hp, 0, hcap * sizeof *hp); hn = 0; }
