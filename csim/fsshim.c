/* Preloaded into a process under test: what it does to the files below one directory goes through here. Every operation that
 * changes the file system is numbered and written to a log; any of them can be made to fail, or to be done only in part.
 * Operations outside that directory pass unseen. Off until fs_begin(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static int on, dfd = -1;
static char root[PATH_MAX];
static size_t rootlen;
static char kind[MAXFD];       /* 0: not ours, 1: file, 2: directory */
static int wr[MAXFD], syncing[MAXFD];
static unsigned long long ino[MAXFD];
static char *logbuf;
static size_t loglen, logcap;
static long nops;
static long fail_at[64];
static int fail_errno[64];
static long fail_part[64];     /* of a write: how much is done first; -1: nothing */
static int nfail;
static long space = -1;        /* bytes the disk has left; -1: enough */
static long nreads, read_fail = -1, sigint_at = -1;
static int read_errno;
static int gin = -1, gout = -1; /* a scheduler that decides when the next operation happens */

void fs_begin(const char *dir)
{
    if (!realpath(dir, root)) strcpy(root, dir);
    rootlen = strlen(root);
    memset(kind, 0, sizeof kind);
    loglen = 0; nops = 0; on = 1;
}
void fs_end(void) { on = 0; }
void fs_plan(long at, int err, long part) { if (nfail < 64) { fail_at[nfail] = at; fail_errno[nfail] = err; fail_part[nfail++] = part; } }
void fs_gate(int in, int out) { gin = in; gout = out; }
void fs_read(long at, int err) { read_fail = at; read_errno = err; }
void fs_sigint(long at) { sigint_at = at; }
void fs_space(long n) { space = n; }
const char *fs_log(void) { return logbuf ? logbuf : ""; }
long fs_ops(void) { return nops; }

static void put(const char *s, size_t n)
{
    if (loglen + n + 1 > logcap) { logcap = (loglen + n + 1) * 2; logbuf = realloc(logbuf, logcap); }
    memcpy(logbuf + loglen, s, n);
    loglen += n; logbuf[loglen] = 0;
}
static void out(const char *fmt, ...)
{
    char b[3 * PATH_MAX];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    put(b, n);
}
static void hex(const void *p, size_t n)
{
    static const char d[] = "0123456789abcdef";
    const unsigned char *s = p;
    for (size_t i = 0; i < n; i++) { char c[2] = { d[s[i] >> 4], d[s[i] & 15] }; put(c, 2); }
}

/* -> the path below the directory, or NULL */
static const char *ours(int at, const char *path)
{
    static char bufs[4][PATH_MAX * 2];
    static int k;
    char *b = bufs[k++ & 3], dir[PATH_MAX], *base;
    if (!on || !path) return NULL;
    if (path[0] == '/') snprintf(dir, sizeof dir, "%s", path);
    else {
        char cwd[PATH_MAX];
        if (at == AT_FDCWD) { if (!getcwd(cwd, sizeof cwd)) return NULL; }
        else {
            char l[64];
            snprintf(l, sizeof l, "/proc/self/fd/%d", at);
            ssize_t n = readlink(l, cwd, sizeof cwd - 1);
            if (n < 0) return NULL;
            cwd[n] = 0;
        }
        if ((size_t)snprintf(dir, sizeof dir, "%s/%s", cwd, path) >= sizeof dir) return NULL;
    }
    /* the directory may exist, the last part need not */
    size_t n = strlen(dir);
    while (n > 1 && dir[n - 1] == '/') dir[--n] = 0;
    base = strrchr(dir, '/');
    if (!strcmp(base, "/.") || !strcmp(base, "/..") ) { if (!realpath(dir, b)) return NULL; }
    else {
        char last[NAME_MAX + 8];
        snprintf(last, sizeof last, "%s", base);
        if (base == dir) strcpy(b, ""); else { *base = 0; if (!realpath(dir, b)) return NULL; if (!strcmp(b, "/")) *b = 0; }
        strcat(b, last);
    }
    if (strncmp(b, root, rootlen)) return NULL;
    if (!b[rootlen]) return ".";
    if (b[rootlen] != '/') return NULL;
    return b + rootlen + 1;
}

static void gate(const char *what)
{
    char c = 0;
    if (gin < 0 || !on) return;
    syscall(SYS_write, gout, what, 1);
    while (syscall(SYS_read, gin, &c, 1) < 0 && errno == EINTR) {}
    if (c != 'g') syscall(SYS_kill, getpid(), 9);
}

/* the next operation: 0 or the error it has to fail with */
static int step(long *part)
{
    gate("w");
    long me = nops++;
    *part = -1;
    if (me == sigint_at) { out("fail %ld interrupt 4\n", me); sigint_at = -1; raise(SIGINT); }
    for (int i = 0; i < nfail; i++) if (fail_at[i] == me) { *part = fail_part[i]; return fail_errno[i]; }
    return 0;
}
static int plain(void) { long p; return step(&p); }
#define FD(f) ((f) >= 0 && (f) < MAXFD && on && kind[f])

static int opened(int fd, int flags)
{
    struct stat st;
    if (fd >= 0 && fd < MAXFD && !fstat(fd, &st)) {
        kind[fd] = S_ISDIR(st.st_mode) ? 2 : 1;
        wr[fd] = (flags & O_ACCMODE) != O_RDONLY;
        syncing[fd] = (flags & (O_SYNC | O_DSYNC)) != 0;
        ino[fd] = st.st_ino;
    }
    return fd;
}

static int do_open(int at, const char *path, int flags, mode_t mode)
{
    const char *p = ours(at, path);
    if (!p) return syscall(SYS_openat, at, path, flags, mode);
    struct stat st;
    int existed = !syscall(SYS_newfstatat, at, path, &st, 0);
    int creates = ((flags & O_CREAT) && !existed) || (flags & O_TMPFILE) == O_TMPFILE;
    int e = plain();
    if (e) { out("fail %ld open %d\n", nops - 1, e); errno = e; return -1; }
    if (creates && space == 0) { out("fail %ld open %d\n", nops - 1, ENOSPC); errno = ENOSPC; return -1; }
    int fd = syscall(SYS_openat, at, path, flags, mode);
    if (fd < 0) { out("no %ld open\n", nops - 1); return fd; }
    opened(fd, flags);
    if (fd < MAXFD) {
        if (creates) out("create %ld %llu %s\n", nops - 1, ino[fd], (flags & O_TMPFILE) == O_TMPFILE ? "" : p);
        else if ((flags & O_TRUNC) && kind[fd] == 1) out("trunc %ld %llu 0\n", nops - 1, ino[fd]);
        else out("open %ld %llu %s\n", nops - 1, ino[fd], p);
    }
    return fd;
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int at, const char *p, int flags, ...) { MODE(flags) return do_open(at, p, flags, mode); }
int openat64(int at, const char *p, int flags, ...) { MODE(flags) return do_open(at, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const void *buf, size_t n, off_t at)
{
    if (!FD(fd)) return at < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, at);
    long part;
    int e = step(&part);
    size_t m = n;
    if (e && part < 0) { out("fail %ld write %d\n", nops - 1, e); errno = e; return -1; }
    if (e) m = (size_t)part < n ? (size_t)part : n;   /* a short write */
    if (space >= 0) {
        if (space == 0 && n) { out("fail %ld write %d\n", nops - 1, ENOSPC); errno = ENOSPC; return -1; }
        if (m > (size_t)space) m = space;
        space -= m;
    }
    off_t pos = at;
    if (at < 0) {
        int fl = fcntl(fd, F_GETFL);
        pos = lseek(fd, 0, fl & O_APPEND ? SEEK_END : SEEK_CUR);
    }
    if (m == 0 && n) { out("fail %ld write %d\n", nops - 1, e ? e : ENOSPC); errno = e ? e : ENOSPC; return -1; }
    ssize_t r = at < 0 ? syscall(SYS_write, fd, buf, m) : syscall(SYS_pwrite64, fd, buf, m, at);
    if (r >= 0) { out("write %ld %llu %lld ", nops - 1, ino[fd], (long long)pos); hex(buf, r); put("\n", 1); if (syncing[fd]) out("sync %ld %llu\n", nops - 1, ino[fd]); }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!FD(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { if (FD(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { if (FD(o)) { errno = EINVAL; return -1; } return syscall(SYS_sendfile, o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *io, int o, off64_t *oo, size_t n, unsigned f) { if (FD(o)) { errno = ENOSYS; return -1; } return syscall(SYS_copy_file_range, i, io, o, oo, n, f); }

ssize_t read(int fd, void *b, size_t n)
{
    if (FD(fd)) {
        gate("r");
        if (nreads++ == read_fail) { out("fail %ld read %d\n", nops - 1, read_errno); errno = read_errno; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
static int do_stat(int at, const char *p, struct stat *st, int f) { if (gin >= 0 && !(f & AT_EMPTY_PATH) && ours(at, p)) gate("r"); return syscall(SYS_newfstatat, at, p, st, f); }
int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int at, const char *p, struct stat *st, int f) { return do_stat(at, p, st, f); }
int fstatat64(int at, const char *p, struct stat64 *st, int f) { return do_stat(at, p, (struct stat *)st, f); }
int access(const char *p, int m) { if (gin >= 0 && ours(AT_FDCWD, p)) gate("r"); return syscall(SYS_faccessat, AT_FDCWD, p, m); }

/* a lock that is taken: ask again when the scheduler says so */
int flock(int fd, int op)
{
    if (gin < 0 || !on || (op & (LOCK_NB | LOCK_UN))) return syscall(SYS_flock, fd, op);
    for (;;) {
        gate("l");
        int r = syscall(SYS_flock, fd, op | LOCK_NB);
        if (!r || errno != EWOULDBLOCK) return r;
    }
}
static int do_fcntl(int fd, int cmd, long arg)
{
    if (gin < 0 || !on || (cmd != F_SETLKW && cmd != F_OFD_SETLKW)) return syscall(SYS_fcntl, fd, cmd, arg);
    for (;;) {
        gate("l");
        int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
        if (!r || (errno != EAGAIN && errno != EACCES)) return r;
    }
}
int fcntl(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }
int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long x = va_arg(a, long); va_end(a); return do_fcntl(fd, cmd, x); }

static int do_fsync(int fd, int nr)
{
    if (!FD(fd)) return syscall(nr, fd);
    int e = plain();
    if (e) { out("badsync %ld %llu %d\n", nops - 1, ino[fd], e); errno = e; return -1; }
    out("sync %ld %llu\n", nops - 1, ino[fd]);
    return 0;   /* (no need to wait for the real disk) */
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
int syncfs(int fd) { if (FD(fd)) { nops++; out("syncall %ld\n", nops - 1); return 0; } return syscall(SYS_syncfs, fd); }
void sync(void) { if (on) { nops++; out("syncall %ld\n", nops - 1); return; } syscall(SYS_sync); }

int ftruncate(int fd, off_t n)
{
    if (!FD(fd)) return syscall(SYS_ftruncate, fd, n);
    int e = plain();
    if (e) { out("fail %ld truncate %d\n", nops - 1, e); errno = e; return -1; }
    int r = syscall(SYS_ftruncate, fd, n);
    if (!r) out("trunc %ld %llu %lld\n", nops - 1, ino[fd], (long long)n);
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char *p, off_t n)
{
    if (!ours(AT_FDCWD, p)) return syscall(SYS_truncate, p, n);
    int fd = do_open(AT_FDCWD, p, O_WRONLY, 0);
    if (fd < 0) return -1;
    int r = ftruncate(fd, n);
    close(fd);
    return r;
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int posix_fallocate(int fd, off_t o, off_t n) { if (!FD(fd)) return syscall(SYS_fallocate, fd, 0, o, n) ? errno : 0; return EOPNOTSUPP; }
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }

int close(int fd)
{
    if (!FD(fd)) return syscall(SYS_close, fd);
    int e = wr[fd] ? plain() : 0;
    kind[fd] = 0;
    int r = syscall(SYS_close, fd);
    if (e) { out("fail %ld close %d\n", nops - 1, e); errno = e; return -1; }
    if (wr[fd]) out("close %ld %llu\n", nops - 1, ino[fd]);
    return r;
}
static int dupd(int a, int b) { if (FD(a) && b >= 0 && b < MAXFD) { kind[b] = kind[a]; wr[b] = wr[a]; syncing[b] = syncing[a]; ino[b] = ino[a]; } return b; }
int dup(int fd) { return dupd(fd, syscall(SYS_dup, fd)); }
int dup2(int a, int b) { if (b >= 0 && b < MAXFD) kind[b] = 0; return dupd(a, syscall(SYS_dup2, a, b)); }
int dup3(int a, int b, int f) { if (b >= 0 && b < MAXFD) kind[b] = 0; return dupd(a, syscall(SYS_dup3, a, b, f)); }

static int do_rename(int a, const char *x, int b, const char *y, unsigned f)
{
    const char *p = ours(a, x), *q = ours(b, y);
    if (!p && !q) return syscall(SYS_renameat2, a, x, b, y, f);
    int e = plain();
    if (e) { out("fail %ld rename %d\n", nops - 1, e); errno = e; return -1; }
    int r = syscall(SYS_renameat2, a, x, b, y, f);
    if (!r) out("rename %ld %s|%s\n", nops - 1, p ? p : "", q ? q : ""); else out("no %ld rename\n", nops - 1);
    return r;
}
int rename(const char *x, const char *y) { return do_rename(AT_FDCWD, x, AT_FDCWD, y, 0); }
int renameat(int a, const char *x, int b, const char *y) { return do_rename(a, x, b, y, 0); }
int renameat2(int a, const char *x, int b, const char *y, unsigned f) { return do_rename(a, x, b, y, f); }

static int do_link(int a, const char *x, int b, const char *y, int f)
{
    const char *p = ours(a, x), *q = ours(b, y);
    if (!p && !q) return syscall(SYS_linkat, a, x, b, y, f);
    int e = plain();
    if (e) { out("fail %ld link %d\n", nops - 1, e); errno = e; return -1; }
    int r = syscall(SYS_linkat, a, x, b, y, f);
    if (!r) out("link %ld %s|%s\n", nops - 1, p ? p : "", q ? q : ""); else out("no %ld link\n", nops - 1);
    return r;
}
int link(const char *x, const char *y) { return do_link(AT_FDCWD, x, AT_FDCWD, y, 0); }
int linkat(int a, const char *x, int b, const char *y, int f) { return do_link(a, x, b, y, f); }

static int do_unlink(int a, const char *x, int f)
{
    const char *p = ours(a, x);
    if (!p) return syscall(SYS_unlinkat, a, x, f);
    int e = plain();
    if (e) { out("fail %ld unlink %d\n", nops - 1, e); errno = e; return -1; }
    int r = syscall(SYS_unlinkat, a, x, f);
    if (!r) out("unlink %ld %s\n", nops - 1, p); else out("no %ld unlink\n", nops - 1);
    return r;
}
int unlink(const char *x) { return do_unlink(AT_FDCWD, x, 0); }
int unlinkat(int a, const char *x, int f) { return do_unlink(a, x, f); }
int rmdir(const char *x) { return do_unlink(AT_FDCWD, x, AT_REMOVEDIR); }
int remove(const char *x) { return do_unlink(AT_FDCWD, x, 0); }
