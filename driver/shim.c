/* LD_PRELOAD shim: observes the file-system calls that change something below NMV_ROOT.
 *   NMV_LOG=file        append one line per call:  n \t op \t path \t path2-or-size \t result \t errno
 *   NMV_KILL_AT=n       SIGKILL this process just before the n-th call (1 = first)
 *   NMV_KILL_HALF=1     ... after writing half of it, when the n-th call is a write
 *   NMV_INT_AT=n        raise SIGINT just before the n-th call
 *   NMV_FAIL_AT=n       the n-th call fails with errno NMV_FAIL_ERRNO (default EIO) and is not performed
 *   NMV_FAIL_FOR=k      ... so do the k-1 calls after it (0: all of them)
 *   NMV_OPS=a,b,...     only these operations count
 *   NMV_SKIP=substring  calls on paths containing it are not counted
 *   NMV_ONLY=substring  only calls on paths containing it are counted
 *   NMV_STOP_AT=n       stop (SIGSTOP) just before the n-th call
 *   NMV_STAMP=1         directories that change get the time of NMV_TIME
 *   NMV_READ0=k         reads from standard input return at most k bytes
 *   NMV_READ_FAIL_AT=n  the n-th read from standard input fails with NMV_READ_ERRNO
 *   NMV_EINTR_AT=n      writes below NMV_ROOT fail with EINTR from the n-th on, NMV_EINTR_FOR of them
 *   NMV_SHORT=k         writes below NMV_ROOT write at most k bytes
 *   NMV_TIME=secs       constant wall clock
 *   NMV_TIME_FILE=file  ... that can be changed: the file has the seconds
 * Calls that only look (scandir, opendir, stat, openr: open for reading) count if NMV_OPS names them.
 */
#define _GNU_SOURCE
#undef _FILE_OFFSET_BITS
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int inited, logfd = -1, half, ferrno = EIO;
static long writes, eintr_at, eintr_for, reads, rfail_at, rerrno, read0, shortw, n, kill_at, fail_at, fail_for = 1, int_at, stop_at;
static char root[PATH_MAX];
static size_t rootlen;
static const char *ops, *skip, *only, *timefile;
static long faketime = -1, stamps;

static long envl (const char *s, long d) { const char *v = getenv (s); return v && *v ? atol (v) : d; }
static void init (void)
{
    const char *v;
    if (inited) return;
    inited = 1;
    v = getenv ("NMV_ROOT");
    if (v) { snprintf (root, sizeof root, "%s", v); rootlen = strlen (root); }
    stamps = envl ("NMV_STAMP", 0);
    kill_at = envl ("NMV_KILL_AT", 0);
    half = envl ("NMV_KILL_HALF", 0);
    int_at = envl ("NMV_INT_AT", 0);
    stop_at = envl ("NMV_STOP_AT", 0);
    fail_at = envl ("NMV_FAIL_AT", 0);
    fail_for = envl ("NMV_FAIL_FOR", 1);
    ferrno = envl ("NMV_FAIL_ERRNO", EIO);
    read0 = envl ("NMV_READ0", 0);
    rfail_at = envl ("NMV_READ_FAIL_AT", 0);
    rerrno = envl ("NMV_READ_ERRNO", EIO);
    eintr_at = envl ("NMV_EINTR_AT", 0);
    eintr_for = envl ("NMV_EINTR_FOR", 1);
    shortw = envl ("NMV_SHORT", 0);
    faketime = envl ("NMV_TIME", -1);
    timefile = getenv ("NMV_TIME_FILE");
    ops = getenv ("NMV_OPS");
    skip = getenv ("NMV_SKIP");
    only = getenv ("NMV_ONLY");
    v = getenv ("NMV_LOG");
    if (v && *v) logfd = syscall (SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
__attribute__((constructor)) static void ctor (void) { init (); }

static void abspath (int dirfd, const char *p, char *o)
{
    if (p[0] == '/') { snprintf (o, PATH_MAX, "%s", p); return; }
    char base[PATH_MAX], lnk[64];
    ssize_t l;
    if (dirfd == AT_FDCWD) {
	if (syscall (SYS_getcwd, base, sizeof base) < 0) base[0] = 0;
    } else {
	snprintf (lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
	l = syscall (SYS_readlinkat, AT_FDCWD, lnk, base, sizeof base - 1);
	base[l < 0 ? 0 : l] = 0;
    }
    if (snprintf (o, PATH_MAX, "%s/%s", base, p) >= PATH_MAX) o[PATH_MAX - 1] = 0;
}
static int fdpath (int fd, char *o)
{
    char lnk[64];
    snprintf (lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t l = syscall (SYS_readlinkat, AT_FDCWD, lnk, o, PATH_MAX - 1);
    if (l < 0) return 0;
    o[l] = 0;
    return o[0] == '/';
}
static int inside (const char *p)
{
    return rootlen && ! strncmp (p, root, rootlen) && (p[rootlen] == '/' || ! p[rootlen]) && ! (skip && *skip && strstr (p, skip))
	   && ! (only && *only && ! strstr (p, only));
}
static int opcounts (const char *op)
{
    if (! ops || ! *ops) return 1;
    size_t l = strlen (op);
    for (const char *p = ops; (p = strstr (p, op)); p += l)
	if ((p == ops || p[-1] == ',') && (p[l] == ',' || ! p[l])) return 1;
    return 0;
}
/* Returns: 0 proceed, 1 fail with errno set, 2 write only half and die. *k is the call's number */
static int before (const char *op, const char *path, long *k)
{
    init ();
    *k = 0;
    if (! inside (path) || ! opcounts (op)) return 0;
    *k = ++n;
    if (int_at && n == int_at) raise (SIGINT);
    if (stop_at && n == stop_at) raise (SIGSTOP);
    if (kill_at && n == kill_at) {
	if (half && ! strcmp (op, "write")) return 2;
	syscall (SYS_kill, getpid (), SIGKILL);
	for (;;) pause ();
    }
    if (fail_at && n >= fail_at && (fail_for == 0 || n < fail_at + fail_for)) { errno = ferrno; return 1; }
    return 0;
}
static void look (const char *op, int dirfd, const char *p)
{
    char a[PATH_MAX];
    long k;
    init ();
    if (! ops || ! strstr (ops, op)) return;
    abspath (dirfd, p, a);
    before (op, a, &k);
}
static long now (void)
{
    char b[32];
    init ();
    if (timefile && *timefile) {
	int fd = syscall (SYS_openat, AT_FDCWD, timefile, O_RDONLY | O_CLOEXEC), l = fd < 0 ? 0 : syscall (SYS_read, fd, b, sizeof b - 1);
	if (fd >= 0) syscall (SYS_close, fd);
	if (l > 0) { b[l] = 0; return atol (b); }
    }
    return faketime;
}
/* NMV_STAMP=1: directories that change get the time of NMV_TIME */
static void stamp (const char *p)
{
    char d[PATH_MAX];
    struct timespec t[2];
    char *s;
    snprintf (d, sizeof d, "%s", p);
    if (strstr (d, "/.notmuch") || ! inside (d) || ! (s = strrchr (d, '/'))) return;
    *s = 0;
    t[0].tv_sec = t[1].tv_sec = now ();
    t[0].tv_nsec = t[1].tv_nsec = 0;
    syscall (SYS_utimensat, AT_FDCWD, d, t, 0);
}
static void after (long k, const char *op, const char *p, const char *q, long sz, long r)
{
    if (k && r >= 0 && stamps && now () >= 0 && strchr ("oulmrs", *op)) {
	int e = errno;
	stamp (p);
	if (q) stamp (q);
	errno = e;
    }
    if (! k || logfd < 0) return;
    int e = errno;
    char b[3 * PATH_MAX];
    int l = q ? snprintf (b, sizeof b, "%ld\t%s\t%s\t%s\t%ld\t%d\n", k, op, p, q, r, r < 0 ? e : 0)
	      : snprintf (b, sizeof b, "%ld\t%s\t%s\t%ld\t%ld\t%d\n", k, op, p, sz, r, r < 0 ? e : 0);
    if (l > 0) syscall (SYS_write, logfd, b, l);
    errno = e;
}
#define REAL(name) static __typeof__ (&name) real; if (! real) real = (__typeof__ (&name)) dlsym (RTLD_NEXT, #name)

static int do_open (int dirfd, const char *p, int flags, mode_t mode)
{
    char a[PATH_MAX];
    long k = 0;
    int r, mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (mut) {
	struct stat st;
	abspath (dirfd, p, a);
	if ((flags & O_CREAT) && ! (flags & O_TRUNC) && ! syscall (SYS_newfstatat, dirfd, p, &st, 0) && ! (flags & O_EXCL))
	    mut = 0;   /* nothing changes */
    }
    if ((flags & O_ACCMODE) == O_RDONLY) look ("openr", dirfd, p);
    if (mut && before ("open", a, &k) == 1) { after (k, "open", a, NULL, flags, -1); return -1; }
    r = syscall (SYS_openat, dirfd, p, flags, mode);
    if (mut) after (k, "open", a, NULL, flags, r);
    return r;
}
#define OPENFN(NAME, EXTRA) \
    int NAME (const char *p, int flags, ...) \
    { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start (v, flags); m = va_arg (v, mode_t); va_end (v); } return do_open (AT_FDCWD, p, flags EXTRA, m); }
#define OPENATFN(NAME, EXTRA) \
    int NAME (int d, const char *p, int flags, ...) \
    { mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list v; va_start (v, flags); m = va_arg (v, mode_t); va_end (v); } return do_open (d, p, flags EXTRA, m); }
OPENFN (open, ) OPENFN (open64, | O_LARGEFILE)
OPENATFN (openat, ) OPENATFN (openat64, | O_LARGEFILE)
int __open_2 (const char *p, int f) { return do_open (AT_FDCWD, p, f, 0); }
int __open64_2 (const char *p, int f) { return do_open (AT_FDCWD, p, f, 0); }
int creat (const char *p, mode_t m) { return do_open (AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64 (const char *p, mode_t m) { return do_open (AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static char *do_mkstemp (char *t, int suffix)
{
    static unsigned long c;
    size_t l = strlen (t);
    struct timespec ts;
    syscall (SYS_clock_gettime, CLOCK_REALTIME, &ts);
    unsigned long v = ts.tv_nsec ^ (ts.tv_sec << 20) ^ ((unsigned long) getpid () << 8) ^ (c++ * 7919);
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    for (int i = 0; i < 6; i++) { t[l - suffix - 6 + i] = al[v % 62]; v = v / 62 + 7; }
    return t;
}
static int mkst (char *t, int suffix, int flags)
{
    for (int i = 0; i < 100; i++) {
	int fd = do_open (AT_FDCWD, do_mkstemp (t, suffix), O_RDWR | O_CREAT | O_EXCL | flags, 0600);
	if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
int mkstemp (char *t) { return mkst (t, 0, 0); }
int mkstemp64 (char *t) { return mkst (t, 0, 0); }
int mkostemp (char *t, int f) { return mkst (t, 0, f & ~O_ACCMODE); }
int mkostemp64 (char *t, int f) { return mkst (t, 0, f & ~O_ACCMODE); }

static ssize_t do_write (int fd, const void *b, size_t c, int pos, off64_t off)
{
    char a[PATH_MAX];
    long k = 0;
    ssize_t r;
    int w = 0;
    init ();
    int in = rootlen && fd > 2 && fdpath (fd, a);
    if (in && eintr_at && inside (a) && ++writes >= eintr_at && writes < eintr_at + eintr_for) { errno = EINTR; return -1; }
    if (in) {
	w = before ("write", a, &k);
	if (w == 1) { after (k, "write", a, NULL, c, -1); return -1; }
    }
    if (w == 2) {
	if (pos) syscall (SYS_pwrite64, fd, b, c / 2, off); else syscall (SYS_write, fd, b, c / 2);
	syscall (SYS_kill, getpid (), SIGKILL);
	for (;;) pause ();
    }
    if (in && shortw && (size_t) shortw < c) c = shortw;
    r = pos ? syscall (SYS_pwrite64, fd, b, c, off) : syscall (SYS_write, fd, b, c);
    if (in) after (k, "write", a, NULL, c, r);
    return r;
}
ssize_t write (int fd, const void *b, size_t c) { return do_write (fd, b, c, 0, 0); }
ssize_t pwrite (int fd, const void *b, size_t c, off_t o) { return do_write (fd, b, c, 1, o); }
ssize_t pwrite64 (int fd, const void *b, size_t c, off64_t o) { return do_write (fd, b, c, 1, o); }
ssize_t writev (int fd, const struct iovec *v, int c)
{
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
	ssize_t r = v[i].iov_len ? do_write (fd, v[i].iov_base, v[i].iov_len, 0, 0) : 0;
	if (r < 0) return t ? t : -1;
	t += r;
	if ((size_t) r < v[i].iov_len) break;
    }
    return t;
}
ssize_t read (int fd, void *b, size_t c)
{
    init ();
    if (fd == 0 && rfail_at && ++reads == rfail_at) { errno = rerrno; return -1; }
    if (fd == 0 && read0 && (size_t) read0 < c) c = read0;
    return syscall (SYS_read, fd, b, c);
}
ssize_t __read_chk (int fd, void *b, size_t c, size_t l) { (void) l; return read (fd, b, c); }
#define FDOP(NAME, OP, CALL) \
    int NAME (int fd) { char a[PATH_MAX]; long k = 0; int r; init (); int in = rootlen && fdpath (fd, a); \
	if (in && before (OP, a, &k) == 1) { after (k, OP, a, NULL, 0, -1); return -1; } \
	r = CALL; if (in) after (k, OP, a, NULL, 0, r); return r; }
FDOP (fsync, "fsync", syscall (SYS_fsync, fd))
FDOP (fdatasync, "fsync", syscall (SYS_fdatasync, fd))
static int do_ftrunc (int fd, off64_t l)
{
    char a[PATH_MAX]; long k = 0; int r; init (); int in = rootlen && fdpath (fd, a);
    if (in && before ("trunc", a, &k) == 1) { after (k, "trunc", a, NULL, l, -1); return -1; }
    r = syscall (SYS_ftruncate, fd, l);
    if (in) after (k, "trunc", a, NULL, l, r);
    return r;
}
int ftruncate (int fd, off_t l) { return do_ftrunc (fd, l); }
int ftruncate64 (int fd, off64_t l) { return do_ftrunc (fd, l); }
#define P1(OP, D, P, CALL) \
    char a[PATH_MAX]; long k = 0; int r; abspath (D, P, a); \
    if (before (OP, a, &k) == 1) { after (k, OP, a, NULL, 0, -1); return -1; } \
    r = CALL; after (k, OP, a, NULL, 0, r); return r;
int unlink (const char *p) { P1 ("unlink", AT_FDCWD, p, syscall (SYS_unlinkat, AT_FDCWD, p, 0)) }
int unlinkat (int d, const char *p, int f) { P1 (f & AT_REMOVEDIR ? "rmdir" : "unlink", d, p, syscall (SYS_unlinkat, d, p, f)) }
int rmdir (const char *p) { P1 ("rmdir", AT_FDCWD, p, syscall (SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR)) }
int remove (const char *p)
{
    struct stat st;
    if (! syscall (SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) && S_ISDIR (st.st_mode)) return rmdir (p);
    return unlink (p);
}
int mkdir (const char *p, mode_t m) { P1 ("mkdir", AT_FDCWD, p, syscall (SYS_mkdirat, AT_FDCWD, p, m)) }
int mkdirat (int d, const char *p, mode_t m) { P1 ("mkdir", d, p, syscall (SYS_mkdirat, d, p, m)) }
#define P2(OP, D1, Pa, D2, Pb, CALL) \
    char a[PATH_MAX], b[PATH_MAX]; long k = 0; int r; abspath (D1, Pa, a); abspath (D2, Pb, b); \
    if (before (OP, inside (a) ? a : b, &k) == 1) { after (k, OP, a, b, 0, -1); return -1; } \
    r = CALL; after (k, OP, a, b, 0, r); return r;
int rename (const char *x, const char *y) { P2 ("rename", AT_FDCWD, x, AT_FDCWD, y, syscall (SYS_renameat, AT_FDCWD, x, AT_FDCWD, y)) }
int renameat (int d, const char *x, int e, const char *y) { P2 ("rename", d, x, e, y, syscall (SYS_renameat, d, x, e, y)) }
int renameat2 (int d, const char *x, int e, const char *y, unsigned f) { P2 ("rename", d, x, e, y, syscall (SYS_renameat2, d, x, e, y, f)) }
int link (const char *x, const char *y) { P2 ("link", AT_FDCWD, x, AT_FDCWD, y, syscall (SYS_linkat, AT_FDCWD, x, AT_FDCWD, y, 0)) }
int linkat (int d, const char *x, int e, const char *y, int f) { P2 ("link", d, x, e, y, syscall (SYS_linkat, d, x, e, y, f)) }
int symlink (const char *x, const char *y) { P1 ("symlink", AT_FDCWD, y, syscall (SYS_symlinkat, x, AT_FDCWD, y)) }

time_t time (time_t *t)
{
    time_t v;
    init ();
    if (now () >= 0) v = now ();
    else { struct timespec ts; syscall (SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int gettimeofday (struct timeval *tv, void *tz)
{
    struct timespec ts;
    init ();
    (void) tz;
    syscall (SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = now () >= 0 ? now () : ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
int clock_gettime (clockid_t c, struct timespec *ts)
{
    int r = syscall (SYS_clock_gettime, c, ts);
    init ();
    if (! r && now () >= 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) ts->tv_sec = now ();
    return r;
}

struct dirent; struct dirent64;
#define SCAN(NAME, D) \
    int NAME (const char *p, struct D ***l, int (*f) (const struct D *), int (*c) (const struct D **, const struct D **)) \
    { REAL (NAME); look ("scandir", AT_FDCWD, p); return real (p, l, f, c); }
SCAN (scandir, dirent) SCAN (scandir64, dirent64)
void *opendir (const char *p) { REAL (opendir); look ("opendir", AT_FDCWD, p); return real (p); }
int stat (const char *p, struct stat *b) { REAL (stat); look ("stat", AT_FDCWD, p); return real (p, b); }
int lstat (const char *p, struct stat *b) { REAL (lstat); look ("stat", AT_FDCWD, p); return real (p, b); }
int stat64 (const char *p, struct stat64 *b) { REAL (stat64); look ("stat", AT_FDCWD, p); return real (p, b); }
int lstat64 (const char *p, struct stat64 *b) { REAL (lstat64); look ("stat", AT_FDCWD, p); return real (p, b); }
