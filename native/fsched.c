/* Puts the file operations below one directory under the control of another process.
 *
 * Loaded with LD_PRELOAD.  A thread that called vp_attach(out, in) announces each operation on a path
 * below the directory on `out` ("kind size flags path other\n", fields separated by tabs) and waits for
 * a decision on `in`: "g" go, "c" end the process before the operation, "t N" write N bytes and end,
 * "s N" write only N bytes, "e N" fail with error N.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static __thread int ctl_out = -1, ctl_in = -1;
static char prefix[4096];
static size_t prefix_len;
#define MAXFD 4096
static char *names[MAXFD];

void vp_prefix(const char *p)
{
    strncpy(prefix, p, sizeof prefix - 1);
    prefix_len = strlen(prefix);
}

void vp_attach(int out, int in)
{
    ctl_out = out;
    ctl_in = in;
}

static int inside(const char *path)
{
    return ctl_out >= 0 && prefix_len && path && !strncmp(path, prefix, prefix_len) && (path[prefix_len] == 0 || path[prefix_len] == '/');
}

static const char *of_fd(int fd)
{
    return ctl_out >= 0 && fd >= 0 && fd < MAXFD ? names[fd] : NULL;
}

static void note_fd(int fd, const char *path)
{
    if (fd >= 0 && fd < MAXFD) {
        free(names[fd]);
        names[fd] = path ? strdup(path) : NULL;
    }
}

/* decision: 'g', 't', 's' or 'e', number in *n */
static char ask(const char *kind, long size, long flags, const char *path, const char *other, long *n)
{
    char line[9000], reply[64];
    int len = snprintf(line, sizeof line, "%s\t%ld\t%ld\t%s\t%s\n", kind, size, flags, path, other ? other : "");
    int saved = errno, at = 0;
    if (syscall(SYS_write, ctl_out, line, len) != len)
        syscall(SYS_exit_group, 87);
    for (;;) {
        long got = syscall(SYS_read, ctl_in, reply + at, 1);
        if (got != 1)
            syscall(SYS_exit_group, 87);
        if (reply[at] == '\n')
            break;
        if (at < (int)sizeof reply - 2)
            at++;
    }
    reply[at] = 0;
    errno = saved;
    *n = at > 1 ? atol(reply + 1) : 0;
    if (reply[0] == 'c')
        syscall(SYS_exit_group, 86);
    return reply[0];
}

#define REAL(name) ({ static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name); real; })

static int opened(int fd, const char *path)
{
    if (fd >= 0)
        note_fd(fd, path);
    return fd;
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
    mode_t mode = 0; long n; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!inside(path)) return REAL(name)(path, flags, mode); \
    if (ask("open", 0, flags, path, NULL, &n) == 'e') { errno = n; return -1; } \
    return opened(REAL(name)(path, flags, mode), path); \
}
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
    mode_t mode = 0; long n; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!inside(path)) return REAL(name)(dir, path, flags, mode); \
    if (ask("open", 0, flags, path, NULL, &n) == 'e') { errno = n; return -1; } \
    return opened(REAL(name)(dir, path, flags, mode), path); \
}
OPENAT(openat)
OPENAT(openat64)

int close(int fd)
{
    long n;
    const char *path = of_fd(fd);
    if (!path) return REAL(close)(fd);
    char copy[4096];
    snprintf(copy, sizeof copy, "%s", path);
    char d = ask("close", 0, 0, copy, NULL, &n);
    note_fd(fd, NULL);
    int rc = REAL(close)(fd);
    if (d == 'e') { errno = n; return -1; }
    return rc;
}

ssize_t write(int fd, const void *buf, size_t size)
{
    long n;
    const char *path = of_fd(fd);
    if (!path) return REAL(write)(fd, buf, size);
    switch (ask("write", size, 0, path, NULL, &n)) {
    case 'e': errno = n; return -1;
    case 's': return REAL(write)(fd, buf, (size_t)n < size ? (size_t)n : size);
    case 't': REAL(write)(fd, buf, (size_t)n < size ? (size_t)n : size); syscall(SYS_exit_group, 86);
    }
    return REAL(write)(fd, buf, size);
}

ssize_t read(int fd, void *buf, size_t size)
{
    long n;
    const char *path = of_fd(fd);
    if (!path) return REAL(read)(fd, buf, size);
    switch (ask("read", size, 0, path, NULL, &n)) {
    case 'e': errno = n; return -1;
    case 's': return REAL(read)(fd, buf, (size_t)n < size ? (size_t)n : size);
    }
    return REAL(read)(fd, buf, size);
}

#define PATH1(name, kind, decl, args) \
int name decl \
{ \
    long n; \
    if (!inside(path)) return REAL(name) args; \
    if (ask(kind, 0, 0, path, NULL, &n) == 'e') { errno = n; return -1; } \
    return REAL(name) args; \
}
PATH1(mkdir, "mkdir", (const char *path, mode_t mode), (path, mode))
PATH1(unlink, "unlink", (const char *path), (path))
PATH1(rmdir, "unlink", (const char *path), (path))
PATH1(remove, "unlink", (const char *path), (path))
PATH1(access, "stat", (const char *path, int mode), (path, mode))
PATH1(stat64, "stat", (const char *path, struct stat64 *st), (path, st))
PATH1(lstat64, "stat", (const char *path, struct stat64 *st), (path, st))
PATH1(truncate64, "truncate", (const char *path, off64_t size), (path, size))

int fstatat64(int dir, const char *path, struct stat64 *st, int flags)
{
    long n;
    if (!inside(path)) return REAL(fstatat64)(dir, path, st, flags);
    if (ask("stat", 0, 0, path, NULL, &n) == 'e') { errno = n; return -1; }
    return REAL(fstatat64)(dir, path, st, flags);
}

int unlinkat(int dir, const char *path, int flags)
{
    long n;
    if (!inside(path)) return REAL(unlinkat)(dir, path, flags);
    if (ask("unlink", 0, 0, path, NULL, &n) == 'e') { errno = n; return -1; }
    return REAL(unlinkat)(dir, path, flags);
}

#define FD1(name, kind, decl, args) \
int name decl \
{ \
    long n; \
    const char *path = of_fd(fd); \
    if (!path) return REAL(name) args; \
    if (ask(kind, 0, 0, path, NULL, &n) == 'e') { errno = n; return -1; } \
    return REAL(name) args; \
}
FD1(ftruncate64, "truncate", (int fd, off64_t size), (fd, size))
FD1(fsync, "sync", (int fd), (fd))
FD1(fdatasync, "sync", (int fd), (fd))

#define PATH2(name, kind) \
int name(const char *path, const char *other) \
{ \
    long n; \
    if (!inside(path) && !inside(other)) return REAL(name)(path, other); \
    if (ask(kind, 0, 0, path, other, &n) == 'e') { errno = n; return -1; } \
    return REAL(name)(path, other); \
}
PATH2(rename, "rename")
PATH2(link, "link")
PATH2(symlink, "link")

int renameat(int d1, const char *path, int d2, const char *other)
{
    long n;
    if (!inside(path) && !inside(other)) return REAL(renameat)(d1, path, d2, other);
    if (ask("rename", 0, 0, path, other, &n) == 'e') { errno = n; return -1; }
    return REAL(renameat)(d1, path, d2, other);
}

int linkat(int d1, const char *path, int d2, const char *other, int flags)
{
    long n;
    if (!inside(path) && !inside(other)) return REAL(linkat)(d1, path, d2, other, flags);
    if (ask("link", 0, 0, path, other, &n) == 'e') { errno = n; return -1; }
    return REAL(linkat)(d1, path, d2, other, flags);
}

int renameat2(int d1, const char *path, int d2, const char *other, unsigned flags)
{
    long n;
    if (!inside(path) && !inside(other)) return REAL(renameat2)(d1, path, d2, other, flags);
    if (ask("rename", 0, 0, path, other, &n) == 'e') { errno = n; return -1; }
    return REAL(renameat2)(d1, path, d2, other, flags);
}

ssize_t copy_file_range(int from, off64_t *o1, int to, off64_t *o2, size_t size, unsigned flags)
{
    long n;
    const char *path = of_fd(to);
    if (path && ask("write", size, 0, path, NULL, &n) == 'e') { errno = n; return -1; }
    return REAL(copy_file_range)(from, o1, to, o2, size, flags);
}

#include <sys/sendfile.h>
ssize_t sendfile64(int to, int from, off64_t *at, size_t size)
{
    long n;
    const char *path = of_fd(to);
    if (path && ask("write", size, 0, path, NULL, &n) == 'e') { errno = n; return -1; }
    return REAL(sendfile64)(to, from, at, size);
}
