/* LD_PRELOAD library: paths below the system's configuration locations are looked up below $BXROOT instead, so that checks
 * can populate them without touching the real file system. Every lookup and its outcome is logged to $BXLOG. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *PRE[] = {"/etc/xdg/boxes", "/usr/local/share/boxes", "/usr/share/boxes", NULL};

static const char *map(const char *p, char *buf, size_t n)
{
    const char *root = getenv("BXROOT");
    if (p == NULL || root == NULL) {
        return p;
    }
    for (int i = 0; PRE[i] != NULL; ++i) {
        size_t l = strlen(PRE[i]);
        if (strncmp(p, PRE[i], l) == 0 && (p[l] == '\0' || p[l] == '/')) {
            snprintf(buf, n, "%s%s", root, p);
            return buf;
        }
    }
    return p;
}

/* paths listed in $BXDENY (one per line) cannot be opened, even by root */
static int denied(const char *p)
{
    const char *d = getenv("BXDENY");
    size_t l = p ? strlen(p) : 0;
    while (d != NULL && l > 0) {
        if (strncmp(d, p, l) == 0 && (d[l] == '\n' || d[l] == '\0')) {
            errno = EACCES;
            return 1;
        }
        d = strchr(d, '\n');
        d = d ? d + 1 : NULL;
    }
    return 0;
}

static void note(const char *what, const char *p, int ok)
{
    const char *l = getenv("BXLOG");
    if (l == NULL) {
        return;
    }
    int e = errno;
    static int (*real_open)(const char *, int, ...);
    if (real_open == NULL) {
        real_open = (int (*)(const char *, int, ...)) dlsym(RTLD_NEXT, "open");
    }
    int fd = real_open(l, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        dprintf(fd, "%s %d %s\n", what, ok, p ? p : "(null)");
        close(fd);
    }
    errno = e;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); char buf[8192]; \
    if (real == NULL) { real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name); }

FILE *fopen(const char *p, const char *m)
{
    REAL(FILE *, fopen, const char *, const char *)
    FILE *f = denied(p) ? NULL : real(map(p, buf, sizeof buf), m);
    note("fopen", p, f != NULL);
    return f;
}

FILE *fopen64(const char *p, const char *m)
{
    REAL(FILE *, fopen64, const char *, const char *)
    FILE *f = denied(p) ? NULL : real(map(p, buf, sizeof buf), m);
    note("fopen", p, f != NULL);
    return f;
}

DIR *opendir(const char *p)
{
    REAL(DIR *, opendir, const char *)
    DIR *d = denied(p) ? NULL : real(map(p, buf, sizeof buf));
    note("opendir", p, d != NULL);
    return d;
}

int stat(const char *p, struct stat *s)
{
    REAL(int, stat, const char *, struct stat *)
    return real(map(p, buf, sizeof buf), s);
}

int lstat(const char *p, struct stat *s)
{
    REAL(int, lstat, const char *, struct stat *)
    return real(map(p, buf, sizeof buf), s);
}

int access(const char *p, int m)
{
    REAL(int, access, const char *, int)
    return denied(p) ? -1 : real(map(p, buf, sizeof buf), m);
}

int faccessat(int d, const char *p, int m, int f)
{
    REAL(int, faccessat, int, const char *, int, int)
    return denied(p) ? -1 : real(d, map(p, buf, sizeof buf), m, f);
}

int open(const char *p, int fl, ...)
{
    REAL(int, open, const char *, int, ...)
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    int fd = denied(p) ? -1 : real(map(p, buf, sizeof buf), fl, mode);
    note("open", p, fd >= 0);
    return fd;
}

int openat(int d, const char *p, int fl, ...)
{
    REAL(int, openat, int, const char *, int, ...)
    va_list ap;
    va_start(ap, fl);
    int mode = va_arg(ap, int);
    va_end(ap);
    return denied(p) ? -1 : real(d, map(p, buf, sizeof buf), fl, mode);
}
