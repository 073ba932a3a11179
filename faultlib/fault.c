/* Preloaded into one command: makes one file operation within a directory fail, be partial or be interrupted,
 * or kills the command at it. For C33.
 *
 *   VH_FAULT_DIR    the directory
 *   VH_FAULT_OP     which operations: a letter of "robwmus" (see below), or * for all of them
 *   VH_FAULT_AT     the number of the operation (from 0)
 *   VH_FAULT_DO     "kill", "short", or the number of an error
 *   VH_FAULT_LOG    a file which receives a line for each operation (letter, path), with a ! if it is the one
 *
 * r: reading a file, o: opening a file or directory to read, b: listing a directory, w: writing a file,
 * m: making a file or directory, u: removing one, s: asking about one
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static char dir[PATH_MAX];
static char which[2];
static long at = -1, count;
static int logfd = -1, mode_kill, mode_short, err;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) __typeof__(name) *real = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("VH_FAULT_DIR");
    if (!s) return;
    snprintf(dir, sizeof dir, "%s", s);
    s = getenv("VH_FAULT_OP");
    which[0] = s ? s[0] : '*';
    s = getenv("VH_FAULT_AT");
    at = s ? atol(s) : -1;
    s = getenv("VH_FAULT_DO");
    if (s) {
        mode_kill = !strcmp(s, "kill");
        mode_short = !strcmp(s, "short");
        err = atoi(s);
    }
    s = getenv("VH_FAULT_LOG");
    /* Out of the way of the descriptors which the command gets. */
    if (s) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        logfd = fcntl(fd, F_DUPFD_CLOEXEC, 500);
        syscall(SYS_close, fd);
    }
    unsetenv("LD_PRELOAD");
    unsetenv("VH_FAULT_DIR");
    unsetenv("VH_FAULT_OP");
    unsetenv("VH_FAULT_AT");
    unsetenv("VH_FAULT_DO");
    unsetenv("VH_FAULT_LOG");
}

/* The path, if it is within the directory. */
static const char *within(int fd, const char *path, char *buf) {
    size_t n = strlen(dir);
    if (!n) return NULL;
    if (path && path[0] == '/') {
        snprintf(buf, PATH_MAX, "%s", path);
    } else {
        char link[64];
        if (fd == AT_FDCWD) strcpy(link, "/proc/self/cwd");
        else snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t k = syscall(SYS_readlinkat, AT_FDCWD, link, buf, (size_t)PATH_MAX - 1);
        if (k < 0) return NULL;
        buf[k] = 0;
        if (path && *path && (size_t)k + strlen(path) + 2 < PATH_MAX) {
            strcat(buf, "/");
            strcat(buf, path);
        }
    }
    if (strncmp(buf, dir, n) || (buf[n] && buf[n] != '/')) return NULL;
    return buf;
}

/* 0: go on, 1: fail with errno, 2: be partial */
static int hit(char op, int fd, const char *path) {
    char buf[PATH_MAX], line[PATH_MAX + 8];
    int saved = errno;
    const char *p = within(fd, path, buf);
    int is = 0;
    if (p) {
        pthread_mutex_lock(&lock);
        if (which[0] == '*' || which[0] == op) is = count++ == at;
        if (logfd >= 0) {
            int n = snprintf(line, sizeof line, "%c%s %s\n", op, is ? "!" : "", p + strlen(dir));
            (void)!syscall(SYS_write, logfd, line, (size_t)n);
        }
        pthread_mutex_unlock(&lock);
    }
    if (is && mode_kill && op != 'w') syscall(SYS_kill, getpid(), SIGKILL);
    errno = is && err ? err : saved;
    if (!is) return 0;
    return mode_short ? 2 : mode_kill ? 3 : err ? 1 : 0;
}

static char kind(int flags) {
    return (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY ? 'm' : 'o';
}

#define MODE(flags)                                  \
    mode_t mode = 0;                                 \
    if ((flags) & (O_CREAT | O_TMPFILE)) {           \
        va_list ap;                                  \
        va_start(ap, flags);                         \
        mode = va_arg(ap, mode_t);                   \
        va_end(ap);                                  \
    }

int open(const char *path, int flags, ...) {
    REAL(open);
    MODE(flags)
    if (hit(kind(flags), AT_FDCWD, path) == 1) return -1;
    return real(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    REAL(open64);
    MODE(flags)
    if (hit(kind(flags), AT_FDCWD, path) == 1) return -1;
    return real(path, flags, mode);
}
int openat(int fd, const char *path, int flags, ...) {
    REAL(openat);
    MODE(flags)
    if (hit(kind(flags), fd, path) == 1) return -1;
    return real(fd, path, flags, mode);
}
int openat64(int fd, const char *path, int flags, ...) {
    REAL(openat64);
    MODE(flags)
    if (hit(kind(flags), fd, path) == 1) return -1;
    return real(fd, path, flags, mode);
}
DIR *opendir(const char *path) {
    REAL(opendir);
    if (hit('o', AT_FDCWD, path) == 1) return NULL;
    return real(path);
}
struct dirent *readdir(DIR *d) {
    REAL(readdir);
    if (hit('b', dirfd(d), NULL) == 1) return NULL;
    return real(d);
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    if (hit('b', dirfd(d), NULL) == 1) return NULL;
    return real(d);
}
ssize_t read(int fd, void *buf, size_t n) {
    REAL(read);
    int h = n ? hit('r', fd, NULL) : 0;
    if (h == 1) return -1;
    return real(fd, buf, h == 2 && n > 1 ? 1 : n);
}
ssize_t write(int fd, const void *buf, size_t n) {
    REAL(write);
    int h = n ? hit('w', fd, NULL) : 0;
    if (h == 1) return -1;
    if (h == 3) {
        (void)!real(fd, buf, n / 2);
        syscall(SYS_kill, getpid(), SIGKILL);
    }
    return real(fd, buf, h == 2 && n > 1 ? n / 2 : n);
}
int mkdir(const char *path, mode_t mode) {
    REAL(mkdir);
    if (hit('m', AT_FDCWD, path) == 1) return -1;
    return real(path, mode);
}
int mkdirat(int fd, const char *path, mode_t mode) {
    REAL(mkdirat);
    if (hit('m', fd, path) == 1) return -1;
    return real(fd, path, mode);
}
int unlink(const char *path) {
    REAL(unlink);
    if (hit('u', AT_FDCWD, path) == 1) return -1;
    return real(path);
}
int rmdir(const char *path) {
    REAL(rmdir);
    if (hit('u', AT_FDCWD, path) == 1) return -1;
    return real(path);
}
int unlinkat(int fd, const char *path, int flags) {
    REAL(unlinkat);
    if (hit('u', fd, path) == 1) return -1;
    return real(fd, path, flags);
}
int rename(const char *from, const char *to) {
    REAL(rename);
    if (hit('u', AT_FDCWD, from) == 1) return -1;
    return real(from, to);
}
int statx(int fd, const char *restrict path, int flags, unsigned mask, struct statx *restrict out) {
    REAL(statx);
    if (hit('s', fd, path) == 1) return -1;
    return real(fd, path, flags, mask, out);
}
