/* Counts the modifying file operations of the application and makes the k-th one fail with
   ENOSPC (kind 1) or ends the process there (kind 2): the counterpart of the model's faults.
   Kinds 3, 4 and 5: the k-th reading operation, write to standard output or read of standard
   input fails. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static long ops;
static void note(const char *s) {
    const char *l = getenv("SHIM_LOG");
    if (!l) return;
    int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0666);
    if (fd >= 0) { syscall(SYS_write, fd, s, strlen(s)); syscall(SYS_close, fd); }
}
static int hit(const char *what) {
    long kind = getenv("SHIM_KIND") ? atol(getenv("SHIM_KIND")) : 0;
    long at = getenv("SHIM_AT") ? atol(getenv("SHIM_AT")) : -1;
    long k = ops++;
    char b[64];
    int h = (kind == 1 || kind == 2) && k == at;
    snprintf(b, sizeof b, "%s%s\n", h ? "!" : "", what);
    note(b);
    return h ? (int)kind : 0;
}
/* the counterpart of the model's rd_op */
static int rd(int kind, const char *what) {
    static long n;
    if (!getenv("SHIM_KIND") || atol(getenv("SHIM_KIND")) != kind) return 0;
    int h = n++ == atol(getenv("SHIM_AT"));
    if (h) { note("!"); note(what); note("\n"); }
    return h;
}
#define REAL(n) static __typeof__(&n) real; if (!real) real = (__typeof__(&n))dlsym(RTLD_NEXT, #n)
#define FAULT(w) do { int f = hit(w); if (f == 1) { errno = ENOSPC; return -1; } if (f == 2) _exit(137); } while (0)
static int do_open(const char *p, int fl, mode_t m) {
    if ((fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC))) FAULT("open");
    else if (rd(3, "open")) { errno = EACCES; return -1; }
    return syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    struct stat s;
    if (fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode)) {
        int f = hit("write");
        if (f == 1) { errno = ENOSPC; return -1; }
        if (f == 2) { real(fd, b, n / 2); _exit(137); }
    }
    if (fd == 1 && rd(4, "standard output")) { errno = ENOSPC; return -1; }
    return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    struct stat s;
    if (fd == 0 && rd(5, "standard input")) { errno = EIO; return -1; }
    if (fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode) && rd(3, "read")) { errno = EIO; return -1; }
    return real(fd, b, n);
}
DIR *opendir(const char *p) { REAL(opendir); if (rd(3, "opendir")) { errno = EACCES; return NULL; } return real(p); }
struct dirent64 *readdir64(DIR *d) { REAL(readdir64); if (rd(3, "readdir")) { errno = EIO; return NULL; } return real(d); }
char *realpath(const char *p, char *q) { REAL(realpath); if (rd(3, "realpath")) { errno = ENOMEM; return NULL; } return real(p, q); }
int unlink(const char *p) { REAL(unlink); struct stat s; if (lstat(p, &s) == 0 && !S_ISDIR(s.st_mode)) FAULT("unlink"); return real(p); }
int rmdir(const char *p) { REAL(rmdir); struct stat s; if (lstat(p, &s) == 0 && S_ISDIR(s.st_mode)) FAULT("rmdir"); return real(p); }
int rename(const char *p, const char *q) { REAL(rename); struct stat s; if (lstat(p, &s) == 0) FAULT("rename"); return real(p, q); }
int mkdir(const char *p, mode_t m) { REAL(mkdir); struct stat s; if (lstat(p, &s) != 0) FAULT("mkdir"); return real(p, m); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); FAULT("ftruncate"); return real(fd, n); }
int chmod(const char *p, mode_t m) { REAL(chmod); struct stat s; if (stat(p, &s) == 0) FAULT("chmod"); return real(p, m); }
int fchmod(int fd, mode_t m) { REAL(fchmod); struct stat s; if (fstat(fd, &s) == 0) FAULT("chmod"); return real(fd, m); }
int symlink(const char *p, const char *q) { REAL(symlink); struct stat s; if (lstat(q, &s) != 0) FAULT("symlink"); return real(p, q); }
int linkat(int d, const char *p, int e, const char *q, int f) { REAL(linkat); struct stat s; if (lstat(q, &s) != 0 && lstat(p, &s) == 0) FAULT("link"); return real(d, p, e, q, f); }
