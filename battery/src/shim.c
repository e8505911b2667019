/* Loaded into the command line under test: takes down what it does to files and makes the n-th such call fail, or ends the program there. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static long cnt, at = -1; static int mode, logfd = -1, ready; static const char *root; static char *names[1024];
static int (*r_open)(const char *, int, ...); static ssize_t (*r_read)(int, void *, size_t); static ssize_t (*r_write)(int, const void *, size_t);
static off64_t (*r_seek)(int, off64_t, int); static int (*r_close)(int); static int (*r_unlink)(const char *); static int (*r_unlinkat)(int, const char *, int);
static int (*r_rmdir)(const char *); static int (*r_mkdir)(const char *, mode_t); static int (*r_trunc)(int, off64_t); static int (*r_rename)(const char *, const char *); static DIR *(*r_opendir)(const char *);
static int (*r_fsync)(int);
static void init(void) {
    if (ready) return; ready = 1;
    r_open = dlsym(RTLD_NEXT, "open64"); r_read = dlsym(RTLD_NEXT, "read"); r_write = dlsym(RTLD_NEXT, "write"); r_seek = dlsym(RTLD_NEXT, "lseek64"); r_close = dlsym(RTLD_NEXT, "close");
    r_unlink = dlsym(RTLD_NEXT, "unlink"); r_unlinkat = dlsym(RTLD_NEXT, "unlinkat"); r_rmdir = dlsym(RTLD_NEXT, "rmdir"); r_mkdir = dlsym(RTLD_NEXT, "mkdir"); r_trunc = dlsym(RTLD_NEXT, "ftruncate64");
    r_rename = dlsym(RTLD_NEXT, "rename"); r_opendir = dlsym(RTLD_NEXT, "opendir"); r_fsync = dlsym(RTLD_NEXT, "fsync");
    root = getenv("SHIM_ROOT"); const char *f = getenv("SHIM_AT"), *l = getenv("SHIM_LOG");
    if (l) logfd = r_open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    if (f) { mode = f[0]; at = atol(f + 1); }
}
static int ours(const char *p) { return root && (p[0] != '/' || !strncmp(p, root, strlen(root))); }
static int hit(const char *what, const char *name, long n) {
    char b[600]; int k = snprintf(b, sizeof b, "%s\t%s\t%ld\n", what, name, n); if (logfd >= 0 && k > 0) r_write(logfd, b, k < (int)sizeof b ? k : (int)sizeof b);
    if (cnt++ == at) { if (mode == 'k') _exit(99); return 1; }
    return 0;
}
#define FD(fd) ((fd) >= 0 && (fd) < 1024 && names[fd])
int open64(const char *p, int fl, ...) { init(); va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a);
    if (!ours(p)) return r_open(p, fl, m);
    if (hit("open", p, fl)) { errno = EIO; return -1; }
    int fd = r_open(p, fl, m); if (fd >= 0 && fd < 1024) names[fd] = strdup(p); return fd; }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return open64(p, fl, m); }
ssize_t read(int fd, void *b, size_t n) { init(); if (FD(fd) && hit("read", names[fd], n)) { errno = EIO; return -1; } return r_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { init(); if (FD(fd) && hit("write", names[fd], n)) { errno = EIO; return -1; } return r_write(fd, b, n); }
off64_t lseek64(int fd, off64_t o, int w) { init(); if (FD(fd) && hit("seek", names[fd], o)) { errno = EIO; return -1; } return r_seek(fd, o, w); }
int close(int fd) { init(); if (FD(fd)) { free(names[fd]); names[fd] = 0; } return r_close(fd); }
int fsync(int fd) { init(); if (FD(fd) && hit("fsync", names[fd], 0)) { errno = EIO; return -1; } return r_fsync(fd); }
int ftruncate64(int fd, off64_t n) { init(); if (FD(fd) && hit("truncate", names[fd], n)) { errno = EIO; return -1; } return r_trunc(fd, n); }
int unlink(const char *p) { init(); if (ours(p) && hit("unlink", p, 0)) { errno = EIO; return -1; } return r_unlink(p); }
int unlinkat(int d, const char *p, int f) { init(); if (ours(p) && hit("unlinkat", p, f)) { errno = EIO; return -1; } return r_unlinkat(d, p, f); }
int rmdir(const char *p) { init(); if (ours(p) && hit("rmdir", p, 0)) { errno = EIO; return -1; } return r_rmdir(p); }
int mkdir(const char *p, mode_t m) { init(); if (ours(p) && hit("mkdir", p, 0)) { errno = EIO; return -1; } return r_mkdir(p, m); }
int rename(const char *p, const char *q) { init(); if ((ours(p) || ours(q)) && hit("rename", p, 0)) { errno = EIO; return -1; } return r_rename(p, q); }
DIR *opendir(const char *p) { init(); if (ours(p) && hit("list", p, 0)) { errno = EIO; return 0; } return r_opendir(p); }
