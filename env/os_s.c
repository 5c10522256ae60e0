/*
 * Trusted model of the system calls of the session units: directories are
 * only recorded, the namespace descriptor is one file of known contents, the
 * socket takes everything at once.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <fcntl.h>
#include <time.h>
#include <dirent.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include "zv.h"
#include "os_s.h"

zv_ghost_t G;
zv_desc_t D;

static void nondet_path_copy(char *dst, const char *src) {
    int i;
    for(i = 0; i < ZV_PATH - 1 && src[i]; i++)
        dst[i] = src[i];
    dst[i] = 0;
}

ssize_t nondet_os_send(int fd, const void *buf, size_t n, int flags) {
    (void) fd; (void) flags;
    ZV_ASSERT(ZV_R_OK(buf, n), "os: send reads inside its buffer");
    G.sends++;
    for(unsigned i = 0; i < sizeof(G.out); i++)
        if(i >= G.out_len && i - G.out_len < n)
            G.out[i] = ((const uint8_t *) buf)[i - G.out_len];
    G.out_len += n;
    return n;
}
ssize_t send(int fd, const void *buf, size_t n, int flags) { return nondet_os_send(fd, buf, n, flags); }

/* the descriptor of a namespace */
int open(const char *path, int flags, ...) {
    if(D.nofile)
        return -1;
    ZV_ASSERT(!D.isopen, "os: one descriptor open at a time");
    nondet_path_copy(D.path, path);
    D.opens++;
    D.isopen = true;
    D.pos = 0;
    if(flags & O_TRUNC)
        D.size = 0;
    return 7;
}
static bool nondet_fd(int fd) {
    ZV_ASSERT(fd == 7 && D.isopen, "os: the descriptor in use is open");
    return fd == 7 && D.isopen;
}
int close(int fd) {
    if(!nondet_fd(fd)) return -1;
    D.isopen = false;
    return 0;
}
off_t lseek(int fd, off_t off, int wh) {
    if(!nondet_fd(fd)) return -1;
    D.pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? D.pos + off : D.size + off;
    return D.pos;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if(!nondet_fd(fd)) return -1;
    ZV_ASSERT(ZV_R_OK(buf, n), "os: write reads inside its buffer");
    for(size_t i = 0; i < ZV_DESC; i++)
        if(i >= D.pos && i - D.pos < n)
            D.bytes[i] = ((const uint8_t *) buf)[i - D.pos];
    D.pos += n;
    D.writes++;
    if(D.pos > D.size) D.size = D.pos;
    return n;
}
ssize_t read(int fd, void *buf, size_t n) {
    if(!nondet_fd(fd)) return -1;
    ZV_ASSERT(ZV_W_OK(buf, n), "os: read writes inside its buffer");
    if(D.pos >= D.size) return 0;
    size_t r = D.size - D.pos < n ? D.size - D.pos : n;
    for(size_t i = 0; i < ZV_DESC; i++)
        if(i < r)
            ((uint8_t *) buf)[i] = D.bytes[D.pos + i];
    D.pos += r;
    return r;
}
int fsync(int fd) { nondet_fd(fd); return 0; }
int ftruncate(int fd, off_t len) { if(!nondet_fd(fd)) return -1; D.size = len; return 0; }
long nondet_os_now(void) { return G.now; }
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void) tz;
    tv->tv_sec = G.now;
    tv->tv_usec = 0;
    return 0;
}
time_t time(time_t *t) { if(t) *t = G.now; return G.now; }

#ifndef ZV_NATIVE
int nondet_asprintf(char **out, const char *f, va_list ap);
int asprintf(char **out, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int k = nondet_asprintf(out, f, ap);
    va_end(ap);
    return k;
}
#endif
