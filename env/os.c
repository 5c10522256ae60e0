/*
 * Trusted model of the operating system and of the C library calls the
 * storage code makes: a ghost disk of a few files (the others do not exist),
 * descriptors, appending and positioned writes, faults.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include "zv.h"
#ifndef ZV_NATIVE
#undef errno
static int nondet_errno;
#define errno nondet_errno
#endif

#define ZV_FIXED 42 /* fixed-size part of the records read from disk */

zv_ghost_t G;

/* descriptor index: 0..SLOTS-1 first descriptor of the slot, then second */
static int nondet_fdof(int fd) {
    int i = fd - ZV_FDBASE;
    if(fd < 0)
        return -1; /* EBADF */
    bool ok = i >= 0 && i < ZV_FDS && G.fopen[i];
    ZV_ASSERT(ok, "os: descriptor in use is open");
    ZV_ASSUME(ok);
    return i;
}
#define SLOTOF(i) ((i) < ZV_SLOTS ? (i) : (i) - ZV_SLOTS)

static bool nondet_fault(void) {
    return G.faults && ND_BOOL();
}

int nondet_open_slot(int slot, bool append, bool writable) {
    int i = slot;
    if(G.fopen[i])
        i += ZV_SLOTS;
    ZV_ASSERT(!G.fopen[i], "os: no more than two descriptors on one file (descriptor leak)");
    ZV_ASSUME(!G.fopen[i]);
    G.fopen[i] = true;
    G.append[i] = append;
    G.writable[i] = writable;
    G.pos[i] = 0;
    return ZV_FDBASE + i;
}

/* "<D>/<k><8 letters>": the rendering of a file path by the model of sprintf */
static bool nondet_path_parse(const char *path, char *dir, char *kind, uint32_t *id) {
#ifdef ZV_NATIVE
    /* "<D>/<k...><number>" as the real sprintf renders it */
    const char *d = path + strlen(path);
    while(d > path && d[-1] >= '0' && d[-1] <= '9')
        d--;
    *dir = path[0];
    *kind = path[1] == '/' ? path[2] : 0;
    *id = (uint32_t) strtoul(d, NULL, 10);
    return path[1] == '/' && *d;
#else
    if(path[0] == 0 || path[1] != '/' || path[2] == 0)
        return false;
    *dir = path[0];
    *kind = path[2];
    uint32_t v = 0;
    for(int i = 0; i < 8; i++) {
        char c = path[3 + i];
        if(c < 'a' || c > 'p')
            return false;
        v = (v << 4) | (uint32_t) (c - 'a');
    }
    *id = v;
    return path[11] == 0;
#endif
}

int nondet_os_open(const char *path, int flags) {
    char dir, kind;
    uint32_t id;
    G.events++;
    if(!nondet_path_parse(path, &dir, &kind, &id)) {
        
        return -1;
    }
    if(nondet_fault()) {
        G.failed = true;
        
        return -1;
    }
    for(int i = 0; i < ZV_SLOTS; i++) {
        if(G.exists[i] && G.kind[i] == kind && G.dir[i] == dir && G.id[i] == id) {
            G.opens++;
            return nondet_open_slot(i, flags & O_APPEND, (flags & O_ACCMODE) != O_RDONLY);
        }
    }
    if(!(flags & O_CREAT)) {
        
        return -1;
    }
    for(int i = 0; i < ZV_SLOTS; i++) {
        if(!G.exists[i]) {
            G.exists[i] = true;
            G.kind[i] = kind;
            G.dir[i] = dir;
            G.id[i] = id;
            G.size[i] = 0;
            G.opens++;
            return nondet_open_slot(i, flags & O_APPEND, true);
        }
    }
    ZV_ASSERT(0, "os: more files than the model holds");
    ZV_ASSUME(0);
    return -1;
}

int nondet_os_close(int fd) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    G.fopen[d] = false;
    G.closes++;
    return 0;
}

off_t nondet_os_lseek(int fd, off_t off, int wh) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    int64_t base = (wh == SEEK_SET) ? 0 : (wh == SEEK_CUR) ? (int64_t) G.pos[d] : (int64_t) G.size[SLOTOF(d)];
    if(base + off < 0) {
        
        return -1;
    }
    G.pos[d] = base + off;
    return G.pos[d];
}

ssize_t nondet_os_write(int fd, const void *buf, size_t n) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    int f = SLOTOF(d);
    size_t r = n;

    G.events++;
    ZV_ASSERT(G.writable[d], "os: write on a read-only descriptor");
    ZV_ASSERT(ZV_R_OK(buf, n), "os: write reads inside its buffer");

    if(nondet_fault()) {
        G.failed = G.wfailed = true;
        if(ND_BOOL()) {
            
            return -1;
        }
        r = ND_SIZE();
        ZV_ASSUME(r < n);
        /* assumption: rewriting one record in place is atomic */
        if(!G.append[d] && G.pos[d] < G.size[f])
            return -1;
    }
    if(G.append[d])
        G.pos[d] = G.size[f];
    if(!G.writes[f] || G.pos[d] < G.lo[f])
        G.lo[f] = G.pos[d];
    G.writes[f]++;
    G.lastwrite[f] = G.events;
    if(SLOTOF(d) == G.w_slot && G.w_off >= G.pos[d] && G.w_off - G.pos[d] < r) {
        G.w_val = ((const uint8_t *) buf)[G.w_off - G.pos[d]];
        G.w_writes++;
    }
    G.pos[d] += r;
    if(G.pos[d] > G.size[f]) {
        G.size[f] = G.pos[d];
        G.lastappend[f] = G.events;
    }
    return r;
}

ssize_t nondet_os_read(int fd, void *buf, size_t n) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    int f = SLOTOF(d);
    size_t r = n;

    ZV_ASSERT(ZV_W_OK(buf, n), "os: read writes inside its buffer");
    if(nondet_fault()) {
        G.failed = true;
        
        return -1;
    }
    if(G.pos[d] >= G.size[f])
        return 0;
    if(G.size[f] - G.pos[d] < r)
        r = G.size[f] - G.pos[d];
    if(r == 0)
        return 0;

    /* contents: what is known of the file, arbitrary otherwise (the tail of
       a long read keeps the previous, unconstrained contents of the buffer) */
    uint8_t *p = buf;
    bool plain = false;
#if !defined(ZV_NATIVE) && !defined(ZV_HEAPREG)
    /* payloads are read to the heap, records are not */
    plain = __CPROVER_DYNAMIC_OBJECT(p);
#endif
    if(!plain) {
#ifndef ZV_NATIVE
        if(n <= ZV_FIXED)
            __CPROVER_havoc_slice(p, n);
        else
            __CPROVER_havoc_slice(p, ZV_FIXED);
#else
        memset(buf, 0, r);
#endif
    }
    for(unsigned i = 0; i < ZV_REGS; i++) {
        if(G.reg[i].len && G.reg[i].slot == f && G.reg[i].off == G.pos[d]) {
            uint64_t m = n < G.reg[i].len ? n : G.reg[i].len;
            ZV_ASSERT(!plain, "os: a record with known contents is read to the stack");
            ZV_ASSERT(r >= m, "os: a record with known contents is complete");
            if(!plain)
                for(size_t j = 0; j < ZV_FIXED && j < m; j++)
                    p[j] = G.reg[i].bytes[j];
        }
    }
    if(f == G.w_slot && G.w_off >= G.pos[d] && G.w_off - G.pos[d] < r)
        p[G.w_off - G.pos[d]] = G.w_val;

    G.pos[d] += r;
    return r;
}

int nondet_os_fsync(int fd) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    if(nondet_fault()) {
        G.failed = true;
        return -1;
    }
    G.events++;
    G.lastsync[SLOTOF(d)] = G.events;
    return 0;
}

int nondet_os_ftruncate(int fd, off_t len) {
    int d = nondet_fdof(fd);
    if(d < 0) {
        errno = EBADF;
        return -1;
    }
    G.events++;
    if(G.w_slot == SLOTOF(d) && G.w_off >= (uint64_t) len && G.w_off < G.size[SLOTOF(d)])
        G.w_writes++;
    G.size[SLOTOF(d)] = len;
    if((uint64_t) len < G.minsize[SLOTOF(d)])
        G.minsize[SLOTOF(d)] = len;
    return 0;
}


int nondet_os_unlink(const char *path) {
    (void) path;
    G.unlinks++;
    return 0;
}

long nondet_os_now(void) { return G.now; }

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void) tz;
    tv->tv_sec = nondet_os_now();
    tv->tv_usec = 0;
    return 0;
}

/* the socket takes everything at once (partial sends: see the reply units) */
ssize_t nondet_os_send(int fd, const void *buf, size_t n, int flags) {
    (void) fd; (void) flags;
    ZV_ASSERT(ZV_R_OK(buf, n), "os: send reads inside its buffer");
    G.sends++;
#ifndef ZV_NATIVE
    if(__CPROVER_DYNAMIC_OBJECT(buf)) {
        /* a reply built on the heap: its first byte and the watched one */
        if(G.out_len == 0 && n > 0)
            G.out[0] = ((const uint8_t *) buf)[0];
    } else
#endif
    for(unsigned i = 0; i < sizeof(G.out); i++) {
        if(i >= G.out_len && i - G.out_len < n)
            G.out[i] = ((const uint8_t *) buf)[i - G.out_len];
    }
    if(G.ow_off >= G.out_len && G.ow_off - G.out_len < n) {
        G.ow_val = ((const uint8_t *) buf)[G.ow_off - G.out_len];
        G.ow_set = true;
    }
    G.out_len += n;
    return n;
}

/* entry points: the functions above are trusted and exempt from the frame
   checks (the verifier skips the names that start with nondet) */
int open(const char *path, int flags, ...) { return nondet_os_open(path, flags); }
int close(int fd) { return nondet_os_close(fd); }
off_t lseek(int fd, off_t off, int wh) { return nondet_os_lseek(fd, off, wh); }
ssize_t write(int fd, const void *buf, size_t n) { return nondet_os_write(fd, buf, n); }
ssize_t read(int fd, void *buf, size_t n) { return nondet_os_read(fd, buf, n); }
int fsync(int fd) { return nondet_os_fsync(fd); }
int ftruncate(int fd, off_t len) { return nondet_os_ftruncate(fd, len); }
int fallocate(int fd, int mode, off_t off, off_t len) { (void) mode; (void) off; (void) len; return nondet_os_fsync(fd); }
int unlink(const char *path) { return nondet_os_unlink(path); }
ssize_t send(int fd, const void *buf, size_t n, int flags) { return nondet_os_send(fd, buf, n, flags); }
time_t time(time_t *t) {
    long v = nondet_os_now();
    if(t)
        *t = v;
    return v;
}
