#ifndef ZV_H
#define ZV_H
/*
 * Common declarations of the verification environment: nondeterministic
 * inputs, contract macros, the ghost state of the operating-system model.
 *
 * The same harness is compiled twice: by goto-cc (proof) and by gcc
 * (-DZV_NATIVE, replay of a verifier counterexample on the real code).
 */
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <sys/types.h>

/* the renames of zvmac.h are for the real sources only */
#undef free
#undef memcpy

#ifndef ZV_NATIVE
#define ZV_REQ(...)     __CPROVER_requires(__VA_ARGS__)
#define ZV_ENS(...)     __CPROVER_ensures(__VA_ARGS__)
#define ZV_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define ZV_FREES(...)   __CPROVER_frees(__VA_ARGS__)
#define ZV_OBJ(p)       __CPROVER_object_whole(p)
#define ZV_ASSUME(x)    __CPROVER_assume(x)
#define ZV_ASSERT(x, m) __CPROVER_assert((x), m)
#define ZV_COVER(x, m)  __CPROVER_assert(!(x), "cover: " m)
#define ZV_R_OK(p, n)   __CPROVER_r_ok((p), (n))
#define ZV_W_OK(p, n)   __CPROVER_w_ok((p), (n))
#else
#define ZV_REQ(...)
#define ZV_ENS(...)
#define ZV_ASSIGNS(...)
#define ZV_FREES(...)
void zv_native_assume(int ok, const char *what);
void zv_native_assert(int ok, const char *what);
#define ZV_ASSUME(x)    zv_native_assume(!!(x), #x)
#define ZV_ASSERT(x, m) zv_native_assert(!!(x), m)
#define ZV_COVER(x, m)  ((void) 0)
#define ZV_R_OK(p, n)   (1)
#define ZV_W_OK(p, n)   (1)
#endif

/*
 * A unit lists the clauses of the contract as CLAUSES(P), each P("message",
 * predicate). They become the ensures clauses of the declaration used by the
 * contract instrumentation and the obligations checked after the call.
 */
#define ZV_ENS_1(m, x)  ZV_ENS(x)
#define ZV_POST_1(m, x) ZV_ASSERT(x, m);

extern void *zv_heap[2];
extern bool zv_freed[2];

/* recorded nondeterministic inputs (see nondet_in in env/nd.c) */
uint64_t nondet_in(void);
#define ND_BOOL() ((bool) (nondet_in() & 1))
#ifndef ZV_NATIVE
uint64_t nondet_u64(void);
#define ND_AUX() nondet_u64()  /* choices that replays do not need */
#else
#define ND_AUX() ((uint64_t) 0)
#endif
#define ND_BYTE() ((uint8_t) nondet_in())
#define ND_U8()   ((uint8_t) nondet_in())
#define ND_U32()  ((uint32_t) nondet_in())
#define ND_U64()  ((uint64_t) nondet_in())
#define ND_INT()  ((int) nondet_in())
#define ND_SIZE() ((size_t) nondet_in())
void *nondet_alloc(size_t n);             /* object with unconstrained contents */
void nondet_copy(void *dst, const void *src, size_t n);
void nondet_fill(void *p, size_t n, size_t max); /* recorded arbitrary contents */

/* ------------------------------------------------------------ ghost disk */
#define ZV_SLOTS 6
#define ZV_FDS   (2 * ZV_SLOTS)
#define ZV_FDBASE 10
#define ZV_REGS  2

/* The state is kept in plain arrays indexed by file slot or by descriptor
   (fd 10 + slot: first descriptor on that file; 20 + slot: second one). */
/* bytes known to be on the ghost disk before the call */
typedef struct {
    int slot;
    uint64_t off;
    uint64_t len;
    const uint8_t *bytes;
} zv_reg_t;

typedef struct zv_ghost {
    /* files */
    bool exists[ZV_SLOTS];
    char kind[ZV_SLOTS];        /* 'i' index, 'd' data, 'n' namespace descriptor */
    char dir[ZV_SLOTS];         /* first letter of the directory */
    uint32_t id[ZV_SLOTS];
    uint64_t size[ZV_SLOTS];
    uint64_t minsize[ZV_SLOTS]; /* smallest size the file went through */
    unsigned writes[ZV_SLOTS];  /* write calls on this file */
    uint64_t lo[ZV_SLOTS];      /* lowest offset written, valid when writes > 0 */
    unsigned lastsync[ZV_SLOTS]; /* event number of the last fsync */
    unsigned lastwrite[ZV_SLOTS]; /* event number of the last write */
    unsigned lastappend[ZV_SLOTS]; /* event number of the last write that grew the file */

    /* descriptors */
    bool fopen[ZV_FDS];
    bool append[ZV_FDS];
    bool writable[ZV_FDS];
    uint64_t pos[ZV_FDS];

    zv_reg_t reg[ZV_REGS];
    unsigned nreg;

    /* the watched byte: one arbitrary byte of one arbitrary file */
    int w_slot;
    uint64_t w_off;
    uint8_t w_val;
    unsigned w_writes;

    unsigned events;
    unsigned opens, closes;
    bool faults;          /* system calls may fail */
    bool failed;          /* some system call failed or was short */
    bool wfailed;         /* some write failed or was short */
    unsigned unlinks;

    /* bytes sent to the client */
    unsigned sends;
    uint64_t out_len;
    uint8_t out[32];      /* first bytes of the stream */
    uint64_t ow_off;      /* watched byte of the output stream */
    uint8_t ow_val;
    bool ow_set;

    /* clock */
    long now;

    /* last checksum computed over a payload */
    uint64_t crc_len;
    uint32_t crc_val;
    uint8_t crc_byte;     /* byte zv_p of that payload */
    unsigned crc_calls;
} zv_ghost_t;

extern zv_ghost_t G;

int nondet_open_slot(int slot, bool append, bool writable); /* harness: get an fd */

#endif
