/*
 * Contracts of the C library functions on byte blocks whose length the
 * verifier does not know (keys, payloads). "Every byte" is discharged for
 * one arbitrary position zv_k of a key and one arbitrary position zv_p of a
 * payload, hence for all of them; the other bytes of such a copy are left
 * unspecified by keeping the previous contents of the destination, and no
 * specification looks at them.
 */
#include "zv.h"
#include "track.h"

zv_track_t zv_track[ZV_TRACKS];
size_t zv_k, zv_p, zv_o;

void nondet_track(int i, const void *p, uint64_t len, int cls, uint32_t crc) {
    zv_track[i].ptr = p;
    zv_track[i].len = len;
    zv_track[i].cls = cls;
    zv_track[i].crc = crc;
}

#ifndef ZV_NATIVE
/* class of contents of a block: same class, same bytes */
static int nondet_class(const void *p, uint64_t n, uint32_t *crc) {
    for(int i = 0; i < ZV_TRACKS; i++) {
        if(zv_track[i].cls && zv_track[i].ptr == p && zv_track[i].len == n) {
            *crc = zv_track[i].crc;
            return zv_track[i].cls;
        }
    }
    return 0;
}

int nondet_memcmp(const void *a, const void *b, size_t n) {
    int r = (int) ND_AUX();
    uint32_t crc;
    int ca = nondet_class(a, n, &crc), cb = nondet_class(b, n, &crc);
    ZV_ASSERT(ZV_R_OK(a, n) && ZV_R_OK(b, n), "memcmp reads inside its buffers");
    if(ca && cb) {
        ZV_ASSUME((ca == cb) == (r == 0));
        return r;
    }
    if(r == 0) {
        ZV_ASSUME(zv_k >= n || ((const uint8_t *) a)[zv_k] == ((const uint8_t *) b)[zv_k]);
        ZV_ASSUME(zv_p >= n || ((const uint8_t *) a)[zv_p] == ((const uint8_t *) b)[zv_p]);
    }
    return r;
}
int memcmp(const void *a, const void *b, size_t n) { return nondet_memcmp(a, b, n); }

static void nondet_track_copy(const void *dst, const void *src, size_t n) {
    uint32_t crc = 0;
    int cls = nondet_class(src, n, &crc);
    for(int i = 0; i < ZV_TRACKS; i++)
        if(zv_track[i].cls && zv_track[i].ptr == dst)
            zv_track[i].cls = 0;
    if(cls) {
        for(int i = 0; i < ZV_TRACKS; i++) {
            if(!zv_track[i].cls) {
                nondet_track(i, dst, n, cls, crc);
                break;
            }
        }
    }
}

#define ZV_SHORT 17 /* the longest number as text */
void *zv_memcpy(void *dst, const void *src, size_t n) {
    uint8_t *d = dst;
    const uint8_t *s = src;
    ZV_ASSERT(ZV_R_OK(src, n), "memcpy reads inside its source");
    ZV_ASSERT(ZV_W_OK(dst, n), "memcpy writes inside its destination");
    if(__CPROVER_DYNAMIC_OBJECT(dst)) {
        /* a block built on the heap: one arbitrary byte of the key, of the
           payload and of the whole object, and its first byte */
        size_t off = __CPROVER_POINTER_OFFSET(dst);
        if(zv_o >= off && zv_o - off < n)
            d[zv_o - off] = s[zv_o - off];
        if(zv_k < n)
            d[zv_k] = s[zv_k];
        if(zv_p < n)
            d[zv_p] = s[zv_p];
        if(off == 0 && n > 0)
            d[0] = s[0];
    } else if(n <= ZV_SHORT) {
        /* short blocks are copied whole */
        for(size_t i = 0; i < ZV_SHORT; i++)
            if(i < n)
                d[i] = s[i];
    } else {
        if(zv_k < n)
            d[zv_k] = s[zv_k];
        if(zv_p < n)
            d[zv_p] = s[zv_p];
    }
    nondet_track_copy(dst, src, n);
    return dst;
}

/* Assumed contract of zdb_crc32 for its callers (its own proof: unit crc32):
   reads exactly its block, changes nothing, and is a function of the bytes */
uint32_t nondet_crc32(const uint8_t *bytes, ssize_t length) {
    uint32_t crc = 0;
    ZV_ASSERT(length >= 0 && ZV_R_OK(bytes, length), "crc32 reads inside its buffer");
    if(!nondet_class(bytes, length, &crc))
        crc = (uint32_t) ND_AUX();
    G.crc_calls++;
    G.crc_val = crc;
    G.crc_len = length;
    if((ssize_t) zv_p < length)
        G.crc_byte = bytes[zv_p];
    return crc;
}
uint32_t zdb_crc32(const uint8_t *bytes, ssize_t length) { return nondet_crc32(bytes, length); }
#endif
