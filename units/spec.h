/* vocabulary of the specifications */
#ifndef SPEC_H
#define SPEC_H
#include "worldfn.h"

/* the file of a kind and number, or -1 */
static int nondet_fslot(char kind, uint32_t id) {
    for(int i = 0; i < ZV_SLOTS; i++)
        if(G.exists[i] && G.kind[i] == kind && G.id[i] == id)
            return i;
    return -1;
}
static bool nondet_error_reply(void) { return G.sends == 1 && G.out_len >= 3 && G.out[0] == '-'; }
static bool nondet_null_reply(void) { return G.sends == 1 && G.out_len == 5 && G.out[0] == '$' && G.out[1] == '-' && G.out[2] == '1'; }
static bool nondet_bulk_reply(void) { return G.sends == 1 && G.out_len > 5 && G.out[0] == '$' && !nondet_null_reply(); }
static bool nondet_ok_reply(void) { return G.sends == 1 && G.out_len == 5 && G.out[0] == '+' && G.out[1] == 'O' && G.out[2] == 'K'; }

/* rendering of a bulk string of n bytes: "$" digits CRLF ... CRLF; the model
   prints 32-bit numbers with 8 letters and 64-bit ones with 16 */
#ifndef ZV_NATIVE
#define DIGITS64 16
#else
static int nondet_digits(uint64_t v) { int d = 1; while(v >= 10) { v /= 10; d++; } return d; }
#endif
static bool nondet_number_at(int at, uint64_t v, int width) {
#ifndef ZV_NATIVE
    for(int i = 0; i < width; i++)
        if(G.out[at + i] != 'a' + ((v >> (4 * (width - 1 - i))) & 15))
            return false;
    return true;
#else
    char t[32];
    sprintf(t, "%llu", (unsigned long long) v);
    return strncmp((char *) G.out + at, t, strlen(t)) == 0;
#endif
}
/* ":n" as the code prints a 32-bit number */
static bool nondet_int_reply(uint32_t v) {
#ifndef ZV_NATIVE
    int w = 8;
#else
    int w = nondet_digits(v);
#endif
    return G.sends == 1 && G.out[0] == ':' && G.out_len == 1 + w + 2 && nondet_number_at(1, v, w);
}
/* frame of a bulk reply of n bytes, seen at the watched byte of the reply
   (every byte, as its position is arbitrary); size of its header, 0 if wrong */
static int nondet_bulk_head(uint64_t n) {
    uint64_t o = G.ow_off;
#ifndef ZV_NATIVE
    uint64_t w = G.out_len - n - 5; /* width of the length as the code prints it */
    if(w != 8 && w != 16) return 0;
#else
    char t[32];
    uint64_t w = nondet_digits(n);
    sprintf(t, "%llu", (unsigned long long) n);
    if(G.out_len != 1 + w + 2 + n + 2) return 0;
#endif
    uint64_t h = 1 + w + 2;
    if(G.sends != 1 || G.out[0] != '$') return 0;
    if(o >= G.out_len) return h;
    if(!G.ow_set) return 0;
    if(o == 0) return G.ow_val == '$' ? h : 0;
#ifndef ZV_NATIVE
    if(o < 1 + w) return G.ow_val == 'a' + ((n >> (4 * (w - o))) & 15) ? h : 0;
#else
    if(o < 1 + w) return G.ow_val == (uint8_t) t[o - 1] ? h : 0;
#endif
    if(o == 1 + w || o == h + n) return G.ow_val == '\r' ? h : 0;
    if(o == 2 + w || o == h + n + 1) return G.ow_val == '\n' ? h : 0;
    return h;
}
static bool nondet_same_entry(const index_entry_t *a, const index_entry_t *b) {
    return a->offset == b->offset && a->length == b->length && a->idxoffset == b->idxoffset && a->flags == b->flags
        && a->dataid == b->dataid && a->indexid == b->indexid && a->crc == b->crc && a->timestamp == b->timestamp
        && a->parentid == b->parentid && a->parentoff == b->parentoff && a->idlength == b->idlength
        && a->namespace == b->namespace;
}

/* no file changed in any way */
static bool nondet_disk_same(void) {
    for(int i = 0; i < ZV_SLOTS; i++)
        if(G.writes[i] || G.size[i] != W.g.size[i] || G.exists[i] != W.g.exists[i])
            return false;
    return G.unlinks == W.g.unlinks;
}
static bool nondet_stats_same(void) {
    return W.index->stats.datasize == W.idx.stats.datasize && W.index->stats.entries == W.idx.stats.entries
        && W.index->stats.size == W.idx.stats.size;
}
/* descriptors opened by the call are closed again */
static bool nondet_fds_balanced(void) {
    int n = 0, m = 0;
    for(int i = 0; i < ZV_FDS; i++) {
        n += G.fopen[i];
        m += W.g.fopen[i];
    }
    return n == m && G.fopen[W.index->indexfd - ZV_FDBASE] && G.fopen[W.data->datafd - ZV_FDBASE];
}
/* the little-endian bytes of the on-disk record of an index entry */
static uint8_t nondet_item_byte(uint64_t o, uint8_t idlength, uint32_t offset, uint32_t length, uint32_t previous,
                                uint8_t flags, uint32_t dataid, uint32_t ts, uint32_t crc, uint32_t pid, uint32_t poff) {
    if(o == 0) return idlength;
    if(o < 5) return offset >> (8 * (o - 1));
    if(o < 9) return length >> (8 * (o - 5));
    if(o < 13) return previous >> (8 * (o - 9));
    if(o < 14) return flags;
    if(o < 18) return dataid >> (8 * (o - 14));
    if(o < 22) return ts >> (8 * (o - 18));
    if(o < 26) return crc >> (8 * (o - 22));
    if(o < 30) return pid >> (8 * (o - 26));
    return poff >> (8 * (o - 30));
}
static uint8_t nondet_dhdr_byte(uint64_t o, uint8_t idlength, uint32_t length, uint32_t previous, uint32_t crc, uint8_t flags, uint32_t ts) {
    if(o == 0) return idlength;
    if(o < 5) return length >> (8 * (o - 1));
    if(o < 9) return previous >> (8 * (o - 5));
    if(o < 13) return crc >> (8 * (o - 9));
    if(o < 14) return flags;
    return ts >> (8 * (o - 14));
}
#endif
