/*
 * Read commands on a key-value namespace (GET, EXISTS, LENGTH, KEYTIME,
 * CHECK): contracts for every key, every stored entry and every payload.
 */
#include "spec.h"
#include "commands_get.h"
#include "commands_dataset.h"

static bool nondet_valid(void) { return W.klen > 0 && W.klen <= 255 && W.nsv.locked != NS_LOCK_READ_WRITE; }

static bool nondet_post_one(void) { return G.sends == 1; }
static bool nondet_post_invalid(void) { return nondet_valid() || nondet_error_reply(); }
static bool nondet_post_missing(void) {
    if(!nondet_valid() || W.E) return true;
#ifdef IS_EXISTS
    return nondet_int_reply(0);
#else
    return nondet_null_reply();
#endif
}
static bool nondet_post_value(void) {
    if(!nondet_valid() || !W.E) return true;
#if defined(IS_EXISTS)
    return nondet_int_reply(1);
#elif defined(IS_LENGTH)
    return nondet_int_reply(W.e.length);
#elif defined(IS_KEYTIME)
    return nondet_int_reply(W.e.timestamp);
#elif defined(IS_CHECK)
    /* the verdict is the comparison of the checksum of the stored payload
       with the one recorded in the header of the record */
    uint32_t len = W.dhdr[1] | W.dhdr[2] << 8 | W.dhdr[3] << 16 | (uint32_t) W.dhdr[4] << 24;
    uint32_t rec = W.dhdr[9] | W.dhdr[10] << 8 | W.dhdr[11] << 16 | (uint32_t) W.dhdr[12] << 24;
    int ds = nondet_fslot('d', W.e.dataid);
    /* record that cannot be read */
    if(nondet_int_reply(-1)) return G.failed || (uint64_t) W.e.offset + DREC + W.dhdr[0] + len > G.size[ds];
    if(!nondet_int_reply(0) && !nondet_int_reply(1)) return false;
    if(G.crc_len != len) return false;
    if(G.w_slot == ds && zv_p < len && G.w_off == (uint64_t) W.e.offset + DREC + W.dhdr[0] + zv_p && G.crc_byte != W.g.w_val) return false;
    return nondet_int_reply(G.crc_val == rec);
#else
    if(nondet_error_reply()) return G.failed;
    if(!nondet_bulk_reply()) return false;
    return nondet_bulk_head(W.e.length);
#endif
}
/* the payload bytes of the reply */
static bool nondet_post_bytes(void) {
#ifdef IS_GET
    if(!nondet_valid() || !W.E || !nondet_bulk_reply()) return true;
    uint64_t h = G.out_len - W.e.length - 2;
    int ds = nondet_fslot('d', W.e.dataid);
    if(G.w_slot == ds && zv_p < W.e.length && G.w_off == (uint64_t) W.e.offset + DREC + W.klen + zv_p && G.ow_off == h + zv_p)
        return G.ow_set && G.ow_val == W.g.w_val;
#endif
    return true;
}
static bool nondet_post_quiet(void) {
    if(!nondet_disk_same() || !nondet_stats_same()) return false;
    if(W.E && !nondet_same_entry(W.E, &W.e)) return false;
    if(W.O && !nondet_same_entry(W.O, &W.o)) return false;
    if(W.index->branches[W.bucket] != W.branch || (W.branch && W.branch->length != W.blen)) return false;
    return W.index->nextentry == W.idx.nextentry && W.index->nextid == W.idx.nextid && W.index->indexid == W.idx.indexid
        && W.index->previous == W.idx.previous && W.data->previous == W.dat.previous && W.data->dataid == W.dat.dataid
        && W.client->writable == W.cl.writable && W.client->admin == W.cl.admin && W.client->ns == W.cl.ns;
}

#define CLAUSES(P) \
 P("[" TAG "] exactly one reply", nondet_post_one()) \
 P("[" TAG "] the reply for a stored key is what was stored", nondet_post_value()) \
 P("[" TAG "] the payload in the reply is what was stored", nondet_post_bytes()) \
 P("[" TAG "] the reply for an absent key says so", nondet_post_missing()) \
 P("[" TAG ",C09] invalid requests and frozen namespaces get an error", nondet_post_invalid()) \
 P("[" TAG ",C14] a read changes nothing", nondet_post_quiet()) \
 P("[" TAG "] no descriptor is leaked", nondet_fds_balanced())

void harness(void) {
    nondet_world_watch();
    nondet_world_base(ZDB_MODE_KEY_VALUE);
    nondet_world_client(2);
    W.klen = ND_U32();
    ZV_ASSUME(W.klen <= 8 * 1024 * 1024);
    nondet_world_arg(0, 3, 0);
    W.key = nondet_world_arg(1, W.klen, 0);
    nondet_world_hash();
    nondet_world_bucket();
    ZV_ASSUME(!W.E || W.klen <= 255);
#ifdef IS_CHECK
    nondet_world_dhdr(false);
#else
    nondet_world_dhdr(true);
#endif
    nondet_world_snapshot();
    CMD(W.client);
    CLAUSES(ZV_POST_1)
    ZV_COVER(nondet_valid() && W.E && !nondet_error_reply(), "[" TAG "] stored key");
    ZV_COVER(nondet_valid() && !W.E, "[" TAG "] absent key");
}
