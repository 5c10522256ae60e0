/*
 * Read commands on a sequential namespace: contracts for every key, every
 * record and every payload.
 */
#include "spec.h"
#include "commands_get.h"
#include "commands_dataset.h"

static bool nondet_valid(void) { return W.klen > 0 && W.klen <= 255 && W.nsv.locked != NS_LOCK_READ_WRITE; }
static bool nondet_stored(void) { return W.klen == 8 && W.has && W.live; }

static bool nondet_post_one(void) { return G.sends == 1; }
static bool nondet_post_invalid(void) { return nondet_valid() || nondet_error_reply(); }
static bool nondet_post_missing(void) {
    if(!nondet_valid() || nondet_stored()) return true;
#ifdef IS_EXISTS
    return nondet_int_reply(0);
#else
    return nondet_null_reply();
#endif
}
static bool nondet_post_value(void) {
    if(!nondet_valid() || !nondet_stored()) return true;
#if defined(IS_EXISTS)
    return nondet_int_reply(1) || (G.failed && nondet_int_reply(0));
#elif defined(IS_LENGTH)
    return nondet_int_reply(W.r.length) || (G.failed && nondet_null_reply());
#else
    if(nondet_error_reply() || nondet_null_reply()) return G.failed;
    if(!nondet_bulk_reply()) return false;
    return nondet_bulk_head(W.r.length);
#endif
}
/* the payload bytes of the reply */
static bool nondet_post_bytes(void) {
#ifdef IS_GET
    if(!nondet_valid() || !nondet_stored() || !nondet_bulk_reply()) return true;
    uint64_t h = G.out_len - W.r.length - 2;
    if(G.w_slot == W.rdata && zv_p < W.r.length && G.w_off == (uint64_t) W.r.offset + DREC + 8 + zv_p && G.ow_off == h + zv_p)
        return G.ow_set && G.ow_val == W.g.w_val;
#endif
    return true;
}
static bool nondet_post_quiet(void) {
    return nondet_disk_same() && nondet_stats_same()
        && W.index->nextentry == W.idx.nextentry && W.index->nextid == W.idx.nextid && W.index->indexid == W.idx.indexid
        && W.index->previous == W.idx.previous && W.data->previous == W.dat.previous && W.data->dataid == W.dat.dataid;
}

#define CLAUSES(P) \
 P("[" TAG "] exactly one reply", nondet_post_one()) \
 P("[" TAG "] the reply for a stored id is what was stored", nondet_post_value()) \
 P("[" TAG "] the payload in the reply is what was stored", nondet_post_bytes()) \
 P("[" TAG "] the reply for an id that was never given out or was deleted says so", nondet_post_missing()) \
 P("[" TAG ",C09] invalid requests and frozen namespaces get an error", nondet_post_invalid()) \
 P("[" TAG "] a read changes nothing", nondet_post_quiet()) \
 P("[" TAG "] no descriptor is leaked", nondet_fds_balanced())

void harness(void) {
    nondet_world_watch();
    nondet_world_base(ZDB_MODE_SEQUENTIAL);
    nondet_world_client(2);
    W.klen = ND_U32();
    ZV_ASSUME(W.klen <= 300);
    nondet_world_seq();
    nondet_world_arg(0, 3, 0);
    W.key = nondet_world_arg(1, W.klen, 0);
    for(int i = 0; i < 8; i++)
        if((uint32_t) i < W.klen) W.key[i] = W.K >> (8 * i);
    nondet_world_snapshot();
    CMD(W.client);
    CLAUSES(ZV_POST_1)
    ZV_COVER(nondet_valid() && nondet_stored() && !nondet_error_reply(), "[" TAG "] stored id");
    ZV_COVER(nondet_valid() && !W.has, "[" TAG "] id never given out");
}
