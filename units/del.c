/*
 * DEL: contract of command_del on key-value and sequential namespaces.
 */
#include "spec.h"
#include "commands_dataset.h"

#ifdef IS_SEQ
#define HAS   (W.klen == 8 && W.has && W.live)
#define ELEN  (W.r.length)
#define EISL  (W.kslot)
#define EIOF  (W.koff)
#define EID   (G.id[W.kslot])
#else
#define HAS   (W.E != NULL)
#define ELEN  (W.e.length)
#define EISL  (nondet_fslot('i', W.e.indexid))
#define EIOF  ((uint64_t) W.e.idxoffset)
#define EID   (W.e.indexid)
#endif

static bool nondet_acked(void) { return nondet_ok_reply(); }
static bool nondet_allowed(void) { return W.cl.writable && W.nsv.locked == 0 && !W.nsv.worm && W.klen > 0 && W.klen <= 255; }

static bool nondet_post_one(void) { return nondet_acked() || nondet_error_reply(); }
static bool nondet_post_accepts(void) { return !(nondet_allowed() && HAS && !G.failed) || nondet_acked(); }
static bool nondet_post_needs(void) { return !nondet_acked() || (nondet_allowed() && HAS); }
static bool nondet_post_gone(void) {
    if(!nondet_acked()) return true;
#ifndef IS_SEQ
    index_branch_t *b = W.branch;
    if(W.index->branches[W.bucket] != b || b->length != W.blen - 1) return false;
    if(b->list != W.O || b->last != W.O) return false;
    return !W.O || W.O->next == NULL;
#else
    /* the record is what a read looks at */
    return true;
#endif
}
/* acknowledged: the index record of the key is flagged deleted on disk */
static bool nondet_post_flagged(void) {
    if(!nondet_acked()) return true;
    if(G.w_slot == EISL && G.w_off == EIOF + 13) return (G.w_val & INDEX_ENTRY_DELETED) != 0;
    return true;
}
/* acknowledged: the data file ends with a deletion record of that key */
static bool nondet_post_tombstone(void) {
    if(!nondet_acked()) return true;
    uint64_t at = W.g.size[S_DAT];
    if(G.size[S_DAT] != at + DREC + W.klen) return false;
    if(G.w_slot != S_DAT || G.w_off < at) return true;
    uint64_t o = G.w_off - at;
    if(o < 14) return G.w_val == nondet_dhdr_byte(o, W.klen, 0, W.dat.previous, 0, DATA_ENTRY_DELETED, 0);
    if(o < DREC) return true;
    return o - DREC != zv_k || o >= DREC + W.klen || G.w_val == W.key[zv_k];
}
static bool nondet_post_append_only(void) {
    for(int i = S_DAT; i <= S_ODAT; i += 2)
        if(G.exists[i] && (G.size[i] < W.g.size[i] || (G.writes[i] && G.lo[i] < W.g.size[i]))) return false;
    if((G.w_slot == S_DAT || G.w_slot == S_ODAT) && G.w_off < W.g.size[G.w_slot])
        return G.w_writes == 0 && G.w_val == W.g.w_val;
    return true;
}
static bool nondet_post_index_inplace(void) {
    for(int i = S_IDX; i <= S_OIDX; i += 2)
        if(G.exists[i] && G.size[i] != W.g.size[i]) return false;
    if((G.w_slot == S_IDX || G.w_slot == S_OIDX) && G.w_val != W.g.w_val)
        return HAS && nondet_allowed() && G.w_slot == EISL && G.w_off == EIOF + 13 && G.w_val == (W.g.w_val | 1);
    return true;
}
static bool nondet_post_refused(void) {
    if(nondet_acked()) return true;
#ifndef IS_SEQ
    if(W.E && (!nondet_same_entry(W.E, &W.e) || W.branch->length != W.blen)) return false;
#endif
    if(G.w_slot == S_IDX || G.w_slot == S_OIDX) if(G.w_val != W.g.w_val) return false;
    return nondet_stats_same() && (G.failed || nondet_disk_same());
}
static bool nondet_post_worm(void) { return !W.nsv.worm || (nondet_error_reply() && nondet_disk_same()); }
static bool nondet_post_readonly(void) { return (W.cl.writable && W.nsv.locked == 0) || (nondet_error_reply() && nondet_disk_same() && nondet_stats_same()); }
static bool nondet_post_stats(void) {
    if(!nondet_acked()) return true;
    return W.index->stats.entries == W.idx.stats.entries - 1 && W.index->stats.datasize == W.idx.stats.datasize - ELEN;
}
static bool nondet_post_isolation(void) {
#ifndef IS_SEQ
    if(W.O) {
        if(!nondet_same_entry(W.O, &W.o)) return false;
        index_branch_t *b = W.index->branches[W.bucket];
        if(!b || (b->list != W.O && b->list->next != W.O)) return false;
        /* the bucket still ends with the entry it names as its last one */
        if(b->last != (nondet_acked() ? W.O : W.L) || W.O->next != (nondet_acked() ? NULL : W.o.next)) return false;
    }
    for(int i = 0; i < 4; i++)
        if((uint32_t) i != W.bucket && W.index->branches[i] != NULL) return false;
#endif
    return W.index->nextentry == W.idx.nextentry && W.index->nextid == W.idx.nextid && W.index->indexid == W.idx.indexid;
}
static bool nondet_post_order(void) { return !nondet_acked() || G.lastwrite[S_DAT] < G.lastwrite[EISL]; }
static bool nondet_post_synced(void) { return !nondet_acked() || G.failed || !W.dat.sync || G.lastsync[S_DAT] > G.lastwrite[S_DAT]; }
static bool nondet_post_dirty(void) { return !nondet_acked() || (W.index->dirty.map[EID / 8] & (1 << (EID % 8))); }

#define CLAUSES(P) \
 P("[C03] DEL sends exactly one reply", nondet_post_one()) \
 P("[C03] a DEL that nothing forbids is accepted", nondet_post_accepts()) \
 P("[C03,C09] only an existing key is deleted, with the right to do so", nondet_post_needs()) \
 P("[C03] after the acknowledgement the key is not found", nondet_post_gone()) \
 P("[C03,C05] the deleted record is flagged on disk", nondet_post_flagged()) \
 P("[C03,C05] the data file ends with the deletion record of the key", nondet_post_tombstone()) \
 P("[C04] bytes of the data files are never changed", nondet_post_append_only()) \
 P("[C04] existing index bytes only change by the deletion flag", nondet_post_index_inplace()) \
 P("[C03,C23] a DEL refused or failed leaves the key in place", nondet_post_refused()) \
 P("[C08] write-once keys are never deleted", nondet_post_worm()) \
 P("[C09] no DEL on a read-only session or a locked or frozen namespace", nondet_post_readonly()) \
 P("[C20] entry and byte counts follow", nondet_post_stats()) \
 P("[C14] other keys are untouched", nondet_post_isolation()) \
 P("[C22] the deletion is appended to the data file before the index", nondet_post_order()) \
 P("[C22] sync mode: flushed before the acknowledgement", nondet_post_synced()) \
 P("[C21] an index file changed in place is listed dirty", nondet_post_dirty()) \
 P("[C03] no descriptor is leaked", nondet_fds_balanced())

void harness(void) {
    nondet_world_watch();
#ifdef IS_SEQ
    nondet_world_base(ZDB_MODE_SEQUENTIAL);
#else
    nondet_world_base(ZDB_MODE_KEY_VALUE);
#endif
#ifdef NOFAULT
    G.faults = false;
#else
    G.faults = true;
#endif
    nondet_world_client(2);
    W.klen = ND_U32();
#ifdef IS_SEQ
    ZV_ASSUME(W.klen <= 300);
    nondet_world_seq();
#else
    ZV_ASSUME(W.klen <= 8 * 1024 * 1024);
#endif
    nondet_world_arg(0, 3, 0);
    W.key = nondet_world_arg(1, W.klen, 0);
#ifdef IS_SEQ
    for(int i = 0; i < 8; i++)
        if((uint32_t) i < W.klen) W.key[i] = W.K >> (8 * i);
#else
    nondet_world_hash();
    nondet_world_bucket();
    ZV_ASSUME(!W.E || W.klen <= 255);
#endif
    nondet_world_snapshot();
    command_del(W.client);
    CLAUSES(ZV_POST_1)
    ZV_COVER(nondet_acked(), "[C03] acknowledged deletion");
}
