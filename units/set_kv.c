/*
 * SET on a key-value namespace: contract of command_set for every key of 1 to
 * 255 bytes and every payload up to the protocol's 8 MiB.
 */
#include "spec.h"
#include "commands_set.h"

/* entry the key resolves to after the call */
static index_entry_t *nondet_after(void) {
    if(W.E)
        return W.E;
    index_branch_t *b = W.index->branches[W.bucket];
    return b ? b->last : NULL;
}
static bool nondet_rotated(void) { return W.index->indexid != W.idx.indexid; }
static uint64_t nondet_dstart(void) { return nondet_rotated() ? DHDR : W.g.size[S_DAT]; }
static uint64_t nondet_istart(void) { return nondet_rotated() ? IHDR : W.g.size[S_IDX]; }
static bool nondet_acked(void) { return nondet_bulk_reply(); }

static bool nondet_post_one_reply(void) { return nondet_acked() || nondet_null_reply() || nondet_error_reply(); }

/* acknowledged: the reply is the key */
static bool nondet_post_reply(void) {
    if(!nondet_acked()) return true;
    uint64_t h = nondet_bulk_head(W.klen);
    return h && (zv_k >= W.klen || G.ow_off != h + zv_k || (G.ow_set && G.ow_val == W.key[zv_k]));
}

/* acknowledged: the key resolves to a live record written by this call */
static bool nondet_post_resolves(void) {
    if(!nondet_acked()) return true;
    index_entry_t *n = nondet_after();
    if(!n) return false;
    return n->idlength == W.klen && n->namespace == W.ns && (zv_k >= W.klen || n->id[zv_k] == W.key[zv_k])
        && n->length == W.vlen && n->flags == 0 && n->crc == W.vcrc
        && n->dataid == W.data->dataid && n->offset == nondet_dstart()
        && n->indexid == W.index->indexid && n->idxoffset == nondet_istart();
}

/* acknowledged: the data file holds header, key and payload at that place */
static bool nondet_post_data(void) {
    if(!nondet_acked()) return true;
    int ds = nondet_fslot('d', W.data->dataid);
    uint64_t at = nondet_dstart();
    if(ds < 0 || G.size[ds] != at + DREC + W.klen + W.vlen) return false;
    if(G.w_slot != ds || G.w_off < at || G.w_off >= G.size[ds]) return true;
    uint64_t o = G.w_off - at;
    if(o < DREC)
        return (nondet_rotated() && o >= 5 && o < 9)
            || G.w_val == nondet_dhdr_byte(o, W.klen, W.vlen, W.dat.previous, W.vcrc, 0, nondet_after()->timestamp);
    if(o < DREC + W.klen) return o - DREC != zv_k || G.w_val == W.key[zv_k];
    return o - DREC - W.klen != zv_p || G.w_val == W.val[zv_p];
}

/* acknowledged: the index file ends with the record of the entry */
static bool nondet_post_index(void) {
    if(!nondet_acked()) return true;
    int is = nondet_fslot('i', W.index->indexid);
    uint64_t at = nondet_istart();
    index_entry_t *n = nondet_after();
    if(is < 0 || !n || G.size[is] != at + IREC + W.klen) return false;
    if(G.w_slot != is || G.w_off < at || G.w_off >= G.size[is]) return true;
    uint64_t o = G.w_off - at;
    if(o >= IREC) return o - IREC != zv_k || G.w_val == W.key[zv_k];
    if(nondet_rotated() && o >= 9 && o < 13) return true;
    return G.w_val == nondet_item_byte(o, W.klen, n->offset, n->length, W.idx.previous, 0,
                                       W.data->dataid, n->timestamp, n->crc, n->parentid, n->parentoff);
}

/* history: the parent of the new record is the record it replaces */
static bool nondet_post_parent(void) {
    if(!nondet_acked()) return true;
    index_entry_t *n = nondet_after();
    if(W.E) return n->parentid == W.e.indexid && n->parentoff == W.e.idxoffset;
    return n->parentid == 0 && n->parentoff == 0;
}

/* every byte that was in a data file before the call is still there */
static bool nondet_post_append_only(void) {
    for(int i = S_DAT; i <= S_ODAT; i += 2)
        if(G.exists[i] && (G.size[i] < W.g.size[i] || (G.writes[i] && G.lo[i] < W.g.size[i]))) return false;
    if((G.w_slot == S_DAT || G.w_slot == S_ODAT) && G.w_off < W.g.size[G.w_slot])
        return G.w_writes == 0 && G.w_val == W.g.w_val;
    return true;
}

/* in the index files, only the deletion flag of the replaced record changes */
static bool nondet_post_index_inplace(void) {
    for(int i = S_IDX; i <= S_OIDX; i += 2)
        if(G.exists[i] && G.size[i] < W.g.size[i]) return false;
    if((G.w_slot == S_IDX || G.w_slot == S_OIDX) && G.w_off < W.g.size[G.w_slot]) {
        if(G.w_val == W.g.w_val) return true;
        return W.E && G.id[G.w_slot] == W.e.indexid && G.w_off == (uint64_t) W.e.idxoffset + 13 && G.w_val == (W.g.w_val | 1);
    }
    return true;
}

/* acknowledged overwrite: the replaced record is flagged deleted on disk */
static bool nondet_post_flagged(void) {
    if(!nondet_acked() || !W.E || G.failed) return true;
    int s = nondet_fslot('i', W.e.indexid);
    if(G.w_slot == s && G.w_off == (uint64_t) W.e.idxoffset + 13)
        return G.w_val & 1;
    return true;
}

/* "unchanged" only when the stored payload is the submitted one */
static bool nondet_post_unchanged(void) {
    if(!nondet_null_reply()) return true;
    if(!W.E || W.e.crc != W.vcrc || W.e.length != W.vlen) return false;
    int ds = nondet_fslot('d', W.e.dataid);
    if(G.w_slot == ds && zv_p < W.vlen && G.w_off == (uint64_t) W.e.offset + DREC + W.klen + zv_p)
        return W.g.w_val == W.val[zv_p];
    return true;
}
/* unchanged or refused: nothing moves */
static bool nondet_post_refused(void) {
    if(nondet_acked() || G.failed) return true;
    if(W.E && !nondet_same_entry(W.E, &W.e)) return false;
    if(!W.E && (W.branch ? W.branch->length : 0) != W.blen) return false;
    return nondet_stats_same() && W.index->nextentry == W.idx.nextentry
        && (nondet_null_reply() || nondet_rotated() || nondet_disk_same());
}
/* a failed write leaves the key as it was */
static bool nondet_post_failed(void) {
    if(nondet_acked()) return true;
    if(W.E && !nondet_same_entry(W.E, &W.e)) return false;
    if(!W.E && (W.branch ? W.branch->length : 0) != W.blen) return false;
    if(W.E && (G.w_slot == S_IDX || G.w_slot == S_OIDX) && G.w_off < W.g.size[G.w_slot])
        return G.w_val == W.g.w_val;
    return true;
}
/* a write that failed is never acknowledged */
static bool nondet_post_ack_written(void) {
    if(!nondet_acked() || !G.wfailed) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
    return ds >= 0 && is >= 0 && G.size[ds] == nondet_dstart() + DREC + W.klen + W.vlen && G.size[is] == nondet_istart() + IREC + W.klen;
}

/* write access control */
static bool nondet_post_worm(void) { return !(W.nsv.worm && W.E) || (!nondet_acked() && (nondet_error_reply() || nondet_null_reply()) && nondet_same_entry(W.E, &W.e) && nondet_disk_same()); }
static bool nondet_post_readonly(void) { return (W.cl.writable && W.nsv.locked == 0) || (nondet_error_reply() && nondet_disk_same() && nondet_stats_same() && (!W.E || nondet_same_entry(W.E, &W.e))); }
static bool nondet_post_quota(void) {
    if(!W.nsv.maxsize) return true;
    uint64_t after = W.idx.stats.datasize + W.vlen - (W.E ? W.e.length : 0);
    if(after > W.nsv.maxsize) return !nondet_acked() && W.index->stats.datasize == W.idx.stats.datasize;
    return true;
}
static bool nondet_post_accepts(void) {
    if(W.klen == 0 || !W.cl.writable || W.nsv.locked || (W.nsv.worm && W.E) || G.failed) return true;
    uint64_t after = W.idx.stats.datasize + W.vlen - (W.E ? W.e.length : 0);
    if(W.nsv.maxsize && after > W.nsv.maxsize) return true;
    return nondet_acked() || nondet_null_reply();
}

static bool nondet_post_stats(void) {
    if(!nondet_acked()) return true;
    return W.index->stats.datasize == W.idx.stats.datasize + W.vlen - (W.E ? W.e.length : 0)
        && W.index->stats.entries == W.idx.stats.entries + (W.E ? 0 : 1);
}

/* other keys: the other entry of the bucket is untouched, the bucket keeps its entries */
static bool nondet_post_isolation(void) {
    if(W.O) {
        if(!nondet_same_entry(W.O, &W.o)) return false;
        index_branch_t *b = W.index->branches[W.bucket];
        if(!b || (b->list != W.O && b->list->next != W.O)) return false;
    }
    for(int i = 0; i < 4; i++)
        if((uint32_t) i != W.bucket && W.index->branches[i] != NULL) return false;
    if(W.branch && (W.index->branches[W.bucket] != W.branch || W.branch->length != W.blen + (nondet_acked() && !W.E))) return false;
    return true;
}

static bool nondet_post_write_order(void) {
    /* the record is appended to the data file before the index mentions it */
    if(!nondet_acked()) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
    return ds >= 0 && is >= 0 && G.lastwrite[ds] < G.lastappend[is];
}
/* with the sync setting, an acknowledged SET is on stable storage */
static bool nondet_post_synced(void) {
    if(!nondet_acked() || G.failed) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
    return (!W.dat.sync || G.lastsync[ds] > G.lastwrite[ds]) && (!W.idx.sync || G.lastsync[is] > G.lastappend[is]);
}

/* rotation moves index and data together to the next number */
static bool nondet_post_rotation(void) {
    if(W.index->indexid != W.data->dataid) return false;
    if(W.index->indexid != W.idx.indexid && W.index->indexid != W.idx.indexid + 1) return false;
    if(nondet_rotated() && !G.failed) {
        int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
        return ds >= 0 && is >= 0 && ds != S_DAT && is != S_IDX
            && W.index->indexfd >= ZV_FDBASE && (W.index->indexfd - ZV_FDBASE) % ZV_SLOTS == is
            && (W.data->datafd - ZV_FDBASE) % ZV_SLOTS == ds;
    }
    return true;
}
static bool nondet_post_rotates_when(void) {
    /* a data file never grows past the limit by more than one record */
    if(!nondet_acked()) return true;
    return nondet_rotated() == (W.g.size[S_DAT] + W.vlen > zdb_rootsettings.datasize);
}
static bool nondet_post_dirty(void) {
    /* an index file changed in place is on the dirty list */
    if(!nondet_acked() || G.failed || !W.E) return true;
    return W.index->dirty.map[W.e.indexid / 8] & (1 << (W.e.indexid % 8));
}

#define CLAUSES(P) \
 P("[C01] SET sends exactly one reply", nondet_post_one_reply()) \
 P("[C01] an acknowledged SET replies with the key", nondet_post_reply()) \
 P("[C01] an acknowledged key resolves to the record just written", nondet_post_resolves()) \
 P("[C01] the record holds exactly the key and the payload sent", nondet_post_data()) \
 P("[C01,C05] the index file ends with a record describing the entry", nondet_post_index()) \
 P("[C01] a SET that nothing forbids is accepted", nondet_post_accepts()) \
 P("[C01] unchanged is only answered for the same payload", nondet_post_unchanged()) \
 P("[C06] the new record points to the record it replaces", nondet_post_parent()) \
 P("[C04] bytes of the data files are never changed", nondet_post_append_only()) \
 P("[C04] existing index bytes only change by the deletion flag of the replaced record", nondet_post_index_inplace()) \
 P("[C05] the replaced record is flagged deleted on disk", nondet_post_flagged()) \
 P("[C01,C23] a refused or unchanged SET changes nothing", nondet_post_refused()) \
 P("[C23] a write that failed is not acknowledged", nondet_post_ack_written()) \
 P("[C23] a SET that failed leaves the previous value in place", nondet_post_failed()) \
 P("[C08] write-once keys are never replaced", nondet_post_worm()) \
 P("[C09] no SET on a read-only session or a locked or frozen namespace", nondet_post_readonly()) \
 P("[C07] the size limit is never exceeded", nondet_post_quota()) \
 P("[C20] entry and byte counts follow", nondet_post_stats()) \
 P("[C14] other keys are untouched", nondet_post_isolation()) \
 P("[C22] the payload is appended before the index record", nondet_post_write_order()) \
 P("[C22] sync mode: flushed before the acknowledgement", nondet_post_synced()) \
 P("[C27] index and data files move on together", nondet_post_rotation()) \
 P("[C27] the data file limit decides the move", nondet_post_rotates_when()) \
 P("[C21] an index file changed in place is listed dirty", nondet_post_dirty())

#ifndef ZV_NATIVE
int zvc_command_set(redis_client_t *client)
ZV_REQ(client == W.client)
ZV_ASSIGNS(W.client->executed, ZV_OBJ(W.index), ZV_OBJ(W.index->indexfile), ZV_OBJ(W.index->dirty.map),
  ZV_OBJ(W.index->branches), ZV_OBJ(index_transition), ZV_OBJ(W.data->datafile), ZV_OBJ(W.data), zdbd_rootsettings.stats;
  W.E != NULL: ZV_OBJ(W.E);
  W.L != NULL: W.L->next;
  W.branch != NULL: ZV_OBJ(W.branch))
ZV_FREES(W.index->dirty.map)
CLAUSES(ZV_ENS_1)
;
#endif

void harness(void) {
    nondet_world_watch();
    nondet_world_base(ZDB_MODE_KEY_VALUE);
#ifdef NOFAULT
    G.faults = false;
#else
    G.faults = true;
#endif
#ifdef NOROTATE
    zdb_rootsettings.datasize = (size_t) -1;
#endif
    nondet_world_client(3);
    W.klen = ND_U32(); W.vlen = ND_U32();
    ZV_ASSUME(W.vlen <= 8 * 1024 * 1024 && W.klen <= 255);
    nondet_world_arg(0, 3, 0);
    W.key = nondet_world_arg(1, W.klen, 0);
    W.val = nondet_world_arg(2, W.vlen, 0);
    nondet_world_hash();
    nondet_world_bucket();
    nondet_world_snapshot();
    command_set(W.client);
    CLAUSES(ZV_POST_1)
    ZV_COVER(nondet_acked() && W.E, "[C01] acknowledged overwrite");
    ZV_COVER(nondet_acked() && !W.E, "[C01] acknowledged insert");
    ZV_COVER(nondet_null_reply(), "[C01] unchanged");
#ifndef NOROTATE
    ZV_COVER(nondet_acked() && W.index->indexid != W.idx.indexid, "[C27] rotation");
#endif
}
