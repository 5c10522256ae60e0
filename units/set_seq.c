/*
 * SET on a sequential namespace: contract of command_set for every key sent
 * (none, one given out before, any other) and every payload.
 */
#include "spec.h"
#include "commands_set.h"
#include "index_seq.h"

#define UPD (W.klen == 8 && W.has && W.live) /* the key names a live entry */
static bool nondet_rotated(void) { return W.index->indexid != W.idx.indexid; }
static uint64_t nondet_dstart(void) { return nondet_rotated() ? DHDR : W.g.size[S_DAT]; }
static uint64_t nondet_istart(void) { return nondet_rotated() ? IHDR : W.g.size[S_IDX]; }
static bool nondet_acked(void) { return nondet_bulk_reply(); }
static bool nondet_allowed(void) {
    if(!W.cl.writable || W.nsv.locked || W.klen > 255) return false;
    if(W.klen ? !UPD : false) return false;
    return !(UPD && W.nsv.worm);
}
static uint64_t nondet_total(void) { return W.idx.stats.datasize + W.vlen - (UPD ? W.r.length : 0); }
/* the id this call stores under */
static uint64_t nondet_id(void) { return UPD ? W.K : W.total; }
/* index file and place of the record of that id after the call */
static int nondet_rslot(void) { return UPD ? W.kslot : nondet_fslot('i', W.index->indexid); }
static uint64_t nondet_roff(void) { return UPD ? W.koff : nondet_istart(); }

static bool nondet_post_one_reply(void) { return nondet_acked() || nondet_null_reply() || nondet_error_reply(); }
static bool nondet_post_reply(void) {
    if(!nondet_acked()) return true;
    int h = nondet_bulk_head(8);
    if(!h) return false;
    uint64_t i = G.ow_off - h;
    return i >= 8 || (G.ow_set && G.ow_val == (uint8_t) (nondet_id() >> (8 * i)));
}
static bool nondet_post_accepts(void) {
    if(!nondet_allowed() || G.failed) return true;
    if(W.nsv.maxsize && nondet_total() > W.nsv.maxsize) return true;
    return nondet_acked() || (UPD && nondet_null_reply());
}
static bool nondet_post_needs(void) { return !nondet_acked() || nondet_allowed(); }
/* the data file ends with header, id and payload */
static bool nondet_post_data(void) {
    if(!nondet_acked()) return true;
    int ds = nondet_fslot('d', W.data->dataid);
    uint64_t at = nondet_dstart();
    if(ds < 0 || G.size[ds] != at + DREC + 8 + W.vlen) return false;
    if(G.w_slot != ds || G.w_off < at || G.w_off >= G.size[ds]) return true;
    uint64_t o = G.w_off - at;
    if(o < DREC)
        return (nondet_rotated() && o >= 5 && o < 9)
            || G.w_val == nondet_dhdr_byte(o, 8, W.vlen, W.dat.previous, W.vcrc, 0, G.now);
    if(o < DREC + 8) return o - DREC != zv_k || G.w_val == (uint8_t) (nondet_id() >> (8 * (o - DREC)));
    return o - DREC - 8 != zv_p || G.w_val == W.val[zv_p];
}
/* the record of the id describes that data */
static bool nondet_post_record(void) {
    if(!nondet_acked()) return true;
    int is = nondet_rslot();
    uint64_t at = nondet_roff();
    if(is < 0 || G.size[is] < at + SEQREC) return false;
    if(G.w_slot != is || G.w_off < at || G.w_off >= at + SEQREC) return true;
    uint64_t o = G.w_off - at;
    if(o >= IREC) return G.w_val == (uint8_t) (nondet_id() >> (8 * (o - IREC)));
    if(!UPD && nondet_rotated() && o >= 9 && o < 13) return true;
    return G.w_val == nondet_item_byte(o, 8, nondet_dstart(), W.vlen, UPD ? W.r.previous : W.idx.previous, 0, W.data->dataid, G.now, W.vcrc,
                                       UPD ? W.index->indexid : 0, UPD ? nondet_istart() : 0);
}
/* an update first archives the replaced record, flagged, at the end */
static bool nondet_post_archive(void) {
    if(!nondet_acked() || !UPD) return true;
    int is = nondet_fslot('i', W.index->indexid);
    uint64_t at = nondet_istart();
    if(is < 0 || G.size[is] != at + SEQREC) return false;
    if(G.w_slot != is || G.w_off < at || G.w_off >= at + SEQREC) return true;
    uint64_t o = G.w_off - at;
    if(o >= IREC) return G.w_val == (uint8_t) (W.K >> (8 * (o - IREC)));
    if(nondet_rotated() && o >= 9 && o < 13) return true;
    return G.w_val == nondet_item_byte(o, 8, W.r.offset, W.r.length, W.idx.previous, INDEX_ENTRY_DELETED, W.r.dataid, W.r.timestamp, W.r.crc,
                                       W.r.parentid, W.r.parentoff);
}
/* looking the id up leads to its record, before any further change */
static bool nondet_post_resolves(void) {
    if(!nondet_acked()) return true;
    index_seqmap_t *m = index_fileid_from_seq(W.index, nondet_id());
    int is = nondet_rslot();
    return is >= 0 && m->fileid == G.id[is] && nondet_id() >= m->seqid && IHDR + (nondet_id() - m->seqid) * SEQREC == nondet_roff();
}
/* every number given out before still leads to the same place */
static bool nondet_post_stable(void) {
    if(!W.has) return true;
    index_seqmap_t *m = index_fileid_from_seq(W.index, W.K);
    return m->fileid == G.id[W.kslot] && m->seqid == W.kbase;
}
/* the next number skips every record of the index files */
static bool nondet_post_next(void) {
    if(G.failed && !nondet_acked()) return true;
    return W.index->nextentry == W.idx.nextentry + (nondet_acked() ? 1 : 0)
        && W.index->nextid == (nondet_rotated() ? 0 : W.idx.nextid) + (nondet_acked() ? 1 : 0);
}
/* the numbers always match the records present, even when a write failed */
static bool nondet_post_aligned(void) {
    int is = nondet_fslot('i', W.index->indexid);
    if(nondet_rotated() && G.failed) return true;
    return is >= 0 && G.size[is] == IHDR + W.index->nextid * SEQREC
        && W.index->nextentry == (nondet_rotated() ? W.total : W.slast) + W.index->nextid;
}
static bool nondet_post_append_only(void) {
    for(int i = S_DAT; i <= S_ODAT; i += 2)
        if(G.exists[i] && (G.size[i] < W.g.size[i] || (G.writes[i] && G.lo[i] < W.g.size[i]))) return false;
    if((G.w_slot == S_DAT || G.w_slot == S_ODAT) && G.w_off < W.g.size[G.w_slot])
        return G.w_writes == 0 && G.w_val == W.g.w_val;
    return true;
}
static bool nondet_post_index_inplace(void) {
    for(int i = S_IDX; i <= S_OIDX; i += 2)
        if(G.exists[i] && G.size[i] < W.g.size[i]) return false;
    if((G.w_slot == S_IDX || G.w_slot == S_OIDX) && G.w_off < W.g.size[G.w_slot] && G.w_val != W.g.w_val)
        return UPD && nondet_allowed() && G.w_slot == W.kslot && G.w_off >= W.koff && G.w_off < W.koff + IREC;
    return true;
}
static bool nondet_post_unchanged(void) {
    if(!nondet_null_reply()) return true;
    if(!UPD || W.r.crc != W.vcrc || W.r.length != W.vlen) return false;
    if(G.w_slot == W.rdata && zv_p < W.vlen && G.w_off == (uint64_t) W.r.offset + DREC + 8 + zv_p)
        return W.g.w_val == W.val[zv_p];
    return true;
}
/* not acknowledged: no record of a live entry changed, the counters neither */
static bool nondet_post_refused(void) {
    if(nondet_acked()) return true;
    if((G.w_slot == S_IDX || G.w_slot == S_OIDX) && G.w_off < W.g.size[G.w_slot] && G.w_val != W.g.w_val) return false;
    return nondet_stats_same() && (G.failed || nondet_null_reply() || nondet_rotated() || nondet_disk_same());
}
static bool nondet_post_ack_written(void) {
    if(!nondet_acked() || !G.wfailed) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
    return ds >= 0 && is >= 0 && G.size[ds] == nondet_dstart() + DREC + 8 + W.vlen && G.size[is] == nondet_istart() + SEQREC;
}
static bool nondet_post_worm(void) { return !(W.nsv.worm && UPD) || (nondet_error_reply() && nondet_disk_same() && nondet_stats_same()); }
static bool nondet_post_readonly(void) { return (W.cl.writable && W.nsv.locked == 0) || (nondet_error_reply() && nondet_disk_same() && nondet_stats_same()); }
static bool nondet_post_quota(void) { return !W.nsv.maxsize || nondet_total() <= W.nsv.maxsize || (!nondet_acked() && nondet_stats_same()); }
static bool nondet_post_stats(void) {
    return !nondet_acked() || (W.index->stats.datasize == nondet_total() && W.index->stats.entries == W.idx.stats.entries + (UPD ? 0 : 1));
}
static bool nondet_post_write_order(void) {
    if(!nondet_acked()) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid), rs = nondet_rslot();
    return ds >= 0 && is >= 0 && G.lastwrite[ds] < G.lastappend[is] && (!UPD || rs == is || G.lastappend[is] < G.lastwrite[rs]);
}
static bool nondet_post_synced(void) {
    if(!nondet_acked() || G.failed) return true;
    int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
    return (!W.dat.sync || G.lastsync[ds] > G.lastwrite[ds]) && (!W.idx.sync || G.lastsync[is] > G.lastappend[is]);
}
static bool nondet_post_rotation(void) {
    if(W.index->indexid != W.data->dataid) return false;
    if(W.index->indexid != W.idx.indexid && W.index->indexid != W.idx.indexid + 1) return false;
    if(nondet_rotated() && !G.failed) {
        int ds = nondet_fslot('d', W.data->dataid), is = nondet_fslot('i', W.index->indexid);
        return ds >= 0 && is >= 0 && ds != S_DAT && is != S_IDX
            && (W.index->indexfd - ZV_FDBASE) % ZV_SLOTS == is && (W.data->datafd - ZV_FDBASE) % ZV_SLOTS == ds;
    }
    return true;
}
static bool nondet_post_rotates_when(void) {
    return !nondet_acked() || nondet_rotated() == (W.g.size[S_DAT] + W.vlen > zdb_rootsettings.datasize);
}
static bool nondet_post_dirty(void) {
    if(!nondet_acked() || !UPD) return true;
    return W.index->dirty.map[G.id[W.kslot] / 8] & (1 << (G.id[W.kslot] % 8));
}

#define CLAUSES(P) \
 P("[C02] SET sends exactly one reply", nondet_post_one_reply()) \
 P("[C02] an acknowledged SET replies with the next number or the updated one", nondet_post_reply()) \
 P("[C02] a SET that nothing forbids is accepted", nondet_post_accepts()) \
 P("[C02,C09] only a number given out and live can be updated", nondet_post_needs()) \
 P("[C02] the data file ends with the id and the payload sent", nondet_post_data()) \
 P("[C02,C05] the record of the id describes the payload", nondet_post_record()) \
 P("[C02] the id resolves to its record", nondet_post_resolves()) \
 P("[C02,C14] numbers given out before still resolve to the same record", nondet_post_stable()) \
 P("[C02,C05] the next number follows the records of the files", nondet_post_next()) \
 P("[C02,C05,C23] numbers and records stay aligned", nondet_post_aligned()) \
 P("[C05,C06] the replaced record is archived, flagged and linked", nondet_post_archive()) \
 P("[C04] bytes of the data files are never changed", nondet_post_append_only()) \
 P("[C04,C14] in place, only the record of the updated id changes", nondet_post_index_inplace()) \
 P("[C02] unchanged is only answered for the same payload", nondet_post_unchanged()) \
 P("[C02,C23] a SET refused or failed changes no record", nondet_post_refused()) \
 P("[C23] a write that failed is not acknowledged", nondet_post_ack_written()) \
 P("[C08] write-once keys are never replaced", nondet_post_worm()) \
 P("[C09] no SET on a read-only session or a locked or frozen namespace", nondet_post_readonly()) \
 P("[C07] the size limit is never exceeded", nondet_post_quota()) \
 P("[C20] entry and byte counts follow", nondet_post_stats()) \
 P("[C22] payload, then archive, then record", nondet_post_write_order()) \
 P("[C22] sync mode: flushed before the acknowledgement", nondet_post_synced()) \
 P("[C27] index and data files move on together", nondet_post_rotation()) \
 P("[C27] the data file limit decides the move", nondet_post_rotates_when()) \
 P("[C21] an index file changed in place is listed dirty", nondet_post_dirty()) \
 P("[C02] no descriptor is leaked", nondet_fds_balanced())

void harness(void) {
    nondet_world_watch();
    nondet_world_base(ZDB_MODE_SEQUENTIAL);
#ifdef NOFAULT
    G.faults = false;
#else
    G.faults = true;
#endif
#ifdef NOROTATE
    zdb_rootsettings.datasize = (size_t) -1;
#endif
    nondet_world_client(3);
    W.klen = ND_U32(); W.vlen = ND_U32();
    ZV_ASSUME(W.vlen <= 8 * 1024 * 1024 && W.klen <= 300);
#ifdef UPDATE
    ZV_ASSUME(W.klen == 8);
#endif
#ifdef INSERT
    ZV_ASSUME(W.klen != 8);
#endif
    W.vcrc = ND_U32();
    nondet_world_seq();
    nondet_world_arg(0, 3, 0);
    W.key = nondet_world_arg(1, W.klen, 0);
    for(int i = 0; i < 8; i++)
        if((uint32_t) i < W.klen) W.key[i] = W.K >> (8 * i);
    W.val = nondet_world_arg(2, W.vlen, 0);
#ifdef ZV_NATIVE
    if(W.r.crc == W.vcrc) W.r.crc = zdb_crc32(W.val, W.vlen);
    W.vcrc = zdb_crc32(W.val, W.vlen);
#endif
    nondet_track(1, W.val, W.vlen, CLS_VAL, W.vcrc);
    nondet_world_snapshot();
    command_set(W.client);
    CLAUSES(ZV_POST_1)
#ifndef INSERT
    ZV_COVER(nondet_acked() && UPD, "[C02] acknowledged update");
#endif
#ifndef UPDATE
    ZV_COVER(nondet_acked() && !UPD, "[C02] acknowledged insertion");
#endif
}
