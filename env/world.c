#include "world.h"

world_t W;


/* the objects of the world are static and typed: cheap for the verifier */
static index_root_t zw_index;
static data_root_t zw_data;
static namespace_t zw_ns;
static char zw_indexfile[ZDB_PATH_MAX + 1], zw_datafile[ZDB_PATH_MAX + 1];
#include "shadow.h"
static zvs_index_entry_t zw_entry0, zw_entry1, zw_reusable;
static zvs_index_item_t zw_transition;
static index_branch_t zw_branch;
static index_branch_t *zw_branches[4];
static redis_client_t zw_client;
static resp_request_t zw_request;
static resp_object_t zw_obj[8];
static resp_object_t *zw_argv[8];

static void nondet_slot(int i, char dir, char kind, uint32_t id, uint64_t min) {
    G.exists[i] = true;
    G.dir[i] = dir;
    G.kind[i] = kind;
    G.id[i] = id;
    G.size[i] = ND_U64();
    ZV_ASSUME(G.size[i] >= min && G.size[i] <= MAXFILE);
    G.minsize[i] = G.size[i];
    G.writes[i] = 0;
}

/* settings, namespace, files and descriptors */
void nondet_world_base(int mode) {
    zdb_rootsettings.hook = NULL;
    zdb_rootsettings.datasize = ND_SIZE();
    zdb_rootsettings.maxsize = ND_SIZE();
    zdb_rootsettings.mode = ND_INT();
    zdb_rootsettings.sync = ND_BOOL();

    G.faults = ND_BOOL();
    G.now = (long) ND_U32();

    index_root_t *x = &zw_index;
    data_root_t *d = &zw_data;
    namespace_t *ns = &zw_ns;
    uint32_t cur = ND_U32(), oi = ND_U32(), od = ND_U32();

    ZV_ASSUME(cur < 0x00100000 && oi < cur + (cur == 0) && od < cur + (cur == 0));
    nondet_slot(S_IDX, 'I', 'i', cur, IHDR);
    nondet_slot(S_DAT, 'D', 'd', cur, DHDR);
    if(cur > 0) {
        nondet_slot(S_OIDX, 'I', 'i', oi, IHDR);
        nondet_slot(S_ODAT, 'D', 'd', od, DHDR);
    }

    x->indexdir = "I";
    x->indexfile = zw_indexfile;
    x->indexid = cur;
    x->indexfd = nondet_open_slot(S_IDX, true, true);
    x->nextentry = ND_U64();
    x->nextid = ND_U32();
    x->sync = ND_BOOL();
    x->synctime = ND_U8();
    x->lastsync = ND_U32();
    x->mode = mode;
    x->rotate = ND_U32();
    x->updated = ND_BOOL();
    x->secure = ND_BOOL();
    x->namespace = ns;
    x->seqid = NULL;
    x->branches = NULL;
    x->rbran = NULL;
    x->status = INDEX_HEALTHY;
    x->stats.size = ND_SIZE();
    x->stats.datasize = ND_SIZE();
    x->stats.entries = ND_SIZE();
    x->stats.hits = ND_SIZE();
    x->stats.faults = ND_SIZE();
    x->stats.errors = ND_SIZE();
    x->stats.lasterr = ND_U32();
    ZV_ASSUME(x->stats.datasize < (1ULL << 60) && x->stats.size < (1ULL << 60) && x->stats.entries < (1ULL << 60));
    x->dirty.maxid = cur;
    x->dirty.length = ((size_t) cur + 8) / 8;
    x->dirty.map = nondet_alloc(x->dirty.length);
    nondet_fill(x->dirty.map, x->dirty.length, 0);
    x->previous = ND_U32();

    d->datadir = "D";
    d->datafile = zw_datafile;
    d->dataid = cur;
    d->datafd = nondet_open_slot(S_DAT, true, true);
    d->sync = ND_BOOL();
    d->synctime = ND_U8();
    d->lastsync = ND_U32();
    d->previous = ND_U32();
    d->secure = ND_BOOL();
    d->stats.hits = ND_SIZE();
    d->stats.faults = ND_SIZE();
    d->stats.errors = ND_SIZE();
    d->stats.lasterr = ND_U32();

    ns->name = "N";
    ns->password = NULL;
    ns->indexpath = "I";
    ns->datapath = "D";
    ns->index = x;
    ns->data = d;
    ns->public = ND_BOOL();
    ns->maxsize = ND_SIZE();
    ZV_ASSUME(ns->maxsize < (1ULL << 60));
    ns->idlist = 0;
    ns->version = 1;
    ns->locked = ND_U8() % 3;
    ns->worm = ND_BOOL();

    index_transition = (index_item_t *) &zw_transition;
    index_reusable_entry = (index_entry_t *) &zw_reusable;

    W.ns = ns;
    W.index = x;
    W.data = d;
}

/* an arbitrary live entry, well formed with respect to the files */
/* equal bytes, as far as specifications look */
void nondet_same_bytes(uint8_t *a, const uint8_t *b, size_t n) {
#ifndef ZV_NATIVE
    if(zv_k < n) a[zv_k] = b[zv_k];
    if(zv_p < n) a[zv_p] = b[zv_p];
#else
    nondet_copy(a, b, n);
#endif
}

index_entry_t *nondet_world_entry(int i, uint32_t klen, void *ns) {
#ifndef ZV_NATIVE
    index_entry_t *e = (index_entry_t *) (i ? &zw_entry1 : &zw_entry0);
    zv_heap[i] = e;
    zv_freed[i] = false;
#else
    index_entry_t *e = malloc(sizeof(zvs_index_entry_t));
#endif

    e->next = NULL;
    e->namespace = ns;
    e->idlength = klen;
    e->offset = ND_U32();
    e->idxoffset = ND_U32();
    e->length = ND_U32();
    e->flags = 0;
    e->dataid = ND_BOOL() ? G.id[S_DAT] : G.id[S_ODAT];
    e->indexid = ND_BOOL() ? G.id[S_IDX] : G.id[S_OIDX];
    e->crc = ND_BOOL() ? W.vcrc : ND_U32();
    e->parentid = ND_U32();
    e->parentoff = ND_U32();
    e->timestamp = ND_U32();

    int is = e->indexid == G.id[S_IDX] ? S_IDX : S_OIDX;
    int ds = e->dataid == G.id[S_DAT] ? S_DAT : S_ODAT;
    ZV_ASSUME(e->idxoffset >= IHDR && e->idxoffset + IREC + klen <= G.size[is]);
    ZV_ASSUME(e->offset >= DHDR && e->offset + DREC + klen + (uint64_t) e->length <= G.size[ds]);
    ZV_ASSUME(e->length <= 8 * 1024 * 1024);
    /* the record on disk is the live one */
    if(G.w_slot == is && G.w_off == (uint64_t) e->idxoffset + offsetof(index_item_t, flags))
        ZV_ASSUME(G.w_val == e->flags);
    return e;
}

void nondet_world_client(int argc) {
    redis_client_t *c = &zw_client;
    resp_request_t *r = &zw_request;

    *c = (redis_client_t) {0};
    c->fd = 5;
    c->ns = W.ns;
    c->commands = ND_SIZE();
    c->writable = ND_BOOL();
    c->admin = ND_BOOL();
    c->mirror = ND_BOOL();
    c->master = 0;
    c->request = r;
    c->responses = NULL;
    c->responsetail = NULL;

    r->state = RESP_FILLIN_HEADER;
    r->fillin = argc;
    r->argc = argc;
    r->owner = 0;
    r->argv = zw_argv;
    W.client = c;
    W.req = r;
}

/* argument i: arbitrary bytes, length bytes long, followed by CRLF */
uint8_t *nondet_world_arg(int i, int length, int small) {
    resp_object_t *o = &zw_obj[i];
    o->type = STRING;
    o->length = length;
    o->filled = length + 2;
    o->size = length + 2;
    o->buffer = nondet_alloc(length + 2);
    if(small)
        nondet_fill(o->buffer, length, small);
    W.req->argv[i] = o;
    return o->buffer;
}

/* checksums of the request key and payload */
void nondet_world_hash(void) {
    W.khash = ND_U32();
    W.vcrc = ND_U32();
#ifdef ZV_NATIVE
    W.khash = zdb_crc32(W.key, W.klen);
    if(W.val)
        W.vcrc = zdb_crc32(W.val, W.vlen);
#endif
    nondet_track(0, W.key, W.klen, CLS_KEY, W.khash);
    if(W.val)
        nondet_track(1, W.val, W.vlen, CLS_VAL, W.vcrc);
}

/* key-value bucket of the request key: absent, or arbitrary length with an
   optional entry of the key and a last entry */
void nondet_world_bucket(void) {
    index_root_t *x = W.index;
    buckets_mask = 3;
    buckets_branches = 4;
    x->branches = zw_branches;
    for(int i = 0; i < 4; i++)
        x->branches[i] = NULL;
    x->rbran = x->branches;
    W.bucket = W.khash & buckets_mask;
    W.E = W.L = NULL;
    W.branch = NULL;

    if(ND_BOOL()) {
        index_branch_t *b = &zw_branch;
        W.branch = b;
        x->branches[W.bucket] = b;
        b->list = b->last = NULL;
        b->length = 0;
        if(ND_BOOL()) {
            /* another entry, somewhere before the last one */
            uint8_t lk = ND_U8();
            bool own = ND_BOOL();
            index_entry_t *first = nondet_world_entry(0, lk, own ? W.ns : (void *) W.client);
            if(own)
                nondet_track(2, first->id, lk, CLS_OTHER, ND_U32());
            b->list = b->last = W.O = first;
            b->length = 1;
        }
        if(W.klen && ND_BOOL()) {
            W.E = nondet_world_entry(1, W.klen, W.ns);
            nondet_track(3, W.E->id, W.klen, CLS_KEY, W.khash);
            nondet_same_bytes(W.E->id, W.key, W.klen);
            if(b->list) {
                if(ND_BOOL()) {
                    b->last->next = W.E;
                    b->last = W.E;
                } else {
                    W.E->next = b->list;
                    b->list = W.E;
                }
            } else {
                b->list = b->last = W.E;
            }
            b->length++;
        }
        W.L = b->last;
    }
    /* the counters count these entries */
    ZV_ASSUME(x->stats.datasize >= (uint64_t) (W.E ? W.E->length : 0) + (W.O ? W.O->length : 0));
    ZV_ASSUME(x->stats.entries >= (W.E != NULL) + (W.O != NULL));
}

void nondet_world_watch(void) {
    G = (zv_ghost_t) {0};
    W = (world_t) {0};
    for(int i = 0; i < ZV_TRACKS; i++)
        zv_track[i].cls = 0;
    zv_k = ND_SIZE();
    zv_p = ND_SIZE();
    G.w_slot = ND_U8() % ZV_SLOTS;
    G.w_off = ND_U64();
    G.w_val = ND_U8();
    G.ow_off = ND_U64();
    zv_o = G.ow_off;
}

void nondet_world_snapshot(void) {
    if(W.E)
        W.e = *W.E;
    if(W.O)
        W.o = *W.O;
    W.idx = *W.index;
    W.dat = *W.data;
    W.nsv = *W.ns;
    W.cl = *W.client;
    W.blen = W.branch ? W.branch->length : 0;
    G.events = 0;
    W.g = G;
}

/* the header of E's record in its data file: what SET wrote, or anything */
void nondet_world_dhdr(bool consistent) {
    if(!W.E) return;
    for(int i = 0; i < 18; i++)
        W.dhdr[i] = ND_BYTE();
    if(consistent) {
        ZV_ASSUME(W.dhdr[0] == W.E->idlength);
        for(int i = 0; i < 4; i++)
            ZV_ASSUME(W.dhdr[1 + i] == (uint8_t) (W.E->length >> (8 * i)));
    }
    int ds = W.E->dataid == G.id[S_DAT] ? S_DAT : S_ODAT;
    G.reg[0] = (zv_reg_t) { .slot = ds, .off = W.E->offset, .len = 18, .bytes = W.dhdr };
    if(G.w_slot == ds && G.w_off >= W.E->offset && G.w_off < (uint64_t) W.E->offset + 18)
        ZV_ASSUME(G.w_val == W.dhdr[G.w_off - W.E->offset]);
}

static index_seqid_t zw_seqid;
static index_seqmap_t zw_seqmap[4];

/* sequential namespace: one or two files of the map, whose records are
   numbered without holes; W.K is the key of the request, W.rec the record at
   its place when it has one */
void nondet_world_seq(void) {
    index_root_t *x = W.index;
    x->branches = NULL;
    x->rbran = zw_branches;
    x->seqid = &zw_seqid;
    zw_seqid.allocated = 1024;
    zw_seqid.seqmap = zw_seqmap;

    bool two = x->indexid > 0 && ND_BOOL();
    uint64_t n0 = ND_U32(), n1 = ND_U32();
    uint64_t s0 = ND_U64();
    ZV_ASSUME(s0 < (1ULL << 40));
    ZV_ASSUME(n0 >= 1 && n0 < 90000000 && n1 < 90000000);
    uint64_t s1 = two ? s0 + n0 : s0;
    if(two) {
        zw_seqmap[0] = (index_seqmap_t) { .seqid = s0, .fileid = G.id[S_OIDX] };
        zw_seqmap[1] = (index_seqmap_t) { .seqid = s1, .fileid = x->indexid };
        zw_seqid.length = 2;
        ZV_ASSUME(G.size[S_OIDX] == IHDR + n0 * SEQREC);
    } else {
        zw_seqmap[0] = (index_seqmap_t) { .seqid = s0, .fileid = x->indexid };
        zw_seqid.length = 1;
    }
    ZV_ASSUME(G.size[S_IDX] == IHDR + n1 * SEQREC);
    x->nextentry = s1 + n1;
    x->nextid = n1;
    W.slast = s1;
    W.total = s1 + n1;

    /* a key that was given out, or any other one */
    W.has = ND_BOOL();
    W.K = ND_U64();
    if(!W.has)
        ZV_ASSUME(W.K >= W.total);
    if(W.has) {
        bool old = two && ND_BOOL();
        uint64_t rel = ND_U32() & 0x7ffffff;
        ZV_ASSUME(rel < (old ? n0 : n1));
        W.kslot = old ? S_OIDX : S_IDX;
        W.kbase = old ? s0 : s1;
        W.K = W.kbase + rel;
        W.koff = IHDR + rel * SEQREC;
        index_item_t r;
        r.idlength = 8;
        r.offset = ND_U32();
        r.length = ND_U32();
        r.previous = ND_U32();
        r.flags = ND_BOOL() ? INDEX_ENTRY_DELETED : 0;
        W.rdata = ND_BOOL() ? S_DAT : S_ODAT;
        r.dataid = G.id[W.rdata];
        r.timestamp = ND_U32();
        r.crc = ND_BOOL() ? W.vcrc : ND_U32();
        r.parentid = ND_U32();
        r.parentoff = ND_U32();
        ZV_ASSUME(G.exists[W.rdata]);
        ZV_ASSUME(r.length <= 8 * 1024 * 1024);
        ZV_ASSUME(r.offset >= DHDR && r.offset + DREC + 8 + (uint64_t) r.length <= G.size[W.rdata]);
        W.r = r;
        const uint8_t *b = (const uint8_t *) &W.r;
        for(int i = 0; i < 34; i++)
            W.rec[i] = b[i];
        /* a deleted record may be the archived copy of another key */
        uint64_t own = r.flags && ND_BOOL() ? ND_U64() : W.K;
        for(int i = 0; i < 8; i++)
            W.rec[34 + i] = own >> (8 * i);
        W.live = r.flags == 0;
        G.reg[1] = (zv_reg_t) { .slot = W.kslot, .off = W.koff, .len = SEQREC, .bytes = W.rec };
        if(G.w_slot == W.kslot && G.w_off >= W.koff && G.w_off < W.koff + SEQREC)
            ZV_ASSUME(G.w_val == W.rec[G.w_off - W.koff]);
        ZV_ASSUME(!W.live || (x->stats.datasize >= r.length && x->stats.entries >= 1));
        /* header of its data record */
        for(int i = 0; i < 18; i++)
            W.dhdr[i] = ND_BYTE();
        ZV_ASSUME(W.dhdr[0] == 8);
        for(int i = 0; i < 4; i++)
            ZV_ASSUME(W.dhdr[1 + i] == (uint8_t) (r.length >> (8 * i)));
        G.reg[0] = (zv_reg_t) { .slot = W.rdata, .off = r.offset, .len = 18, .bytes = W.dhdr };
        if(G.w_slot == W.rdata && G.w_off >= r.offset && G.w_off < (uint64_t) r.offset + 18)
            ZV_ASSUME(G.w_val == W.dhdr[G.w_off - r.offset]);
    }
}
