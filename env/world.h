#ifndef ZV_WORLD_H
#define ZV_WORLD_H
/*
 * The arbitrary well-formed state the operations are proved from: one
 * namespace, its index and data files (current ones and one older file of
 * each), the in-memory entry of the request key when there is one, the tail
 * of its bucket, one client and its request.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stddef.h>
#include "libzdb.h"
#include "zdbd.h"
#include "redis.h"
#include "commands.h"
#include "zv.h"
#include "track.h"

extern zdb_settings_t zdb_rootsettings;

#define S_IDX  0      /* current index file */
#define S_DAT  1      /* current data file */
#define S_OIDX 2      /* an older index file */
#define S_ODAT 3      /* an older data file */
#define S_NEW1 4      /* created by the call */
#define S_NEW2 5

#define IHDR  ((uint64_t) sizeof(index_header_t))
#define DHDR  ((uint64_t) sizeof(data_header_t))
#define IREC  ((uint64_t) sizeof(index_item_t))
#define SEQREC ((uint64_t) (sizeof(index_item_t) + 8))
#define DREC  ((uint64_t) sizeof(data_entry_header_t))
#define MAXFILE 0xF0000000ULL   /* offsets are 32 bits wide */

typedef struct world {
    redis_client_t *client;
    namespace_t *ns;
    index_root_t *index;
    data_root_t *data;
    resp_request_t *req;
    uint8_t *key;   uint32_t klen;
    uint8_t *val;   uint32_t vlen;

    index_entry_t *E;       /* entry of the request key, or NULL */
    index_entry_t *L;       /* last entry of the bucket (may be E), or NULL */
    index_entry_t *O;       /* an entry of another key in the bucket, or NULL */
    index_branch_t *branch; /* bucket of the request key, or NULL */
    uint32_t bucket;
    uint32_t khash;
    uint8_t dhdr[18];       /* header of the data record of E */

    /* sequential namespaces */
    uint64_t K, total, slast, kbase, koff;
    bool has, live;         /* K was handed out; K is not deleted */
    int kslot, rdata;       /* index file of its record, data file of its payload */
    index_item_t r;
    uint8_t rec[48];

    /* pre-state */
    index_entry_t e, o;
    index_root_t idx;
    data_root_t dat;
    namespace_t nsv;
    redis_client_t cl;
    zv_ghost_t g;
    uint64_t blen;
    uint32_t vcrc;
} world_t;

extern world_t W;

#endif
