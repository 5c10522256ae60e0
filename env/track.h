#ifndef ZV_TRACK_H
#define ZV_TRACK_H
#include "zv.h"
#define ZV_TRACKS 6
/* blocks whose contents are known by class: 0 = entry not used */
typedef struct { const void *ptr; uint64_t len; int cls; uint32_t crc; } zv_track_t;
extern zv_track_t zv_track[ZV_TRACKS];
extern size_t zv_k, zv_p, zv_o;
void nondet_track(int i, const void *p, uint64_t len, int cls, uint32_t crc);
#define CLS_KEY   1   /* the key of the request */
#define CLS_VAL   2   /* the payload of the request */
#define CLS_OTHER 3   /* some other key */
#endif
