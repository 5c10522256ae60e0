#ifndef ZV_OS_S_H
#define ZV_OS_S_H
#define ZV_PATH 160
#define ZV_DESC 420
/* the one namespace descriptor file of the session units */
typedef struct zv_desc {
    bool nofile;     /* cannot be opened */
    bool isopen;
    unsigned opens, writes;
    uint64_t pos, size;
    char path[ZV_PATH];
    uint8_t bytes[ZV_DESC];
} zv_desc_t;
extern zv_desc_t D;
#endif
