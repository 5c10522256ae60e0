#include "world.h"
#define CLASS_TABLE
void nondet_world_base(int mode);
index_entry_t *nondet_world_entry(int i, uint32_t klen, void *ns);
void nondet_world_client(int argc);
uint8_t *nondet_world_arg(int i, int length, int small);
void nondet_world_bucket(void);
void nondet_world_watch(void);
void nondet_world_snapshot(void);
void nondet_same_bytes(uint8_t *a, const uint8_t *b, size_t n);
void nondet_world_hash(void);
void nondet_world_dhdr(bool consistent);
void nondet_world_seq(void);
