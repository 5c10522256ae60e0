/* nondeterministic inputs of the proofs */
#include "zv.h"
#include <stdlib.h>

#ifndef ZV_NATIVE
uint64_t nondet_u64(void);

uint64_t nondet_in(void) {
    uint64_t zv_log = nondet_u64();
    return zv_log;
}

void nondet_copy(void *dst, const void *src, size_t n);
void *nondet_alloc(size_t n) {
    return __CPROVER_allocate(n, 0);
}

/* memcpy for the trusted models (they must not call instrumented functions) */
void nondet_copy(void *dst, const void *src, size_t n) {
    if(n > 0) {
        char src_n[n];
        __CPROVER_array_copy(src_n, (char *) src);
        __CPROVER_array_replace((char *) dst, src_n);
    }
}

void nondet_fill(void *p, size_t n, size_t max) {
    /* recorded contents; blocks longer than max keep arbitrary, unrecorded ones */
    for(size_t i = 0; i < max; i++)
        if(i < n)
            ((uint8_t *) p)[i] = ND_BYTE();
}
#endif

/* the sources are compiled with -Dfree=zv_free (the verifier cannot take the
   address of its built-in free) */

#include <stdlib.h>
/* the entries of the world are statically allocated stand-ins of heap objects */
void *zv_heap[2];
bool zv_freed[2];
void zv_free(void *p) {
    for(int i = 0; i < 2; i++) {
        if(p && p == zv_heap[i]) {
            ZV_ASSERT(!zv_freed[i], "free: an object is freed one time");
            zv_freed[i] = true;
            return;
        }
    }
    free(p);
}
