/*
 * Force-included in front of every real source compiled for the verifier
 * (-include). Renames only:
 *  - free: the verifier cannot take the address of its built-in;
 *  - memcpy of a length that is not a compile-time constant: see env/mem.c.
 */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <string.h>
#include <stdlib.h>
#define free zv_free
#define memcpy(d, s, n) (__builtin_constant_p(n) ? memcpy((d), (s), (n)) : zv_memcpy((d), (s), (n)))
void *zv_memcpy(void *dst, const void *src, size_t n);
void zv_free(void *p);
