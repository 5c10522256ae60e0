/* native replay of a verifier counterexample on the compiled real code */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "zv.h"

static uint64_t *vals;
static size_t nvals, at;

__attribute__((constructor)) static void load(void) {
    FILE *fp = fopen(getenv("ZV_TRACE") ? getenv("ZV_TRACE") : "trace.txt", "r");
    char line[64];
    vals = malloc(sizeof(uint64_t) * 1000000);
    while(fp && fgets(line, sizeof(line), fp))
        vals[nvals++] = strtoull(line, NULL, 10);
    if(fp)
        fclose(fp);
}

uint64_t nondet_in(void) { return at < nvals ? vals[at++] : 0; }

void zv_native_assume(int ok, const char *what) {
    if(!ok) {
        fprintf(stderr, "replay leaves the assumed states: %s\n", what);
        _exit(3);
    }
}
void zv_native_assert(int ok, const char *what) {
    if(!ok) {
        fprintf(stderr, "REPLAY: obligation fails on the real code: %s\n", what);
        _exit(42);
    }
}
void *nondet_alloc(size_t n) {
    void *p = malloc(n ? n : 1);
    for(size_t i = 0; i < n && i < (1 << 20); i++)
        ((uint8_t *) p)[i] = 'A' + (i * 7 + n) % 26;
    return p;
}
void nondet_copy(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void nondet_fill(void *p, size_t n, size_t max) {
    for(size_t i = 0; i < max; i++)
        if(i < n)
            ((uint8_t *) p)[i] = (uint8_t) nondet_in();
}
void harness(void);
int main(void) {
    harness();
    fprintf(stderr, "replay: every obligation holds on the real code\n");
    return 0;
}
