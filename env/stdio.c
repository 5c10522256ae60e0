/*
 * Trusted model of the printf family: messages have no effect on the state;
 * sprintf renders %s faithfully and numbers by an injective fixed-width code
 * (8 letters a..p for 32-bit values, 16 for 64-bit ones).
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include "zv.h"

static int nondet_vfmt(char *s, size_t max, const char *f, va_list ap) {
    int k = 0;
    for(int i = 0; f[i]; i++) {
        if(f[i] != '%') {
            if((size_t) k < max) s[k] = f[i];
            k++;
            continue;
        }
        i++;
        bool wide = false;
        int prec = -1;
        while((f[i] >= '0' && f[i] <= '9') || f[i] == '.' || f[i] == '-' || f[i] == '*' || f[i] == 'l' || f[i] == 'z') {
            if(f[i] == 'l' || f[i] == 'z') wide = true;
            if(f[i] == '*') prec = va_arg(ap, int);
            i++;
        }
        if(f[i] == 's') {
            char *p = va_arg(ap, char *);
            for(int j = 0; (prec < 0 || j < prec) && p[j]; j++) {
                if((size_t) k < max) s[k] = p[j];
                k++;
            }
        } else if(f[i] == '%') {
            if((size_t) k < max) s[k] = '%';
            k++;
        } else if(f[i] == 'f') {
            (void) va_arg(ap, double);
            if((size_t) k < max) s[k] = 'f';
            k++;
        } else {
            uint64_t v = wide ? va_arg(ap, uint64_t) : va_arg(ap, uint32_t);
            int digits = wide ? 16 : 8;
            for(int b = 0; b < digits; b++) {
                if((size_t) k < max) s[k] = 'a' + ((v >> (4 * (digits - 1 - b))) & 15);
                k++;
            }
        }
    }
    return k;
}

int sprintf(char *s, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int k = nondet_vfmt(s, (size_t) -1, f, ap);
    va_end(ap);
    s[k] = 0;
    return k;
}

int snprintf(char *s, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int k = nondet_vfmt(s, n ? n - 1 : 0, f, ap);
    va_end(ap);
    if(n)
        s[(size_t) k < n - 1 ? (size_t) k : n - 1] = 0;
    return k;
}

int printf(const char *f, ...) { (void) f; return 0; }
int fprintf(FILE *fp, const char *f, ...) { (void) fp; (void) f; return 0; }
int puts(const char *s) { (void) s; return 0; }
int putchar(int c) { return c; }

int nondet_asprintf(char **out, const char *f, va_list ap) {
    char *p = malloc(160);
    int k = nondet_vfmt(p, 159, f, ap);
    ZV_ASSERT(k < 160, "asprintf: longer than the model holds");
    ZV_ASSUME(k < 160);
    p[k] = 0;
    *out = p;
    return k;
}
