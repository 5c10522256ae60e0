/*
 * Trusted stand-ins for the diagnostics of libzdb.c / zdbd.c (no effect on
 * the state) and for the process-ending diep family.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include "libzdb.h"
#include "zv.h"

zdb_settings_t zdb_rootsettings;

void zdb_timelog(FILE *fp) { (void) fp; }
void *zdb_warnp(char *s) { (void) s; return NULL; }
void zdb_verbosep(char *p, char *s) { (void) p; (void) s; }
void zdb_hexdump(void *p, size_t n) { ZV_ASSERT(ZV_R_OK(p, n), "hexdump in bounds"); (void) p; (void) n; }
void zdb_fulldump(void *p, size_t n) { (void) p; (void) n; }
void zdb_tools_fulldump(void *p, size_t n) { (void) p; (void) n; }
void zdb_tools_hexdump(void *p, size_t n) { (void) p; (void) n; }
#ifndef ZV_NATIVE
void zdb_diep(char *s) { (void) s; __CPROVER_assume(0); }
#else
void zdb_diep(char *s) { zv_native_assume(0, s); }
#endif


