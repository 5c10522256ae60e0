#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include "libzdb.h"
#include "zdbd.h"
#include "zv.h"

zdbd_settings_t zdbd_rootsettings;
void zdbd_timelog(FILE *fp) { (void) fp; }
void *zdbd_warnp(char *s) { (void) s; return NULL; }
void zdbd_verbosep(char *p, char *s) { (void) p; (void) s; }
void zdbd_hexdump(void *p, size_t n) { (void) p; (void) n; }
void zdbd_fulldump(void *p, size_t n) { (void) p; (void) n; }
#ifndef ZV_NATIVE
void zdbd_diep(char *s) { (void) s; __CPROVER_assume(0); }
#else
void zdbd_diep(char *s) { zv_native_assume(0, s); }
#endif
