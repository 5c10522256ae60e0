/* no hook program is configured in the proofs: none of these may be reached */
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <sys/types.h>
#include "hook.h"
#include "zv.h"
hook_t *hook_new(char *n, size_t c) { (void) n; (void) c; ZV_ASSERT(0, "hook used with no hook configured"); return NULL; }
int hook_append(hook_t *h, char *a) { (void) h; (void) a; ZV_ASSERT(0, "hook used with no hook configured"); return 0; }
pid_t hook_execute(hook_t *h) { (void) h; ZV_ASSERT(0, "hook used with no hook configured"); return 0; }
int hook_execute_wait(hook_t *h) { (void) h; ZV_ASSERT(0, "hook used with no hook configured"); return 0; }
