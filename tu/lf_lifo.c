#include <stddef.h>
#include "lf_lifo.h"
void *vc_refs[] = { lf_lifo_init, lf_lifo_push, lf_lifo_pop, lf_lifo_is_empty };
