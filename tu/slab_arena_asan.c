#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/slab_arena_asan.c"
void *vc_refs[] = { slab_arena_destroy };
