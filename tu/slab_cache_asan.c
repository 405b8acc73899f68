#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/slab_cache_asan.c"
void *vc_refs[] = { slab_cache_destroy, slab_real_size, slab_cache_used, slab_cache_set_thread };
