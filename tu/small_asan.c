#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/small_asan.c"
void *vc_refs[] = { small_alloc_destroy, small_alloc_info };
