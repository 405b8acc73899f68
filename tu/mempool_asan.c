#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/mempool_asan.c"
void *vc_refs[] = { mempool_is_initialized, mempool_count, mempool_used, mempool_stats };
