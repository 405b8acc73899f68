#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/lsregion_asan.c"
void *vc_refs[] = { lsregion_create, lsregion_reserve, lsregion_alloc, lsregion_destroy, lsregion_used, lsregion_total };
