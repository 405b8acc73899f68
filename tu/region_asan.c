#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/region_asan.c"
void *vc_refs[] = { region_create, region_destroy, region_reserve, region_alloc, region_free, region_reset, region_used, region_total, region_alloc_cb, region_reserve_cb };
