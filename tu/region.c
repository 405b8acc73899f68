#include "small/region.c"
void *vc_refs[] = { region_create, region_set_callbacks, region_destroy, rslab_sizeof, region_reserve, region_alloc,
	region_aligned_reserve, region_aligned_alloc, region_reset, region_used, region_total, region_free_after,
	region_alloc_cb, region_reserve_cb };
