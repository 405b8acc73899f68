#include "small/lsregion.c"
void *vc_refs[] = { lsregion_svp_create, lsregion_create, lsregion_aligned_reserve, lsregion_reserve, lsregion_alloc,
	lsregion_aligned_alloc, lsregion_gc, lsregion_destroy, lsregion_used, lsregion_total };
