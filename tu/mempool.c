#include "small/mempool.c"
void *vc_refs[] = { mempool_create, mempool_free, mempool_free_slab, mempool_used, mempool_total, mempool_count, mempool_is_initialized,
	mempool_free_spare_slab, mempool_objsize_max, slab_from_ptr, mslab_sizeof };
