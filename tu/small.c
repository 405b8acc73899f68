#include "small/small.c"
void *vc_refs[] = { small_alloc_check, slab_from_data, slab_data, slab_from_ptr, mempool_free_slab, mempool_free_spare_slab, mempool_count };
