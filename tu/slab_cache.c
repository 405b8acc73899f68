#include "small/slab_cache.c"
void *vc_refs[] = { slab_cache_used, slab_from_ptr, slab_order, slab_order_size, slab_sizeof, slab_capacity, slab_from_data, slab_data };
