#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/obuf_asan.c"
void *vc_refs[] = { obuf_size, obuf_iovcnt, obuf_create_svp, obuf_svp_to_ptr, obuf_reserve_cb, obuf_alloc_cb };
