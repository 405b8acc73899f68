#include "small/ibuf.c"
void *vc_refs[] = { ibuf_used, ibuf_unused, ibuf_capacity, ibuf_pos, ibuf_reset, ibuf_reserve, ibuf_alloc, ibuf_discard,
	ibuf_truncate, ibuf_consume, ibuf_consume_before, ibuf_reserve_cb, ibuf_alloc_cb };
