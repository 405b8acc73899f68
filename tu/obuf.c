#include "small/obuf.c"
/* obuf_create_svp returns its savepoint by value: stored where the specification can name it */
void
vc_create_svp(struct obuf_svp *svp, struct obuf *b)
{
	*svp = obuf_create_svp(b);
}
void *vc_refs[] = {obuf_reserve, obuf_alloc, obuf_size, obuf_iovcnt, obuf_is_initialized, obuf_svp_reset, obuf_svp_to_ptr, obuf_reserve_cb, obuf_alloc_cb, vc_create_svp};
