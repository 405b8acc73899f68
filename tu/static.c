#include "small/static.c"
void *vc_refs[] = { static_reset, static_reserve, static_alloc, static_aligned_reserve, static_aligned_alloc };
