#include "small/matras.c"
void *vc_refs[] = { matras_view_get, matras_get, matras_head_read_view, matras_is_read_view_created, matras_needs_touch, matras_stats_create };
