#define ASAN_DEFINE_REGION_MACROS	/* the poisoning macros are calls */
#include "small/util.c"
void *vc_refs[] = { small_asan_payload_from_header, small_asan_header_from_payload };
