#include "util.h"
void *vc_refs[] = { small_align, small_align_down, small_round, small_lb, small_getpagesize };
