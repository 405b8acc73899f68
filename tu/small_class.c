#include "small/small_class.c"
void *vc_refs[] = { small_class_fls, small_class_calc_offset_by_size, small_class_calc_size_by_offset };
