#include "small/slab_arena.c"
