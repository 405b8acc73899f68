/* P01: size helpers */
#include "drv.h"
#include "util.h"

static int
pos(uint64_t x)
{
	int r = -1;
	while (x != 0) {
		x >>= 1;
		r++;
	}
	return r;
}

static void
one(uint64_t size, uint64_t al)
{
	if (size <= UINT64_MAX - al) {
		OP(PROP(1), "small_align(%#lx, %#lx)\n", size, al);
		uint64_t r = small_align(size, al), q = size / al + (size % al != 0);
		CHECK(PROP(1), r == q * al, "small_align(%#lx, %#lx) = %#lx, not %#lx", size, al, r, q * al);
	}
	OP(PROP(1), "small_align_down(%#lx, %#lx)\n", size, al);
	uint64_t r = small_align_down(size, al);
	CHECK(PROP(1), r == size / al * al, "small_align_down(%#lx, %#lx) = %#lx", size, al, r);
	if (size <= 1ull << 63) {
		OP(PROP(1), "small_round(%#lx)\n", size);
		r = small_round(size);
		uint64_t want = size < 2 ? size : 1ull << (pos(size - 1) + 1);
		CHECK(PROP(1), r == want, "small_round(%#lx) = %#lx, not %#lx", size, r, want);
	}
	if (size != 0) {
		OP(PROP(1), "small_lb(%#lx)\n", size);
		r = small_lb(size);
		CHECK(PROP(1), r == (uint64_t)pos(size), "small_lb(%#lx) = %lu", size, r);
	}
}

static void
drv_history(uint64_t n)
{
	shm->nontrivial++;
	if (n == 0) {
		CHECK(PROP(1), small_getpagesize() > 0, "small_getpagesize() is not positive");
		if (drv_hint) {
			uint64_t a = 0, b = 1;
			if (sscanf(drv_hint, "size=%lu alignment=%lu", &a, &b) == 2 && b && !(b & (b - 1)))
				one(a, b);
		}
		for (int i = 0; i < 64; i++)
			for (int d = -66; d <= 66; d++)
				for (int j = 0; j < 64; j++) {
					shm->len = 0;
					one((1ull << i) + d, 1ull << j);
				}
		return;
	}
	for (int i = 0; i < 200; i++)
		one(rndb(64), 1ull << rnd(64));
}
