/* P10: size classes */
#include "drv.h"
#include <math.h>
#include "small_class.h"
#define P PROP(10)

static void
one(struct small_class *sc, uint64_t minal, uint32_t size)
{
	uint64_t G = sc->granularity;
	OP(P, "granularity %lu factor %g bits %u min %lu: offset by size %u\n", G, sc->actual_factor, sc->effective_bits, minal, size);
	unsigned c = small_class_calc_offset_by_size(sc, size);
	/* reference size of a class, in 128 bits */
	unsigned cls[2] = { c, c - 1 };
	unsigned __int128 v[2];
	for (int i = 0; i < 2; i++) {
		uint64_t k = (uint64_t)cls[i] + 1, e = sc->effective_bits;
		uint64_t lg = k >> e, lin = k & ((1ull << e) - 1);
		if (lg > 60) {
			CHECK(P, i == 1, "class %u of size %u is out of range", c, size);
			v[i] = ~0ull;
		} else
			v[i] = (unsigned __int128)(lg == 0 ? lin : (lin | (1ull << e)) << (lg - 1)) * G;
	}
	unsigned __int128 s = size <= minal ? G : (unsigned __int128)size - minal + G;
	CHECK(P, v[0] >= s, "class %u found for size %u is too small", c, size);
	CHECK(P, c == 0 || v[1] < s, "class %u found for size %u, but the one before is large enough", c, size);
	if (v[0] - G + minal <= UINT32_MAX && v[0] <= UINT32_MAX) {
		unsigned r = small_class_calc_size_by_offset(sc, c);
		CHECK(P, r == v[0] - G + minal, "size of class %u is %u, not %lu", c, r, (uint64_t)(v[0] - G + minal));
		CHECK(P, r >= size, "class size %u < %u", r, size);
		unsigned b = small_class_calc_offset_by_size(sc, r);
		CHECK(P, b == c, "size %u of class %u is found in class %u", r, c, b);
		if (c > 0) {
			unsigned q = small_class_calc_size_by_offset(sc, c - 1);
			CHECK(P, q < size || c == 0, "size %u of class %u is enough for %u, but class %u is found", q, c - 1, size, c);
		}
	}
}

static void
create(struct small_class *sc, unsigned g, float f, unsigned minal)
{
	float af = 0;
	memset(sc, 0x5a, sizeof(*sc));
	small_class_create(sc, g, f, minal, &af);
	CHECK(P, sc->granularity == g && 1u << sc->ignore_bits_count == g, "granularity fields");
	CHECK(P, sc->effective_bits < 25 && sc->effective_size == 1u << sc->effective_bits && sc->effective_mask == sc->effective_size - 1, "bits %u size %u mask %u", sc->effective_bits, sc->effective_size, sc->effective_mask);
	CHECK(P, sc->size_shift == minal - g && sc->size_shift_plus_1 == minal - g + 1, "shift %u", sc->size_shift);
	CHECK(P, af == sc->actual_factor, "factor reported %.9g stored %.9g", af, sc->actual_factor);
	double want = pow(2, 1. / (1ull << sc->effective_bits));
	CHECK(P, fabs(af - want) < 1e-6, "factor reported %.9g is not that of %u bits, %.9g", af, sc->effective_bits, want);
	/* documented: within a factor of sqrt(desired) of the desired one, as precise as a float is */
	double k = sqrt(f);
	CHECK(P, af >= f / k * (1 - 2e-6) && af <= f * k * (1 + 2e-6), "desired factor %.9g, actual %.9g", f, af);
}

static void
drv_history(uint64_t n)
{
	struct small_class sc;
	shm->nontrivial++;
	if (n == 0) {
		/* every desired factor: all floats in (1, 2] (every 64th in the quick tier) */
		union { float f; uint32_t u; } b, e;
		b.f = 1.f;
		e.f = 2.f;
		OP(P, "creation with %s float in (1, 2]\n", drv_thorough ? "every" : "every 16th");
		for (uint32_t u = b.u + 1; u <= e.u; u += drv_thorough || u < b.u + 5000 ? 1 : 16) {
			union { float f; uint32_t u; } x;
			x.u = u;
			create(&sc, 8, x.f, 16);
		}
		create(&sc, 8, 2.f, 16);
		return;
	}
	unsigned k = rnd(13), g = 1u << k, e = rnd(13);
	float f = rnd(2) ? powf(2, 1.f / powf(2, e)) : 1.f + (rnd(1 << 20) + 1) / (float)(1 << 20);
	unsigned minal = rnd(3) == 0 ? g : rnd(2) ? 1 + rndb(20) : 1 + rnd(4 * g);
	OP(P, "small_class_create(granularity %u, factor %.9g, min_alloc %u)\n", g, f, minal);
	create(&sc, g, f, minal);
	if (n < 200) {
		uint32_t len = shm->len;
		for (uint32_t s = 0; s < 70000; s++) {
			shm->len = len;
			one(&sc, minal, s);
		}
		return;
	}
	for (int i = 0; i < 2000; i++) {
		shm->len = 0;
		uint64_t s = rnd(3) == 0 ? minal + rndb(24) - 3 : rndb(30);
		if (s < 1u << 30)
			one(&sc, minal, s);
		/* around class sizes */
		unsigned c = rnd(3) == 0 ? rnd(40) : rndb(16);
		if ((c >> sc.effective_bits) + sc.effective_bits + k < 28) {
			uint32_t z = small_class_calc_size_by_offset(&sc, c);
			if (z < 1u << 30) {
				one(&sc, minal, z);
				one(&sc, minal, z + 1);
				one(&sc, minal, z - 1);
			}
		}
	}
}
