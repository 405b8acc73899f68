/* P26: static buffer */
#include "drv.h"
#include "static.h"
#define P PROP(26)
#define SZ ((size_t)SMALL_STATIC_SIZE)

static size_t
sz(void)
{
	switch (rnd(9)) {
	case 0: return rnd(20);
	case 1: return SZ - rnd(40);
	case 2: return SZ + rnd(40);
	case 3: return rndb(64);
	case 4: return SIZE_MAX - rndb(14);
	case 5: return SZ - static_storage_pos + rnd(40) - 20;
	default: return rndb(14);
	}
}

static void
drv_history(uint64_t n)
{
	static unsigned char shadow[SMALL_STATIC_SIZE];
	static unsigned gen;
	char *buf = static_storage_buffer;
	size_t low = 0; /* start of what is allocated since the last wrap */
	OP(P, "static_reset()\n");
	static_reset();
	char *end = buf;
	char *rsv = NULL;
	size_t rsv_size = 0, rsv_al = 0;
	for (int i = 0; i < 150; i++) {
		size_t s = sz(), al = rnd(2) ? 1ull << rnd(8) : 1ull << rnd(14), pos = static_storage_pos;
		if (rsv && rnd(2)) {
			s = rsv_size - rnd(rsv_size + 1) * rnd(2);
			al = rsv_al;
		}
		int k = rnd(4);
		char *r;
		bool reserve = k == 0 || k == 2;
		if (k < 2)
			al = 1;
		OP(P, "pos %zu: %s(%zu, %zu)\n", pos, k == 0 ? "static_reserve" : k == 1 ? "static_alloc" : k == 2 ? "static_aligned_reserve" : "static_aligned_alloc", s, al);
		r = k == 0 ? static_reserve(s) : k == 1 ? static_alloc(s) : k == 2 ? static_aligned_reserve(s, al) : static_aligned_alloc(s, al);
		if (s > SZ) {
			CHECK(P, r == NULL, "%zu bytes are granted", s);
			CHECK(P, static_storage_pos == pos, "a refused request moved the position");
		}
		if (r == NULL) {
			CHECK(P, s > SZ || s + al - 1 > SZ, "a fitting request of %zu is refused", s);
			CHECK(P, static_storage_pos == pos, "a refused request moved the position");
			continue;
		}
		CHECK(P, r >= buf && r <= buf + SZ && s <= (size_t)(buf + SZ - r), "block of %zu at offset %td is outside the buffer", s, r - buf);
		CHECK(P, (uintptr_t)r % al == 0, "%p is not aligned to %zu", r, al);
		CHECK(P, r >= end || reserve || (r - buf < (ptrdiff_t)al), "block at %td overlaps the one before, ending at %td", r - buf, end - buf);
		if (r >= end && s + al - 1 <= (size_t)(buf + SZ - end))
			CHECK(P, (size_t)(r - end) < al, "a gap of %td", r - end);
		else if (r < end)
			CHECK(P, s + al - 1 > (size_t)(buf + SZ - end) , "wrapped though %zu fits after %td", s, end - buf);
		if (rsv && al == rsv_al && s <= rsv_size)
			CHECK(P, r == rsv, "allocation of %zu after a reservation of %zu moved from %td to %td", s, rsv_size, rsv - buf, r - buf);
		if (reserve) {
			rsv = r;
			rsv_size = s;
			rsv_al = al;
			if (static_storage_pos == 0 && s + al - 1 > (size_t)(buf + SZ - end))
				end = buf; /* recycled */
			CHECK(P, static_storage_pos == (size_t)(end - buf), "a reservation moved the position to %zu", static_storage_pos);
		} else {
			rsv = NULL;
			end = r + s;
			memset(r, i, s);
			CHECK(P, static_storage_pos == (size_t)(end - buf), "position %zu after a block ending at %td", static_storage_pos, end - buf);
		}
		if (rnd(30) == 0) {
			OP(P, "static_reset()\n");
			static_reset();
			end = buf;
			rsv = NULL;
			CHECK(P, static_storage_pos == 0, "reset");
		}
	}
	shm->nontrivial++;
}
