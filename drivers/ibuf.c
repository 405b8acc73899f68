/* P17: an input buffer against a queue of bytes */
#include "drv.h"
#include "cache.h"
#include "ibuf.h"
#define P PROP(17)

static struct ibuf B;
static uint64_t head, tail;	/* the unread bytes are numbers head..tail-1 of a stream */
static size_t start;

static unsigned char
at(uint64_t i)
{
	return (unsigned char)(i * 131 + (i >> 8) * 7 + (i >> 16));
}

static void
check(void)
{
	CHECK(P, B.buf <= B.rpos && B.rpos <= B.wpos && B.wpos <= B.end, "positions %p %p %p %p are out of order", B.buf, B.rpos, B.wpos, B.end);
	CHECK(P, ibuf_used(&B) == tail - head, "%zu unread bytes, not %zu", ibuf_used(&B), (size_t)(tail - head));
	CHECK(P, ibuf_capacity(&B) == (size_t)(B.end - B.buf) && ibuf_unused(&B) == (size_t)(B.end - B.wpos) &&
	      ibuf_pos(&B) == (size_t)(B.rpos - B.buf), "the figures do not match the positions");
	CHECK(P, B.slabc == &ccache && B.start_capacity == start, "cache or start capacity changed");
	size_t n = tail - head, step = n > 5000 ? 1 + n / 2000 : 1;
	for (size_t i = 0; i < n; i += i < 64 || i + 300 > n ? 1 : step)
		CHECK(P, (unsigned char)B.rpos[i] == at(head + i), "unread byte %zu of %zu has changed", i, n);
	if (B.buf != NULL) {
		struct slab *s = slab_from_data(B.buf);
		CHECK(P, B.end == B.buf + slab_capacity(s), "the buffer is not its whole slab");
		CHECK(P, slab_cache_used(&ccache) == s->size, "the cache has %zu in use, the buffer %zu", slab_cache_used(&ccache), s->size);
	} else
		CHECK(P, B.end == NULL && slab_cache_used(&ccache) == 0, "no buffer, but %zu bytes in use", slab_cache_used(&ccache));
}

static size_t
pick(void)
{
	size_t cap = ibuf_capacity(&B), used = ibuf_used(&B), un = ibuf_unused(&B);
	switch (rnd(12)) {
	case 0: return rndb(22);
	case 1: return un + rnd(3) - 1;
	case 2: return cap - used + rnd(3) - 1;
	case 3: return cap + rnd(3) - 1;
	case 4: return 2 * cap - used + rnd(3) - 1;
	case 5: return SIZE_MAX - rndb(12);
	case 6: return SIZE_MAX / 2 - used + rnd(3) - 1;
	case 7: return rnd(20000);
	case 8: return 0;
	default: return 1 + rnd(200);
	}
}

static void
drv_history(uint64_t n)
{
	size_t limit = rnd(3) == 0 ? 8 * 65536 + rnd(1 << 20) : (size_t)1 << 30;
	OP(P, "open\n");
	cache_open(limit, 0, rnd_slab_size());
	start = rnd(4) == 0 ? 1 + rnd(10) : rnd(4) == 0 ? 1 + rnd(300000) : 1 + rnd(9000);
	ibuf_create(&B, &ccache, start);
	LOG("slab_size %u quota %zu start %zu\n", carena.slab_size, limit, start);
	head = tail = 0;
	int steps = 100 + rnd(200);
	for (int i = 0; i < steps; i++) {
		fail_mem = rnd(8) == 0 ? 1 + rnd(2) : 0;
		fail_all = false;
		struct ibuf B0 = B;
		size_t used0 = slab_cache_used(&ccache);
		switch (rnd(10)) {
		case 0: case 1: case 2: case 3: {
			size_t size = pick(), arg = size, room = size;
			if ((size > (64u << 20) && size < SIZE_MAX / 4) || (size > (8u << 20) && size < SIZE_MAX / 4 && rnd(10)))
				size = room = arg = 1 + rnd(100000);
			int how = rnd(4);
			void *p;
			static const char *nm[] = { "reserve", "alloc", "reserve_cb", "alloc_cb" };
			OP(P, "ibuf_%s(%zu) used %zu unused %zu capacity %zu%s\n", nm[how], size, ibuf_used(&B), ibuf_unused(&B), ibuf_capacity(&B), fail_mem ? " memory fails" : "");
			switch (how) {
			case 0: p = ibuf_reserve(&B, size); break;
			case 1: p = ibuf_alloc(&B, size); break;
			case 2: p = ibuf_reserve_cb(&B, &arg); break;
			default: p = ibuf_alloc_cb(&B, size); break;
			}
			if (how == 2 && size == 0)
				size = start;
			bool fits = size == 0 || size <= B0.end - B0.wpos;
			if (p == NULL) {
				CHECK(P, !fits || B0.buf == NULL, "%zu bytes refused although they fit", size);
				CHECK(P, memcmp(&B, &B0, sizeof(B)) == 0 && slab_cache_used(&ccache) == used0, "a failed reservation changed the buffer");
				break;
			}
			size_t al = how == 1 || how == 3 ? size : 0;
			CHECK(P, (char *)p == B.wpos - al, "%p is not the write position %p", p, B.wpos - al);
			CHECK(P, (char *)p >= B.buf && (char *)p <= B.end && size <= (size_t)(B.end - (char *)p), "%zu bytes at %p, but the buffer ends at %p", size, p, B.end);
			CHECK(P, (size_t)((char *)p - B.rpos) == tail - head, "the write position does not follow the unread bytes");
			if (how == 2)
				CHECK(P, arg == (size_t)(B.end - B.wpos), "reserve_cb says %zu, writable %zu", arg, (size_t)(B.end - B.wpos));
			for (size_t j = 0; j < size; j++)
				((char *)p)[j] = at(tail + j);
			if (al == 0 && size > 0 && rnd(3)) {
				size_t m = rnd(2) ? size : rnd(size + 1);
				B.wpos += m;
				tail += m;
			} else
				tail += al;
			shm->nontrivial++;
			break;
		}
		case 4: case 5: {
			size_t m = rnd(3) ? rnd(tail - head + 1) : tail - head < 100 ? tail - head : rnd(100);
			OP(P, "consume %zu\n", m);
			if (rnd(2))
				ibuf_consume(&B, m);
			else
				ibuf_consume_before(&B, B.rpos + m);
			head += m;
			break;
		}
		case 6: {
			size_t m = rnd(2) ? rnd(tail - head + 1) : tail - head < 100 ? tail - head : rnd(100);
			OP(P, "discard %zu\n", m);
			if (rnd(2))
				ibuf_discard(&B, m);
			else
				ibuf_truncate(&B, tail - head - m);
			tail -= m;
			break;
		}
		case 7:
			OP(P, "ibuf_shrink() used %zu capacity %zu%s\n", ibuf_used(&B), ibuf_capacity(&B), fail_mem ? " memory fails" : "");
			ibuf_shrink(&B);
			CHECK(P, tail != head || B.buf == NULL, "an empty buffer keeps its slab");
			CHECK(P, ibuf_capacity(&B) <= (size_t)(B0.end - B0.buf), "shrinking made the buffer grow");
			break;
		case 8:
			if (rnd(4) == 0) {
				OP(P, "ibuf_reset()\n");
				ibuf_reset(&B);
				head = tail;
				CHECK(P, B.buf == B0.buf && B.rpos == B.buf, "reset");
			}
			break;
		case 9:
			if (rnd(6) == 0) {
				OP(P, "ibuf_reinit()\n");
				ibuf_reinit(&B);
				head = tail;
			}
			break;
		}
		check();
	}
	fail_mem = 0;
	OP(P, "ibuf_destroy()\n");
	ibuf_destroy(&B);
	CHECK(P, slab_cache_used(&ccache) == 0, "%zu bytes are not given back", slab_cache_used(&ccache));
	cache_close();
}
