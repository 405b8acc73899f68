/* P18, P19: an output buffer against a stream of bytes */
#include "drv.h"
#include "cache.h"
#include "obuf.h"
#define P PROP(18)
#define R PROP(19)
#define PR (P | R)

static struct obuf B;
static uint64_t tail;	/* bytes number 0..tail-1 of a stream are in it */
static size_t start;
static struct { struct obuf_svp svp; uint64_t tail; int cnt; void *p[SMALL_OBUF_IOV_MAX + 1]; size_t l[SMALL_OBUF_IOV_MAX + 1]; } sv[40];
static int nsv;
static char *src;
enum { SRC = 8 << 20 };

static unsigned char
at(uint64_t i)
{
	return (unsigned char)(i * 131 + (i >> 8) * 7 + (i >> 16));
}

static void
check(uint64_t m)
{
	int cnt = obuf_iovcnt(&B);
	size_t sum = 0, caps = 0;
	CHECK(m, B.pos >= 0 && B.pos < SMALL_OBUF_IOV_MAX, "position %d", B.pos);
	CHECK(m, obuf_size(&B) == tail, "size %zu, but %zu bytes were appended", obuf_size(&B), (size_t)tail);
	for (int i = 0; i < cnt; i++) {
		size_t n = B.iov[i].iov_len, step = n > 5000 ? 1 + n / 500 : 1;
		CHECK(m, n > 0, "vector %d of %d is empty", i, cnt);
		CHECK(m, n <= B.capacity[i], "vector %d holds %zu bytes of %zu", i, n, B.capacity[i]);
		unsigned char *c = B.iov[i].iov_base;
		for (size_t j = 0; j < n; j += j < 64 || j + 100 > n ? 1 : step)
			CHECK(m, c[j] == at(sum + j), "byte %zu (vector %d, offset %zu of %zu) is wrong", sum + j, i, j, n);
		sum += n;
	}
	CHECK(m, sum == tail, "the vectors hold %zu bytes, not %zu", sum, (size_t)tail);
	for (int i = 0; i < SMALL_OBUF_IOV_MAX; i++) {
		if (i >= cnt && i <= B.n_iov)
			CHECK(m, B.iov[i].iov_len == 0, "vector %d after the last used one has length %zu", i, B.iov[i].iov_len);
		if (i < B.n_iov) {
			struct slab *s = slab_from_data(B.iov[i].iov_base);
			CHECK(m, B.capacity[i] == slab_capacity(s), "vector %d does not use its whole slab", i);
			caps += s->size;
		}
	}
	CHECK(m, B.n_iov >= cnt && B.n_iov <= SMALL_OBUF_IOV_MAX, "%d vectors for %d in use", B.n_iov, cnt);
	CHECK(m, B.capacity[B.n_iov] == 0 && B.iov[B.n_iov].iov_base == NULL, "no end mark after vector %d", B.n_iov - 1);
	CHECK(m, slab_cache_used(&ccache) == caps, "the cache has %zu in use, the buffer %zu", slab_cache_used(&ccache), caps);
	/* what older savepoints cover has not moved */
	for (int i = 0; i < nsv; i++) {
		for (int j = 0; j < sv[i].cnt; j++)
			CHECK(m, B.iov[j].iov_base == sv[i].p[j] && B.iov[j].iov_len >= sv[i].l[j], "vector %d moved or lost bytes appended before savepoint %d", j, i);
		if (sv[i].cnt > 0 && obuf_iovcnt(&B) > 0) {
			struct obuf_svp *s = &sv[i].svp;
			char *p = obuf_svp_to_ptr(&B, s);
			CHECK(R, p == (char *)B.iov[s->pos].iov_base + s->iov_len, "savepoint to pointer");
			if (tail > sv[i].tail && s->iov_len < B.iov[s->pos].iov_len)
				CHECK(R, (unsigned char)*p == at(sv[i].tail), "the byte after the savepoint is not where it points");
		}
	}
}

static size_t
pick(void)
{
	size_t cap = B.capacity[B.pos], room = cap - B.iov[B.pos].iov_len, next = B.pos + 1 < SMALL_OBUF_IOV_MAX ? B.capacity[B.pos + 1] : 0;
	switch (rnd(14)) {
	case 0: return rndb(22);
	case 1: return room + rnd(3) - 1;
	case 2: return room;
	case 3: return cap + rnd(3) - 1;
	case 4: return room + next + rnd(3) - 1;
	case 5: return SIZE_MAX - rndb(12);
	case 6: return SIZE_MAX - B.iov[B.pos].iov_len + rnd(3) - 1;
	case 7: return rnd(20000);
	case 8: return 0;
	case 9: return SIZE_MAX / 2 + rnd(3) - 1;
	default: return 1 + rnd(300);
	}
}

static void
drv_history(uint64_t n)
{
	size_t limit = rnd(3) == 0 ? 8 * 65536 + rnd(1 << 20) : (size_t)1 << 30;
	OP(PR, "open\n");
	cache_open(limit, 0, rnd_slab_size());
	start = rnd(3) == 0 ? 1 + rnd(10) : rnd(4) == 0 ? 1 + rnd(300000) : 1 + rnd(9000);
	obuf_create(&B, &ccache, start);
	LOG("slab_size %u quota %zu start %zu\n", carena.slab_size, limit, start);
	tail = 0;
	nsv = 0;
	if (src == NULL) {
		src = __real_malloc(SRC);
		for (size_t i = 0; i < SRC; i++)
			src[i] = at(i);
	}
	int steps = 60 + rnd(100);
	for (int i = 0; i < steps; i++) {
		fail_mem = rnd(8) == 0 ? 1 + rnd(2) : 0;
		fail_all = false;
		struct obuf B0 = B;
		size_t used0 = slab_cache_used(&ccache);
		uint64_t m = P;
		switch (rnd(12)) {
		case 0: case 1: case 2: case 3: {
			size_t size = pick(), arg = size;
			if ((size > (64u << 20) && size < SIZE_MAX / 4) || (size > (8u << 20) && size < SIZE_MAX / 4 && rnd(10)))
				size = arg = 1 + rnd(100000);
			int how = rnd(4);
			char *p;
			static const char *nm[] = { "reserve", "alloc", "reserve_cb", "alloc_cb" };
			OP(P, "obuf_%s(%zu) pos %d of %d, %zu of %zu used%s\n", nm[how], size, B.pos, B.n_iov, B.iov[B.pos].iov_len, B.capacity[B.pos], fail_mem ? " memory fails" : "");
			switch (how) {
			case 0: p = obuf_reserve(&B, size); break;
			case 1: p = obuf_alloc(&B, size); break;
			case 2: p = obuf_reserve_cb(&B, &arg); break;
			default: p = obuf_alloc_cb(&B, size); break;
			}
			bool fits = size <= B0.capacity[B0.pos] - B0.iov[B0.pos].iov_len;
			if (p == NULL) {
				CHECK(P, !fits || B0.capacity[B0.pos] == 0, "%zu bytes refused although they fit", size);
				CHECK(P, obuf_size(&B) == tail && slab_cache_used(&ccache) == used0, "a failed append changed the buffer");
				break;
			}
			bool alloc = how == 1 || how == 3;
			char *w = (char *)B.iov[B.pos].iov_base + B.iov[B.pos].iov_len - (alloc ? size : 0);
			CHECK(P, p == w, "%p is not the end of the stream %p", p, w);
			CHECK(P, size <= B.capacity[B.pos] && (size_t)(p - (char *)B.iov[B.pos].iov_base) <= B.capacity[B.pos] - size, "%zu bytes at %p do not fit in the vector", size, p);
			if (fits)
				CHECK(P, B.pos == B0.pos && slab_cache_used(&ccache) == used0, "room that was there is not used");
			if (how == 2)
				CHECK(P, arg == B.capacity[B.pos] - B.iov[B.pos].iov_len, "reserve_cb says %zu, writable %zu", arg, B.capacity[B.pos] - B.iov[B.pos].iov_len);
			for (size_t j = 0; j < size; j++)
				p[j] = at(tail + j);
			if (!alloc) {
				/* complete the reservation with a part of it */
				size_t k = rnd(2) ? size : rnd(size + 1);
				char *q = obuf_alloc(&B, k);
				CHECK(P, q == p, "%zu of %zu reserved bytes are given elsewhere", k, size);
				tail += k;
			} else
				tail += size;
			shm->nontrivial++;
			break;
		}
		case 4: case 5: case 6: {
			size_t size = pick();
			if (tail % SRC + 1 > SRC / 2 || size > SRC / 2)
				size = rnd(3000);
			if (tail + size > SRC)
				break;
			OP(P, "obuf_dup(%zu) pos %d of %d, %zu of %zu used%s\n", size, B.pos, B.n_iov, B.iov[B.pos].iov_len, B.capacity[B.pos], fail_mem ? " memory fails" : "");
			size_t r = obuf_dup(&B, src + tail, size);
			CHECK(P, r <= size, "%zu bytes copied of %zu", r, size);
			CHECK(P, r == size || failures || limit < ((size_t)1 << 30) || B.pos + 1 >= SMALL_OBUF_IOV_MAX, "%zu of %zu bytes copied without a failure", r, size);
			tail += r;
			shm->nontrivial++;
			break;
		}
		case 7: case 8:
			if (nsv < 40) {
				OP(R, "savepoint %d at %zu\n", nsv, (size_t)tail);
				sv[nsv].svp = obuf_create_svp(&B);
				if (tail == 0 && rnd(2))
					obuf_svp_reset(&sv[nsv].svp);
				sv[nsv].tail = tail;
				sv[nsv].cnt = obuf_iovcnt(&B);
				for (int j = 0; j < sv[nsv].cnt; j++)
					sv[nsv].p[j] = B.iov[j].iov_base, sv[nsv].l[j] = B.iov[j].iov_len;
				nsv++;
				m = R;
			}
			break;
		case 9: case 10:
			if (nsv > 0 && rnd(2)) {
				int k = rnd(2) ? nsv - 1 : rnd(nsv);
				OP(R, "rollback to savepoint %d (%zu of %zu)\n", k, (size_t)sv[k].tail, (size_t)tail);
				obuf_rollback_to_svp(&B, &sv[k].svp);
				CHECK(R, obuf_iovcnt(&B) == sv[k].cnt, "%d vectors after the rollback, %d when the savepoint was taken", obuf_iovcnt(&B), sv[k].cnt);
				for (int j = 0; j < sv[k].cnt; j++)
					CHECK(R, B.iov[j].iov_base == sv[k].p[j] && B.iov[j].iov_len == sv[k].l[j], "vector %d is not as it was at the savepoint", j);
				CHECK(R, B.n_iov == B0.n_iov && slab_cache_used(&ccache) == used0, "capacity is lost by the rollback");
				tail = sv[k].tail;
				nsv = k + 1;
				m = R;
			}
			break;
		case 11:
			if (rnd(5) == 0) {
				OP(R, "obuf_reset()\n");
				obuf_reset(&B);
				CHECK(R, obuf_size(&B) == 0 && obuf_iovcnt(&B) == 0, "not empty after a reset");
				CHECK(R, B.n_iov == B0.n_iov && slab_cache_used(&ccache) == used0, "capacity is lost by the reset");
				tail = 0;
				nsv = 0;
				m = R;
			}
			break;
		}
		check(m | P);
	}
	fail_mem = 0;
	OP(R, "obuf_destroy()\n");
	obuf_destroy(&B);
	CHECK(R, slab_cache_used(&ccache) == 0, "%zu bytes are not given back", slab_cache_used(&ccache));
	CHECK(R, !obuf_is_initialized(&B), "still initialized after destroy");
	cache_close();
}
