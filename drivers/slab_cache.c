/* P06, P07: the slab cache against a list of the slabs handed out */
#include "drv.h"
#include "cache.h"
#define P6 PROP(6)
#define P7 PROP(7)
#define PP (P6 | P7)
enum { NS = 400 };
static struct { struct slab *s; size_t size, want; } live[NS];
static int nlive;
static size_t qbase;

static bool
in_list(struct rlist *head, struct rlist *it)
{
	struct rlist *x;
	rlist_foreach(x, head)
		if (x == it)
			return true;
	return false;
}

static int
live_idx(struct slab *s)
{
	for (int i = 0; i < nlive; i++)
		if (live[i].s == s)
			return i;
	return -1;
}

static size_t
osize(int o)
{
	return (size_t)ccache.order0_size << o;
}

static void
check(void)
{
	size_t used = 0, total = 0, ordtot[ORDER_MAX + 1] = {0}, ordused[ORDER_MAX + 1] = {0}, nfree[ORDER_MAX + 1] = {0}, large = 0;
	int nl = 0;
	struct slab *a;
	rlist_foreach_entry(a, &ccache.allocated.slabs, next_in_cache) {
		if (a->order == ccache.order_max + 1) {
			int k = live_idx(a);
			CHECK(P7, k >= 0, "large slab %p is kept although it was put back", a);
			used += a->size;
			total += a->size;
			large += (a->size + 1023) / 1024 * 1024;
			nl++;
			continue;
		}
		CHECK(P6, ((uintptr_t)a & (carena.slab_size - 1)) == 0, "arena slab %p is not aligned", a);
		total += carena.slab_size;
		/* the blocks in it */
		char *p = (char *)a, *e = p + carena.slab_size;
		while (p < e) {
			struct slab *s = (struct slab *)p;
			CHECK(P6, s->magic == slab_magic, "no slab header at %p (offset %zu of an arena slab)", p, (size_t)(p - (char *)a));
			CHECK(P6, s->order <= ccache.order_max && s->size == osize(s->order), "slab %p: size %zu, order %d", s, s->size, s->order);
			CHECK(P6, (size_t)(e - p) >= s->size && ((uintptr_t)p & (s->size - 1)) == 0, "slab %p of %zu bytes is misplaced", s, s->size);
			ordtot[s->order] += s->size;
			int k = live_idx(s);
			if (s->in_use) {
				CHECK(P6, k >= 0, "slab %p is marked used, but is not handed out", s);
				CHECK(P6, live[k].size == s->size, "slab %p changed its size", s);
				used += s->size;
				ordused[s->order] += s->size;
				nl++;
			} else {
				CHECK(P6, k < 0, "slab %p is handed out, but marked free", s);
				CHECK(P6, in_list(&ccache.orders[s->order].slabs, &s->next_in_list), "free slab %p of order %d is in no list (lost)", s, s->order);
				nfree[s->order]++;
				if (s->order < ccache.order_max) {
					struct slab *b = (struct slab *)((uintptr_t)s ^ s->size);
					CHECK(PP, !(b->order == s->order && b->in_use == 0), "neighbours %p and %p of order %d are both free", s, b, s->order);
				}
			}
			p += s->size;
		}
	}
	CHECK(P6, nl == nlive, "%d slabs handed out, %d found", nlive, nl);
	for (int o = 0; o <= ccache.order_max; o++) {
		size_t n = 0;
		struct rlist *x;
		rlist_foreach(x, &ccache.orders[o].slabs)
			CHECK(P6, ++n <= nfree[o], "list of free slabs of order %d has a slab too many", o);
		CHECK(P7, ccache.orders[o].stats.total == ordtot[o], "order %d: total %zu, slabs %zu", o, ccache.orders[o].stats.total, ordtot[o]);
		CHECK(P7, ccache.orders[o].stats.used == ordused[o], "order %d: used %zu, slabs %zu", o, ccache.orders[o].stats.used, ordused[o]);
	}
	CHECK(P7, nfree[ccache.order_max] <= 1, "%zu whole free slabs are kept", nfree[ccache.order_max]);
	CHECK(P7, slab_cache_used(&ccache) == used, "used %zu, slabs handed out %zu", slab_cache_used(&ccache), used);
	CHECK(P7, ccache.allocated.stats.total == total, "total %zu, slabs held %zu", ccache.allocated.stats.total, total);
	CHECK(P7, quota_used(&cq) == qbase + carena.used + large, "quota: %zu used, arena %zu, large slabs %zu", quota_used(&cq), carena.used, large);
	slab_cache_check(&ccache);
}

static size_t
pick(void)
{
	size_t h = slab_sizeof();
	switch (rnd(10)) {
	case 0: case 1: case 2: return osize(rnd(ccache.order_max + 1)) - h + rnd(3) - 1;
	case 3: return carena.slab_size - h + rnd(3) - 1;
	case 4: return carena.slab_size + rnd(carena.slab_size);
	case 5: return SIZE_MAX - rnd(3 * h);
	case 6: return rnd(200);
	case 7: return osize(rnd(ccache.order_max + 1)) / 2 + rnd(100);
	default: return rnd(carena.slab_size);
	}
}

static void
got(struct slab *s, size_t want, int order)
{
	CHECK(P6, slab_capacity(s) >= want && s->size >= slab_sizeof(), "%zu usable bytes for %zu", slab_capacity(s), want);
	if (order <= ccache.order_max) {
		CHECK(P6, s->order == order, "order %d is not the smallest sufficient one (%d)", s->order, order);
		CHECK(P6, s->size == osize(order), "size %zu for order %d", s->size, order);
		CHECK(P6, ((uintptr_t)s & (s->size - 1)) == 0, "slab %p of %zu bytes is not aligned to its size", s, s->size);
		CHECK(P6, slab_from_ptr((char *)s + s->size - 1, ~(intptr_t)(s->size - 1)) == s, "pointer into the slab leads elsewhere");
	} else
		CHECK(P6, s->order == ccache.order_max + 1 && s->size == want + slab_sizeof(), "large slab of order %d, %zu bytes", s->order, s->size);
	CHECK(P6, slab_data(s) == (char *)s + slab_sizeof() && slab_from_data(slab_data(s)) == s, "header and data do not match");
	for (int i = 0; i < nlive; i++)
		CHECK(P6, (char *)live[i].s + live[i].size <= (char *)s || (char *)s + s->size <= (char *)live[i].s, "slab %p overlaps slab %p in use", s, live[i].s);
	live[nlive].s = s;
	live[nlive].size = s->size;
	live[nlive].want = want;
	nlive++;
	size_t c = slab_capacity(s), m = c < 3000 ? c : 1500;
	fill(slab_data(s), m, (uintptr_t)s >> 12);
	if (m < c)
		fill((char *)slab_data(s) + c - m, m, (uintptr_t)s >> 12);
}

static void
put(int k, int how)
{
	struct slab *s = live[k].s;
	size_t c = slab_capacity(s), m = c < 3000 ? c : 1500;
	CHECK(P6, differs(slab_data(s), m, (uintptr_t)s >> 12, 0) < 0 && (m == c || differs((char *)slab_data(s) + c - m, m, (uintptr_t)s >> 12, 0) < 0),
	      "the content of slab %p was overwritten", s);
	live[k] = live[--nlive];
	if (how)
		slab_put(&ccache, s);
	else if (s->order <= ccache.order_max)
		slab_put_with_order(&ccache, s);
	else
		slab_put_large(&ccache, s);
}

static void
drv_history(uint64_t n)
{
	static const uint32_t ss[] = { 65536, 65536, 131072, 262144, 1 << 20, 4 << 20, 32 << 20, 64 << 20 };
	uint32_t S = ss[rnd(rnd(8) ? 6 : 8)];
	size_t limit = rnd(3) == 0 ? 8 * S + rnd(1 << 20) : (size_t)1 << 36;
	OP(PP, "open\n");
	cache_open(limit, rnd(3) ? 0 : rnd(4) * S, S);
	nlive = 0;
	qbase = 0;
	LOG("slab_size %u quota %zu order_max %d order0 %u\n", S, limit, ccache.order_max, ccache.order0_size);
	CHECK(P6, ccache.order0_size << ccache.order_max == S && (1u << ccache.order0_size_lb) == ccache.order0_size && ccache.order_max < ORDER_MAX, "orders do not fit the slab size");
	check();
	int steps = S > (4 << 20) ? 25 : 100 + rnd(150);
	int mode = rnd(3);
	for (int i = 0; i < steps; i++) {
		if (i % 30 == 0)
			mode = rnd(3);
		fail_mem = rnd(6) == 0 ? 1 + rnd(2) : 0;
		size_t used0 = slab_cache_used(&ccache), tot0 = ccache.allocated.stats.total, q0 = quota_used(&cq);
		if (rnd(3) != 0 ? mode == 0 || nlive == 0 : rnd(2) || nlive == 0) {
			if (nlive == NS)
				continue;
			size_t want = pick();
			int order = 0;
			if (rnd(4) == 0) {
				order = rnd(ccache.order_max + 1);
				OP(PP, "slab_get_with_order(%d)%s\n", order, fail_mem ? " memory fails" : "");
				uint64_t f0 = failures;
				struct slab *s = slab_get_with_order(&ccache, order);
				if (s != NULL)
					got(s, osize(order) - slab_sizeof(), order);
				else {
					CHECK(P7, slab_cache_used(&ccache) == used0 && ccache.allocated.stats.total == tot0 && quota_used(&cq) == q0, "a failed get changed the figures");
					CHECK(P6, failures > f0 || q0 + S > quota_total(&cq), "get fails without a reason");
				}
			} else {
				while (order <= ccache.order_max && (want > SIZE_MAX - slab_sizeof() || osize(order) < want + slab_sizeof()))
					order++;
				if (order > ccache.order_max && want < SIZE_MAX / 2)
					want = want % (8 << 20) + S;
				OP(PP, "slab_get(%zu)%s\n", want, fail_mem ? " memory fails" : "");
				uint64_t f0 = failures;
				struct slab *s = order > ccache.order_max && rnd(2) ? slab_get_large(&ccache, want) : slab_get(&ccache, want);
				if (s != NULL) {
					got(s, want, order);
					size_t r = slab_real_size(&ccache, want);
					CHECK(P6, r == s->size, "slab_real_size says %zu, slab has %zu", r, s->size);
				} else {
					CHECK(P7, slab_cache_used(&ccache) == used0 && ccache.allocated.stats.total == tot0 && quota_used(&cq) == q0, "a failed get changed the figures");
					CHECK(P6, failures > f0 || want > (1ul << 40) || q0 + (order > ccache.order_max ? want + slab_sizeof() : S) + 1024 > quota_total(&cq), "get fails without a reason");
				}
			}
			shm->nontrivial++;
		} else {
			int k = rnd(nlive);
			bool big = live[k].s->order > ccache.order_max;
			size_t sz = live[k].size;
			OP(PP, "put slab %p of order %d (%zu bytes)\n", live[k].s, live[k].s->order, sz);
			put(k, rnd(2));
			CHECK(P7, slab_cache_used(&ccache) == used0 - sz, "putting %zu bytes back lowers the use by %zu", sz, used0 - slab_cache_used(&ccache));
			if (big)
				CHECK(P7, quota_used(&cq) == q0 - (sz + 1023) / 1024 * 1024, "the quota of a large slab is not given back");
		}
		check();
	}
	fail_mem = 0;
	int keep = rnd(2) ? 0 : nlive;
	while (nlive > keep) {
		OP(PP, "put slab %p of order %d\n", live[nlive - 1].s, live[nlive - 1].s->order);
		put(nlive - 1, 1);
		if (nlive % 8 == 0)
			check();
	}
	check();
	if (nlive == 0) {
		CHECK(P7, slab_cache_used(&ccache) == 0, "%zu used after all is put back", slab_cache_used(&ccache));
		CHECK(P7, ccache.allocated.stats.total <= S, "%zu bytes are kept", ccache.allocated.stats.total);
	}
	OP(PP, "slab_cache_destroy()\n");
	slab_cache_destroy(&ccache);
	CHECK(P7, quota_used(&cq) == carena.used, "destroying the cache leaves a quota charge of %zu", quota_used(&cq) - carena.used);
	size_t k = 0;
	void *p = (void *)((uintptr_t)carena.cache.next & ~0xfffful);
	while (p) {
		CHECK(P7, ++k <= carena.used / S, "a slab is in the arena twice");
		p = (void *)(*(uintptr_t *)p & ~0xfffful);
	}
	CHECK(P7, k * S == carena.used, "%zu of %zu slabs are back in the arena", k, carena.used / S);
	OP(PP, "slab_arena_destroy()\n");
	slab_arena_destroy(&carena);
}
