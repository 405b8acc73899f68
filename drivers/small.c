/* P11: the small allocator against a list of the live blocks */
#include "drv.h"
#include "cache.h"
#include "small.h"
#define P11 PROP(11)
enum { NL = 8000 };
static struct { char *p; size_t size, real; uint64_t tag; bool large; } live[NL];
static int n;
static struct small_alloc sa;
static uint64_t tags;
static unsigned gran;
static size_t sizes[12];

static int
nothing(const void *s, void *ctx)
{
	return 0;
}

static void
check(void)
{
	size_t pooled = 0, large = 0;
	for (int i = 0; i < n; i++) {
		if (live[i].large)
			large += live[i].size + slab_sizeof();
		else
			pooled += live[i].real;
	}
	struct small_stats st;
	small_stats(&sa, &st, nothing, NULL);
	CHECK(P11, st.used == pooled, "small_stats: used %zu, live objects of the pools %zu", st.used, pooled);
	size_t slabs = 0;
	for (unsigned i = 0; i < sa.small_mempool_cache_size; i++)
		slabs += mempool_total(&sa.small_mempool_cache[i].pool);
	CHECK(P11, slab_cache_used(&ccache) == slabs + large, "slab cache: %zu used, pools %zu, large blocks %zu", slab_cache_used(&ccache), slabs, large);
}

static struct small_mempool *
pool_of(char *p, size_t size)
{
	struct small_mempool *m = NULL;
	for (unsigned i = 0; i < sa.small_mempool_cache_size; i++)
		if (sa.small_mempool_cache[i].pool.objsize >= size) {
			m = &sa.small_mempool_cache[i];
			break;
		}
	return m;
}

static int
cmp(const void *a, const void *b)
{
	const char *p = *(char *const *)a, *q = *(char *const *)b;
	return p < q ? -1 : p > q;
}

static bool
alloc(size_t size)
{
	if (n == NL)
		return false;
	struct small_mempool *fit = pool_of(NULL, size);
	size_t used = slab_cache_used(&ccache);
	uint64_t f0 = failures;
	struct small_alloc_info info;
	char *p = smalloc(&sa, size);
	if (p == NULL) {
		CHECK(P11, failures > f0 || quota_used(&cq) + (size <= sa.objsize_max ? carena.slab_size : size + slab_sizeof() + 1024) > quota_total(&cq) || size > (1ul << 40), "allocation fails without a reason");
		return false;
	}
	CHECK(P11, ((uintptr_t)p & ((gran > 8 ? 8 : gran) - 1)) == 0 && (size > sa.objsize_max || ((uintptr_t)p & (gran - 1)) == 0), "%p is not aligned to %u", p, gran);
	bool large = size > sa.objsize_max;
	size_t real;
	small_alloc_info(&sa, p, size, &info);
	CHECK(P11, info.is_large == large && info.real_size >= size, "small_alloc_info(%zu): large %d, size %zu", size, info.is_large, info.real_size);
	if (large) {
		CHECK(P11, fit == NULL || fit->pool.objsize < size, "large block for %zu", size);
		struct slab *s = slab_from_data(p);
		CHECK(P11, s->order == ccache.order_max + 1 && slab_capacity(s) >= size, "large block of %zu bytes for %zu", slab_capacity(s), size);
		real = slab_capacity(s);
	} else {
		CHECK(P11, fit != NULL, "no pool fits %zu", size);
		struct mslab *s = (struct mslab *)((uintptr_t)p & fit->pool.slab_ptr_mask);
		CHECK(P11, s->slab.magic == slab_magic, "no slab under %p with the mask of the fitting pool", p);
		struct mempool *o = s->mempool;
		CHECK(P11, o->objsize >= size, "%zu bytes served from a pool of %u", size, o->objsize);
		CHECK(P11, o->slab_ptr_mask == fit->pool.slab_ptr_mask, "slab of another size");
		CHECK(P11, o->small_mempool->group == fit->group && o->small_mempool >= fit, "pool of another group");
		CHECK(P11, p >= (char *)s + o->offset && p + o->objsize <= (char *)s + s->slab.size, "block leaves its slab");
		real = o->objsize;
	}
	live[n].p = p;
	live[n].size = size;
	live[n].real = real;
	live[n].large = large;
	live[n].tag = ++tags;
	size_t m = size < 200 ? size : 100;
	fill(p, m, tags);
	if (size > m)
		fill(p + size - m, m, tags + 5);
	n++;
	shm->nontrivial++;
	return true;
}

static void
release(int k)
{
	char *p = live[k].p;
	size_t size = live[k].size, m = size < 200 ? size : 100, used = slab_cache_used(&ccache);
	/* the two parts may overlap: the tail was written last */
	size_t h = size > m && size - m < m ? size - m : m;
	CHECK(P11, differs(p, h, live[k].tag, 0) < 0 && (size <= m || differs(p + size - m, m, live[k].tag + 5, 0) < 0), "the content of a live block was overwritten");
	struct mempool *o = NULL;
	size_t ou = 0;
	if (!live[k].large) {
		struct small_mempool *fit = pool_of(p, size);
		o = ((struct mslab *)((uintptr_t)p & fit->pool.slab_ptr_mask))->mempool;
		CHECK(P11, o->objsize == live[k].real, "the block changed its pool");
		ou = mempool_used(o);
	}
	smfree(&sa, p, size);
	if (o)
		CHECK(P11, mempool_used(o) == ou - live[k].real, "the block is not given back to its pool");
	else
		CHECK(P11, slab_cache_used(&ccache) == used - live[k].size - slab_sizeof(), "a large block is not given back");
	live[k] = live[--n];
}

static void
overlaps(void)
{
	static char *s[NL];
	static size_t e[NL];
	for (int i = 0; i < n; i++)
		s[i] = live[i].p;
	qsort(s, n, sizeof(*s), cmp);
	for (int i = 0; i + 1 < n; i++)
		CHECK(P11, s[i] < s[i + 1], "block %p is handed out twice", s[i]);
	for (int i = 0; i < n; i++) {
		int lo = 0, hi = n - 1;
		while (lo < hi) {
			int mid = (lo + hi + 1) / 2;
			if (s[mid] <= live[i].p)
				lo = mid;
			else
				hi = mid - 1;
		}
		CHECK(P11, lo + 1 >= n || live[i].p + live[i].size <= s[lo + 1], "blocks overlap");
	}
}

static size_t
pick(void)
{
	size_t v;
	switch (rnd(8)) {
	case 0: case 1: case 2: case 3: return sizes[rnd(12)];
	case 4: v = sa.small_mempool_cache[rnd(sa.small_mempool_cache_size)].pool.objsize + rnd(3) - 1; break;
	case 5: v = sa.objsize_max + rnd(5) - 2; break;
	case 6: v = rnd(16) ? rndb(20) : SIZE_MAX - rnd(200); break;
	default: v = 1 + rnd(600);
	}
	return v ? v : 1;
}

static void
drv_history(uint64_t num)
{
	static const float fs[] = { 1.01, 1.02, 1.05, 1.1, 1.2, 1.3, 1.5, 1.8, 2.0 };
	uint32_t S = 65536u << rnd(rnd(4) ? 3 : 7);
	size_t limit = rnd(2) ? (2 + rnd(12)) * S + rnd(1 << 19) : (size_t)1 << 34;
	OP(P11, "open\n");
	cache_open(limit, rnd(3) ? 0 : rnd(4) * S, S);
	gran = 1u << rnd(7);
	float f = rnd(3) ? fs[rnd(9)] : 1.01 + 0.99 * rnd(1000) / 1000;
	uint32_t min = rnd(3) ? 8 + rnd(60) : 8 + rnd(1000);
	if (gran < 8 && min < 8)
		min = 8;
	float act;
	OP(P11, "small_alloc_create(min %u granularity %u factor %f) slab_size %u quota %zu\n", min, gran, f, S, limit);
	small_alloc_create(&sa, &ccache, min, gran, f, &act);
	n = 0;
	CHECK(P11, sa.small_mempool_cache_size > 0 && sa.small_mempool_cache[sa.small_mempool_cache_size - 1].pool.objsize == sa.objsize_max, "largest pool %u, largest size %u", sa.small_mempool_cache[sa.small_mempool_cache_size - 1].pool.objsize, sa.objsize_max);
	for (unsigned i = 0; i < sa.small_mempool_cache_size; i++) {
		struct small_mempool *m = &sa.small_mempool_cache[i];
		CHECK(P11, m->used_pool >= m && m->used_pool <= m->group->last && m->group->first <= m, "pool %u is routed outside its group", i);
		CHECK(P11, m->used_pool->pool.objsize >= m->pool.objsize && m->pool.slab_ptr_mask == m->group->last->pool.slab_ptr_mask, "pool %u is routed to a pool that does not fit", i);
	}
	for (int i = 0; i < 12; i++)
		sizes[i] = i < 6 ? 1 + rnd(2000) : sa.small_mempool_cache[rnd(sa.small_mempool_cache_size)].pool.objsize;
	int steps = 20 + rnd(50);
	for (int t = 0; t < steps; t++) {
		fail_mem = rnd(5) == 0 ? 1 + rnd(2) : 0;
		size_t sz = pick();
		int c = rnd(3) ? 1 + rnd(5) : rnd(2) ? 100 + rnd(600) : (int)(S / 4 / (sz + 1) % 1500) + 2;
		if (sz > 100000 && c > 20)
			c = 20;
		if (rnd(5) < 3) {
			OP(P11, "smalloc(%zu) * %d%s\n", sz, c, fail_mem ? " memory fails" : "");
			while (c-- > 0 && alloc(sz))
				;
		} else if (rnd(3)) {
			int how = rnd(4);
			OP(P11, "smfree %d of %d (%s)\n", c, n, how == 0 ? "newest" : how == 1 ? "oldest" : "any");
			while (c-- > 0 && n > 0)
				release(how == 0 ? n - 1 : how == 1 ? 0 : (int)rnd(n));
		} else if (n > 0) {
			sz = live[rnd(n)].size;
			OP(P11, "smfree all of size %zu\n", sz);
			for (int k = n - 1; k >= 0; k--)
				if (live[k].size == sz)
					release(k);
		}
		check();
		overlaps();
	}
	fail_mem = 0;
	OP(P11, "smfree all\n");
	while (n > 0 && rnd(3000))
		release(rnd(n));
	check();
	OP(P11, "small_alloc_destroy()\n");
	for (int i = n - 1; i >= 0; i--)
		if (live[i].large)
			release(i);
	small_alloc_destroy(&sa);
	CHECK(P11, slab_cache_used(&ccache) == 0, "%zu bytes are still in use", slab_cache_used(&ccache));
	cache_close();
}
