/* P08, P09: memory pools against a map of the live objects */
#include "drv.h"
#include "cache.h"
#include "mempool.h"
#define P8 PROP(8)
#define P9 PROP(9)
#define PP (P8 | P9)
enum { NP = 3, NL = 6000 };
struct obj { char *p; uint64_t tag; };
static struct mp {
	struct mempool pool;
	struct obj live[NL];
	int n;
	bool open;
} mps[NP];
static uint64_t tags;

static void
check(struct mp *m)
{
	struct mempool *p = &m->pool;
	size_t S = (size_t)ccache.order0_size << p->slab_order;
	CHECK(P9, mempool_used(p) == (size_t)m->n * p->objsize, "used %zu with %d objects of %u bytes", mempool_used(p), m->n, p->objsize);
	CHECK(P9, mempool_count(p) == (size_t)m->n, "count %zu with %d objects", mempool_count(p), m->n);
	size_t nslab = 0, empty = 0, nlive = 0;
	struct slab *s;
	rlist_foreach_entry(s, &p->slabs.slabs, next_in_list) {
		nslab++;
		CHECK(P9, s->magic == slab_magic && s->in_use && s->order == p->slab_order, "slab %p of the pool is not in use with the pool's order", s);
		char *lo = (char *)s + p->offset, *hi = (char *)s + S;
		size_t k = 0;
		for (int i = 0; i < m->n; i++)
			k += m->live[i].p >= lo && m->live[i].p < hi;
		nlive += k;
		if (k == 0)
			empty++;
		CHECK(PP, ((struct mslab *)s)->nfree == p->objcount - k, "slab %p with %zu of %u objects live says %u are free", s, k, p->objcount, ((struct mslab *)s)->nfree);
		CHECK(P9, ((struct mslab *)s)->mempool == p, "slab belongs to another pool");
	}
	CHECK(P8, nlive == (size_t)m->n, "only %zu of %d objects are in slabs of the pool", nlive, m->n);
	CHECK(P9, mempool_total(p) == nslab * S, "total %zu with %zu slabs of %zu", mempool_total(p), nslab, S);
	CHECK(P9, empty <= 1, "%zu empty slabs are kept", empty);
	struct mempool_stats st;
	mempool_stats(p, &st);
	CHECK(P9, st.objsize == p->objsize && st.objcount == (size_t)m->n && st.slabsize == S && st.slabcount == nslab && st.totals.used == (size_t)m->n * p->objsize,
	      "mempool_stats: %u %zu %u %u %zu", st.objsize, (size_t)st.objcount, st.slabsize, st.slabcount, st.totals.used);
	CHECK(P9, st.totals.total == nslab * (S - mslab_sizeof()), "mempool_stats: total %zu", st.totals.total);
	slab_cache_check(&ccache);
}

static size_t
head(struct mempool *p)
{
	return p->objsize < 64 ? p->objsize : 64;
}

static bool
alloc(struct mp *m, bool quiet)
{
	struct mempool *p = &m->pool;
	size_t S = (size_t)ccache.order0_size << p->slab_order;
	if (m->n == NL)
		return false;
	size_t used = mempool_used(p), total = mempool_total(p), cu = slab_cache_used(&ccache);
	uint64_t f0 = failures;
	char *x = mempool_alloc(p);
	if (x == NULL) {
		CHECK(P8, failures > f0 || quota_used(&cq) + carena.slab_size > quota_total(&cq), "allocation fails without a reason");
		CHECK(P8, (size_t)m->n == total / S * p->objcount, "allocation fails, but %zu objects are free", (size_t)(total / S * p->objcount - m->n));
		CHECK(P9, mempool_used(p) == used && mempool_total(p) == total && slab_cache_used(&ccache) == cu, "a failed allocation changes the figures");
		return false;
	}
	char *b = (char *)((uintptr_t)x & ~(uintptr_t)(S - 1));
	CHECK(P8, ((struct slab *)b)->magic == slab_magic, "object %p is in no slab", x);
	CHECK(P8, x >= b + p->offset && x + p->objsize <= b + S && (size_t)(x - b - p->offset) % p->objsize == 0 && p->offset >= mslab_sizeof(), "object at offset %zu of a slab (first at %u, size %u)", (size_t)(x - b), p->offset, p->objsize);
	for (int i = 0; i < m->n; i++)
		CHECK(P8, m->live[i].p != x, "object %p is handed out twice", x);
	CHECK(P9, mempool_used(p) == used + p->objsize, "used grows by %zu", mempool_used(p) - used);
	m->live[m->n].p = x;
	m->live[m->n].tag = ++tags;
	fill(x, head(p), tags);
	if (p->objsize >= 72)
		fill(x + p->objsize - 8, 8, tags + 3);
	m->n++;
	shm->nontrivial++;
	return true;
}

static void
release(struct mp *m, int k)
{
	struct mempool *p = &m->pool;
	char *x = m->live[k].p;
	size_t used = mempool_used(p);
	CHECK(P8, differs(x, head(p), m->live[k].tag, 0) < 0 && (p->objsize < 72 || differs(x + p->objsize - 8, 8, m->live[k].tag + 3, 0) < 0), "the content of a live object was overwritten");
	m->live[k] = m->live[--m->n];
	mempool_free(p, x);
	CHECK(P9, mempool_used(p) == used - p->objsize, "used shrinks by %zu", used - mempool_used(p));
}

static void
open_pool(int i)
{
	struct mp *m = &mps[i];
	int order = rnd(ccache.order_max + 1);
	size_t S = (size_t)ccache.order0_size << order;
	size_t max = S - mslab_sizeof();
	uint32_t sz;
	switch (rnd(7)) {
	case 0: sz = 8 + rnd(100); break;
	case 1: sz = max; break;
	case 2: sz = max / (1 + rnd(9)); break;
	case 3: sz = max / (1 + rnd(9)) + 1; break;
	case 4: sz = 200 + rnd(3000); break;
	default: sz = 8 + rndb(31) % (max - 8);
	}
	if (sz > max)
		sz = max;
	if (sz < 8)
		sz = 8;
	bool own = rnd(4) == 0;
	OP(PP, own ? "pool%d: mempool_create(%u)\n" : "pool%d: mempool_create_with_order(%u, %d)\n", i, sz, order);
	if (own)
		mempool_create(&m->pool, &ccache, sz);
	else
		mempool_create_with_order(&m->pool, &ccache, sz, order);
	S = (size_t)ccache.order0_size << m->pool.slab_order;
	CHECK(P8, m->pool.objcount >= 1 && m->pool.offset >= mslab_sizeof() && m->pool.offset + (size_t)m->pool.objcount * sz == S, "layout: %u objects of %u from %u in %zu", m->pool.objcount, sz, m->pool.offset, S);
	CHECK(P9, mempool_is_initialized(&m->pool) && mempool_used(&m->pool) == 0 && mempool_total(&m->pool) == 0, "figures of a new pool");
	m->n = 0;
	m->open = true;
}

static void
close_pool(int i)
{
	struct mp *m = &mps[i];
	size_t t = mempool_total(&m->pool), cu = slab_cache_used(&ccache);
	OP(PP, "pool%d: mempool_destroy()\n", i);
	mempool_destroy(&m->pool);
	CHECK(P9, slab_cache_used(&ccache) == cu - t, "destroying the pool gives %zu of %zu bytes back", cu - slab_cache_used(&ccache), t);
	CHECK(P9, !mempool_is_initialized(&m->pool), "still initialized");
	m->open = false;
}

static void
drv_history(uint64_t n)
{
	uint32_t S = 65536u << rnd(rnd(4) ? 2 : 4);
	size_t limit = rnd(3) == 0 ? 4 * S + rnd(1 << 19) : (size_t)1 << 34;
	OP(PP, "open\n");
	cache_open(limit, rnd(3) ? 0 : rnd(4) * S, S);
	for (int i = 0; i < NP; i++)
		mps[i].open = false;
	int steps = 20 + rnd(60);
	for (int t = 0; t < steps; t++) {
		int i = rnd(NP);
		struct mp *m = &mps[i];
		fail_mem = 0;
		if (!m->open) {
			open_pool(i);
			check(m);
			continue;
		}
		fail_mem = rnd(5) == 0 ? 1 + rnd(2) : 0;
		int oc = m->pool.objcount, c, k;
		static const int base[] = { 1, 1, 2, 7 };
		switch (rnd(8)) {
		case 0: case 1: case 2:
			c = rnd(2) ? base[rnd(4)] : oc < 700 ? oc + rnd(3) - 1 : 300 + rnd(400);
			OP(PP, "pool%d: allocate %d%s\n", i, c, fail_mem ? " memory fails" : "");
			while (c-- > 0 && alloc(m, true))
				;
			break;
		case 3: case 4: case 5:
			/* free some: at random, the newest, the oldest, of one slab, to the last 1 / 8 */
			c = rnd(2) ? base[rnd(4)] : oc / 8 + rnd(3) - 1;
			k = rnd(4);
			OP(PP, "pool%d: free %d of %d (%s)\n", i, c, m->n, k == 0 ? "newest" : k == 1 ? "oldest" : "any");
			while (c-- > 0 && m->n > 0)
				release(m, k == 0 ? m->n - 1 : k == 1 ? 0 : (int)rnd(m->n));
			break;
		case 6: {
			if (m->n == 0)
				break;
			uintptr_t mask = m->pool.slab_ptr_mask;
			uintptr_t b = (uintptr_t)m->live[rnd(m->n)].p & mask;
			OP(PP, "pool%d: free all of one slab\n", i);
			for (k = m->n - 1; k >= 0; k--)
				if (((uintptr_t)m->live[k].p & mask) == b)
					release(m, k);
			break;
		}
		default:
			if (rnd(3) == 0)
				close_pool(i);
			else {
				OP(PP, "pool%d: free all\n", i);
				while (m->n > 0)
					release(m, rnd(m->n));
			}
		}
		if (m->open)
			check(m);
	}
	fail_mem = 0;
	for (int i = 0; i < NP; i++)
		if (mps[i].open)
			close_pool(i);
	CHECK(P9, slab_cache_used(&ccache) == 0, "%zu bytes of the slab cache are still in use", slab_cache_used(&ccache));
	cache_close();
}
