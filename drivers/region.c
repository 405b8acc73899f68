/* P12 allocation, P13 truncation, P14 joining: regions over one slab cache against a list of blocks */
#include "drv.h"
#include "cache.h"
#include "region.h"
#define A PROP(12)
#define T PROP(13)
#define J PROP(14)
#define ALL (A | T | J)

struct blk {
	char *p;
	size_t size, pad;	/* pad: padding before it */
	uint64_t tag;
	size_t from;		/* content: bytes from.. of pattern `tag' */
	bool raw;		/* joined block: content is the stream */
	char *copy;
};
struct reg {
	struct region r;
	struct blk *b;
	int n;
	size_t used;
	bool cb;
	int alloc_calls, trunc_calls;
	size_t cb_size, cb_used;
	char *rsv;
	size_t rsv_size;
};
static struct reg R[2];
static uint64_t tags;
enum { MAXB = 600 };

static void
on_alloc(struct region *r, size_t size, void *arg)
{
	struct reg *g = arg;
	g->alloc_calls++;
	g->cb_size = size;
	g->cb_used = region_used(r);
}
static void
on_trunc(struct region *r, size_t used, void *arg)
{
	struct reg *g = arg;
	g->trunc_calls++;
	g->cb_size = used;
	g->cb_used = region_used(r);
}

static size_t
held(struct reg *g)
{
	size_t t = 0;
	struct rslab *s;
	rlist_foreach_entry(s, &g->r.slabs.slabs, slab.next_in_list)
		t += s->slab.size;
	return t;
}

static void
check_all(uint64_t m)
{
	size_t total = 0;
	for (int k = 0; k < 2; k++) {
		struct reg *g = &R[k];
		CHECK(m, region_used(&g->r) == g->used, "region %d: used %zu, not %zu", k, region_used(&g->r), g->used);
		CHECK(m, region_total(&g->r) == held(g), "region %d: total %zu but its slabs have %zu", k, region_total(&g->r), held(g));
		total += region_total(&g->r);
		for (int i = 0; i < g->n; i++) {
			struct blk *b = &g->b[i];
			if (b->raw) {
				CHECK(m, memcmp(b->p, b->copy, b->size) == 0, "region %d: the joined block of %zu at %p has changed", k, b->size, b->p);
				continue;
			}
			long d = differs(b->p, b->size, b->tag, 0);
			CHECK(m, d < 0, "region %d: byte %ld of block %d (%zu bytes at %p) has changed", k, d, i, b->size, b->p);
		}
	}
	CHECK(m, slab_cache_used(&ccache) == total, "the slab cache has %zu in use, the regions hold %zu", slab_cache_used(&ccache), total);
}

static void
overlap(uint64_t m, char *p, size_t size)
{
	for (int k = 0; k < 2; k++)
		for (int i = 0; i < R[k].n; i++) {
			struct blk *b = &R[k].b[i];
			CHECK(m, p + size <= b->p || b->p + b->size <= p, "[%p, +%zu) overlaps the block [%p, +%zu)", p, size, b->p, b->size);
		}
}

/* [p, p+size) is inside the data of the region's newest slab */
static void
inside(struct reg *g, char *p, size_t size)
{
	struct rslab *s = rlist_first_entry(&g->r.slabs.slabs, struct rslab, slab.next_in_list);
	char *lo = (char *)rslab_data(s), *hi = (char *)s + s->slab.size;
	CHECK(A, p >= lo && p <= hi && size <= (size_t)(hi - p), "block [%p, +%zu) is not inside its slab [%p, %p)", p, size, lo, hi);
}

static void
cut(struct reg *g, int n)
{
	while (g->n > n) {
		g->n--;
		g->used -= g->b[g->n].size + g->b[g->n].pad;
		free(g->b[g->n].copy);
	}
}

static size_t
rnd_size(void)
{
	switch (rnd(12)) {
	case 0: return 1 + rndb(19);
	case 1: return carena.slab_size - 100 + rnd(200);
	case 2: return carena.slab_size + rnd(carena.slab_size);
	case 3: return SIZE_MAX - rndb(8);
	case 4: return 4096 - 60 + rnd(30);
	case 5: return 8192 - 60 + rnd(30);
	case 6: return 1 + rnd(5000);
	default: return 1 + rnd(300);
	}
}

static void
new_block(struct reg *g, char *p, size_t size, size_t pad)
{
	struct blk *b = &g->b[g->n++];
	memset(b, 0, sizeof(*b));
	b->p = p;
	b->size = size;
	b->pad = pad;
	b->tag = tags++;
	fill(p, size, b->tag);
}

static void
drv_history(uint64_t n)
{
	size_t limit = rnd(4) == 0 ? 8 * 65536 + rnd(1 << 20) : rnd(3) == 0 ? 24u << 20 : (size_t)1 << 30;
	OP(ALL, "open\n");
	cache_open(limit, rnd(2) ? 0 : 1 << 20, rnd_slab_size());
	LOG("slab_size %u quota %zu\n", carena.slab_size, limit);
	for (int k = 0; k < 2; k++) {
		struct reg *g = &R[k];
		memset(g, 0, sizeof(*g));
		g->b = __real_malloc(sizeof(struct blk) * (MAXB + 8));
		region_create(&g->r, &ccache);
		g->cb = rnd(2);
		if (g->cb)
			region_set_callbacks(&g->r, on_alloc, on_trunc, g);
	}
	int steps = 60 + rnd(200);
	for (int i = 0; i < steps; i++) {
		int k = rnd(5) == 0;
		struct reg *g = &R[k];
		struct region *r = &g->r;
		fail_mem = rnd(10) == 0 ? 1 + rnd(3) : 0;
		g->alloc_calls = g->trunc_calls = 0;
		size_t used0 = region_used(r), total0 = region_total(r);
		if (g->n >= MAXB) {
			OP(T, "%d: region_free()\n", k);
			region_free(r);
			cut(g, 0);
			g->rsv = NULL;
			continue;
		}
		switch (rnd(14)) {
		case 0: case 1: case 2: case 3: { /* alloc, maybe after a reservation */
			size_t size = g->rsv && rnd(4) ? 1 + rnd(g->rsv_size) : rnd_size();
			if (g->rsv && size > g->rsv_size)
				size = 1 + rnd(g->rsv_size);
			OP(A, "%d: region_alloc(%zu)%s\n", k, size, fail_mem ? " memory fails" : "");
			char *p = region_alloc(r, size);
			LOG("   = %p\n", p);
			if (g->rsv)
				CHECK(A, p == g->rsv, "allocation of %zu after a reservation of %zu at %p returned %p", size, g->rsv_size, g->rsv, p);
			g->rsv = NULL;
			if (p == NULL) {
				CHECK(A, region_used(r) == used0 && region_total(r) == total0, "a failed allocation changed the figures");
				CHECK(A | T, g->alloc_calls == 0, "callback for a failed allocation");
				break;
			}
			inside(g, p, size);
			overlap(A, p, size);
			new_block(g, p, size, 0);
			g->used += size;
			CHECK(A, region_used(r) == used0 + size, "used grew by %zu for %zu bytes", region_used(r) - used0, size);
			CHECK(A | T, g->alloc_calls == g->cb, "%d calls of the allocation callback", g->alloc_calls);
			CHECK(A | T, !g->cb || (g->cb_size == size && g->cb_used == used0), "allocation callback got size %zu, used %zu", g->cb_size, g->cb_used);
			break;
		}
		case 4: case 5: { /* aligned alloc */
			if (g->rsv)
				break;
			size_t al = (size_t)1 << (rnd(5) ? rnd(8) : rnd(17)), size = rnd_size();
			bool rs = rnd(3) == 0;
			char *q = NULL;
			if (rs) {
				OP(A, "%d: region_aligned_reserve(%zu, %zu)\n", k, size, al);
				q = region_aligned_reserve(r, size, al);
				total0 = region_total(r);
				CHECK(A, region_used(r) == used0, "a reservation changed the used size");
				if (q == NULL)
					break;
				CHECK(A, (uintptr_t)q % al == 0, "%p is not aligned to %zu", q, al);
				inside(g, q, size);
			}
			OP(A, "%d: region_aligned_alloc(%zu, %zu)%s\n", k, size, al, fail_mem ? " memory fails" : "");
			char *p = region_aligned_alloc(r, size, al);
			LOG("   = %p\n", p);
			if (rs)
				CHECK(A, p == q, "reserved %p, got %p", q, p);
			if (p == NULL) {
				CHECK(A, region_used(r) == used0 && region_total(r) == total0, "a failed allocation changed the figures");
				CHECK(A | T, g->alloc_calls == 0, "callback for a failed allocation");
				break;
			}
			CHECK(A, (uintptr_t)p % al == 0, "%p is not aligned to %zu", p, al);
			inside(g, p, size);
			overlap(A, p, size);
			size_t inc = region_used(r) - used0;
			CHECK(A, inc >= size && inc - size < al, "used grew by %zu for %zu aligned to %zu", inc, size, al);
			CHECK(A | T, g->alloc_calls == g->cb && (!g->cb || (g->cb_size == inc && g->cb_used == used0)), "allocation callback: %d calls, size %zu used %zu, expected %zu %zu",
			      g->alloc_calls, g->cb_size, g->cb_used, inc, used0);
			new_block(g, p, size, inc - size);
			g->used += inc;
			break;
		}
		case 6: { /* reserve */
			if (g->rsv)
				break;
			size_t size = rnd(6) == 0 ? rnd(2) : rnd_size();
			char *p;
			if (rnd(3) == 0) {
				size_t s = size;
				OP(A, "%d: region_reserve_cb(%zu)\n", k, size);
				p = region_reserve_cb(r, &s);
				if (p != NULL) {
					CHECK(A, s >= size, "reserved %zu of %zu", s, size);
					size = s;
				}
			} else {
				OP(A, "%d: region_reserve(%zu)\n", k, size);
				p = region_reserve(r, size);
			}
			LOG("   = %p\n", p);
			CHECK(A, region_used(r) == used0, "a reservation changed the used size");
			CHECK(A, g->alloc_calls == 0, "callback for a reservation");
			if (p == NULL) {
				CHECK(A, region_total(r) == total0, "a failed reservation changed the total");
				break;
			}
			inside(g, p, size);
			overlap(A, p, size);
			memset(p, 0x77, size);
			if (size > 0) {
				g->rsv = p;
				g->rsv_size = size;
			} else {
				p = region_alloc(r, 1);
				if (p != NULL) {
					inside(g, p, 1);
					overlap(A, p, 1);
					new_block(g, p, 1, 0);
					g->used++;
				}
			}
			break;
		}
		case 7: case 8: case 9: { /* truncate to an older state */
			if (rnd(2) && g->n > 4 && rnd(3))
				break;
			int keep = rnd(4) == 0 ? rnd(g->n + 1) : g->n - (int)rnd(g->n < 8 ? g->n + 1 : 8);
			size_t to = 0;
			for (int j = 0; j < keep; j++)
				to += g->b[j].size + g->b[j].pad;
			OP(T, "%d: region_truncate(%zu) from %zu\n", k, to, used0);
			region_truncate(r, to);
			cut(g, keep);
			g->rsv = NULL;
			CHECK(T, region_used(r) == to, "truncated to %zu, used %zu", to, region_used(r));
			CHECK(T, g->trunc_calls == g->cb && (!g->cb || (g->cb_size == to && g->cb_used == to)), "truncation callback: %d calls, %zu, used %zu",
			      g->trunc_calls, g->cb_size, g->cb_used);
			CHECK(T, g->alloc_calls == 0, "allocation callback from truncation");
			struct rslab *s = rlist_empty(&r->slabs.slabs) ? NULL : rlist_first_entry(&r->slabs.slabs, struct rslab, slab.next_in_list);
			CHECK(T, s == NULL || s->used > 0, "a slab that holds nothing older is kept");
			check_all(T);
			shm->nontrivial++;
			break;
		}
		case 10: case 11: { /* join */
			if (g->used == 0 || g->rsv || used0 > (3u << 20))
				break;
			size_t size = rnd(4) == 0 ? g->used : 1 + rnd(g->used);
			if (rnd(3) == 0 && g->n > 0) {
				size = 0;
				for (int j = 0, m = 1 + rnd(6); j < m && j < g->n; j++)
					size += g->b[g->n - 1 - j].size + g->b[g->n - 1 - j].pad;
			}
			struct rslab *first = rlist_first_entry(&r->slabs.slabs, struct rslab, slab.next_in_list);
			if (rnd(3) == 0) {
				/* to the border of a slab, or next to it */
				struct rslab *s;
				size_t sum = 0;
				int stop = 1 + rnd(4);
				rlist_foreach_entry(s, &r->slabs.slabs, slab.next_in_list) {
					sum += s->used;
					if (--stop == 0)
						break;
				}
				sum += rnd(3) - 1;
				if (sum > 0 && sum <= g->used)
					size = sum;
			}
			bool in_place = first->used >= size;
			char *at = (char *)rslab_data(first) + first->used - size;
			OP(J, "%d: region_join(%zu) of %zu%s\n", k, size, used0, fail_mem ? " memory fails" : "");
			char *p = region_join(r, size);
			LOG("   = %p\n", p);
			if (p == NULL) {
				CHECK(J, region_used(r) == used0 && region_total(r) == total0, "a failed join changed the figures");
				check_all(J);
				break;
			}
			CHECK(J, !in_place || (p == at && region_used(r) == used0), "contiguous bytes were copied");
			/* compare with the stream, from its end */
			size_t left = size;
			for (int j = g->n - 1; j >= 0 && left > 0; j--) {
				struct blk *b = &g->b[j];
				size_t m = left < b->size ? left : b->size;
				left -= m;
				if (b->raw)
					CHECK(J, memcmp(p + left, b->copy + b->size - m, m) == 0, "joined bytes of block %d differ", j);
				else
					CHECK(J, differs(p + left, m, b->tag, b->size - m) < 0, "joined bytes of block %d differ", j);
				left -= left < b->pad ? left : b->pad;
			}
			CHECK(J, left == 0, "the joined bytes are more than there are");
			if (region_used(r) != used0) {
				CHECK(J, region_used(r) == used0 + size, "used grew by %zu for a join of %zu", region_used(r) - used0, size);
				overlap(J, p, size);
				inside(g, p, size);
				struct blk *b = &g->b[g->n++];
				memset(b, 0, sizeof(*b));
				b->p = p;
				b->size = size;
				b->raw = true;
				b->copy = __real_malloc(size);
				memcpy(b->copy, p, size);
				g->used += size;
				shm->nontrivial++;
			} else {
				struct rslab *s = rlist_first_entry(&r->slabs.slabs, struct rslab, slab.next_in_list);
				CHECK(J, p == (char *)rslab_data(s) + s->used - size, "contiguous bytes are not at their place");
				CHECK(J, region_total(r) == total0, "a join that copies nothing took a slab");
				CHECK(J, g->alloc_calls == 0, "callback for a join that allocates nothing");
			}
			check_all(J);
			break;
		}
		case 12:
			if (rnd(3) == 0) {
				size_t after = rnd(2) ? used0 : used0 - rnd(used0 + 1);
				OP(T, "%d: region_free_after(%zu) used %zu\n", k, after, used0);
				region_free_after(r, after);
				if (used0 > after) {
					cut(g, 0);
					g->rsv = NULL;
					CHECK(T, region_total(r) == 0, "region_free_after() kept %zu", region_total(r));
				} else
					CHECK(T, region_total(r) == total0, "region_free_after() freed");
				check_all(T);
			}
			break;
		case 13:
			if (rnd(4))
				break;
			if (rnd(2)) {
				OP(T | A, "%d: region_reset()\n", k);
				region_reset(r);
				cut(g, 0);
				CHECK(T | A, region_used(r) == 0 && region_total(r) == total0, "reset: used %zu total %zu", region_used(r), region_total(r));
			} else {
				OP(T, "%d: region_free()\n", k);
				region_free(r);
				cut(g, 0);
				CHECK(T, region_total(r) == 0 && region_used(r) == 0, "free: used %zu total %zu", region_used(r), region_total(r));
				CHECK(T, g->trunc_calls == g->cb && (!g->cb || (g->cb_size == 0 && g->cb_used == 0)), "truncation callback on free");
			}
			g->rsv = NULL;
			check_all(T);
			break;
		}
		if (rnd(12) == 0)
			check_all(ALL);
	}
	check_all(ALL);
	fail_mem = 0;
	for (int k = 0; k < 2; k++) {
		OP(T, "%d: region_destroy()\n", k);
		region_destroy(&R[k].r);
		cut(&R[k], 0);
		free(R[k].b);
	}
	CHECK(T, slab_cache_used(&ccache) == 0, "%zu bytes are not given back", slab_cache_used(&ccache));
	OP(0, "close\n");
	cache_close();
}
