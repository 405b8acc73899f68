/* P15 allocation and collection, P16 flushing: a log-structured region against a list of slabs and blocks */
#include "drv.h"
#include "cache.h"
#include "lsregion.h"
#define A PROP(15)
#define F PROP(16)
enum { MAXB = 4000, MAXS = 600, NSVP = 2 };
struct blk { char *p; size_t size; uint64_t tag; int64_t id; };
struct sl {
	char *p;
	size_t size, used;	/* used: without header */
	int64_t max;
	size_t fl[NSVP];	/* flushed through each savepoint */
	struct blk *b; int n, cap;
};
static struct lsregion R;
static struct sl S[MAXS];
static int ns;
static int64_t id;
static struct lsregion_svp svp[NSVP];
static uint64_t tags;
static char *rsv; static size_t rsv_size, rsv_al;

static void
drop(int n)
{
	for (int i = 0; i < n; i++)
		free(S[i].b);
	memmove(S, S + n, sizeof(S[0]) * (ns - n));
	ns -= n;
}
static void
check(uint64_t m, bool content)
{
	size_t used = 0, total = 0, big = 0;
	int i = 0;
	struct lslab *l;
	rlist_foreach_entry(l, &R.slabs.slabs, next_in_list) {
		CHECK(m, i < ns && (char *)l == S[i].p, "slab %d of the list is not the expected one", i);
		CHECK(m, l->slab_size == S[i].size && l->slab_used == S[i].used + lslab_sizeof() && l->max_id == S[i].max,
		      "slab %d: size %zu used %zu max id %lld, expected %zu %zu %lld", i, l->slab_size, l->slab_used - lslab_sizeof(), (long long)l->max_id, S[i].size, S[i].used, (long long)S[i].max);
		used += S[i].used;
		total += S[i].size;
		if (S[i].size > carena.slab_size)
			big += (S[i].size + 1023) & ~(size_t)1023;
		i++;
	}
	CHECK(m, i == ns, "%d slabs, expected %d", i, ns);
	if (R.cached != NULL)
		total += R.cached->slab_size;
	CHECK(m, lsregion_used(&R) == used, "used %zu, not %zu", lsregion_used(&R), used);
	CHECK(m, lsregion_total(&R) == total, "total %zu, not %zu", lsregion_total(&R), total);
	CHECK(m, quota_used(&cq) == carena.used + big, "quota %zu, arena %zu, large slabs %zu", quota_used(&cq), carena.used, big);
	if (content)
		for (i = 0; i < ns; i++)
			for (int j = 0; j < S[i].n; j++) {
				struct blk *b = &S[i].b[j];
				CHECK(m, differs(b->p, b->size, b->tag, 0) < 0, "block of %zu at %p (id %lld) has changed", b->size, b->p, (long long)b->id);
			}
}
/* the slab that holds [p, p + size): the last of the list; new or the one we know */
static struct sl *
locate(char *p, size_t size)
{
	CHECK(A, !rlist_empty(&R.slabs.slabs), "an allocation without a slab");
	struct lslab *l = rlist_last_entry(&R.slabs.slabs, struct lslab, next_in_list);
	CHECK(A, p >= (char *)l + lslab_sizeof() && p <= (char *)l + l->slab_size && size <= (size_t)((char *)l + l->slab_size - p), "[%p, +%zu) is not inside the newest slab %p of %zu", p, size, l, l->slab_size);
	if (ns == 0 || S[ns - 1].p != (char *)l) {
		for (int i = 0; i < ns; i++)
			CHECK(A, (char *)l + l->slab_size <= S[i].p || S[i].p + S[i].size <= (char *)l, "the new slab overlaps slab %d", i);
		if (ns == MAXS)
			drv_stop(0);
		memset(&S[ns], 0, sizeof(S[0]));
		S[ns].p = (char *)l;
		S[ns].size = l->slab_size;
		S[ns].max = LSLAB_NOT_USED_ID;
		ns++;
	}
	return &S[ns - 1];
}
static size_t
rnd_size(void)
{
	size_t ss = carena.slab_size;
	switch (rnd(14)) {
	case 0: return 1 + rndb(18);
	case 1: return ss - 100 + rnd(110);
	case 2: return ss + rnd(ss);
	case 3: return ns ? S[ns - 1].size - S[ns - 1].used - lslab_sizeof() + rnd(3) - 1 : 1;
	case 4: return SIZE_MAX - rndb(10);
	case 5: return ss / 2 + rnd(100);
	case 6: return ss - lslab_sizeof() + rnd(3) - 1;
	case 7: case 8: return 1 + rnd(ss / 3);
	default: return 1 + rnd(400);
	}
}
static void
drv_history(uint64_t n)
{
	size_t limit = rnd(3) == 0 ? 6 * 65536 + rnd(1 << 20) : (size_t)1 << 30;
	OP(A | F, "open\n");
	cache_open(limit, rnd(2) ? 0 : 1 << 20, rnd(3) ? 65536 : rnd_slab_size());
	LOG("slab_size %u quota %zu\n", carena.slab_size, limit);
	lsregion_create(&R, &carena);
	ns = 0;
	id = rnd(2) ? 0 : rnd(100);
	tags = rnd(1000);
	for (int v = 0; v < NSVP; v++)
		lsregion_svp_create(&svp[v]);
	rsv = NULL;
	int steps = 60 + rnd(200);
	uint64_t bytes = 0;
	for (int i = 0; i < steps; i++) {
		fail_mem = rnd(8) == 0 ? 1 + rnd(2) : 0;
		size_t used0 = lsregion_used(&R), total0 = lsregion_total(&R);
		if (rnd(3) == 0)
			id += rnd(3) == 0 ? rnd(100) : 1;
		switch (rnd(12)) {
		case 0: case 1: case 2: case 3: case 4: {
			size_t size = rnd_size(), al = 1;
			if (size == 0) size = 1;
			if (bytes > (64u << 20) && size < SIZE_MAX / 2 && size > 1000) size = 1 + rnd(1000);
			if (rsv && rnd(4)) { size = 1 + rnd(rsv_size); al = rsv_al; }
			else {
				rsv = NULL;
				if (rnd(3) == 0) al = (size_t)1 << rnd(rnd(6) ? 9 : 18);
			}
			OP(A | F, "alloc %zu align %zu id %lld%s%s\n", size, al, (long long)id, rsv ? " after reserve" : "", fail_mem ? " memory fails" : "");
			char *p = al > 1 || rnd(8) == 0 ? lsregion_aligned_alloc(&R, size, al, id) : lsregion_alloc(&R, size, id);
			LOG("   = %p\n", p);
			if (rsv) {
				CHECK(A, p == rsv, "%zu bytes reserved at %p, but allocated at %p", rsv_size, rsv, p);
				rsv = NULL;
			}
			if (p == NULL) {
				CHECK(A, lsregion_used(&R) == used0 && lsregion_total(&R) == total0, "a failed allocation changed the figures");
				check(A, false);
				break;
			}
			CHECK(A, ((uintptr_t)p & (al - 1)) == 0, "%p is not aligned to %zu", p, al);
			struct sl *s = locate(p, size);
			char *end = s->p + lslab_sizeof() + s->used;
			CHECK(A, p >= end && (size_t)(p - end) < al, "block %p does not follow the used part %p", p, end);
			size_t inc = p + size - end;
			CHECK(A, lsregion_used(&R) == used0 + inc, "used grew by %zu for %zu", lsregion_used(&R) - used0, inc);
			s->used += inc;
			s->max = id;
			if (s->n == s->cap)
				s->b = realloc(s->b, sizeof(struct blk) * (s->cap = s->cap * 2 + 8));
			struct blk *b = &s->b[s->n++];
			*b = (struct blk){ p, size, tags++, id };
			fill(p, size, b->tag);
			bytes += size;
			check(A, false);
			break;
		}
		case 5: case 6: {
			size_t size = rnd_size(), al = rnd(2) ? 1 : (size_t)1 << rnd(10);
			if (bytes > (64u << 20) && size < SIZE_MAX / 2 && size > 1000) size = 1 + rnd(1000);
			void *un = NULL;
			OP(A | F, "reserve %zu align %zu%s\n", size, al, fail_mem ? " memory fails" : "");
			char *p = al > 1 ? lsregion_aligned_reserve(&R, size, al, &un) : lsregion_reserve(&R, size);
			LOG("   = %p\n", p);
			CHECK(A, lsregion_used(&R) == used0, "a reservation changed the used size");
			if (p == NULL) {
				CHECK(A, lsregion_total(&R) == total0, "a failed reservation changed the total");
				break;
			}
			CHECK(A, ((uintptr_t)p & (al - 1)) == 0, "%p is not aligned to %zu", p, al);
			struct sl *s = locate(p, size);
			char *end = s->p + lslab_sizeof() + s->used;
			CHECK(A, p >= end && (size_t)(p - end) < al && (al == 1 || un == end), "reservation %p (unaligned %p) does not follow the used part %p", p, un, end);
			if (size < (1 << 20))
				memset(p, 0x66, size);
			rsv = size ? p : NULL;
			rsv_size = size;
			rsv_al = al;
			check(A, false);
			shm->nontrivial++;
			break;
		}
		case 7: case 8: {
			int64_t to = ns && rnd(3) ? S[rnd(ns)].max + rnd(2) - (int64_t)rnd(2) : rnd(4) ? id - (int64_t)rnd(20) : id;
			if (to < -1) to = -1;
			if (rnd(20) == 0) to = INT64_MAX;
			OP(A | F, "gc %lld\n", (long long)to);
			lsregion_gc(&R, to);
			int c = 0;
			while (c < ns && S[c].max <= to)
				c++;
			drop(c);
			rsv = NULL;
			check(A, true);
			if (c) shm->nontrivial++;
			break;
		}
		case 9: case 10: {
			int v = rnd(NSVP), max = rnd(6) == 0 ? 0 : rnd(2) ? 1 + rnd(3) : 600, cnt = max;
			struct iovec iov[601];
			memset(iov, 0x99, sizeof(iov));
			OP(F, "flush svp %d limit %d\n", v, max);
			int64_t got = lsregion_to_iovec(&R, iov, &cnt, &svp[v]), want = LSLAB_NOT_USED_ID;
			LOG("   = %lld, %d vectors\n", (long long)got, cnt);
			CHECK(F, cnt >= 0 && cnt <= max, "%d vectors of %d", cnt, max);
			int k = 0;
			for (int j = 0; j < ns && k < max; j++) {
				struct sl *s = &S[j];
				if (s->fl[v] == s->used)
					continue;
				CHECK(F, k < cnt, "slab %d: %zu bytes from %zu are not flushed", j, s->used - s->fl[v], s->fl[v]);
				char *base = s->p + lslab_sizeof() + s->fl[v];
				CHECK(F, iov[k].iov_base == base && iov[k].iov_len == s->used - s->fl[v], "vector %d is [%p, +%zu), unflushed bytes are [%p, +%zu)",
				      k, iov[k].iov_base, iov[k].iov_len, base, s->used - s->fl[v]);
				s->fl[v] = s->used;
				want = s->max;
				k++;
			}
			CHECK(F, k == cnt, "%d vectors for %d slabs with new data", cnt, k);
			CHECK(F, got == want, "returned id %lld, flushed up to %lld", (long long)got, (long long)want);
			check(F, false);
			break;
		}
		case 11:
			check(A, rnd(3) == 0);
			break;
		}
	}
	fail_mem = 0;
	check(A | F, true);
	OP(A, "lsregion_destroy()\n");
	lsregion_destroy(&R);
	CHECK(A, quota_used(&cq) == carena.used, "after destroy: quota %zu, arena %zu", quota_used(&cq), carena.used);
	drop(ns);
	cache_close();
}
