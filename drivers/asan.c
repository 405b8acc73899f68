/* P27: the allocators of the AddressSanitizer build against lists of their live blocks */
#include "drv.h"
#include <sanitizer/asan_interface.h>
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"
#include "mempool.h"
#include "small.h"
#include "region.h"
#include "lsregion.h"
#include "obuf.h"
#define P PROP(27)
#define NOASAN __attribute__((no_sanitize_address))
enum { MAXB = 300 };

static int asserts;
static void
on_assert(const char *file, int line, const char *fn, const char *expr)
{
	(void)file; (void)line; (void)fn; (void)expr;
	asserts++;
}
static void
fatal_assert(const char *file, int line, const char *fn, const char *expr)
{
	(void)file; (void)line;
	drv_fail(P, "%s: assertion %s does not hold", fn, expr);
}

static void
fill(char *p, size_t n, uint64_t tag)
{
	for (size_t i = 0; i < n; i++)
		p[i] = (char)(tag * 31 + i * 7);
}
static bool
filled(const char *p, size_t n, uint64_t tag, size_t from)
{
	for (size_t i = 0; i < n; i++) {
		if (p[i] != (char)(tag * 31 + (from + i) * 7))
			return false;
	}
	return true;
}
static NOASAN void
block(const char *what, char *p, size_t size, size_t al)
{
	uintptr_t u = (uintptr_t)p;
	CHECK(P, u % al == 0, "%s: payload %p is not aligned to %zu", what, (void *)p, al);
	CHECK(P, u % (2 * al) != 0, "%s: payload %p is aligned to %zu", what, (void *)p, 2 * al);
	CHECK(P, __asan_region_is_poisoned(p, size) == NULL, "%s: the payload of %zu bytes is poisoned", what, size);
	CHECK(P, __asan_address_is_poisoned(p + size), "%s: the byte after the payload of %zu is not poisoned", what, size);
	CHECK(P, __asan_address_is_poisoned((char *)(u & ~(uintptr_t)7) - 1), "%s: memory before the payload is not poisoned", what);
}

static NOASAN void
do_raw(void)
{
	struct { char *h; size_t size, al, hs; uint64_t tag; } b[40];
	int n = 0;
	for (int k = 0; k < 120; k++) {
		if (n < 40 && rnd(2) == 0) {
			size_t size = rndb(13), al = 1ul << rnd(13), hs = rnd(3) ? rnd(12) * 8 : rnd(100);
			OP(P, "alloc %zu al %zu hs %zu; ", size, al, hs);
			char *h = small_asan_alloc(size, al, hs);
			char *p = small_asan_payload_from_header(h);
			CHECK(P, (uintptr_t)h % 8 == 0, "header %p is not aligned", (void *)h);
			CHECK(P, small_asan_header_from_payload(p) == h, "the header is not found from the payload");
			CHECK(P, h + hs + 2 <= p, "header and payload overlap");
			block("small_asan_alloc", p, size, al);
			fill(p, size, k);
			for (size_t i = 0; i < hs; i++)
				h[i] = (char)(k + i);
			CHECK(P, small_asan_header_from_payload(p) == h && small_asan_payload_from_header(h) == p, "lost after the header is written");
			b[n].h = h; b[n].size = size; b[n].al = al; b[n].hs = hs; b[n].tag = k;
			n++;
		} else if (n > 0) {
			int i = rnd(n);
			char *p = small_asan_payload_from_header(b[i].h);
			CHECK(P, filled(p, b[i].size, b[i].tag, 0), "payload changed");
			for (size_t j = 0; j < b[i].hs; j++)
				CHECK(P, b[i].h[j] == (char)(b[i].tag + j), "header changed");
			unsigned m = (uintptr_t)p & 7;
			OP(P, "free %d; ", i);
			if (m && rnd(2)) {
				/* damage before the payload is reported */
				p[-1 - (int)rnd(m)] ^= 1 + rnd(255);
				asserts = 0;
				small_on_assert_failure = on_assert;
				small_asan_free(b[i].h);
				small_on_assert_failure = fatal_assert;
				CHECK(P, asserts != 0, "overwritten magic is not reported");
			} else {
				small_asan_free(b[i].h);
			}
			b[i] = b[--n];
		}
	}
}

static struct quota Q;
static struct slab_arena AR;
static struct slab_cache C, C2;

static void
do_pools(void)
{
	struct mempool m[2];
	struct small_alloc s;
	float af;
	uint32_t os[2];
	for (int i = 0; i < 2; i++) {
		os[i] = 1 + (rnd(2) ? rnd(300) : rndb(13) % 9000);
		memset(&m[i], 0xaa, sizeof(m[i]));
		OP(P, "pool %d of %u; ", i, os[i]);
		mempool_create(&m[i], &C, os[i]);
	}
	memset(&s, 0xaa, sizeof(s));
	small_alloc_create(&s, &C, 64, 8, 1.1, &af);
	struct { int w; char *p; size_t size; uint64_t tag; } b[MAXB];
	int n = 0;
	size_t cnt[3] = {0}, used[3] = {0}, q0 = quota_used(&Q);
	struct slab *sl[8];
	size_t ss[8], cu = slab_cache_used(&C);
	int ns = 0;
	CHECK(P, cu == 0, "new slab cache uses %zu", cu);
	for (int k = 0; k < 200; k++) {
		int w = rnd(4);
		if (w == 3) {
			if (ns < 8 && rnd(2)) {
				size_t size = rndb(17);
				OP(P, "slab_get %zu; ", size);
				struct slab *x = slab_get(&C, size);
				ss[ns] = slab_real_size(&C, size);
				CHECK(P, ss[ns] >= size + sizeof(struct slab), "real size of %zu is %zu", size, ss[ns]);
				CHECK(P, x->size == ss[ns], "slab size %zu", x->size);
				block("slab_get", (char *)x, ss[ns], 16);
				sl[ns++] = x;
				cu += ss[ns - 1];
			} else if (ns) {
				int i = rnd(ns);
				cu -= ss[i];
				OP(P, "slab_put %d; ", i);
				slab_put(&C, sl[i]);
				sl[i] = sl[--ns];
				ss[i] = ss[ns];
			}
			CHECK(P, slab_cache_used(&C) == cu, "slab cache uses %zu, not %zu", slab_cache_used(&C), cu);
			continue;
		}
		if (n < MAXB && rnd(5) < 3) {
			size_t size = w < 2 ? os[w] : rndb(14);
			OP(P, "get %d %zu; ", w, size);
			char *p = w < 2 ? mempool_alloc(&m[w]) : smalloc(&s, size);
			if (p == NULL) {
				CHECK(P, w == 2, "no memory");
				continue;
			}
			size_t al = w < 2 ? (size_t)(os[w] & -os[w]) : 4;
			block("object", p, size, al > 4096 ? 4096 : al);
			fill(p, size, k);
			b[n].w = w; b[n].p = p; b[n].size = size; b[n].tag = k;
			n++;
			cnt[w]++;
			used[w] += size;
		} else if (n) {
			int i = rnd(n);
			w = b[i].w;
			CHECK(P, filled(b[i].p, b[i].size, b[i].tag, 0), "object changed");
			OP(P, "free %d of %d; ", i, w);
			if (rnd(16) == 0) {
				/* a wrong owner or size is reported, then nothing can be done with the block */
				asserts = 0;
				small_on_assert_failure = on_assert;
				if (w < 2)
					mempool_free(&m[!w], b[i].p);
				else
					smfree(&s, b[i].p, b[i].size + 1);
				small_on_assert_failure = fatal_assert;
				CHECK(P, asserts != 0, "wrong owner or size is not reported");
				drv_stop(0);
			}
			if (w < 2)
				mempool_free(&m[w], b[i].p);
			else
				smfree(&s, b[i].p, b[i].size);
			cnt[w]--;
			used[w] -= b[i].size;
			b[i] = b[--n];
		}
		for (w = 0; w < 2; w++) {
			CHECK(P, mempool_count(&m[w]) == cnt[w], "pool %d has %zu objects", w, mempool_count(&m[w]));
			CHECK(P, mempool_used(&m[w]) == used[w], "pool %d uses %zu", w, mempool_used(&m[w]));
			struct mempool_stats st;
			mempool_stats(&m[w], &st);
			CHECK(P, st.objcount == cnt[w] && st.totals.used == used[w] && st.objsize == os[w], "stats of pool %d", w);
		}
		CHECK(P, s.used == used[2] && s.objcount == cnt[2], "small: %zu bytes, %zu objects", s.used, s.objcount);
	}
	(void)q0;
	while (n) {
		n--;
		if (b[n].w < 2)
			mempool_free(&m[b[n].w], b[n].p);
		else
			smfree(&s, b[n].p, b[n].size);
	}
}

static size_t rcb_size, rcb_used;
static int rcb_calls, tcb_calls;
static void
on_alloc(struct region *r, size_t size, void *arg)
{
	(void)r; (void)arg;
	rcb_calls++;
	rcb_size = size;
}
static void
on_trunc(struct region *r, size_t used, void *arg)
{
	(void)arg;
	tcb_calls++;
	rcb_size = used;
	rcb_used = region_used(r);
}

static void
do_region(void)
{
	struct region r;
	region_create(&r, &C);
	bool cb = rnd(2);
	if (cb)
		region_set_callbacks(&r, on_alloc, on_trunc, NULL);
	struct { char *p, *copy; size_t size; } b[MAXB];
	int n = 0;
	size_t used = 0;
	char *rsv = NULL;
	size_t rsize = 0, ral = 1;
	for (int k = 0; k < 150; k++) {
		int op = rnd(10);
		rcb_calls = tcb_calls = 0;
		if (op < 5 && n < MAXB) {
			size_t size = 1 + rndb(10), al = rnd(2) ? 1 : 1ul << rnd(8);
			if (rsv) {
				al = ral;
				size = 1 + rnd(rsize);
			}
			OP(P, "alloc %zu al %zu%s; ", size, al, rsv ? " reserved" : "");
			char *p = al == 1 ? region_alloc(&r, size) : region_aligned_alloc(&r, size, al);
			CHECK(P, rsv == NULL || p == rsv, "not the reserved address");
			block("region_alloc", p, size, al);
			CHECK(P, rcb_calls == cb && (!cb || rcb_size == size), "allocation callback");
			fill(p, size, k);
			b[n].p = p; b[n].size = size; b[n].copy = memcpy(malloc(size), p, size);
			n++;
			used += size;
			rsv = NULL;
		} else if (op < 7 && rsv == NULL) {
			size_t size = rndb(10);
			ral = rnd(2) ? 1 : 1ul << rnd(8);
			OP(P, "reserve %zu al %zu; ", size, ral);
			if (ral == 1 && rnd(2)) {
				rsize = size;
				rsv = region_reserve_cb(&r, &rsize);
			} else {
				rsv = ral == 1 ? region_reserve(&r, size) : region_aligned_reserve(&r, size, ral);
				rsize = size < 128 ? 128 : size;
			}
			CHECK(P, rsize >= size, "reserved %zu", rsize);
			block("region_reserve", rsv, rsize, ral);
			memset(rsv, 1, rsize);
		} else if (op == 7) {
			int keep = rnd(n + 1);
			size_t cut = 0;
			for (int i = keep; i < n; i++)
				cut += b[i].size;
			OP(P, "truncate to %zu of %zu; ", used - cut, used);
			if (used - cut == 0 && rnd(2))
				rnd(2) ? region_free(&r) : region_reset(&r);
			else
				region_truncate(&r, used - cut);
			CHECK(P, tcb_calls == cb && (!cb || (rcb_size == used - cut && rcb_used == used - cut)), "truncation callback");
			while (n > keep)
				free(b[--n].copy);
			used -= cut;
			rsv = NULL;
		} else if (op == 8 && n > 0 && n < MAXB && rsv == NULL) {
			size_t size = 1 + rnd(used);
			if (rnd(3) == 0)
				size = 1 + rnd(b[n - 1].size);
			if (size > 20000)
				continue;
			OP(P, "join %zu of %zu; ", size, used);
			char *p = region_join(&r, size);
			block("region_join", p, size, 1);
			size_t left = size;
			for (int i = n; left > 0;) {
				i--;
				size_t t = b[i].size < left ? b[i].size : left;
				CHECK(P, memcmp(p + left - t, b[i].copy + b[i].size - t, t) == 0, "joined bytes differ");
				left -= t;
			}
			b[n].p = p; b[n].size = size; b[n].copy = memcpy(malloc(size), p, size);
			n++;
			used += size;
		}
		CHECK(P, region_used(&r) == used, "used %zu, not %zu", region_used(&r), used);
		for (int i = 0; i < n; i++)
			CHECK(P, memcmp(b[i].p, b[i].copy, b[i].size) == 0, "block %d changed", i);
	}
	region_destroy(&r);
}

static void
do_lsregion(void)
{
	struct lsregion r;
	lsregion_create(&r, &AR);
	struct { char *p; size_t size; int64_t id; uint64_t tag; } b[MAXB];
	int n = 0;
	size_t used = 0;
	int64_t id = 1;
	char *rsv = NULL;
	size_t rsize = 0, ral = 1;
	for (int k = 0; k < 200; k++) {
		int op = rnd(10);
		if (op < 6 && n < MAXB) {
			size_t size = 1 + rndb(10), al = rnd(2) ? 1 : 1ul << rnd(8);
			if (rsv) {
				al = ral;
				size = 1 + rnd(rsize);
			}
			id += rnd(3);
			OP(P, "alloc %zu al %zu id %ld%s; ", size, al, (long)id, rsv ? " reserved" : "");
			char *p = al == 1 ? lsregion_alloc(&r, size, id) : lsregion_aligned_alloc(&r, size, al, id);
			CHECK(P, rsv == NULL || p == rsv, "not the reserved address");
			block("lsregion_alloc", p, size, al);
			fill(p, size, k);
			b[n].p = p; b[n].size = size; b[n].id = id; b[n].tag = k;
			n++;
			used += size;
			rsv = NULL;
		} else if (op < 8 && rsv == NULL) {
			rsize = 1 + rndb(10);
			ral = rnd(2) ? 1 : 1ul << rnd(8);
			OP(P, "reserve %zu al %zu; ", rsize, ral);
			rsv = ral == 1 ? lsregion_reserve(&r, rsize) : lsregion_aligned_reserve(&r, rsize, ral);
			block("lsregion_reserve", rsv, rsize, ral);
			memset(rsv, 1, rsize);
		} else if (op == 8 && rsv == NULL) {
			int64_t min = id - rnd(6);
			OP(P, "gc %ld; ", (long)min);
			lsregion_gc(&r, min);
			int j = 0;
			while (j < n && b[j].id <= min)
				used -= b[j++].size;
			memmove(b, b + j, (n - j) * sizeof(b[0]));
			n -= j;
		}
		CHECK(P, lsregion_used(&r) == used, "used %zu, not %zu", lsregion_used(&r), used);
		for (int i = 0; i < n; i++)
			CHECK(P, filled(b[i].p, b[i].size, b[i].tag, 0), "block %d changed", i);
	}
	/* everything at once, when the ids are different */
	struct lsregion_svp svp;
	lsregion_svp_create(&svp);
	struct iovec iov[MAXB];
	int cnt = MAXB;
	OP(P, "flush; ");
	int64_t max = lsregion_to_iovec(&r, iov, &cnt, &svp);
	CHECK(P, cnt == n && max == (n ? b[n - 1].id : -1), "%d of %d allocations flushed, id %ld", cnt, n, (long)max);
	for (int i = 0; i < n; i++)
		CHECK(P, iov[i].iov_base == b[i].p && iov[i].iov_len == b[i].size, "vector %d", i);
	lsregion_destroy(&r);
	CHECK(P, lsregion_used(&r) == 0, "used after destroy");
}

static void
do_obuf(void)
{
	struct obuf o;
	memset(&o, 0xaa, sizeof(o));
	size_t start = 1 + rndb(10);
	OP(P, "obuf %zu; ", start);
	obuf_create(&o, &C, start);
	static char s[1 << 22];
	size_t used = 0, rsize = 0;
	char *rsv = NULL;
	struct { struct obuf_svp svp; size_t used; } sv[64];
	int ns = 0, blocks = 0;
	int steps = rnd(3) ? 60 : 400;
	for (int k = 0; k < steps; k++) {
		int op = rnd(20);
		if (o.pos >= 124)
			op = 18;
		if (op < 13) {
			size_t size = rsv ? rnd(rsize + 1) : rndb(rnd(4) ? 8 : 12);
			if (used + size > sizeof(s) || (o.pos >= 96 && !rsv && size > 4096))
				continue;
			char buf[5000];
			size_t old = o.iov[o.pos].iov_len;
			OP(P, "alloc %zu%s; ", size, rsv ? " reserved" : "");
			for (size_t i = 0; i < size; i++)
				s[used + i] = (char)(k * 13 + i * 5);
			char *p;
			if (!rsv && rnd(3) == 0) {
				memcpy(buf, s + used, size);
				CHECK(P, obuf_dup(&o, buf, size) == size, "obuf_dup");
				p = (char *)o.iov[o.pos].iov_base + o.iov[o.pos].iov_len - size;
			} else {
				p = obuf_alloc(&o, size);
				CHECK(P, rsv == NULL || p == rsv, "not the reserved address");
				memcpy(p, s + used, size);
			}
			CHECK(P, __asan_region_is_poisoned(p, size) == NULL, "allocated bytes are poisoned");
			(void)old;
			used += size;
			rsv = NULL;
		} else if (op < 16 && !rsv) {
			size_t size = rndb(10);
			OP(P, "reserve %zu; ", size);
			rsize = size;
			rsv = rnd(2) ? obuf_reserve(&o, size) : obuf_reserve_cb(&o, &rsize);
			CHECK(P, rsize >= size, "reserved %zu", rsize);
			CHECK(P, __asan_region_is_poisoned(rsv, rsize) == NULL, "reserved bytes are poisoned");
			if (rsize > 4000)
				rsize = 4000;
			memset(rsv, 1, rsize);
		} else if (op < 18 && ns < 64 && !rsv) {
			OP(P, "savepoint; ");
			sv[ns].svp = obuf_create_svp(&o);
			sv[ns++].used = used;
		} else if (op == 18) {
			if (ns == 0 || rnd(8) == 0) {
				OP(P, "reset; ");
				obuf_reset(&o);
				used = ns = 0;
			} else {
				int i = rnd(ns);
				OP(P, "rollback to %zu of %zu; ", sv[i].used, used);
				obuf_rollback_to_svp(&o, &sv[i].svp);
				used = sv[i].used;
				ns = i;
			}
			rsv = NULL;
		}
		CHECK(P, obuf_size(&o) == used, "size %zu, not %zu", obuf_size(&o), used);
		size_t at = 0;
		int cnt = obuf_iovcnt(&o);
		for (int i = 0; i < cnt; i++) {
			CHECK(P, o.iov[i].iov_len <= used - at, "more bytes than used");
			CHECK(P, memcmp(o.iov[i].iov_base, s + at, o.iov[i].iov_len) == 0, "stream differs in vector %d", i);
			at += o.iov[i].iov_len;
		}
		CHECK(P, at == used, "%zu bytes in the vectors, %zu used", at, used);
		CHECK(P, cnt > 128 || o.iov[cnt].iov_base == NULL, "no end mark");
	}
	(void)blocks;
	obuf_destroy(&o);
}

static void
drv_history(uint64_t n)
{
	small_on_assert_failure = fatal_assert;
	quota_init(&Q, rnd(4) ? QUOTA_MAX : 1100000 + rnd(2000000));
	memset(&C, 0xaa, sizeof(C));
	slab_arena_create(&AR, &Q, 0, 65536 << rnd(3), 0);
	slab_cache_create(&C, &AR);
	switch (n % 5) {
	case 0: do_raw(); break;
	case 1: do_pools(); break;
	case 2: do_region(); break;
	case 3: do_lsregion(); break;
	case 4: do_obuf(); break;
	}
	for (int i = 0; i < 3; i++) {
		OP(P, "map; ");
		char *p = slab_map(&AR);
		block("slab_map", p, AR.slab_size, 8);
		slab_unmap(&AR, p);
	}
	shm->nontrivial++;
}
