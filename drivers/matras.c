/* Matras: ids, addresses, read views, failing extents (P20-P22). */
#include "drv.h"
#include "matras.h"

#define ALLP (PROP(20) | PROP(21) | PROP(22))
#define MAXB 600
#define MAXV 5
#define MAXE 8192

static struct matras_allocator al;
static struct matras_stats st;
static struct matras m;
static size_t esize, bsize;
static bool lazy;

/* extents the allocator has given out */
static void *ext[MAXE];
static int next_;
static bool fail_all_;
static int fail_one;
static uint64_t nfail, nalloc;

static void *
ext_alloc(struct matras_allocator *a)
{
	CHECK(ALLP, a == &al, "wrong allocator passed");
	if (fail_all_ || (fail_one > 0 && rnd(fail_one) == 0)) {
		nfail++;
		return NULL;
	}
	if (next_ == MAXE)
		return NULL;
	nalloc++;
	void *p;
	if (posix_memalign(&p, esize < sizeof(void *) ? sizeof(void *) : esize, esize) != 0)
		drv_stop(3);
	memset(p, 0xb5, esize);
	ext[next_++] = p;
	return p;
}

static void
ext_free(struct matras_allocator *a, void *p)
{
	CHECK(ALLP, a == &al, "wrong allocator passed");
	for (int i = 0; i < next_; i++) {
		if (ext[i] == p) {
			ext[i] = ext[--next_];
			memset(p, 0xd7, esize);
			free(p);
			return;
		}
	}
	drv_fail(ALLP, "an extent is freed that is not allocated (or was freed before)");
}

struct model {
	uint32_t count;
	uint32_t tag[MAXB];
};
static struct model head, vm[MAXV];
static struct matras_view view[MAXV];
static bool vused[MAXV];
static uint32_t tags;
static void *addr[MAXB];	/* address of a block, NULL when it may have changed */

static void
put(void *p, uint32_t tag)
{
	unsigned char *c = p;
	for (size_t i = 0; i < bsize; i++)
		c[i] = (unsigned char)(tag * 89 + (tag >> 8) * 31 + i * 7);
}
static bool
same(const void *p, uint32_t tag)
{
	const unsigned char *c = p;
	for (size_t i = 0; i < bsize; i++)
		if (c[i] != (unsigned char)(tag * 89 + (tag >> 8) * 31 + i * 7))
			return false;
	return true;
}
static int
nviews(void)
{
	int n = 0;
	for (int i = 0; i < MAXV; i++)
		n += vused[i];
	return n;
}

static int
cmpp(const void *a, const void *b)
{
	uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b;
	return x < y ? -1 : x > y;
}
static void *reach[MAXE];
static int nreach;
static void
note(void *p)
{
	for (int i = 0; i < nreach; i++)
		if (reach[i] == p)
			return;
	if (nreach < MAXE)
		reach[nreach++] = p;
}
/* extents of a version, from the documented three-level layout */
static void
walk(const struct matras_view *v)
{
	if (v->block_count == 0)
		return;
	size_t per3 = esize / bsize, ptrs = esize / sizeof(void *), per2 = per3 * ptrs;
	note(v->root);
	for (size_t b = 0; b < v->block_count; b += per3) {
		void **e2 = ((void ***)v->root)[b / per2];
		note(e2);
		note(e2[b % per2 / per3]);
	}
}

static void
verify(bool deep)
{
	CHECK(PROP(20) | PROP(22), m.head.block_count == head.count, "block count %zu, expected %u",
	      m.head.block_count, head.count);
	uint32_t step = deep ? 1 : 1 + rnd(7);
	for (uint32_t i = deep ? 0 : rnd(step + 1); i < head.count; i += step) {
		void *p = matras_get(&m, i);
		CHECK(PROP(20), (uintptr_t)p % bsize == 0, "block %u is misaligned", i);
		CHECK(PROP(20), addr[i] == NULL || addr[i] == p, "the address of block %u has changed", i);
		CHECK(ALLP, same(p, head.tag[i]), "block %u has lost its content", i);
	}
	for (int k = 0; k < MAXV; k++) {
		if (!vused[k])
			continue;
		for (uint32_t i = deep ? 0 : rnd(step + 1); i < vm[k].count; i += step)
			CHECK(PROP(21) | PROP(22), same(matras_view_get(&m, &view[k], i), vm[k].tag[i]),
			      "block %u of view %d has changed", i, k);
	}
	CHECK(ALLP, m.extent_count == (uint32_t)(next_ - al.num_reserved_extents) && st.extent_count == m.extent_count &&
	      matras_extent_count(&m) == m.extent_count,
	      "extent count %u, statistics %u, held %d", m.extent_count, st.extent_count,
	      next_ - al.num_reserved_extents);
	if (deep) {
		nreach = 0;
		walk(&m.head);
		int inhead = nreach;
		for (int k = 0; k < MAXV; k++)
			if (vused[k])
				walk(&view[k]);
		CHECK(ALLP, (uint32_t)nreach == m.extent_count, "%u extents held, ids and views need %d",
		      m.extent_count, nreach);
		CHECK(PROP(21) | PROP(22), (uint32_t)(nreach - inhead) == st.read_view_extent_count,
		      "%u read view extents reported, %d held only by views", st.read_view_extent_count,
		      nreach - inhead);
		static uintptr_t a[MAXB];
		for (uint32_t i = 0; i < head.count; i++)
			a[i] = (uintptr_t)matras_get(&m, i);
		qsort(a, head.count, sizeof(a[0]), cmpp);
		for (uint32_t i = 1; i < head.count; i++)
			CHECK(PROP(20), a[i] - a[i - 1] >= bsize, "two blocks overlap");
		size_t per3 = esize / bsize;
		for (uint32_t i = 1; i < head.count; i++)
			if (i % per3)
				CHECK(PROP(20), (char *)matras_get(&m, i) == (char *)matras_get(&m, i - 1) + bsize,
				      "blocks %u and %u are not adjacent", i - 1, i);
	}
}

static void
destroy_view(int k)
{
	OP(PROP(21) | PROP(22) | PROP(20), "destroy view %d\n", k);
	matras_destroy_read_view(&m, &view[k]);
	vused[k] = false;
	CHECK(PROP(21), !matras_is_read_view_created(&view[k]), "destroyed view says it is created");
}

/* The biggest ids of big geometries: extents are never touched by the code, so they cost nothing. */
static char *pool;
static size_t pool_used, pool_max;
static unsigned char *pool_live;
static void *
lazy_alloc(struct matras_allocator *a)
{
	(void)a;
	if (pool_used == pool_max)
		drv_stop(3);
	next_++;
	pool_live[pool_used] = 1;
	return pool + esize * pool_used++;
}
static void
lazy_free(struct matras_allocator *a, void *p)
{
	(void)a;
	size_t i = ((uintptr_t)p - (uintptr_t)pool) / esize;
	CHECK(PROP(20), (uintptr_t)p % esize == 0 && i < pool_used && pool_live[i], "bad extent freed");
	pool_live[i] = 0;
	next_--;
}

static void
big(unsigned log_e, unsigned log_b, uint64_t limit)
{
	esize = (size_t)1 << log_e;
	bsize = (size_t)1 << log_b;
	next_ = 0;
	uint64_t need = limit < 1ull << 32 ? limit : 1ull << 32;
	if (3 * log_e - log_b - 6 < 32 && need > 1ull << (3 * log_e - log_b - 6))
		need = 1ull << (3 * log_e - log_b - 6);
	need = need / (esize / bsize);
	pool_max = need + need / (esize / 8) + 4;
	pool_used = 0;
	size_t len = (pool_max + 1) * esize;
	char *map = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pool_live = calloc(pool_max, 1);
	if (map == MAP_FAILED || pool_live == NULL)
		drv_stop(3);
	pool = (char *)(((uintptr_t)map + esize - 1) & ~(uintptr_t)(esize - 1));
	matras_allocator_create(&al, esize, lazy_alloc, lazy_free);
	matras_stats_create(&st);
	OP(PROP(20), "create: extent 2^%u block 2^%u\n", log_e, log_b);
	matras_create(&m, bsize, &al, &st);
	uint64_t per = esize / bsize;
	unsigned lc = 3 * log_e - log_b - 6;
	uint64_t cap = lc >= 32 ? 1ull << 32 : 1ull << lc;
	OP(PROP(20), "fill\n");
	uint64_t n = 0;
	char *prev = NULL;
	while (n < limit) {
		matras_id_t id = 7;
		char *p = matras_alloc_range(&m, &id, per);
		if (n >= cap) {
			CHECK(PROP(20), p == NULL, "allocation beyond the capacity");
			break;
		}
		CHECK(PROP(20), p != NULL && id == n, "allocation of blocks from %llu fails or gives id %u",
		      (unsigned long long)n, id);
		CHECK(PROP(20), (uintptr_t)p % esize == 0, "misaligned");
		CHECK(PROP(20), (char *)matras_get(&m, id) == p && (char *)matras_get(&m, id + per - 1) == p + (per - 1) * bsize,
		      "block %u is not where its allocation said", id);
		if (n > 0)
			CHECK(PROP(20), (char *)matras_get(&m, n - per) == prev && prev != p, "an earlier block has moved");
		prev = p;
		n += per;
	}
	CHECK(PROP(20), m.head.block_count == n, "block count");
	size_t ptrs = esize / 8, n3 = n / per, n2 = (n3 + ptrs - 1) / ptrs;
	CHECK(PROP(20), (size_t)next_ == n3 + n2 + 1 && m.extent_count == n3 + n2 + 1 && st.extent_count == n3 + n2 + 1,
	      "extent count");
	OP(PROP(20), "dealloc\n");
	for (int i = 0; i < 3 && n > 0; i++, n -= per)
		matras_dealloc_range(&m, per);
	OP(PROP(20), "destroy\n");
	matras_destroy(&m);
	CHECK(PROP(20), next_ == 0 && st.extent_count == 0, "%d extents are left", next_);
	munmap(map, len);
	free(pool_live);
}

static void
drv_history(uint64_t n)
{
	if (n == 0) {
		big(18, 0, 3ull << 18);
		big(20, 4, 3ull << 16);
		big(20, 3, 3ull << 17);
		big(17, 0, 1ull << 33);
		big(16, 0, 1ull << 33);
		big(4, 4, 1ull << 33);
		big(4, 0, 1ull << 33);
		big(9, 4, 1ull << 33);
		big(18, 2, 1ull << 33);
		return;
	}
	memset(vused, 0, sizeof(vused));
	memset(addr, 0, sizeof(addr));
	next_ = 0;
	nfail = nalloc = 0;
	tags = 1;
	head.count = 0;
	unsigned log_e = 4 + rnd(rnd(2) ? 3 : 6);
	unsigned log_b = rnd(log_e + 1);
	if (rnd(2) && log_b + 3 < log_e)
		log_b = log_e - rnd(4);
	esize = (size_t)1 << log_e;
	bsize = (size_t)1 << log_b;
	unsigned lc = 3 * log_e - log_b - 6;
	uint64_t cap = lc >= 32 ? 1ull << 32 : 1ull << lc;
	uint64_t per = esize / bsize;
	fail_all_ = false;
	fail_one = 0;
	matras_allocator_create(&al, esize, ext_alloc, ext_free);
	matras_stats_create(&st);
	OP(PROP(20), "create: extent %zu block %zu\n", esize, bsize);
	matras_create(&m, bsize, &al, &st);
	bool faults = rnd(2);
	bool views = rnd(5) != 0;
	unsigned nops = 20 + rnd(drv_thorough ? 600 : 250);
	unsigned grow = 2 + rnd(6);
	for (unsigned op = 0; op < nops; op++) {
		fail_one = faults && rnd(3) == 0 ? 2 + (int)rnd(4) : 0;
		fail_all_ = faults && rnd(20) == 0;
		uint32_t before = m.extent_count;
		uint64_t f0 = nfail;
		unsigned k = rnd(10 + grow);
		if (k >= 10)
			k = rnd(2);
		switch (k) {
		case 0: case 1: case 2: {
			uint32_t r = 1;
			bool range = rnd(3) == 0;
			if (range) {
				r = 1u << rnd(lc < 5 ? lc + 1 : 6);
				while (per % r || head.count % r)
					r /= 2;
			}
			if (head.count + r > MAXB)
				break;
			matras_id_t id = 12345;
			OP(ALLP, "alloc %u (range %d) with %u blocks%s\n", r, range, head.count, fail_one || fail_all_ ? ", faults" : "");
			char *p = range ? matras_alloc_range(&m, &id, r) : matras_alloc(&m, &id);
			if (head.count + r > cap) {
				CHECK(PROP(20), p == NULL, "allocation beyond the capacity");
			} else if (p == NULL) {
				CHECK(PROP(20) | PROP(22), nfail > f0, "allocation fails without need");
				CHECK(PROP(22), m.extent_count == before, "a failed allocation changes the extent count");
				shm->nontrivial++;
			} else {
				CHECK(PROP(22), nfail == f0, "allocation succeeds although an extent could not be obtained");
				CHECK(PROP(20), id == head.count, "id %u, expected %u", id, head.count);
				for (uint32_t i = 0; i < r; i++) {
					void *q = m.head.block_count > id + i ? matras_get(&m, id + i) : NULL;
					CHECK(PROP(20), q == p + i * bsize, "block %u of the range is elsewhere", i);
					put(q, tags);
					addr[id + i] = q;
					head.tag[id + i] = tags++;
				}
				head.count += r;
			}
			break;
		}
		case 3: case 4: {
			if (head.count == 0)
				break;
			uint32_t r = 1;
			/* a touch inside dealloc that fails is a known finding: see known_findings.txt */
			int fo = fail_one;
			bool fa = fail_all_;
			if (nviews() > 0) {
				fail_one = 0;
				fail_all_ = false;
			}
			bool range = rnd(3) == 0;
			if (range) {
				r = 1u << rnd(6);
				while (per % r || head.count % r)
					r /= 2;
			}
			OP(ALLP, "dealloc %u (range %d) with %u blocks\n", r, range, head.count);
			if (range)
				matras_dealloc_range(&m, r);
			else
				matras_dealloc(&m);
			head.count -= r;
			fail_one = fo;
			fail_all_ = fa;
			if (nviews() > 0)
				for (uint32_t i = head.count / per * per; i < head.count; i++)
					addr[i] = NULL;
			break;
		}
		case 5: case 6: {
			if (head.count == 0)
				break;
			uint32_t id = rnd(head.count);
			bool need = matras_needs_touch(&m, id);
			OP(ALLP, "touch %u (needed %d)%s\n", id, need, fail_one || fail_all_ ? ", faults" : "");
			void *was = matras_get(&m, id);
			void *p = matras_touch(&m, id);
			if (p == NULL) {
				CHECK(PROP(21) | PROP(22), nfail > f0, "touch fails without need");
				CHECK(PROP(22), m.extent_count <= before + 2, "a failed touch keeps too many extents");
				CHECK(PROP(22), matras_get(&m, id) == was, "a failed touch moves the block");
				shm->nontrivial++;
				break;
			}
			CHECK(PROP(22), nfail == f0, "touch succeeds although an extent could not be obtained");
			CHECK(PROP(20) | PROP(21), p == matras_get(&m, id), "touch returns another address");
			CHECK(PROP(21) | PROP(20), same(p, head.tag[id]), "touch changes the content of the block");
			for (int v = 0; v < MAXV; v++)
				if (vused[v] && id < vm[v].count)
					CHECK(PROP(21), matras_view_get(&m, &view[v], id) != p, "a touched block is shared with view %d", v);
			if (!need)
				CHECK(PROP(20) | PROP(21), p == was && m.extent_count == before, "needless copy");
			if (p != was)
				for (uint32_t i = id / per * per; i < head.count && i < (id / per + 1) * per; i++)
					addr[i] = NULL;
			addr[id] = p;
			put(p, tags);
			head.tag[id] = tags++;
			break;
		}
		case 7: {
			if (!views)
				break;
			int v = rnd(MAXV);
			if (vused[v])
				break;
			OP(PROP(21) | PROP(22), "create view %d with %u blocks\n", v, head.count);
			matras_create_read_view(&m, &view[v]);
			CHECK(PROP(21), matras_is_read_view_created(&view[v]), "created view says it is not");
			vm[v] = head;
			vused[v] = true;
			break;
		}
		case 8: {
			int v = rnd(MAXV);
			if (vused[v]) {
				destroy_view(v);
			} else if (rnd(2)) {
				matras_head_read_view(&view[v]);
				CHECK(PROP(21), !matras_is_read_view_created(&view[v]), "head view says it is created");
				if (head.count) {
					uint32_t id = rnd(head.count);
					CHECK(PROP(21), matras_view_get(&m, &view[v], id) == matras_get(&m, id), "head view");
				}
				matras_destroy_read_view(&m, &view[v]);
			}
			break;
		}
		case 9: {
			if (rnd(3)) {
				int cnt = rnd(4);
				OP(PROP(22), "reserve %d%s\n", cnt, fail_one || fail_all_ ? ", faults" : "");
				int rc = matras_touch_reserve(&m, cnt);
				if (rc != 0) {
					CHECK(PROP(22), nfail > f0, "reservation fails without need");
					break;
				}
				if (nviews() > 0) {
					fail_all_ = true;
					uint64_t a0 = nalloc;
					for (int i = 0; i < cnt && head.count > 0; i++) {
						uint32_t id = rnd(2) ? rnd(head.count) : head.count - 1;
						OP(PROP(22), "reserved touch %u\n", id);
						void *p = matras_touch(&m, id);
						CHECK(PROP(22), p != NULL && nalloc == a0, "a reserved touch obtains memory");
						put(p, tags);
						head.tag[id] = tags++;
						for (uint32_t j = id / per * per; j < head.count && j < (id / per + 1) * per; j++)
							addr[j] = NULL;
					}
					fail_all_ = false;
				}
			} else if (rnd(8) == 0) {
				OP(ALLP, "reset\n");
				matras_reset(&m);
				memset(vused, 0, sizeof(vused));
				head.count = 0;
				CHECK(ALLP, next_ == al.num_reserved_extents, "reset leaves %d extents", next_ - al.num_reserved_extents);
				CHECK(ALLP, st.extent_count == 0 && st.read_view_extent_count == 0, "statistics after reset");
			}
			break;
		}
		}
		verify(rnd(6) == 0);
		for (uint32_t i = head.count; i < MAXB && addr[i] != NULL; i++)
			addr[i] = NULL;
	}
	verify(true);
	OP(ALLP, "destroy\n");
	matras_destroy(&m);
	CHECK(ALLP, next_ == al.num_reserved_extents, "destroy leaves %d extents", next_ - al.num_reserved_extents);
	CHECK(ALLP, st.extent_count == 0 && st.read_view_extent_count == 0, "statistics after destroy: %u %u",
	      st.extent_count, st.read_view_extent_count);
	OP(PROP(22) | PROP(20), "destroy allocator\n");
	matras_allocator_destroy(&al);
	CHECK(PROP(22) | PROP(20), next_ == 0 && al.num_reserved_extents == 0, "%d extents are left", next_);
}
