/* P05: the slab arena, sequential with failing and misaligned mappings, and under interference */
#include "drv.h"
#include "conc.h"
#define P PROP(5)

/* mappings */
enum { MAXMAP = 4096 };
static struct { char *p; size_t n; } maps[MAXMAP];
static int nmaps;
static int fail_map, odd_map;	/* chance 1 / n */
static bool map_failed[CONC_MAX + 1], lazy;
static uint64_t fake;
NOTSAN static void
map_add(char *p, size_t n)
{
	CHECK(P, nmaps < MAXMAP, "too many mappings");
	maps[nmaps].p = p;
	maps[nmaps++].n = n;
}
NOTSAN static void *
my_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
	CHECK(P, a == NULL && n > 0 && fd == -1, "mmap with unexpected arguments");
	if (fail_map && rnd(fail_map) == 0) {
		map_failed[conc_cur + 1] = true;
		errno = ENOMEM;
		return MAP_FAILED;
	}
	size_t extra = odd_map && rnd(odd_map) == 0 ? (1 + rnd(64)) * 4096 : 0;
	char *p = (char *)mmap(NULL, n + extra, PROT_READ | PROT_WRITE, (fl & ~MAP_SHARED) | MAP_PRIVATE | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		map_failed[conc_cur + 1] = true;
		return p;
	}
	if (extra) {
		munmap(p, extra);
		p += extra;
	}
	map_add(p, n);
	return p;
}
NOTSAN static int
my_munmap(void *a, size_t n)
{
	char *p = a;
	CHECK(P, n > 0, "munmap of nothing");
	for (int i = 0; i < nmaps; i++) {
		if (p >= maps[i].p && p + n <= maps[i].p + maps[i].n) {
			char *b = maps[i].p, *e = b + maps[i].n;
			maps[i] = maps[--nmaps];
			if (b < p)
				map_add(b, p - b);
			if (p + n < e)
				map_add(p + n, e - p - n);
			return munmap(a, n);
		}
	}
	drv_fail(P, "munmap(%p, %zu) of memory that is not mapped", a, n);
}
#define mmap my_mmap
#define munmap my_munmap
#include "small/slab_arena.c"
#undef mmap
#undef munmap

enum { NS = 64 };
static struct quota q;
static struct slab_arena A;
static char *live[NS];
static int nlive, nfree;		/* handed out; given back and not handed out again */
static size_t qbase;			/* used by others */
static int busy;
static bool conc;
static size_t limit;

NOTSAN static bool
mapped(char *p, size_t n)
{
	for (int i = 0; i < nmaps; i++)
		if (p >= maps[i].p && p + n <= maps[i].p + maps[i].n)
			return true;
	return false;
}

NOTSAN static void
check(void)
{
	conc_off++; /* no switch while looking */
	size_t n = nlive + nfree;
	CHECK(P, A.used == n * A.slab_size, "arena usage is %zu, %zu slabs of %u are in circulation", A.used, n, A.slab_size);
	CHECK(P, quota_used(&q) == qbase + n * A.slab_size, "the quota is charged %zu, not %zu", quota_used(&q) - qbase, n * A.slab_size);
	conc_off--;
}

static char *seen[NS * 2];
static int nseen;
NOTSAN static void
got(char *p)
{
	CHECK(P, ((uintptr_t)p & (A.slab_size - 1)) == 0, "slab %p is not aligned to %u", p, A.slab_size);
	CHECK(P, mapped(p, A.slab_size), "slab %p is not (wholly) in memory the arena obtained", p);
	for (int i = 0; i < NS; i++)
		CHECK(P, live[i] == NULL || live[i] + A.slab_size <= p || p + A.slab_size <= live[i], "slab %p overlaps slab %p", p, live[i]);
	int i;
	for (i = 0; i < nseen && seen[i] != p; i++)
		CHECK(P, seen[i] + A.slab_size <= p || p + A.slab_size <= seen[i], "slab %p overlaps the older %p", p, seen[i]);
	if (i == nseen) {
		seen[nseen++] = p;
		CHECK(P, conc || nfree == 0, "a new slab is taken although one was given back");
	} else
		nfree--;
	for (i = 0; live[i] != NULL; i++)
		;
	live[i] = p;
	nlive++;
	if (!lazy || A.slab_size <= (1 << 20)) {
		p[0] = p[A.slab_size - 1] = p[A.slab_size / 2] = 1;
	}
}

static int owner[NS];
NOTSAN static void
body(int t)
{
	for (int k = 0; k < 5; k++) {
		int have = -1;
		for (int j = 0; j < NS; j++)
			if (live[j] && owner[j] == t && (have < 0 || rnd(2)))
				have = j;
		busy++;
		if (have >= 0 && rnd(2)) {
			char *p = live[have];
			LOG("thread %d: slab_unmap(%p) begins\n", t, p);
			live[have] = NULL;
			nlive--;
			nfree++;
			slab_unmap(&A, p);
		} else {
			LOG("thread %d: slab_map begins\n", t);
			map_failed[t + 1] = false;
			char *p = slab_map(&A);
			LOG("thread %d: slab_map returns %p\n", t, p);
			if (p != NULL) {
				got(p);
				for (int j = 0; j < NS; j++)
					if (live[j] == p)
						owner[j] = t;
			} else
				CHECK(P, map_failed[t + 1] || qbase + (nlive + nfree + conc_n) * (size_t)A.slab_size > limit, "refused although memory and quota have room");
		}
		busy--;
		if (busy == 0)
			check();
	}
}

static void
drv_history(uint64_t n)
{
	static const uint32_t ss[] = { 65536, 65536, 65536, 131072, 1 << 20, 4 << 20, 1, 70000, 65537, 1000000, 1u << 31, (1u << 31) - 5, 1u << 30 };
	uint32_t want = ss[rnd(rnd(4) ? 6 : 13)];
	conc = n % 2;
	uint32_t S = 65536;
	while (S < want)
		S *= 2;
	lazy = true;
	OP(P, "open\n");
	limit = (size_t)rnd(12) * S + rnd(3) * 1024 + (rnd(3) ? 0 : rnd(S));
	qbase = 0;
	nlive = nfree = nseen = nmaps = 0;
	memset(live, 0, sizeof(live));
	quota_init(&q, limit);
	limit = quota_total(&q);
	size_t pre = rnd(3) ? (size_t)rnd(6) * S + (rnd(2) ? rnd(S) : 0) : rnd(8) == 0 ? SIZE_MAX - rnd(3) * S : 0;
	fail_map = 0;
	odd_map = rnd(3);
	memset(map_failed, 0, sizeof(map_failed));
	static const int fl[] = { SLAB_ARENA_PRIVATE, SLAB_ARENA_SHARED, MAP_PRIVATE, MAP_SHARED, SLAB_ARENA_FLAG(SLAB_ARENA_PRIVATE | SLAB_ARENA_DONTDUMP) };
	int flags = fl[rnd(4)];
	LOG("slab_arena_create(limit %zu, prealloc %zu, slab_size %u, flags %x)\n", limit, pre, want, flags);
	memset(&A, 0xa5, sizeof(A));
	int r = slab_arena_create(&A, &q, pre, want, flags);
	if (r != 0) {
		CHECK(P, map_failed[0], "creation fails although memory can be mapped");
		CHECK(P, nmaps == 0, "failed creation leaves memory mapped");
		return;
	}
	CHECK(P, A.slab_size == S, "slab size %u for %u", A.slab_size, want);
	CHECK(P, A.prealloc % S == 0, "preallocated %zu is not a whole number of slabs", A.prealloc);
	CHECK(P, A.prealloc == 0 ? A.arena == NULL : mapped(A.arena, A.prealloc), "the preallocated memory is not mapped");
	CHECK(P, quota_used(&q) == 0 && A.used == 0, "creation is charged");
	check();
	if (rnd(2) && limit > 0) {
		ssize_t o = quota_use(&q, 1 + rnd(limit));
		qbase = o > 0 ? o : 0;
	}
	if (conc) {
		int th = 2 + rnd(2);
		fail_map = rnd(3) ? 0 : 2;
		busy = 0;
		conc_run(th, body, NULL, 20 + rnd(160));
		fail_map = 0;
		check();
	} else for (int i = 0; i < 50; i++) {
		fail_map = rnd(3) ? 0 : 1 + rnd(3);
		odd_map = rnd(3);
		if (rnd(3) && nlive < NS / 2) {
			size_t u0 = A.used, q0 = quota_used(&q);
			int f0 = nfree;
			map_failed[0] = false;
			OP(P, "slab_map() usage %zu%s\n", A.used, fail_map ? " mappings fail" : "");
			char *p = slab_map(&A);
			if (p == NULL) {
				CHECK(P, f0 == 0, "refused although a slab was given back");
				CHECK(P, A.used == u0 && quota_used(&q) == q0, "a refused slab is charged");
				CHECK(P, map_failed[0] || q0 + S > limit, "refused although memory and quota have room");
			} else {
				CHECK(P, f0 > 0 || q0 + S <= limit, "the quota has no room");
				got(p);
			}
		} else {
			int k = rnd(NS);
			if (live[k] == NULL)
				continue;
			OP(P, "slab_unmap(%p)\n", live[k]);
			slab_unmap(&A, live[k]);
			live[k] = NULL;
			nlive--;
			nfree++;
			if (rnd(10) == 0)
				slab_unmap(&A, NULL);
		}
		check();
		shm->nontrivial++;
	}
	for (int i = 0; i < NS; i++) {
		if (live[i] != NULL) {
			OP(P, "slab_unmap(%p)\n", live[i]);
			slab_unmap(&A, live[i]);
			nfree++, nlive--;
		}
	}
	OP(P, "slab_arena_destroy()\n");
	slab_arena_destroy(&A);
	CHECK(P, nmaps == 0, "%d mappings are left after destroy", nmaps);
}
