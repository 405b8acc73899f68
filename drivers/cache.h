/* A slab cache over an arena and a quota, with failing allocations on demand. */
#ifndef DRV_CACHE_H
#define DRV_CACHE_H
#include "quota.h"
#include "slab_arena.h"
#include "slab_cache.h"

static struct quota cq;
static struct slab_arena carena;
static struct slab_cache ccache;
static int fail_mem;	/* > 0: malloc and mmap fail with probability 1 / fail_mem */
static bool fail_all;
static uint64_t failures;

void *__real_malloc(size_t n);
void *__real_mmap(void *a, size_t n, int p, int f, int d, off_t o);
static bool
fail_now(void)
{
	if (fail_all || (fail_mem > 0 && rnd(fail_mem) == 0)) {
		failures++;
		return true;
	}
	return false;
}
void *
__wrap_malloc(size_t n)
{
	return fail_now() ? NULL : __real_malloc(n);
}
void *
__wrap_mmap(void *a, size_t n, int p, int f, int d, off_t o)
{
	if (fail_now()) {
		errno = ENOMEM;
		return MAP_FAILED;
	}
	return __real_mmap(a, n, p, f, d, o);
}

static void
cache_open(size_t limit, size_t prealloc, uint32_t slab_size)
{
	fail_mem = 0;
	fail_all = false;
	quota_init(&cq, limit);
	if (slab_arena_create(&carena, &cq, prealloc, slab_size, MAP_PRIVATE) != 0)
		drv_stop(3);
	slab_cache_create(&ccache, &carena);
}

static void
cache_close(void)
{
	fail_mem = 0;
	fail_all = false;
	slab_cache_destroy(&ccache);
	slab_arena_destroy(&carena);
}

static uint32_t
rnd_slab_size(void)
{
	static const uint32_t s[] = { 65536, 65536, 65536, 131072, 262144, 1 << 20, 4 << 20 };
	return s[rnd(7)];
}

static void
fill(void *p, size_t n, uint64_t tag)
{
	unsigned char *c = p;
	for (size_t i = 0; i < n; i++)
		c[i] = (unsigned char)(tag * 151 + i * 7 + (i >> 8));
}
/* first wrong byte, or -1 */
static long
differs(const void *p, size_t n, uint64_t tag, size_t from)
{
	const unsigned char *c = p;
	for (size_t i = 0; i < n; i++)
		if (c[i] != (unsigned char)(tag * 151 + (i + from) * 7 + ((i + from) >> 8)))
			return (long)i;
	return -1;
}
#endif
