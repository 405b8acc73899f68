From fd55e164e4580ef8ccfdba893559510dea2a1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 01/23] fix: quota_use must not wrap 32-bit unit count

used + size in units was computed in 32 bits: with a limit near QUOTA_MAX two
large uses wrapped, which aborted on the assertion or, without assertions, let
the second use succeed with a tiny usage recorded.
---
 include/small/quota.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 238d15e..1dbe388 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -140,7 +140,9 @@ quota_use(struct quota *quota, size_t size)
 		uint32_t total_in_units = value >> 32;
 		uint32_t used_in_units = value & UINT32_MAX;
 
-		uint32_t new_used_in_units = used_in_units + size_in_units;
+		/* The sum may not fit in 32 bits. */
+		uint64_t new_used_in_units =
+			(uint64_t) used_in_units + size_in_units;
 		assert(new_used_in_units > used_in_units);
 
 		if (new_used_in_units > total_in_units)
-- 
2.43.0


From 49e7afd9f42e5871cbf15e890f1e4d800062c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 02/23] fix: quota_release must accept everything quota_use
 grants

quota_use grants sizes up to and including QUOTA_MAX, but releasing QUOTA_MAX
bytes (e.g. by quota_lessor_destroy) failed an assertion.
---
 include/small/quota.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/quota.h b/include/small/quota.h
index 1dbe388..a375b4a 100644
--- a/include/small/quota.h
+++ b/include/small/quota.h
@@ -161,7 +161,7 @@ quota_use(struct quota *quota, size_t size)
 static inline ssize_t
 quota_release(struct quota *quota, size_t size)
 {
-	assert(size < QUOTA_MAX);
+	assert(size <= QUOTA_MAX);
 	uint32_t size_in_units = (size + (QUOTA_UNIT_SIZE - 1))
 				  / QUOTA_UNIT_SIZE;
 	assert(size_in_units);
-- 
2.43.0


From efb609c8a71f593c5392cc9e9fdb672366b63bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 03/23] fix: lf_lifo_is_empty must ignore the ABA value

After any push the low 16 bits of the head keep the ABA value, so an emptied
list was reported as not empty.
---
 include/small/lf_lifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/small/lf_lifo.h b/include/small/lf_lifo.h
index 8181fef..17f2e02 100644
--- a/include/small/lf_lifo.h
+++ b/include/small/lf_lifo.h
@@ -114,7 +114,8 @@ lf_lifo_pop(struct lf_lifo *head)
 static inline bool
 lf_lifo_is_empty(struct lf_lifo *head)
 {
-	return head->next == NULL;
+	/* An empty list keeps the ABA value in the low bits. */
+	return lf_lifo(head->next) == NULL;
 }
 
 #if defined(__cplusplus)
-- 
2.43.0


From 16cbd8f2ad989136bcd66985cd43687b9e49b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 04/23] fix: static_reserve must return NULL for any too big
 size

static_storage_pos + size wraps around for sizes close to SIZE_MAX, and so does
the padding of static_aligned_reserve, in which case a pointer was returned.
---
 include/small/static.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/small/static.h b/include/small/static.h
index ab28cb4..e3b3219 100644
--- a/include/small/static.h
+++ b/include/small/static.h
@@ -73,9 +73,9 @@ static_reset(void)
 static inline void *
 static_reserve(size_t size)
 {
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	if (static_storage_pos + size > SMALL_STATIC_SIZE) {
-		if (size > SMALL_STATIC_SIZE)
-			return NULL;
 		static_storage_pos = 0;
 	}
 	/*
@@ -105,6 +105,9 @@ static_alloc(size_t size)
 static inline void *
 static_aligned_reserve(size_t size, size_t alignment)
 {
+	/* The padding must not make a huge size wrap around. */
+	if (size > SMALL_STATIC_SIZE)
+		return NULL;
 	void *unaligned = static_reserve(size + alignment - 1);
 	if (unaligned == NULL)
 		return NULL;
-- 
2.43.0


From 0a930a32ad3e9d31472e30b577d3e35cd08d0b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/23] fix: size class of a size when min_alloc is below
 granularity

size_shift is negative (wrapped) in this case, so the overflow check
took every size for an overflow and all sizes got into class 0, even
those bigger than its class size.
---
 include/small/small_class.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/small/small_class.h b/include/small/small_class.h
index b787aa6..0a067dc 100644
--- a/include/small/small_class.h
+++ b/include/small/small_class.h
@@ -169,9 +169,9 @@ small_class_calc_offset_by_size(struct small_class *sc, unsigned size)
 	 * Also here is a good place to shift size if a user wants the lowest
 	 * class size to be different from granularity.
 	 */
-	unsigned checked_size = size - sc->size_shift_plus_1;
-	/* Check overflow. */
-	size = checked_size > size ? 0 : checked_size;
+	unsigned min_alloc = sc->size_shift + sc->granularity;
+	/* Check overflow (note that size_shift can be negative). */
+	size = size <= min_alloc ? 0 : size - sc->size_shift_plus_1;
 	/* Omit never significant bits. */
 	size >>= sc->ignore_bits_count;
 #ifndef SMALL_CLASS_BRANCHLESS
-- 
2.43.0


From fa50f47efe2821d6659448f0ce4b43938530b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 06/23] fix: region must account blocks of 4 GiB and more

The used size of a slab and the size of an aligned block were cut to
32 bits, so such a block could be allocated, but its space was taken for
unused afterwards and was handed out again.
---
 include/small/region.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index 27d142f..4b24003 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -180,7 +180,7 @@ struct rslab
 	 * extra members.
 	 */
 	struct slab slab;
-	uint32_t used;
+	size_t used;
 };
 
 static inline uint32_t
@@ -202,7 +202,7 @@ rslab_data_end(struct rslab *slab)
 }
 
 /** How much memory is available in a given block? */
-static inline uint32_t
+static inline size_t
 rslab_unused(struct rslab *slab)
 {
 	return slab->slab.size - rslab_sizeof() - slab->used;
@@ -284,8 +284,8 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 		 * account for optional padding before the allocated
 		 * block (alignment)
 		 */
-		uint32_t effective_size = (uint32_t)(
-			(char *)ptr - (char *)rslab_data_end(slab) + size);
+		size_t effective_size =
+			(char *)ptr - (char *)rslab_data_end(slab) + size;
 
 		assert(effective_size <= rslab_unused(slab));
 
-- 
2.43.0


From 396f04c2ef679fa79b697c9bc005daeeff58dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 07/23] fix: region_alloc_array must not cut its size to int

An array of 4 GiB or more got a smaller block than it needs.
---
 include/small/region.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/region.h b/include/small/region.h
index 4b24003..5203e68 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -398,7 +398,7 @@ struct RegionGuard {
 })
 
 #define region_alloc_array(region, T, count, size) ({				\
-	int _tmp_ = sizeof(T) * (count);					\
+	size_t _tmp_ = sizeof(T) * (count);					\
 	*(size) = _tmp_;							\
 	(T *)region_aligned_alloc((region), _tmp_, alignof(T));			\
 })
-- 
2.43.0


From 066c00ef7159711eb30e54616354d49c88db359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 08/23] fix: region_reserve_cb must not look at the slab when
 it fails

The region may have no slab at all then.
---
 include/small/region.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 5203e68..4155b66 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -359,6 +359,8 @@ region_reserve_cb(void *ctx, size_t *size)
 {
 	struct region *region = (struct region *) ctx;
 	void *ptr = region_reserve(region, *size);
+	if (ptr == NULL)
+		return NULL;
 	struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
 					       struct rslab,
 					       slab.next_in_list);
-- 
2.43.0


From c05648d16088ed74a0a52f35c12bfd6823cb6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 09/23] fix: slab_get must fail for sizes near SIZE_MAX

The size plus the slab header wrapped around, so a smallest slab was
returned for it.
---
 small/slab_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/small/slab_cache.c b/small/slab_cache.c
index 5ac33ad..0b73005 100644
--- a/small/slab_cache.c
+++ b/small/slab_cache.c
@@ -270,6 +270,8 @@ slab_get_with_order(struct slab_cache *cache, uint8_t order)
 struct slab *
 slab_get_large(struct slab_cache *cache, size_t size)
 {
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	size += slab_sizeof();
 	if (quota_use(cache->arena->quota, size) < 0)
 		return NULL;
@@ -317,6 +319,8 @@ struct slab *
 slab_get(struct slab_cache *cache, size_t size)
 {
 	struct slab *slab;
+	if (size > SIZE_MAX - slab_sizeof())
+		return NULL;
 	uint8_t order = slab_order(cache, size + slab_sizeof());
 	if (order == cache->order_max + 1)
 		slab = slab_get_large(cache, size);
-- 
2.43.0


From b38baa306fd5e0fd43706d6fb7f6364ad59cce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 10/23] fix: region must fail for sizes near SIZE_MAX

The size plus the slab header or plus the alignment wrapped around, so
a too small block was returned.
---
 include/small/region.h | 2 ++
 small/region.c         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/small/region.h b/include/small/region.h
index 4155b66..f00a152 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -261,6 +261,8 @@ region_alloc(struct region *region, size_t size)
 static inline void *
 region_aligned_reserve(struct region *region, size_t size, size_t alignment)
 {
+	if (size > SIZE_MAX - (alignment - 1))
+		return NULL;
 	/* reserve extra to allow for alignment */
 	void *ptr = region_reserve(region, size + alignment - 1);
 	/* assuming NULL==0, aligned NULL still a NULL */
diff --git a/small/region.c b/small/region.c
index 32ab981..c3b0af5 100644
--- a/small/region.c
+++ b/small/region.c
@@ -36,6 +36,8 @@
 void *
 region_reserve_slow(struct region *region, size_t size)
 {
+	if (size > SIZE_MAX - rslab_sizeof())
+		return NULL;
 	/* The new slab must have at least this many bytes available. */
 	size_t slab_min_size = size + rslab_sizeof() - slab_sizeof();
 
-- 
2.43.0


From 4de5ab235291e99a449e22d779360e0778bf8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:26 +0000
Subject: [PATCH 11/23] fix: region_reset must empty a region of several slabs

It emptied only the newest one, though it is documented to mark the
whole region as empty, as it does in the ASAN build.
---
 include/small/region.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/small/region.h b/include/small/region.h
index f00a152..22d679a 100644
--- a/include/small/region.h
+++ b/include/small/region.h
@@ -309,13 +309,10 @@ region_aligned_alloc(struct region *region, size_t size, size_t alignment)
 static inline void
 region_reset(struct region *region)
 {
-	if (! rlist_empty(&region->slabs.slabs)) {
-		struct rslab *slab = rlist_first_entry(&region->slabs.slabs,
-						       struct rslab,
-						       slab.next_in_list);
-		region->slabs.stats.used -= slab->used;
+	struct rslab *slab;
+	rlist_foreach_entry(slab, &region->slabs.slabs, slab.next_in_list)
 		slab->used = 0;
-	}
+	region->slabs.stats.used = 0;
 #ifndef NDEBUG
 	region->reserved = false;
 #endif
-- 
2.43.0


From b272a15119c2069b9857f5d2ac9f2a3e709665c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 12/23] fix: ibuf must fail for sizes near SIZE_MAX

---
 include/small/ibuf.h | 4 ++--
 small/ibuf.c         | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/small/ibuf.h b/include/small/ibuf.h
index b67dc9a..aff8016 100644
--- a/include/small/ibuf.h
+++ b/include/small/ibuf.h
@@ -151,7 +151,7 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size);
 static inline void *
 ibuf_reserve(struct ibuf *ibuf, size_t size)
 {
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		ibuf_unpoison_unallocated(ibuf);
 		return ibuf->wpos;
 	}
@@ -162,7 +162,7 @@ static inline void *
 ibuf_alloc(struct ibuf *ibuf, size_t size)
 {
 	void *ptr;
-	if (ibuf->wpos + size <= ibuf->end) {
+	if (size <= ibuf_unused(ibuf)) {
 		/*
 		 * In case of using same buffer we need to unpoison newly
 		 * allocated memory after previous ibuf_alloc or poison after
diff --git a/small/ibuf.c b/small/ibuf.c
index 03370da..a63f97e 100644
--- a/small/ibuf.c
+++ b/small/ibuf.c
@@ -69,7 +69,7 @@ ibuf_reinit(struct ibuf *ibuf)
 void *
 ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 {
-	assert(ibuf->wpos + size > ibuf->end);
+	assert(size > ibuf_unused(ibuf));
 	size_t used = ibuf_used(ibuf);
 	size_t capacity = ibuf_capacity(ibuf);
 	/*
@@ -78,11 +78,14 @@ ibuf_reserve_slow(struct ibuf *ibuf, size_t size)
 	 * by moving existing data to the beginning.
 	 * Otherwise, get a bigger buffer.
 	 */
-	if (size + used <= capacity) {
+	if (size <= capacity - used) {
 		ibuf_unpoison_consumed(ibuf);
 		ibuf_unpoison_unallocated(ibuf);
 		memmove(ibuf->buf, ibuf->rpos, used);
 	} else {
+		/* No slab is that big, and the capacity must not wrap. */
+		if (size > SIZE_MAX / 2 - used)
+			return NULL;
 		/* Use start_capacity as allocation factor. */
 		size_t new_capacity = capacity * 2;
 		if (new_capacity < ibuf->start_capacity)
-- 
2.43.0


From 20df314fb1c7813d99e0f67f2fbf1c28f7ea1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 13/23] fix: rlist_cut_before must look at the list that is cut

---
 include/small/rlist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small/rlist.h b/include/small/rlist.h
index ae27127..5cd1400 100644
--- a/include/small/rlist.h
+++ b/include/small/rlist.h
@@ -244,7 +244,7 @@ rlist_splice_tail(struct rlist *head1, struct rlist *head2)
 static SMALL_ALWAYS_INLINE void
 rlist_cut_before(struct rlist *head1, struct rlist *head2, struct rlist *item)
 {
-	if (head1->next == item) {
+	if (head2->next == item) {
 		rlist_create(head1);
 		return;
 	}
-- 
2.43.0


From 1e53006153f1ac282a0667b04927e368593dba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 14/23] fix: lsregion must fail for sizes near SIZE_MAX

---
 include/small/lsregion.h | 3 ++-
 small/lsregion.c         | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/lsregion.h b/include/small/lsregion.h
index bec534e..7133d52 100644
--- a/include/small/lsregion.h
+++ b/include/small/lsregion.h
@@ -247,7 +247,8 @@ lsregion_aligned_reserve(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		void *pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	return lsregion_aligned_reserve_slow(lsregion, size, alignment,
diff --git a/small/lsregion.c b/small/lsregion.c
index 4b3446c..d165e2b 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -47,7 +47,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		assert(slab != NULL);
 		*unaligned = lslab_pos(slab);
 		pos = (void *)small_align((size_t)*unaligned, alignment);
-		if ((char *)pos + size <= (char *)lslab_end(slab))
+		if ((char *)pos <= (char *)lslab_end(slab) &&
+		    size <= (size_t)((char *)lslab_end(slab) - (char *)pos))
 			return pos;
 	}
 	/*
@@ -55,6 +56,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 	 * new slab won't be aligned by the needed alignment, and
 	 * after alignment its size won't be enough.
 	 */
+	if (size > SIZE_MAX - lslab_sizeof() - (alignment - 1))
+		return NULL;
 	size_t aligned_size = size + alignment - 1;
 	if (aligned_size + lslab_sizeof() > slab_size) {
 		/* Large allocation, use malloc() */
-- 
2.43.0


From 303a9da74c7af4c62e9ede04b2cbb13a93c6c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:34 +0000
Subject: [PATCH 15/23] fix: lsregion must not reuse a cached slab with an
 outdated id

---
 small/lsregion.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small/lsregion.c b/small/lsregion.c
index d165e2b..ae64bf5 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -78,6 +78,8 @@ lsregion_aligned_reserve_slow(struct lsregion *lsregion, size_t size,
 		/* If there is the cached slab then use it. */
 		slab = lsregion->cached;
 		lsregion->cached = NULL;
+		/* Slabs created since it was cached precede it. */
+		slab->slab_id = ++lsregion->slab_id;
 		rlist_add_tail_entry(&lsregion->slabs.slabs, slab,
 				     next_in_list);
 	} else {
-- 
2.43.0


From a6f0f83a2590cb925b8ef1cb7c73783876ae6d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 16/23] fix: lsregion flush must not stop at an unused slab

---
 small/lsregion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/small/lsregion.c b/small/lsregion.c
index ae64bf5..850ffb5 100644
--- a/small/lsregion.c
+++ b/small/lsregion.c
@@ -108,9 +108,9 @@ lsregion_to_iovec(const struct lsregion *lsregion, struct iovec *iov,
 	int max_iovcnt = *iovcnt;
 	int cnt = 0;
 	rlist_foreach_entry(lslab, &lsregion->slabs.slabs, next_in_list) {
-		/* There might be an unused slab at the end of the list. */
+		/* A slab can be reserved, but not used. */
 		if (lslab->max_id == LSLAB_NOT_USED_ID)
-			break;
+			continue;
 		/* An already seen slab with no new allocations. */
 		if (lslab->slab_id < prev_id ||
 		    (lslab->slab_id == prev_id &&
-- 
2.43.0


From 987e3ad2a8a0086125e30dd840878a8e66ac4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:34 +0000
Subject: [PATCH 17/23] fix: obuf must fail for sizes near SIZE_MAX

obuf_alloc(buf, SIZE_MAX - iov_len + 1) passed the wrapped capacity
comparison and returned a pointer without reserving anything, and the
loops doubling the capacity never ended for a size above SIZE_MAX / 2.
---
 include/small/obuf.h | 4 ++--
 small/obuf.c         | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/small/obuf.h b/include/small/obuf.h
index 898bc27..192fe76 100644
--- a/include/small/obuf.h
+++ b/include/small/obuf.h
@@ -175,7 +175,7 @@ obuf_reserve(struct obuf *buf, size_t size)
 {
 	void *ptr = NULL;
 	assert(!buf->reserved);
-	if (buf->iov[buf->pos].iov_len + size > buf->capacity[buf->pos]) {
+	if (size > buf->capacity[buf->pos] - buf->iov[buf->pos].iov_len) {
 		ptr = obuf_reserve_slow(buf, size);
 	} else {
 		struct iovec *iov = &buf->iov[buf->pos];
@@ -199,7 +199,7 @@ obuf_alloc(struct obuf *buf, size_t size)
 {
 	struct iovec *iov = &buf->iov[buf->pos];
 	void *ptr;
-	if (iov->iov_len + size <= buf->capacity[buf->pos]) {
+	if (size <= buf->capacity[buf->pos] - iov->iov_len) {
 		ptr = (char *) iov->iov_base + iov->iov_len;
 	} else {
 		ptr = obuf_reserve_slow(buf, size);
diff --git a/small/obuf.c b/small/obuf.c
index dd0b030..586a428 100644
--- a/small/obuf.c
+++ b/small/obuf.c
@@ -29,6 +29,7 @@
  * SUCH DAMAGE.
  */
 #include "obuf.h"
+#include <stdint.h>
 #include <string.h>
 
 #include "slab_cache.h"
@@ -173,6 +174,9 @@ obuf_dup(struct obuf *buf, const void *data, size_t size)
 void *
 obuf_reserve_slow(struct obuf *buf, size_t size)
 {
+	/* No slab is that large, and capacity must not wrap below. */
+	if (size > SIZE_MAX / 2)
+		return NULL;
 	struct iovec *iov = &buf->iov[buf->pos];
 	size_t capacity = buf->capacity[buf->pos];
 	if (iov->iov_len > 0) {
-- 
2.43.0


From 1005e22323f10c5cfbbf9a70f0f8195553c3e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 18/23] fix: mempool must give back emptied slabs of a single
 object

With a single object per slab the slab becomes hot and empty by the same
free, and only the first was handled: emptied slabs stayed in the pool.
---
 small/mempool.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/small/mempool.c b/small/mempool.c
index 72a9719..69b0753 100644
--- a/small/mempool.c
+++ b/small/mempool.c
@@ -131,7 +131,10 @@ mslab_free(struct mempool *pool, struct mslab *slab, void *ptr)
 		}
 	} else if (slab->nfree == 1) {
 		rlist_add_entry(&pool->cold_slabs, slab, next_in_cold);
-	} else if (slab->nfree == pool->objcount) {
+	}
+
+	/* A slab of a single object is both hot and empty now. */
+	if (slab->nfree == pool->objcount) {
 		/** Free the slab. */
 		if (slab == pool->first_hot_slab) {
 			pool->first_hot_slab =
-- 
2.43.0


From 65e905f164dd80eb9cbb1ebe7962bb211d860c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 19/23] fix: matras geometry with big extents and with all ids
 allocated

A shift by 32 or more is undefined, and the ids counted in the loops that
free extents wrapped around when almost all 2^32 blocks were allocated.
---
 small/matras.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index 991eeac..e80e87d 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -79,6 +79,12 @@ matras_create(struct matras *m, matras_id_t block_size,
 	m->capacity = (size_t)1 << log2_capacity;
 	m->shift1 = log1 * 2 - log2 - log3;
 	m->shift2 = log1 - log2;
+	/*
+	 * Big extents: a second level extent can map more blocks than there
+	 * are block identifiers.
+	 */
+	if (m->shift1 > 31)
+		m->shift1 = 31;
 	m->mask1 = (((matras_id_t)1) << m->shift1) - ((matras_id_t)1);
 	m->mask2 = (((matras_id_t)1) << m->shift2) - ((matras_id_t)1);
 }
@@ -146,16 +152,15 @@ matras_destroy(struct matras *m)
 	if (m->head.block_count == 0)
 		return;
 
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	struct matras_view *v = &m->head;
 	void **extent1 = (void **)v->root;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			matras_free_extent(m, extent3);
@@ -413,10 +418,9 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 	void **extent1p = 0;
 	if (prev_view)
 		extent1p = (void **) prev_view->root;
-	matras_id_t step1 = m->mask1 + 1;
-	matras_id_t step2 = m->mask2 + 1;
-	matras_id_t i1 = 0, j1 = 0, i2, j2;
-	matras_id_t ptrs_in_ext = m->extent_size / (matras_id_t)sizeof(void *);
+	size_t step1 = (size_t)m->mask1 + 1;
+	size_t step2 = (size_t)m->mask2 + 1;
+	size_t i1 = 0, j1 = 0, i2, j2;
 	for (; j1 < v->block_count; i1++, j1 += step1) {
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
@@ -432,7 +436,7 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			extent2p = (void **) extent1p[i1];
 		}
 		for (i2 = j2 = 0;
-		     i2 < ptrs_in_ext && j1 + j2 < v->block_count;
+		     j2 < step1 && j1 + j2 < v->block_count;
 		     i2++, j2 += step2) {
 			void **extent3 = (void **)extent2[i2];
 			if (next_view->block_count > j1 + j2) {
-- 
2.43.0


From 098057f9f09b5adf2233e33fa5088ddaad4b688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:15 +0000
Subject: [PATCH 20/23] fix: matras must free extents of a view that outgrew
 the previous one

A read view sharing its root or a second level extent with an older view
that has fewer blocks kept the extents only it used forever.
---
 small/matras.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/small/matras.c b/small/matras.c
index e80e87d..c830914 100644
--- a/small/matras.c
+++ b/small/matras.c
@@ -411,7 +411,13 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		return;
 	if (v->root == next_view->root && next_view->block_count)
 		return;
-	if (prev_view && v->root == prev_view->root && prev_view->block_count)
+	/*
+	 * The previous view may have fewer blocks and thus share an upper
+	 * level extent without using all the extents referred to by it.
+	 */
+	bool extent1_shared = prev_view && prev_view->block_count &&
+		v->root == prev_view->root;
+	if (extent1_shared && prev_view->block_count >= v->block_count)
 		return;
 	void **extent1 = (void **)v->root;
 	void **extent1n = (void **) next_view->root;
@@ -425,15 +431,18 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 		void **extent2 = (void **)extent1[i1];
 		void **extent2n = 0;
 		void **extent2p = 0;
+		bool extent2_shared = false;
 		if (next_view->block_count > j1) {
 			if (extent1[i1] == extent1n[i1])
 				continue;
 			extent2n = (void **) extent1n[i1];
 		}
 		if (prev_view && prev_view->block_count > j1) {
-			if (extent1[i1] == extent1p[i1])
-				continue;
 			extent2p = (void **) extent1p[i1];
+			extent2_shared = extent2 == extent2p;
+			if (extent2_shared &&
+			    prev_view->block_count >= v->block_count)
+				continue;
 		}
 		for (i2 = j2 = 0;
 		     j2 < step1 && j1 + j2 < v->block_count;
@@ -449,9 +458,11 @@ matras_destroy_read_view(struct matras *m, struct matras_view *v)
 			}
 			matras_free_read_view_extent(m, extent3);
 		}
-		matras_free_read_view_extent(m, extent2);
+		if (!extent2_shared)
+			matras_free_read_view_extent(m, extent2);
 	}
-	matras_free_read_view_extent(m, extent1);
+	if (!extent1_shared)
+		matras_free_read_view_extent(m, extent1);
 }
 
 /*
-- 
2.43.0


From 2899956fdcb55b39b029517a8afebb28a7c30693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:39 +0000
Subject: [PATCH 21/23] fix: rb iterator path overflow in high trees

A red-black tree of N nodes is up to 2 * log2(N + 1) high: inserting 2^26 - 2
nodes in descending order gives 50 levels, more than the path could hold.
---
 include/small/rb.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/small/rb.h b/include/small/rb.h
index 12dc6bd..6b1af94 100644
--- a/include/small/rb.h
+++ b/include/small/rb.h
@@ -64,9 +64,10 @@ enum {
 /*
  * Max height of the tree which can be iterated over.
  * The tree can have no more nodes than x86_64 has distinct
- * addresses.
+ * addresses (48 bits), and a red-black tree can be twice as
+ * high as a perfectly balanced one.
  */
-#define RB_MAX_TREE_HEIGHT 48
+#define RB_MAX_TREE_HEIGHT 96
 
 /* Left accessors. */
 #define	rbtn_left_get(a_type, a_field, a_node)				\
-- 
2.43.0


From c742f0d5d21e8cf728573f5cc3b69d6ee0724bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:06 +0000
Subject: [PATCH 22/23] fix: slab_cache_create of the ASAN build leaves the
 used figure uninitialized

---
 small/slab_cache_asan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/small/slab_cache_asan.c b/small/slab_cache_asan.c
index af89995..72ea5f6 100644
--- a/small/slab_cache_asan.c
+++ b/small/slab_cache_asan.c
@@ -35,6 +35,7 @@ void
 slab_cache_create(struct slab_cache *cache, struct slab_arena *arena)
 {
 	quota_lessor_create(&cache->quota, arena->quota);
+	cache->used = 0;
 	cache->id = small_asan_reserve_id();
 	slab_cache_set_thread(cache);
 }
-- 
2.43.0


From ed4feff7d3828d93674519c0446f242865ff55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:32 +0000
Subject: [PATCH 23/23] fix: region_join of the ASan build copies the beginning
 of a partly joined allocation instead of its end

---
 small/region_asan.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/small/region_asan.c b/small/region_asan.c
index ea61e8c..c16af70 100644
--- a/small/region_asan.c
+++ b/small/region_asan.c
@@ -144,8 +144,10 @@ region_join(struct region *region, size_t size)
 		size_t copy_size = alloc->used;
 		if (offset < copy_size)
 			copy_size = offset;
+		/* Only the end of the oldest allocation may be needed. */
+		char *payload = small_asan_payload_from_header(alloc);
 		memcpy(ret + offset - copy_size,
-		       small_asan_payload_from_header(alloc), copy_size);
+		       payload + alloc->used - copy_size, copy_size);
 
 		offset -= copy_size;
 		alloc = rlist_next_entry(alloc, link);
-- 
2.43.0

