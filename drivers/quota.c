/* P02, P03: quota (sequential and under interference), quota lessor */
#include "drv.h"
#include <stddef.h>
#include <sys/types.h>
#include <assert.h>
#include "conc.h"
#include "quota.h"
#include "quota_lessor.h"

#define U 1024ull
#define P2 PROP(2)
#define P3 PROP(3)
static uint64_t up(uint64_t x) { return x / U + (x % U != 0); }

static uint64_t
qsize(void)
{
	switch (rnd(6)) {
	case 0: return rnd(5000);
	case 1: return rndb(42) % (QUOTA_MAX + 1);
	case 2: return (QUOTA_MAX / 2) + rndb(12) - 2048;
	case 3: return QUOTA_MAX - rndb(12);
	case 4: return rndb(42) & ~1023ull;
	default: return rndb(24);
	}
}

static void
check_quota(struct quota *q, uint64_t tot, uint64_t used)
{
	size_t t, u;
	quota_get_total_and_used(q, &t, &u);
	CHECK(P2, t == tot * U && u == used * U, "limit %lu usage %lu, expected %lu and %lu", t, u, tot * U, used * U);
	CHECK(P2, quota_total(q) == tot * U, "quota_total %lu != %lu", quota_total(q), tot * U);
	CHECK(P2, quota_used(q) == used * U, "quota_used %lu != %lu", quota_used(q), used * U);
	CHECK(P2, u <= t, "usage %lu above limit %lu", u, t);
}

static void
seq_quota(void)
{
	struct quota q;
	uint64_t tot, used = 0, s = qsize();
	uint64_t held[300];
	int nh = 0;
	OP(P2, "quota_init(%lu)\n", s);
	quota_init(&q, s);
	tot = up(s);
	for (int i = 0; i < 200; i++) {
		check_quota(&q, tot, used);
		switch (rnd(4)) {
		case 0:
			s = qsize();
			if (rnd(3) == 0)
				s = used * U + rndb(12) - 2048;
			if (rnd(3) == 0)
				s = used * U + rnd(3) - 1;
			if (s > QUOTA_MAX)
				break;
			OP(P2, "quota_set(%lu)\n", s);
			ssize_t r = quota_set(&q, s);
			if (up(s) < used)
				CHECK(P2, r == -1, "lowering the limit to %lu below usage %lu is granted (%ld)", s, used * U, r);
			else {
				CHECK(P2, r == (ssize_t)(up(s) * U), "quota_set(%lu) returned %ld", s, r);
				tot = up(s);
			}
			break;
		case 1:
		case 2:
			s = qsize();
			if (rnd(3) == 0)
				s = (tot - used) * U + rnd(2049) - 1024;
			if (rnd(20) == 0)
				s = QUOTA_MAX + rndb(63);
			if (s == 0)
				break;
			OP(P2, "quota_use(%lu)\n", s);
			r = quota_use(&q, s);
			if (s > QUOTA_MAX || used + up(s) > tot)
				CHECK(P2, r == -1, "quota_use(%lu) with usage %lu of %lu returned %ld", s, used * U, tot * U, r);
			else {
				CHECK(P2, r == (ssize_t)(up(s) * U), "quota_use(%lu) with usage %lu of %lu returned %ld", s, used * U, tot * U, r);
				used += up(s);
				if (nh < 300)
					held[nh++] = s;
			}
			break;
		case 3:
			if (nh == 0)
				break;
			int k = rnd(nh);
			s = held[k];
			held[k] = held[--nh];
			OP(P2, "quota_release(%lu)\n", s);
			r = quota_release(&q, s);
			CHECK(P2, r == (ssize_t)(up(s) * U), "quota_release(%lu) returned %ld", s, r);
			used -= up(s);
			break;
		}
	}
	check_quota(&q, tot, used);
	shm->nontrivial++;
}

/* ---- interference */
static struct quota cq;
static uint64_t last;
static struct { int kind; uint64_t units; int done; bool saw_ok; } cur[CONC_MAX];
static uint64_t held_units[CONC_MAX];

NOTSAN static void
step(int t)
{
	uint64_t v = *(volatile uint64_t *)&cq.value;
	uint64_t ot = last >> 32, ou = last & UINT32_MAX, nt = v >> 32, nu = v & UINT32_MAX;
	if (cur[t].kind == 1 && ou + cur[t].units > ot)
		cur[t].saw_ok = true; /* refusal is legal: there was such a moment */
	if (cur[t].kind == 3 && cur[t].units < ou)
		cur[t].saw_ok = true;
	for (int i = 0; i < conc_n; i++) {
		if (cur[i].kind == 1 && (ou + cur[i].units > ot || nu + cur[i].units > nt))
			cur[i].saw_ok = true;
		if (cur[i].kind == 3 && (cur[i].units < ou || cur[i].units < nu))
			cur[i].saw_ok = true;
	}
	if (v == last)
		return;
	last = v;
	CHECK(P2, nu <= nt, "usage %lu above limit %lu under interference", nu * U, nt * U);
	/* may be the null step of quota_set */
	CHECK(P2, cur[t].kind != 0 && !cur[t].done, "the quota changed outside a call or twice in one: %lu/%lu -> %lu/%lu", ou, ot, nu, nt);
	cur[t].done = 1;
	if (cur[t].kind == 1)
		CHECK(P2, nt == ot && nu == ou + cur[t].units, "use of %lu units: usage/limit %lu/%lu -> %lu/%lu", cur[t].units, ou, ot, nu, nt);
	else if (cur[t].kind == 2)
		CHECK(P2, nt == ot && nu == ou - cur[t].units, "release of %lu units: usage/limit %lu/%lu -> %lu/%lu", cur[t].units, ou, ot, nu, nt);
	else
		CHECK(P2, nu == ou && nt == cur[t].units, "set to %lu units: usage/limit %lu/%lu -> %lu/%lu", cur[t].units, ou, ot, nu, nt);
}

/* the instrumented calls */
static __attribute__((noinline)) ssize_t call_use(size_t s) { return quota_use(&cq, s); }
static __attribute__((noinline)) ssize_t call_release(size_t s) { return quota_release(&cq, s); }
static __attribute__((noinline)) ssize_t call_set(size_t s) { return quota_set(&cq, s); }

NOTSAN static void
body(int t)
{
	for (int i = 0; i < 4; i++) {
		int k = 1 + rnd(3);
		uint64_t s = 1 + rnd(6 * U);
		if (k == 2 && held_units[t] == 0)
			k = 1;
		if (k == 2)
			s = (1 + rnd(held_units[t])) * U;
		if (k == 3)
			s = rnd(24 * U);
		cur[t].units = up(s);
		cur[t].done = 0;
		cur[t].saw_ok = false;
		cur[t].kind = k;
		step(t);
		ssize_t r;
		LOG("thread %d: %s(%lu) begins\n", t, k == 1 ? "quota_use" : k == 2 ? "quota_release" : "quota_set", s);
		if (k == 1)
			r = call_use(s);
		else if (k == 2)
			r = call_release(s);
		else
			r = call_set(s);
		step(t);
		LOG("thread %d: returns %ld\n", t, r);
		if (r == -1) {
			CHECK(P2, k != 2 && !cur[t].done, "failed call changed the quota");
			CHECK(P2, cur[t].saw_ok, "refused though there was room at every moment of the call");
		} else {
			CHECK(P2, r == (ssize_t)(up(s) * U), "returned %ld for %lu", r, s);
			CHECK(P2, cur[t].done || k == 3, "reported success without a step");
			if (k == 1)
				held_units[t] += up(s);
			if (k == 2)
				held_units[t] -= up(s);
		}
		cur[t].kind = 0;
	}
}

static void
conc_quota(void)
{
	uint64_t s = rnd(24 * U);
	OP(P2, "quota_init(%lu), threads\n", s);
	quota_init(&cq, s);
	last = cq.value;
	memset(cur, 0, sizeof(cur));
	memset(held_units, 0, sizeof(held_units));
	conc_run(2 + rnd(2), body, step, 20 + rnd(160));
	uint64_t sum = 0;
	for (int i = 0; i < CONC_MAX; i++)
		sum += held_units[i];
	CHECK(P2, quota_used(&cq) == sum * U, "usage %lu after all, %lu charged", quota_used(&cq), sum * U);
	shm->nontrivial++;
}

static void
seq_lessor(void)
{
	struct quota q;
	struct quota_lessor l[2];
	uint64_t held[2][300], sum[2] = {0, 0};
	int nh[2] = {0, 0};
	uint64_t tot = rnd(2) ? rnd(64) * U * 1024 + rnd(U * 1024) : qsize();
	if (tot < 2 * QUOTA_USE_MIN)
		tot = 2 * QUOTA_USE_MIN;
	if (tot > QUOTA_MAX)
		tot = QUOTA_MAX;
	OP(P3, "quota_init(%lu), two lessors\n", tot);
	quota_init(&q, tot);
	quota_lessor_create(&l[0], &q);
	quota_lessor_create(&l[1], &q);
	for (int i = 0; i < 300; i++) {
		int k = rnd(2);
		uint64_t before = quota_used(&q), av = quota_available(&l[k]), oth = l[!k].used;
		if (rnd(5) < 3) {
			uint64_t s;
			switch (rnd(6)) {
			case 0: s = rnd(5000); break;
			case 1: s = av + rnd(3) - 1; break;
			case 2: s = tot - before + av + rnd(2050) - 1025; break;
			case 3: s = qsize(); break;
			case 4: s = QUOTA_USE_MIN + rnd(2050) - 1025; break;
			default: s = rndb(23);
			}
			if ((int64_t)s < 0 || s > QUOTA_MAX || nh[k] >= 290)
				continue;
			OP(P3, "quota_lease(%d, %lu)\n", k, s);
			ssize_t r = quota_lease(&l[k], s);
			if (r < 0) {
				CHECK(P3, r == -1, "quota_lease returned %ld", r);
				CHECK(P3, s > av, "refused though available");
				CHECK(P3, quota_leased(&l[k]) == sum[k] && quota_used(&q) == before && quota_available(&l[k]) == av, "failed lease changed something");
			} else {
				CHECK(P3, (uint64_t)r == s, "quota_lease(%lu) returned %ld", s, r);
				held[k][nh[k]++] = s;
				sum[k] += s;
			}
		} else if (nh[k] > 0) {
			int j = rnd(nh[k]);
			uint64_t s = held[k][j];
			if (rnd(3) == 0 && s > 0) {
				s = 1 + rnd(s);
				held[k][j] -= s;
			} else {
				held[k][j] = held[k][--nh[k]];
			}
			OP(P3, "quota_end_lease(%d, %lu)\n", k, s);
			ssize_t r = quota_end_lease(&l[k], s);
			CHECK(P3, (uint64_t)r == s, "quota_end_lease(%lu) returned %ld", s, r);
			sum[k] -= s;
			CHECK(P3, quota_available(&l[k]) < 2 * QUOTA_USE_MIN, "surplus %lu is kept", quota_available(&l[k]));
		}
		CHECK(P3, quota_leased(&l[k]) == sum[k], "leased %lu, expected %lu", quota_leased(&l[k]), sum[k]);
		CHECK(P3, l[k].used % U == 0, "charge %lu is not whole units", l[k].used);
		CHECK(P3, quota_leased(&l[k]) <= l[k].used, "leased %lu of charge %lu", quota_leased(&l[k]), l[k].used);
		CHECK(P3, quota_available(&l[k]) == l[k].used - sum[k], "available %lu of %lu, leased %lu", quota_available(&l[k]), l[k].used, sum[k]);
		CHECK(P3, quota_used(&q) == l[0].used + l[1].used, "quota usage %lu, charges %lu + %lu", quota_used(&q), l[0].used, l[1].used);
		CHECK(P3, l[!k].used == oth, "other lessor changed");
	}
	for (int k = 0; k < 2; k++) {
		while (nh[k] > 0) {
			uint64_t s = held[k][--nh[k]];
			OP(P3, "quota_end_lease(%d, %lu)\n", k, s);
			CHECK(P3, quota_end_lease(&l[k], s) == (ssize_t)s, "quota_end_lease(%lu) fails", s);
		}
		OP(P3, "quota_lessor_destroy(%d)\n", k);
		quota_lessor_destroy(&l[k]);
		CHECK(P3, quota_used(&q) == (k == 0 ? l[1].used : 0), "after destroy the quota usage is %lu", quota_used(&q));
	}
	shm->nontrivial++;
}

static void
drv_history(uint64_t n)
{
	if (drv_prop & P3)
		seq_lessor();
	else if (n % 3 == 0)
		seq_quota();
	else
		conc_quota();
}
