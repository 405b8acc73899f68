/*
 * Deterministic scheduler: the driver is compiled with -fsanitize=thread but linked with these hooks instead of the
 * sanitizer's runtime, so every memory access of the real code is a possible context switch between coroutines.
 */
#ifndef CONC_H
#define CONC_H
#include <ucontext.h>

#define CONC_STACK (64 * 1024)
enum { CONC_MAX = 4 };
static ucontext_t conc_main, conc_ctx[CONC_MAX];
static char conc_stk[CONC_MAX][CONC_STACK];
static int conc_n, conc_cur = -1, conc_off;
static bool conc_done[CONC_MAX];
static void (*conc_body)(int);
/* called after every access of the running thread */
static void (*conc_step)(int);
static unsigned conc_preempt; /* chance in 256 to switch at an access */
static uint64_t conc_budget;

NOTSAN static int
conc_pick(void)
{
	int to = rnd(conc_n);
	for (int i = 0; i < conc_n && conc_done[to]; i++)
		to = (to + 1) % conc_n;
	return conc_done[to] ? -1 : to;
}

NOTSAN static void
conc_point(void)
{
	static int inside;
	if (conc_cur < 0 || inside || conc_off)
		return;
	inside = 1;
	if (conc_step)
		conc_step(conc_cur);
	if (++conc_budget > 2000000)
		drv_fail(drv_prop, "the operations do not end under interference");
	bool sw = rnd(256) < conc_preempt;
	int to = sw ? conc_pick() : -1;
	inside = 0;
	if (to >= 0 && to != conc_cur) {
		int from = conc_cur;
		conc_cur = to;
		swapcontext(&conc_ctx[from], &conc_ctx[to]);
	}
}

NOTSAN static void
conc_entry(int i)
{
	conc_body(i);
	if (conc_step)
		conc_step(i);
	conc_done[i] = true;
	int cur = conc_cur;
	conc_cur = -1; /* no switching here */
	int to = conc_pick();
	if (to < 0)
		setcontext(&conc_main);
	conc_cur = to;
	setcontext(&conc_ctx[to]);
}

NOTSAN static void
conc_run(int n, void (*body)(int), void (*step)(int), unsigned preempt)
{
	conc_n = n;
	conc_body = body;
	conc_step = step;
	conc_preempt = preempt;
	conc_budget = 0;
	for (int i = 0; i < n; i++) {
		conc_done[i] = false;
		getcontext(&conc_ctx[i]);
		conc_ctx[i].uc_stack.ss_sp = conc_stk[i];
		conc_ctx[i].uc_stack.ss_size = CONC_STACK;
		conc_ctx[i].uc_link = NULL;
		makecontext(&conc_ctx[i], (void (*)(void))conc_entry, 1, i);
	}
	conc_cur = rnd(n);
	swapcontext(&conc_main, &conc_ctx[conc_cur]);
	conc_cur = -1;
	conc_step = NULL;
}

NOTSAN void __tsan_init(void) {}
NOTSAN void __tsan_func_entry(void *p) { (void)p; }
NOTSAN void __tsan_func_exit(void *p) { (void)p; }
#define H(name) NOTSAN void name(void *p) { (void)p; conc_point(); }
H(__tsan_read1) H(__tsan_read2) H(__tsan_read4) H(__tsan_read8) H(__tsan_read16)
H(__tsan_write1) H(__tsan_write2) H(__tsan_write4) H(__tsan_write8) H(__tsan_write16)
H(__tsan_unaligned_read2) H(__tsan_unaligned_read4) H(__tsan_unaligned_read8) H(__tsan_unaligned_read16)
H(__tsan_unaligned_write2) H(__tsan_unaligned_write4) H(__tsan_unaligned_write8) H(__tsan_unaligned_write16)
H(__tsan_volatile_read1) H(__tsan_volatile_read2) H(__tsan_volatile_read4) H(__tsan_volatile_read8)
H(__tsan_volatile_write1) H(__tsan_volatile_write2) H(__tsan_volatile_write4) H(__tsan_volatile_write8)
NOTSAN void __tsan_read_range(void *p, long n) { conc_point(); }
NOTSAN void __tsan_write_range(void *p, long n) { conc_point(); }
NOTSAN void __tsan_atomic_thread_fence(int mo) { conc_point(); }
NOTSAN void __tsan_atomic_signal_fence(int mo) { conc_point(); }
#define A(bits, type) \
NOTSAN type __tsan_atomic##bits##_load(const volatile type *a, int mo) { conc_point(); return *a; } \
NOTSAN void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { conc_point(); *a = v; conc_point(); } \
NOTSAN type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = v; conc_point(); return o; } \
NOTSAN type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = o + v; conc_point(); return o; } \
NOTSAN type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = o - v; conc_point(); return o; } \
NOTSAN type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = o & v; conc_point(); return o; } \
NOTSAN type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = o | v; conc_point(); return o; } \
NOTSAN type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { conc_point(); type o = *a; *a = o ^ v; conc_point(); return o; } \
NOTSAN static int conc_cas##bits(volatile type *a, type *c, type v, bool weak) { \
	conc_point(); bool sp = weak && conc_cur >= 0 && rnd(8) == 0; int r = *a == *c && !sp; \
	if (r) *a = v; else *c = *a; conc_point(); return r; } \
NOTSAN int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *c, type v, int mo, int fmo) { return conc_cas##bits(a, c, v, false); } \
NOTSAN int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *c, type v, int mo, int fmo) { return conc_cas##bits(a, c, v, true); } \
NOTSAN type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type c, type v, int mo, int fmo) { conc_cas##bits(a, &c, v, false); return c; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
#endif
