/* P04: lock-free LIFO, sequential and under interference */
#include "drv.h"
#include "conc.h"
#include "lf_lifo.h"
#define P4 PROP(4)
enum { NE = 6 };
static char *mem;
static struct lf_lifo head;
static int stack[64], depth;	/* model */
static int owner[NE];		/* -1: in the stack, else thread */
static int curop[CONC_MAX], curelem[CONC_MAX];
static bool did[CONC_MAX], sawempty[CONC_MAX];
static int popped[CONC_MAX];
static uintptr_t lasth;
static unsigned npush;

NOTSAN static int
idx(void *p)
{
	if (p == NULL)
		return -1;
	uintptr_t d = (char *)p - mem;
	CHECK(P4, d % 65536 == 0 && d / 65536 < NE, "%p is not an element", p);
	return d / 65536;
}

NOTSAN static void
walk(void)
{
	/* the list as the head shows it must be the model's stack */
	void *p = (void *)((uintptr_t)head.next & ~0xffffull);
	int i = depth;
	while (p != NULL) {
		CHECK(P4, i > 0 && idx(p) == stack[i - 1], "stack differs from the history at depth %d", i);
		i--;
		p = (void *)(*(uintptr_t *)p & ~0xffffull);
	}
	CHECK(P4, i == 0, "%d elements are lost", i);
}

NOTSAN static void
step(int t)
{
	uintptr_t h = *(volatile uintptr_t *)&head.next;
	if (h != lasth) {
		CHECK(P4, curop[t] != 0 && !did[t], "the head changed outside a call or twice in one");
		did[t] = true;
		uintptr_t e = h & ~0xffffull;
		if (curop[t] == 1) {
			CHECK(P4, idx((void *)e) == curelem[t], "push made another element the top");
			stack[depth++] = curelem[t];
		} else {
			CHECK(P4, depth > 0, "pop of an empty stack changed the head");
			popped[t] = stack[--depth];
		}
		lasth = h;
		walk();
	}
	for (int i = 0; i < conc_n; i++)
		if (depth == 0)
			sawempty[i] = true;
}

static __attribute__((noinline)) void call_push(void *e) { lf_lifo_push(&head, e); }
static __attribute__((noinline)) void *call_pop(void) { return lf_lifo_pop(&head); }

NOTSAN static void
body(int t)
{
	for (int i = 0; i < 5; i++) {
		int have = -1;
		for (int j = 0; j < NE; j++)
			if (owner[j] == t && (have < 0 || rnd(2)))
				have = j;
		did[t] = false;
		sawempty[t] = depth == 0;
		popped[t] = -1;
		if (have >= 0 && rnd(2)) {
			curelem[t] = have;
			owner[have] = -1;
			curop[t] = 1;
			LOG("thread %d: push(%d) begins\n", t, have);
			call_push(mem + have * 65536);
			step(t);
			CHECK(P4, did[t], "push did nothing");
			LOG("thread %d: pushed\n", t);
		} else {
			curop[t] = 2;
			LOG("thread %d: pop begins\n", t);
			void *p = call_pop();
			step(t);
			int e = idx(p);
			LOG("thread %d: popped %d\n", t, e);
			if (e < 0) {
				CHECK(P4, !did[t], "pop returned NULL but changed the stack");
				CHECK(P4, sawempty[t], "pop returned NULL though never empty");
			} else {
				CHECK(P4, did[t] && popped[t] == e, "pop returned %d, but took %d", e, popped[t]);
				CHECK(P4, owner[e] == -1, "element %d popped twice", e);
				owner[e] = t;
			}
		}
		curop[t] = 0;
	}
}

static void
drv_history(uint64_t n)
{
	if (mem == NULL) {
		mem = mmap((void *)0x100000000ull, (NE + 1) * 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mem = (char *)(((uintptr_t)mem + 65535) & ~0xffffull);
	}
	shm->nontrivial++;
	memset(&head, 0xa5, sizeof(head));
	OP(P4, "init\n");
	lf_lifo_init(&head);
	CHECK(P4, lf_lifo_is_empty(&head), "new list is not empty");
	depth = 0;
	/* age the version counter */
	unsigned age = n == 0 ? 70000 : rnd(4) == 0 ? 65530 + rnd(12) : rnd(20);
	int m[NE];
	OP(P4, "%u push/pop pairs\n", age);
	for (unsigned i = 0; i < age; i++) {
		lf_lifo_push(&head, mem);
		if (i % 64 == 0 || i > 65500)
			CHECK(P4, !lf_lifo_is_empty(&head), "not empty after push %u", i);
		CHECK(P4, lf_lifo_pop(&head) == mem, "pop %u does not return the pushed element", i);
		if (i % 64 == 0 || i > 65500)
			CHECK(P4, lf_lifo_is_empty(&head) && lf_lifo_pop(&head) == NULL, "not empty after pop %u", i);
	}
	if (n % 2 == 0) {
		/* sequential */
		bool in[NE] = {false};
		int ops = 100;
		for (int i = 0; i < ops; i++) {
			int e = rnd(NE);
			if (rnd(2) && !in[e]) {
				OP(P4, "push(%d)\n", e);
				CHECK(P4, lf_lifo_push(&head, mem + e * 65536) == &head, "push returns another list");
				in[e] = true;
				stack[depth++] = e;
			} else {
				OP(P4, "pop\n");
				int g = idx(lf_lifo_pop(&head));
				CHECK(P4, g == (depth ? stack[depth - 1] : -1), "pop returned %d, not %d", g, depth ? stack[depth - 1] : -1);
				if (depth) {
					in[g] = false;
					depth--;
				}
			}
			CHECK(P4, lf_lifo_is_empty(&head) == (depth == 0), "emptiness test is wrong with %d elements", depth);
			walk();
		}
		return;
	}
	int th = 2 + rnd(2);
	for (int i = 0; i < NE; i++) {
		owner[i] = -1;
		if (i < 3) {
			lf_lifo_push(&head, mem + i * 65536);
			stack[depth++] = i;
		} else {
			owner[i] = rnd(th);
		}
	}
	lasth = (uintptr_t)head.next;
	memset(curop, 0, sizeof(curop));
	OP(P4, "3 pushed, %d threads\n", th);
	conc_run(th, body, step, 20 + rnd(160));
	walk();
}
