/*
 * Common part of the native drivers: they run the real code of /repo on generated histories and compare it with
 * a simple model.  A driver is (1) the replay of a failed proof obligation: it looks for a concrete failing
 * history; (2) a bounded stand-in, labelled bounded, for what is not under contract.
 *
 * Each history runs in a forked child; a crash, an assertion, a sanitizer report or a hang (CPU time limit) of
 * the child is a failure, just as a failed CHECK is.
 */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

#define NOTSAN __attribute__((no_sanitize("thread"), no_sanitize_thread))
#define PROP(n) (1ull << (n))

struct drv_shm {
	uint64_t seed;		/* history being run */
	uint64_t histories;
	uint64_t ops;
	uint64_t nontrivial;
	uint64_t opmask;	/* properties the operation being run belongs to */
	int failed;
	char msg[1024];
	uint32_t len;
	char log[1 << 20];
};
static struct drv_shm *shm;
static uint64_t drv_prop;	/* mask of the property being checked */
static uint64_t drv_rng_state;
static bool drv_thorough;
static const char *drv_hint;

NOTSAN static inline uint64_t
rnd64(void)
{
	uint64_t z = (drv_rng_state += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
/* uniform in [0, n) */
NOTSAN static inline uint64_t
rnd(uint64_t n)
{
	return n ? rnd64() % n : 0;
}
/* random with a random number of bits, biased to boundaries */
NOTSAN static inline uint64_t
rndb(unsigned maxbits)
{
	unsigned b = rnd(maxbits + 1);
	uint64_t v = b == 0 ? 0 : rnd64() >> (64 - b);
	switch (rnd(6)) {
	case 0: v = b >= 64 ? 0 : 1ull << b; break;
	case 1: v = b >= 64 ? ~0ull : (1ull << b) - 1; break;
	case 2: v = (b >= 64 ? 0 : 1ull << b) + rnd(5) - 2; break;
	default: break;
	}
	if (maxbits < 64)
		v &= (1ull << maxbits) - 1;
	return v;
}

NOTSAN static void __attribute__((format(printf, 1, 2)))
LOG(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (shm->len < sizeof(shm->log) - 256)
		shm->len += vsnprintf(shm->log + shm->len, 250, fmt, ap);
	va_end(ap);
	shm->ops++;
}

NOTSAN static void __attribute__((noreturn))
drv_stop(int code)
{
	_exit(code);
}

NOTSAN static void __attribute__((format(printf, 2, 3)))
drv_fail(uint64_t mask, const char *fmt, ...)
{
	if (!(mask & drv_prop))
		drv_stop(77); /* another property is broken: nothing more to learn here */
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(shm->msg, sizeof(shm->msg), fmt, ap);
	va_end(ap);
	shm->failed = 1;
	drv_stop(1);
}
#define CHECK(mask, cond, ...) do { if (!(cond)) drv_fail(mask, __VA_ARGS__); } while (0)
/* declare the operation about to run */
#define OP(mask, ...) do { shm->opmask = (mask); LOG(__VA_ARGS__); } while (0)

/* Provided by the driver: one history.  n == 0 is reserved for a deterministic one. */
static void drv_history(uint64_t n);

static double
drv_now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static uint64_t
drv_mix(uint64_t seed, uint64_t n)
{
	drv_rng_state = seed * 0x2545f4914f6cdd1dull + n;
	return rnd64();
}

/* usage: driver PROPNUM SEED SECONDS TIER [HINT] [HISTORY]; prints FAIL and exits 1, or a summary and exits 0 */
int
main(int argc, char **argv)
{
	if (argc < 5) {
		fprintf(stderr, "usage: %s prop seed seconds tier [hint] [history]\n", argv[0]);
		return 2;
	}
	drv_prop = PROP(atoi(argv[1]));
	uint64_t seed = strtoull(argv[2], NULL, 0);
	double secs = atof(argv[3]);
	drv_thorough = strcmp(argv[4], "thorough") == 0;
	drv_hint = argc > 5 && argv[5][0] != '\0' ? argv[5] : NULL;
	uint64_t only = argc > 6 ? strtoull(argv[6], NULL, 0) : UINT64_MAX;
	shm = mmap(NULL, sizeof(*shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shm == MAP_FAILED)
		return 2;
	double start = drv_now();
	uint64_t next = only == UINT64_MAX ? 0 : only;
	int other = 0;
	while (only == UINT64_MAX ? drv_now() - start < secs || next == 0 : next == only) {
		char errname[64];
		snprintf(errname, sizeof(errname), "/tmp/drv.%d.err", (int)getpid());
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0)
			return 2;
		if (pid == 0) {
			struct rlimit rl = { 40, 50 };
			setrlimit(RLIMIT_CPU, &rl);
			rl.rlim_cur = rl.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &rl);
			if (freopen(errname, "w", stderr) == NULL)
				drv_stop(2);
			setvbuf(stderr, NULL, _IONBF, 0);
			double t0 = drv_now();
			uint64_t n = next;
			do {
				shm->seed = n;
				shm->len = 0;
				shm->log[0] = 0;
				shm->opmask = ~0ull;
				drv_rng_state = drv_mix(seed, n);
				drv_history(n);
				shm->histories++;
				n++;
			} while (only == UINT64_MAX && n != 1 && drv_now() - t0 < 0.3);
			drv_stop(0);
		}
		int st;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
			;
		char err[6000] = "";
		FILE *f = fopen(errname, "r");
		if (f != NULL) {
			size_t k = fread(err, 1, sizeof(err) - 1, f);
			err[k] = 0;
			fclose(f);
		}
		unlink(errname);
		bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		if (bad && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
			/* ended from outside (memory): no verdict */
			printf("ENDED by SIGKILL at history %llu\n", (unsigned long long)shm->seed);
			return 3;
		}
		if (bad && WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 2)) {
			if (WEXITSTATUS(st) != 77) {
				printf("NO ANSWER %d %s\n", WEXITSTATUS(st), err);
				return 3;
			}
			other++;
		} else if (bad && !shm->failed && !(shm->opmask & drv_prop)) {
			other++;
		} else if (bad) {
			printf("FAIL history=%llu seed=%llu\n", (unsigned long long)shm->seed, (unsigned long long)seed);
			if (shm->failed)
				printf("what: %s\n", shm->msg);
			else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU))
				printf("what: the operation does not end (CPU time limit)\n");
			else if (WIFSIGNALED(st))
				printf("what: killed by signal %d\n", WTERMSIG(st));
			else
				printf("what: exit %d\n", WEXITSTATUS(st));
			if (err[0])
				printf("stderr:\n%s\n", err);
			size_t from = shm->len > 8000 ? shm->len - 8000 : 0;
			printf("history (last operation last):\n%s%s\n", from ? "...\n" : "", shm->log + from);
			return 1;
		}
		next = shm->seed + 1;
	}
	printf("OK histories=%llu ops=%llu nontrivial=%llu other=%d\n", (unsigned long long)shm->histories,
	       (unsigned long long)shm->ops, (unsigned long long)shm->nontrivial, other);
	printf("sample (last history):\n%.1500s\n", shm->log);
	return 0;
}
#endif
