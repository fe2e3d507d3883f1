/*
 * csim: runs calls of the C library of /repo under a scheduler that this
 * program controls.
 *
 * - The library is compiled with the instrumentation (not the runtime) of
 *   -fsanitize=thread: every function entry, every access to memory that is
 *   neither constant nor owned by a task, every lock and every atomic
 *   operation calls a hook here and is an "event", where the running task can
 *   be preempted. Tasks are threads of which exactly one runs; who runs next
 *   is decided by the plan (or by a PRNG seeded by it), never by the kernel.
 * - randombytes() is replaced (at link time) by a stream per call, with
 *   faults, or passed on to the real one; getentropy() and its like are
 *   replaced by a stream with faults.
 * - The plan is read from standard input, see main(); results are written to
 *   standard output.
 *
 * The same file, without the instrumentation, is linked to an
 * AddressSanitizer build of the library (-DCSIM_PLAIN).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/wait.h>
#include <signal.h>
#include <threads.h>
#include <unistd.h>
#include <fcntl.h>

#include "api.h"

/* Sizes that the documentation of the interface announces. */
#define MAXOUT_N 690
#define MAXOUT_Z 1067
#define MAXOUT_E 2094
#define PK_N 897
#define PK_Z 1025
#define SKLEN 1281

extern int randombytes(unsigned char *x, unsigned long long xlen);
extern void *__real_malloc(size_t);
extern int __real_randombytes(unsigned char *x, unsigned long long xlen);
extern void randombytes_init(unsigned char *e, unsigned char *p, int s);

#define MAXTASK 8
#define MAXOP 64
#define GUARD 64
#define STACK ((size_t)768 * 1024)
#define ARENA_STACKS (STACK * MAXTASK)

typedef struct {
	char kind[8];
	int real_rng;
	uint64_t rs;
	uint64_t mix;        /* not 0: half of the random bytes are those of this stream */
	unsigned long long flip; /* not 0: the number of a random byte that is another one */
	int failat, failfill, failpersist; /* failat < 0: none */
	int alias;
	uint64_t fill;
	unsigned char *a, *b;
	long alen, blen; /* -1: NULL */
	/* results */
	int done, ret, nrand;
	uint64_t nev;
	unsigned long long len;
	unsigned char *o1, *o2;
	size_t o1len, o2len;
	int o1same, o2same, lensame, guard, inchanged;
	uint64_t inv, resp; /* global event sequence numbers */
	int osc, osf;       /* requests to the system's entropy, and failed ones, in the process up to the end of the call */
} op_t;

typedef struct { int task, op; uint64_t ev; int to; } sw_t;

typedef struct {
	op_t ops[MAXOP];
	int nops, cur;
	pthread_t th;
	sem_t sem;
	int finished, inop;
	uint64_t next_ev;    /* the next event of the op at which the plan preempts it */
	int next_to;
	uint64_t ev;         /* events in the current op */
	uint64_t rs, mix;    /* random streams of the current op */
	unsigned long long nbytes;
	int nrand;
	int spin;            /* unsuccessful attempts at a lock in a row */
} task_t;

static task_t tasks[MAXTASK];
static int ntasks;
static sw_t *sws; static int nsw;
static sw_t *done_sw; static int ndone_sw;
static uint64_t sched_state; static uint32_t chaos_p; /* chaos: switch with probability p / 2^32 */
static int cur = -1;      /* running task */
/* the running task is inside a simulated call (and not in this harness) */
#define sim_on (cur >= 0 && tasks[cur].inop)
static uint64_t gev;      /* events of all tasks */
static uint64_t hist = 1469598103934665603ULL; /* hash of the interleaving */
static int trace_sites;
static unsigned char *arena; static size_t arena_len, arena_pos;
static uint64_t ev_limit = 400000000ULL;
/* OS entropy */
static uint64_t os_state = 0, os_pos = 0; static int os_fix_at = 0, os_fix_len = 0; static int os_fail[64]; static int nos_fail, os_fail_until, os_calls, os_failed;
static long heap_fail = -1, heap_calls;

static uint64_t splitmix(uint64_t *s)
{
	uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
static void garbage(unsigned char *p, size_t n, uint64_t seed)
{
	uint64_t s = seed;
	if (seed == 0) { return; }
	while (n >= 8) { uint64_t v = splitmix(&s); memcpy(p, &v, 8); p += 8; n -= 8; }
	if (n) { uint64_t v = splitmix(&s); memcpy(p, &v, n); }
}
static void hashin(uint64_t v) { for (int i = 0; i < 8; i++) { hist ^= (v >> (8 * i)) & 255; hist *= 1099511628211ULL; } }

/* ------------------------------------------------------------ scheduler */

/* sites: how often, and at which event of the op, each code address was met */
#define NSITE 8192
#define KEEP 6
static struct { uintptr_t pc; uint64_t n; uint64_t ev[KEEP]; int shared; } sites[NSITE];
static uint64_t site_rng = 88172645463325252ULL;
static void site_hit(uintptr_t pc, uint64_t ev, int shared)
{
	size_t h = (pc * 11400714819323198485ULL) >> 51;
	while (sites[h].pc && sites[h].pc != pc) { h = (h + 1) & (NSITE - 1); }
	sites[h].pc = pc; sites[h].shared |= shared;
	uint64_t n = sites[h].n++;
	if (n < KEEP - 1) { sites[h].ev[n] = ev; }
	else if (n == KEEP - 1 || splitmix(&site_rng) % n == 0) { sites[h].ev[n < KEEP ? KEEP - 1 : 1 + splitmix(&site_rng) % (KEEP - 1)] = ev; }
}

static int next_runnable(int from)
{
	for (int i = 1; i <= ntasks; i++) {
		int t = (from + i) % ntasks;
		if (!tasks[t].finished && t != from) { return t; }
	}
	return -1;
}

static void plan_next(task_t *t)
{
	int me = (int)(t - tasks);
	t->next_ev = UINT64_MAX;
	for (int i = 0; i < nsw; i++) {
		if (sws[i].task == me && sws[i].op == t->cur && sws[i].ev > t->ev && sws[i].ev < t->next_ev) { t->next_ev = sws[i].ev; t->next_to = sws[i].to; }
	}
}

static void switch_to(int t, int record)
{
	int me = cur;
	if (t < 0 || t == me || t >= ntasks || tasks[t].finished) { t = next_runnable(me); }
	if (t < 0 || t == me) { return; }
	if (record && ndone_sw % 1024 == 0) { done_sw = realloc(done_sw, sizeof *done_sw * (ndone_sw + 1024)); }
	if (record) done_sw[ndone_sw++] = (sw_t){ me, tasks[me].cur, tasks[me].ev, t };
	hashin(((uint64_t)me << 56) ^ ((uint64_t)tasks[me].cur << 48) ^ tasks[me].ev); hashin(t);
	cur = t;
	sem_post(&tasks[t].sem);
	if (!tasks[me].finished) { while (sem_wait(&tasks[me].sem) != 0) {} }
}

static void event(uintptr_t pc, int shared)
{
	if (!sim_on) { return; }
	task_t *t = &tasks[cur];
	t->ev++; gev++;
	if (trace_sites) { site_hit(pc, t->ev, shared); }
	if (gev > ev_limit) { printf("limit\n"); fflush(stdout); _exit(3); }
	if (t->ev == t->next_ev) {
		int to = t->next_to;
		plan_next(t);
		switch_to(to, 1);
		return;
	}
	if (chaos_p && (uint32_t)splitmix(&sched_state) < chaos_p) {
		switch_to((int)(splitmix(&sched_state) % ntasks), 1);
	}
}

/* a lock could not be taken: let another task run */
static void blocked(void)
{
	if (!sim_on) { return; }
	if (++tasks[cur].spin > 100000) { printf("deadlock\n"); fflush(stdout); _exit(3); }
	if (next_runnable(cur) < 0) { printf("deadlock\n"); fflush(stdout); _exit(3); }
	tasks[cur].ev++; gev++;
	switch_to(next_runnable(cur), 0);
}

#ifndef CSIM_PLAIN
extern char __data_start, _end, __executable_start;
static inline int is_shared(const void *p)
{
	const unsigned char *q = p;
	if (q >= arena && q < arena + arena_len) { return 0; }
	if ((const char *)q >= &__executable_start && (const char *)q < &__data_start) { return 0; }
	return 1;
}
#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(p) do { if (sim_on && is_shared(p)) { event(PC, 1); } } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *c) { (void)c; event(PC, 0); }
void __tsan_func_exit(void) {}
#define RW(n) \
 void __tsan_read##n(void *p) { ACC(p); } void __tsan_write##n(void *p) { ACC(p); } \
 void __tsan_unaligned_read##n(void *p) { ACC(p); } void __tsan_unaligned_write##n(void *p) { ACC(p); } \
 void __tsan_read##n##_pc(void *p, void *c) { (void)c; ACC(p); } void __tsan_write##n##_pc(void *p, void *c) { (void)c; ACC(p); } \
 void __tsan_read_write##n(void *p) { ACC(p); } void __tsan_unaligned_read_write##n(void *p) { ACC(p); } \
 void __tsan_volatile_read##n(void *p) { ACC(p); } void __tsan_volatile_write##n(void *p) { ACC(p); } \
 void __tsan_unaligned_volatile_read##n(void *p) { ACC(p); } void __tsan_unaligned_volatile_write##n(void *p) { ACC(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { (void)n; ACC(p); }
void __tsan_write_range(void *p, size_t n) { (void)n; ACC(p); }
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T *p, int o) { (void)o; event(PC, 1); return __atomic_load_n(p, 5); } \
 void __tsan_atomic##b##_store(volatile T *p, T v, int o) { (void)o; event(PC, 1); __atomic_store_n(p, v, 5); } \
 T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { (void)o; event(PC, 1); T r = __atomic_exchange_n(p, v, 5); if (r == v && v != 0) { blocked(); } return r; } \
 T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { (void)o; event(PC, 1); return __atomic_fetch_add(p, v, 5); } \
 T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { (void)o; event(PC, 1); return __atomic_fetch_sub(p, v, 5); } \
 T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { (void)o; event(PC, 1); return __atomic_fetch_and(p, v, 5); } \
 T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { (void)o; event(PC, 1); return __atomic_fetch_or(p, v, 5); } \
 T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { (void)o; event(PC, 1); return __atomic_fetch_xor(p, v, 5); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; event(PC, 1); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); if (!r) { blocked(); } return r; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; event(PC, 1); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); if (!r) { blocked(); } return r; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void)o; (void)f; event(PC, 1); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; }
void __tsan_atomic_signal_fence(int o) { (void)o; }

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
/* between the two halves of a copy from or to shared memory another task may run */
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
	if (sim_on && n && (is_shared(d) || is_shared(s))) {
		event(PC, 1); __real_memcpy(d, s, n / 2); event(PC + 1, 1);
		__real_memcpy((char *)d + n / 2, (const char *)s + n / 2, n - n / 2); return d;
	}
	return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
	if (sim_on && n && (is_shared(d) || is_shared(s))) { event(PC, 1); __real_memmove(d, s, n); event(PC + 1, 1); return d; }
	return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n)
{
	if (sim_on && n && is_shared(d)) {
		event(PC, 1); __real_memset(d, c, n / 2); event(PC + 1, 1); __real_memset((char *)d + n / 2, c, n - n / 2); return d;
	}
	return __real_memset(d, c, n);
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
	if (sim_on && n && (is_shared(a) || is_shared(b))) { event(PC, 1); }
	return __real_memcmp(a, b, n);
}
#define LOCK(name, try, T) int __wrap_##name(T *m) { event(PC, 1); if (!sim_on) { return try(m) == 0 ? 0 : EDEADLK; } while (try(m) != 0) { blocked(); } tasks[cur].spin = 0; return 0; }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
LOCK(pthread_spin_lock, pthread_spin_trylock, pthread_spinlock_t)
LOCK(mtx_lock, mtx_trylock, mtx_t)
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); event(PC, 1); return r; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
	int *st = (int *)o;
	event(PC, 1);
	while (*st == 77) { blocked(); }
	if (*st != 78) { *st = 77; f(); *st = 78; }
	return 0;
}
void __wrap_call_once(once_flag *o, void (*f)(void)) { __wrap_pthread_once((pthread_once_t *)o, f); }
int __wrap_sched_yield(void) { blocked(); return 0; }
#else
#define PC 0
#endif

/* ------------------------------------------------------------ seams */

/* what the library's own source handed out, request by request */
typedef struct { int task, op, ret, osf; unsigned long long len; uint64_t inv, resp; unsigned char *bytes; } draw_t;
static draw_t draws[4096]; static int ndraws;

static int real_draw(unsigned char *x, unsigned long long xlen, int task, int op)
{
	int i = ndraws < 4096 ? ndraws++ : -1;
	uint64_t inv = gev++;
	int r = __real_randombytes(x, xlen);
	if (i >= 0) {
		draw_t *d = &draws[i];
		d->task = task; d->op = op; d->ret = r; d->len = xlen; d->inv = inv; d->resp = gev++; d->osf = os_failed;
		d->bytes = __real_malloc(xlen + 1);
		if (r == 0 && xlen) { for (unsigned long long j = 0; j < xlen; j++) { d->bytes[j] = x[j]; } }
	}
	return r;
}

int __wrap_randombytes(unsigned char *x, unsigned long long xlen)
{
	if (!sim_on) { return __real_randombytes(x, xlen); }
	event(PC + 3, 1);
	task_t *t = &tasks[cur];
	op_t *o = &t->ops[t->cur];
	int me = cur;
	int k = t->nrand++;
	if (o->failat >= 0 && (k == o->failat || (o->failpersist && k > o->failat))) {
		/* a failing source may have filled a part of the buffer */
		uint64_t s = o->rs ^ 0xF417ULL ^ (uint64_t)k;
		for (unsigned long long i = 0; i < xlen && i < (unsigned long long)o->failfill; i++) { x[i] = (unsigned char)splitmix(&s); }
		event(PC + 4, 1);
		return o->failfill % 3 == 0 ? -4 : o->failfill % 3 == 1 ? -1 : 1;
	}
	if (o->real_rng) { return real_draw(x, xlen, me, t->cur); }
	for (unsigned long long i = 0; i < xlen; i++) {
		x[i] = (unsigned char)(splitmix(&t->rs) >> 11);
		if (++t->nbytes == o->flip) { x[i] ^= (unsigned char)(o->rs >> 9 | 1); }
		if (o->mix) { uint64_t m = splitmix(&t->mix); if (m & 1) { x[i] = (unsigned char)(m >> 11); } }
	}
	event(PC + 4, 1);
	return 0;
}

/* a process that was forked: another number, other entropy */
static int npid;
static uint64_t os_salt;
static int os_entropy(void *buf, size_t n)
{
	int k = os_calls++;
	const char *env = getenv("CSIM_OS");
	/* (the library may ask before there is a plan) */
	if (env && k == 0) {
		unsigned long long v = 0; int a = 0, b = 0, until = 0;
		sscanf(env, "%llu:%d:%d:%d", &v, &a, &b, &until);
		os_state = v ^ os_salt; os_fix_at = a; os_fix_len = b; os_fail_until = until;
	}
	event(PC + 5, 1);
	for (int i = -1; i < nos_fail; i++) {
		if (i < 0 ? k < os_fail_until : os_fail[i] == k) { os_failed++; errno = EIO; garbage(buf, n / 2, 7 + k); return -1; }
	}
	unsigned char *p = buf;
	for (size_t i = 0; i < n; i++) { 
		p[i] = (unsigned char)(splitmix(&os_state) >> 13);
		uint64_t at = os_pos++ % 48;
		/* bytes that are the same in every boot */
		if ((at + 48 - os_fix_at) % 48 < (uint64_t)os_fix_len) { p[i] = 0x5A; }
	}
	printf("os %d ", k);
	for (size_t i = 0; i < n; i++) { printf("%02x", p[i]); }
	printf("\n");
	event(PC + 6, 1);
	return 0;
}
int __wrap_getentropy(void *buf, size_t n) { if (n > 256) { errno = EIO; return -1; } return os_entropy(buf, n); }
ssize_t __wrap_getrandom(void *buf, size_t n, unsigned f) { (void)f; return os_entropy(buf, n) ? -1 : (ssize_t)n; }
#define URANDOM 1000
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...)
{
	if ((sim_on || getenv("CSIM_OS")) && (strcmp(p, "/dev/urandom") == 0 || strcmp(p, "/dev/random") == 0)) { return URANDOM; }
	va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
	return __real_open(p, fl, m);
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { if (fd == URANDOM) { return os_entropy(b, n) ? -1 : (ssize_t)n; } return __real_read(fd, b, n); }
int __real_close(int);
int __wrap_close(int fd) { return fd == URANDOM ? 0 : __real_close(fd); }
/* no clock and no process number tells one boot from another */
#include <time.h>
#include <sys/time.h>
time_t __real_time(time_t *); int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
clock_t __real_clock(void); pid_t __real_getpid(void);
#define STILL (sim_on || getenv("CSIM_OS"))
time_t __wrap_time(time_t *t) { time_t v = STILL ? 1700000000 : __real_time(NULL); if (t) { *t = v; } return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { if (!STILL) { return __real_clock_gettime(c, t); } t->tv_sec = 1700000000; t->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!STILL) { return __real_gettimeofday(t, z); } t->tv_sec = 1700000000; t->tv_usec = 0; return 0; }
clock_t __wrap_clock(void) { return STILL ? 0 : __real_clock(); }
pid_t __wrap_getpid(void) { return STILL ? 4242 + npid : __real_getpid(); }
static char urandom_file;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m)
{
	if ((sim_on || getenv("CSIM_OS")) && (strcmp(p, "/dev/urandom") == 0 || strcmp(p, "/dev/random") == 0)) { return (FILE *)&urandom_file; }
	return __real_fopen(p, m);
}
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { if ((char *)f == &urandom_file) { return os_entropy(b, s * n) ? 0 : n; } return __real_fread(b, s, n, f); }
int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { return (char *)f == &urandom_file ? 0 : __real_fclose(f); }
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { if (sim_on && heap_calls++ == heap_fail) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
void *__real_calloc(size_t, size_t);
void *__wrap_calloc(size_t m, size_t n) { if (sim_on && heap_calls++ == heap_fail) { errno = ENOMEM; return NULL; } return __real_calloc(m, n); }

/* ------------------------------------------------------------ operations */

static unsigned char *alloc(size_t n)
{
#ifdef CSIM_PLAIN
	return __real_malloc(n ? n : 1) /* + redzones of AddressSanitizer */;
#else
	size_t need = (n + 2 * GUARD + 63) & ~(size_t)63;
	if (arena_pos + need > arena_len) { fprintf(stderr, "csim: arena full\n"); _exit(4); }
	unsigned char *p = arena + arena_pos + GUARD;
	memset(p - GUARD, 0xA5, GUARD); memset(p + n, 0xA5, GUARD);
	arena_pos += need;
	return p;
#endif
}
static int guard_ok(const unsigned char *p, size_t n)
{
#ifndef CSIM_PLAIN
	for (int i = 1; i <= GUARD; i++) { if (p[-i] != 0xA5 || p[n + i - 1] != 0xA5) { return 0; } }
#else
	(void)p; (void)n;
#endif
	return 1;
}

static void __attribute__((noinline)) fillstack(uint64_t seed)
{
	volatile unsigned char buf[160 * 1024];
	garbage((unsigned char *)buf, sizeof buf, seed);
	__asm__ volatile("" : : "r"(buf) : "memory");
}

/* callers may keep their input buffers for later calls */
typedef struct { unsigned char *p; long cap; } slot_t;
static slot_t slots[MAXTASK][2];
static int reuse;

/* an exact copy of an input, so that any access beyond it is seen */
static unsigned char *exact(const unsigned char *p, long n, slot_t *s)
{
	if (n < 0) { return NULL; }
#ifdef CSIM_PLAIN
	unsigned char *q = __real_malloc(n ? n : 1);
	if (n) { memcpy(q, p, n); }
	if (n == 0) { free(q); q = __real_malloc(1); }
	return q;
#else
	unsigned char *q;
	if (reuse && s->p && n <= s->cap) {
		q = s->p;
		memset(q + n, 0xA5, GUARD);
	} else {
		q = alloc(n);
		s->p = q; s->cap = n;
	}
	if (n) { memcpy(q, p, n); }
	return q;
#endif
}

/* what the buffers of an operation look like before the call (allocations and copies are not part of the simulated call) */
typedef struct { unsigned char *a, *b, *o1, *o2, *o1was; long alen, blen; } bufs_t;

static void prepare(op_t *o, bufs_t *B, slot_t *s)
{
	const char *k = o->kind;
	memset(B, 0, sizeof *B);
	size_t n1 = 0, n2 = 0;
	int v = k[0] && k[1] ? k[strlen(k) - 1] : 0;
	if (k[0] == 'k') { n1 = v == 'n' ? PK_N : PK_Z; n2 = SKLEN; }
	else if (k[0] == 's') { n1 = (o->alen > 0 ? o->alen : 0) + (v == 'n' ? MAXOUT_N : v == 'z' ? MAXOUT_Z : MAXOUT_E); }
	else if (k[0] == 'o') { n1 = o->alen > 0 ? o->alen : 0; }
	else if (k[0] == 'p') { n1 = PK_Z; }
	else if (k[0] == 'r') { n1 = o->alen > 0 ? o->alen : 0; }
	o->o1len = n1; o->o2len = n2;
	if (k[0] == 'p') { n1 = o->blen; o->o1len = n1; }
	B->o1 = alloc(n1); B->o2 = alloc(n2);
	garbage(B->o1, n1, o->fill + 1); garbage(B->o2, n2, o->fill + 2);
	B->alen = o->alen; B->blen = o->blen;
	if (k[0] == 'p') { memcpy(B->o1, o->b, n1); }
	else if (k[0] == 'r') { if (o->b) { B->b = exact(o->b, o->blen, s + 1); } }
	else {
		B->b = exact(o->b, o->blen, s + 1);
		if (o->alias && o->alen > 0) {
			/* the input lies in the output buffer: in front of, at, or behind where the call moves it to */
			size_t room = n1 - (size_t)o->alen, off;
			off = o->alias == 1 ? 0 : o->alias == 2 ? 42 : (size_t)o->alias % (room + 1);
			if (off > room) { off = room; }
			B->a = B->o1 + off;
			memcpy(B->a, o->a, o->alen);
		} else { B->a = exact(o->a, o->alen, s); }
	}
	B->o1was = __real_malloc(n1 ? n1 : 1); memcpy(B->o1was, B->o1, n1);
}

static void perform(op_t *o, bufs_t *B)
{
	const char *k = o->kind;
	unsigned long long len = 0xA5A5A5A5ULL;
	int r = -99;
	if (!strcmp(k, "kp_n")) { r = crypto_sign_keypair(B->o1, B->o2); }
	else if (!strcmp(k, "kp_z")) { r = zknox_crypto_sign_keypair(B->o1, B->o2); }
	else if (!strcmp(k, "ks_n")) { r = crypto_sign_keypair_from_seed(B->o1, B->o2, B->a, o->alen < 0 ? 0 : o->alen); }
	else if (!strcmp(k, "ks_z")) { r = zknox_crypto_sign_keypair_from_seed(B->o1, B->o2, B->a, o->alen < 0 ? 0 : o->alen); }
	else if (!strcmp(k, "sg_n")) { r = crypto_sign(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "sg_z")) { r = zknox_crypto_sign(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "sg_e")) { r = zknox_crypto_sign_epervier(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "op_n")) { r = crypto_sign_open(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "op_z")) { r = zknox_crypto_sign_open(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "op_e")) { r = zknox_crypto_sign_open_epervier(B->o1, &len, B->a, o->alen < 0 ? 0 : o->alen, B->b); }
	else if (!strcmp(k, "pk_e")) { r = zknox_pk_epervier(B->o1); }
	else if (!strcmp(k, "rb")) { r = randombytes(B->o1, o->alen); }
	else if (!strcmp(k, "ri")) { randombytes_init(o->a, B->b, 256); r = 0; }
	else { fprintf(stderr, "csim: unknown operation %s\n", k); _exit(4); }
	o->ret = r; o->len = len;
}

static void conclude(op_t *o, bufs_t *B)
{
	o->o1 = B->o1; o->o2 = B->o2;
	o->lensame = o->len == 0xA5A5A5A5ULL;
	o->o1same = memcmp(B->o1, B->o1was, o->o1len) == 0;
	unsigned char *t = __real_malloc(o->o2len + 8);
	garbage(t, o->o2len, o->fill + 2);
	o->o2same = o->o2len == 0 || memcmp(B->o2, t, o->o2len) == 0;
	free(t); free(B->o1was);
	o->guard = guard_ok(B->o1, o->o1len) && guard_ok(B->o2, o->o2len)
		&& (B->a == NULL || (o->alias && o->alen > 0) || guard_ok(B->a, B->alen)) && (B->b == NULL || guard_ok(B->b, B->blen));
	o->inchanged = (B->a && !(o->alias && o->alen > 0) && o->alen > 0 && memcmp(B->a, o->a, o->alen))
		|| (B->b && o->blen > 0 && memcmp(B->b, o->b, o->blen));
#ifdef CSIM_PLAIN
	if (B->a && !(o->alias && o->alen > 0)) { free(B->a); }
	free(B->b);
#endif
	o->osc = os_calls; o->osf = os_failed;
	o->done = 1;
}

static void report(int task, int i, op_t *o)
{
	static const char hx[] = "0123456789abcdef";
	printf("res %d %d %d %d %llu %d %d %d %d %d %llu %llu %llu %d %d ", task, i, o->ret, o->nrand, (unsigned long long)o->nev,
		o->o1same, o->o2same, o->lensame, o->guard, o->inchanged, (unsigned long long)o->len, (unsigned long long)o->inv, (unsigned long long)o->resp, o->osc, o->osf);
	for (int w = 0; w < 2; w++) {
		unsigned char *p = w ? o->o2 : o->o1; size_t n = w ? o->o2len : o->o1len;
		if (o->ret != 0 && (w ? o->o2same : o->o1same)) { n = 0; }
		if (o->ret == 0 && w == 0 && (o->kind[0] == 's' || o->kind[0] == 'o') && o->len < n) { n = o->len; }
		char *s = __real_malloc(2 * n + 2);
		for (size_t j = 0; j < n; j++) { s[2 * j] = hx[p[j] >> 4]; s[2 * j + 1] = hx[p[j] & 15]; }
		s[2 * n] = 0;
		printf("%s%s%s", n ? s : ".", "", w ? "\n" : " ");
		free(s);
	}
}

static void *task_main(void *arg)
{
	int me = (int)(intptr_t)arg;
	task_t *t = &tasks[me];
	while (sem_wait(&t->sem) != 0) {}
	for (t->cur = 0; t->cur < t->nops; t->cur++) {
		op_t *o = &t->ops[t->cur];
		bufs_t B;
		prepare(o, &B, slots[me]);
		if (o->fill) { fillstack(o->fill); }
		t->ev = 0; t->nrand = 0; t->rs = o->rs; t->mix = o->mix; t->nbytes = 0; t->spin = 0;
		plan_next(t);
		o->inv = gev++;
		t->inop = 1;
		event(1, 0);
		perform(o, &B);
		event(2, 0);
		t->inop = 0;
		o->resp = gev++;
		o->nev = t->ev; o->nrand = t->nrand;
		conclude(o, &B);
	}
	t->finished = 1;
	int n = next_runnable(me);
	if (n >= 0) { hashin(0xFF00 + me); cur = n; sem_post(&tasks[n].sem); }
	return NULL;
}

static void run_plan(int first)
{
	arena_len = ARENA_STACKS + (size_t)24 * 1024 * 1024;
	arena = mmap(NULL, arena_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED) { fprintf(stderr, "csim: mmap\n"); _exit(4); }
	arena_pos = ARENA_STACKS;
	for (int i = 0; i < ntasks; i++) {
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstack(&at, arena + STACK * i, STACK);
		sem_init(&tasks[i].sem, 0, 0);
		if (pthread_create(&tasks[i].th, &at, task_main, (void *)(intptr_t)i) != 0) { fprintf(stderr, "csim: thread\n"); _exit(4); }
	}
	if (ntasks > 0) {
		cur = first % ntasks;
		sem_post(&tasks[cur].sem);
		for (int i = 0; i < ntasks; i++) { pthread_join(tasks[i].th, NULL); }
	}
	for (int i = 0; i < ntasks; i++) { for (int j = 0; j < tasks[i].nops; j++) { report(i, j, &tasks[i].ops[j]); } }
	for (int i = 0; i < ndraws; i++) {
		draw_t *d = &draws[i];
		printf("draw %d %d %d %d %llu %llu %llu ", d->task, d->op, d->ret, d->osf, d->len, (unsigned long long)d->inv, (unsigned long long)d->resp);
		for (unsigned long long j = 0; j < d->len && d->ret == 0; j++) { printf("%02x", d->bytes[j]); }
		printf(".\n");
	}
	for (int i = 0; i < ndone_sw && i < 4000; i++) { printf("sw %d %d %llu %d\n", done_sw[i].task, done_sw[i].op, (unsigned long long)done_sw[i].ev, done_sw[i].to); }
	if (trace_sites) {
		for (int i = 0; i < NSITE; i++) {
			if (!sites[i].pc) { continue; }
			printf("site %d %llu", sites[i].shared, (unsigned long long)sites[i].n);
			for (int j = 0; j < KEEP && j < (int)sites[i].n; j++) { printf(" %llu", (unsigned long long)sites[i].ev[j]); }
			printf("\n");
		}
	}
	printf("stat %llu %d %016llx %d %d\n", (unsigned long long)gev, ndone_sw, (unsigned long long)hist, os_calls, os_failed);
	fflush(stdout);
}

/* ------------------------------------------------------------ plan */

static unsigned char *unhex(const char *s, long *n)
{
	if (!strcmp(s, "-")) { *n = -1; return NULL; }
	if (!strcmp(s, ".")) { *n = 0; return (unsigned char *)""; }
	size_t l = strlen(s) / 2;
	unsigned char *p = __real_malloc(l + 1);
	for (size_t i = 0; i < l; i++) {
		int h = s[2 * i], g = s[2 * i + 1];
		p[i] = (unsigned char)(((h <= '9' ? h - '0' : h - 'a' + 10) << 4) | (g <= '9' ? g - '0' : g - 'a' + 10));
	}
	*n = (long)l;
	return p;
}

static op_t *parse_op(char *line, op_t *o)
{
	char *sv, *w[9]; int n = 0;
	for (char *p = strtok_r(line, " \n", &sv); p && n < 9; p = strtok_r(NULL, " \n", &sv)) { w[n++] = p; }
	/* op task kind rs fail alias fill a b */
	if (n < 9) { fprintf(stderr, "csim: bad op\n"); _exit(4); }
	memset(o, 0, sizeof *o);
	snprintf(o->kind, sizeof o->kind, "%s", w[2]);
	o->real_rng = w[3][0] == 'R';
	if (!o->real_rng) { char *e; o->rs = strtoull(w[3], &e, 10); if (*e == 'm') { o->mix = strtoull(e + 1, NULL, 10); } else if (*e == 'x') { o->flip = strtoull(e + 1, NULL, 10) + 1; } }
	o->failat = -1;
	if (w[4][0] != '-') { sscanf(w[4], "%d:%d:%d", &o->failat, &o->failfill, &o->failpersist); }
	o->alias = atoi(w[5]);
	o->fill = strtoull(w[6], NULL, 10);
	if (!strcmp(o->kind, "rb")) { o->alen = atol(w[7]); o->blen = -1; }
	else { o->a = unhex(w[7], &o->alen); o->b = unhex(w[8], &o->blen); }
	return o;
}

int main(int argc, char **argv)
{
	char *line = NULL; size_t cap = 0;
	int first = 0;
	(void)argc; (void)argv;
	signal(SIGPIPE, SIG_DFL);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	/*
	 * Commands:  op T ...    add an operation to task T
	 *            sw T O E N  preempt task T at event E of operation O, continue with task N
	 *            chaos S P | first T | reuse 1 | trace | os S | osfail K | osuntil K | heapfail K | limit N
	 *            run         execute the plan in a child, forget it
	 *            exec ...    (as op) execute it at once in this process
 *            fork N      (for exec) a process of its own executes what follows, up to quit
	 */
	while (getline(&line, &cap, stdin) > 0) {
		if (!strncmp(line, "op ", 3)) {
			int t = atoi(line + 3);
			if (t < 0 || t >= MAXTASK || tasks[t].nops >= MAXOP) { fprintf(stderr, "csim: too many\n"); _exit(4); }
			parse_op(line, &tasks[t].ops[tasks[t].nops++]);
			if (t >= ntasks) { ntasks = t + 1; }
		} else if (!strncmp(line, "sw ", 3)) {
			sws = realloc(sws, sizeof *sws * (nsw + 1));
			unsigned long long ev;
			sscanf(line + 3, "%d %d %llu %d", &sws[nsw].task, &sws[nsw].op, &ev, &sws[nsw].to);
			sws[nsw++].ev = ev;
		} else if (!strncmp(line, "chaos ", 6)) {
			unsigned long long s; unsigned p;
			sscanf(line + 6, "%llu %u", &s, &p); sched_state = s; chaos_p = p;
		} else if (!strncmp(line, "first ", 6)) { first = atoi(line + 6); }
		else if (!strncmp(line, "reuse ", 6)) { reuse = atoi(line + 6); }
		else if (!strncmp(line, "trace", 5)) { trace_sites = 1; }
		else if (!strncmp(line, "os ", 3)) { os_state = strtoull(line + 3, NULL, 10); }
		else if (!strncmp(line, "osfail ", 7)) { if (nos_fail < 64) { os_fail[nos_fail++] = atoi(line + 7); } }
		else if (!strncmp(line, "osuntil ", 8)) { os_fail_until = atoi(line + 8); }
		else if (!strncmp(line, "heapfail ", 9)) { heap_fail = atol(line + 9); heap_calls = 0; }
		else if (!strncmp(line, "limit ", 6)) { ev_limit = strtoull(line + 6, NULL, 10); }
		else if (!strncmp(line, "run", 3)) {
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) { alarm(120); run_plan(first); _exit(0); }
			int st = 0;
			while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
			if (WIFSIGNALED(st)) { printf("\ncrash %d\n", WTERMSIG(st)); }
			else if (WEXITSTATUS(st) != 0) { printf("\nexit %d\n", WEXITSTATUS(st)); }
			printf("end\n");
			fflush(stdout);
			for (int i = 0; i < ntasks; i++) { memset(&tasks[i], 0, sizeof tasks[i]); }
			ntasks = 0; nsw = 0; first = 0; trace_sites = 0; chaos_p = 0; nos_fail = 0; os_fail_until = 0; os_state = 0; heap_fail = -1;
			ev_limit = 400000000ULL;
		} else if (!strncmp(line, "exec ", 5)) {
			task_t *t = &tasks[0];
			op_t *o = parse_op(line, &t->ops[0]);
			bufs_t B;
			if (!arena) {
				arena_len = (size_t)64 * 1024 * 1024;
				arena = mmap(NULL, arena_len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			}
			arena_pos = 0; ntasks = 1; cur = 0; t->nops = 1; t->cur = 0; t->finished = 0;
			prepare(o, &B, slots[0]);
			if (o->fill) { fillstack(o->fill); }
			t->ev = 0; t->nrand = 0; t->rs = o->rs; t->mix = o->mix; t->nbytes = 0; t->spin = 0;
			t->next_ev = UINT64_MAX;
			alarm(20); t->inop = 1; perform(o, &B); t->inop = 0; alarm(0);
			o->nev = t->ev; o->nrand = t->nrand;
			conclude(o, &B);
			report(0, 0, o);
			fflush(stdout);
			if (o->alen > 0 && o->a) { free(o->a); }
			if (o->blen > 0 && o->b) { free(o->b); }
#ifdef CSIM_PLAIN
			free(o->o1); free(o->o2);
#endif
			gev = 0;
		} else if (!strncmp(line, "fork ", 5)) {
			/* the commands up to the next quit are for the new process, what follows them for this one (sent when this one has answered) */
			fflush(stdout);
			pid_t p = fork();
			if (p == 0) {
				npid = atoi(line + 5);
				os_salt = (uint64_t)npid;
				os_salt = splitmix(&os_salt);
				os_state ^= os_salt;
				printf("forked\n"); fflush(stdout);
			} else {
				int st = 0;
				while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
				if (st != 0) { fprintf(stderr, "csim: status %x of a forked process\n", st); _exit(5); }
				printf("ended\n"); fflush(stdout);
			}
		} else if (!strncmp(line, "quit", 4)) { break; }
	}
	return 0;
}
