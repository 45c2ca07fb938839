#define _GNU_SOURCE
#include "seam.h"
#include <errno.h>
#include <pthread.h>
#include <regex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_regcomp(regex_t *, const char *, int);
void __real_regfree(regex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);

static struct seam_plan plan;
static struct seam_stats st;
static int inside, fill_byte = 0xa5;
static uint64_t cur_op, seq;
static uint64_t live_cnt, live_bytes, live_regex;
static int64_t held;
static uint64_t totals[SF_KINDS];

/* --- live blocks: open addressing, key = pointer --- */
#define CAP (1u << 18)
struct blk { void *p; size_t size; uint64_t seq, op; };
static struct blk tab[CAP];
#define TOMB ((void*)1)
static uint32_t used;

/* --- freed blocks that are given out again, last one first, by size --- */
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
int __asan_address_is_poisoned(void const volatile *);
static int reuse;
#define NPARK 8192
static struct { void *p; size_t size; } park[NPARK];
static int nparked;

void seam_reuse(int on)
{
	for (int i = 0; i < nparked; i++) {
		__asan_unpoison_memory_region(park[i].p, park[i].size);
		__real_free(park[i].p);
	}
	nparked = 0;
	reuse = on;
}

static void *fresh(size_t n)
{
	for (int i = nparked - 1; reuse && n && i >= 0 && i >= nparked - 256; i--) {
		if (park[i].size == n) {
			void *p = park[i].p;
			memmove(&park[i], &park[i + 1], sizeof(park[0]) * (size_t)(nparked - i - 1));
			nparked--;
			__asan_unpoison_memory_region(p, n);
			return p;
		}
	}
	return __real_malloc(n);
}

static void retire(void *p, size_t size)
{
	if (!reuse || !size) { __real_free(p); return; }
	if (nparked == NPARK) {
		__asan_unpoison_memory_region(park[0].p, park[0].size);
		__real_free(park[0].p);
		memmove(&park[0], &park[1], sizeof(park[0]) * (NPARK - 1));
		nparked--;
	}
	park[nparked].p = p;
	park[nparked++].size = size;
	__asan_poison_memory_region(p, size);
}

static uint32_t hsh(void *p)
{
	uint64_t x = (uint64_t)p * 0x9E3779B97F4A7C15ull;
	return (uint32_t)(x >> 40) & (CAP - 1);
}

static void rehash(void)
{
	struct blk *old = __real_malloc(sizeof(tab));
	memcpy(old, tab, sizeof(tab));
	memset(tab, 0, sizeof(tab));
	used = 0;
	for (uint32_t i = 0; i < CAP; i++) {
		if (old[i].p && old[i].p != TOMB) {
			uint32_t h = hsh(old[i].p);
			while (tab[h].p) h = (h + 1) & (CAP - 1);
			tab[h] = old[i];
			used++;
		}
	}
	__real_free(old);
}

static void track(void *p, size_t size)
{
	uint32_t h;
	if (used > CAP / 4 * 3) rehash();
	if (used > CAP / 4 * 3) seam_fatal("harness", "too many live blocks");
	h = hsh(p);
	while (tab[h].p && tab[h].p != TOMB) h = (h + 1) & (CAP - 1);
	if (!tab[h].p) used++;
	tab[h] = (struct blk){p, size, ++seq, cur_op};
	live_cnt++;
	live_bytes += size;
}

static int untrack(void *p, size_t *size)
{
	uint32_t h = hsh(p);
	while (tab[h].p) {
		if (tab[h].p == p) {
			tab[h].p = TOMB;
			live_cnt--;
			live_bytes -= tab[h].size;
			*size = tab[h].size;
			return 1;
		}
		h = (h + 1) & (CAP - 1);
	}
	return 0;
}

int seam_live_since(uint64_t since, size_t *size, uint64_t *op)
{
	uint64_t best = ~0ull;
	for (uint32_t i = 0; i < CAP; i++) {
		if (tab[i].p && tab[i].p != TOMB && tab[i].seq >= since && tab[i].seq < best) {
			best = tab[i].seq;
			*size = tab[i].size;
			*op = tab[i].op;
		}
	}
	return best != ~0ull;
}

uint64_t seam_alloc_seq(void) { return seq + 1; }
uint64_t seam_live_blocks(void) { return live_cnt; }
uint64_t seam_live_bytes(void) { return live_bytes; }
uint64_t seam_live_regex(void) { return live_regex; }
int64_t seam_locks_held(void) { return held; }
int seam_inside(void) { return inside; }
void seam_fill(int byte) { fill_byte = byte; }
const uint64_t *seam_fired_totals(void) { return totals; }

void seam_enter(const struct seam_plan *p, uint64_t op)
{
	static const struct seam_plan none;
	plan = p ? *p : none;
	memset(&st, 0, sizeof(st));
	cur_op = op;
	inside = 1;
}

void seam_leave(struct seam_stats *out)
{
	inside = 0;
	if (out) *out = st;
}

static int deliver(int kind)
{
	st.fired++;
	totals[kind]++;
	errno = ENOMEM;
	return 1;
}

static int alloc_fails(void)
{
	st.allocs++;
	if (plan.kind == SF_ALLOC && st.allocs == plan.at)
		return deliver(SF_ALLOC);
	if (plan.kind == SF_ALLOC_OUTAGE && st.allocs >= plan.at && st.allocs - plan.at < plan.span)
		return deliver(SF_ALLOC_OUTAGE);
	return 0;
}

void *__wrap_malloc(size_t n)
{
	void *p;
	if (!inside) return __real_malloc(n);
	if (n > (1u << 28)) seam_fatal("huge-alloc", "request for more than 256MB");
	if (alloc_fails()) return NULL;
	p = fresh(n);
	if (p) { memset(p, fill_byte, n); track(p, n); }
	return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
	void *p;
	size_t n;
	if (!inside) return __real_calloc(a, b);
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	if (n > (1u << 28)) seam_fatal("huge-alloc", "request for more than 256MB");
	if (alloc_fails()) return NULL;
	p = fresh(n);
	if (p) { memset(p, 0, n); track(p, n); }
	return p;
}

void *__wrap_realloc(void *o, size_t n)
{
	void *p;
	size_t sz = 0;
	if (!inside) return __real_realloc(o, n);
	if (!o) return __wrap_malloc(n);
	if (n > (1u << 28)) seam_fatal("huge-alloc", "request for more than 256MB");
	if (n && alloc_fails()) return NULL;
	/* always move: nothing may rely on the old address */
	if (n) {
		size_t osz = 0;
		uint32_t h = hsh(o);
		while (tab[h].p && tab[h].p != o) h = (h + 1) & (CAP - 1);
		if (tab[h].p == o) {
			osz = tab[h].size;
			p = fresh(n);
			if (!p) return NULL;
			memset(p, fill_byte, n);
			memcpy(p, o, osz < n ? osz : n);
			untrack(o, &sz);
			retire(o, sz);
			track(p, n);
			return p;
		}
	}
	untrack(o, &sz);
	p = __real_realloc(o, n);
	if (p) track(p, n);
	return p;
}

void *__wrap_reallocarray(void *o, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(o, n);
}

char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if (p) memcpy(p, s, n);
	return p;
}

char *__wrap_strndup(const char *s, size_t max)
{
	size_t n = strnlen(s, max);
	char *p = __wrap_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}

void __wrap_free(void *p)
{
	size_t size = 0;
	if (p && inside) st.frees++;
	if (p && untrack(p, &size)) {
		retire(p, size);
		return;
	}
	for (int i = 0; p && i < nparked; i++)
		if (park[i].p == p) seam_fatal("memory", "memory that was freed already is freed again");
	__real_free(p);
}

int __wrap_regcomp(regex_t *r, const char *re, int flags)
{
	int rc;
	if (!inside) return __real_regcomp(r, re, flags);
	st.regcomps++;
	if (plan.kind == SF_REGCOMP && st.regcomps == plan.at) {
		deliver(SF_REGCOMP);
		return REG_ESPACE;
	}
	rc = __real_regcomp(r, re, flags);
	if (!rc) live_regex++;
	return rc;
}

void __wrap_regfree(regex_t *r)
{
	if (inside) live_regex--;
	__real_regfree(r);
}

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	if (inside) {
		st.minits++;
		if (plan.kind == SF_MINIT && st.minits == plan.at) {
			deliver(SF_MINIT);
			return EAGAIN;
		}
	}
	return __real_pthread_mutex_init(m, a);
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int rc;
	if (inside) {
		st.locks++;
		if (plan.kind == SF_LOCK && st.locks == plan.at) {
			deliver(SF_LOCK);
			return EAGAIN;
		}
	}
	/* one thread only: a lock which isn't free will never be */
	rc = __real_pthread_mutex_trylock(m);
	if (rc == EBUSY) seam_fatal("deadlock", "a mutex that is already held is locked again");
	if (!rc) held++;
	return rc;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
	int rc = __real_pthread_mutex_trylock(m);
	if (!rc) held++;
	return rc;
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int rc = __real_pthread_mutex_unlock(m);
	if (!rc) {
		if (--held < 0) seam_fatal("unlock", "a mutex that isn't held is unlocked");
	}
	return rc;
}

int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	return __real_pthread_mutex_destroy(m);
}

/* the code under test must never take the process down */
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int rc)
{
	if (inside) {
		char msg[64];
		snprintf(msg, sizeof(msg), "exit(%d) called by the engine", rc);
		seam_fatal("process-death", msg);
	}
	__real_exit(rc);
}

void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void)
{
	if (inside) seam_fatal("process-death", "abort() called by the engine");
	__real_abort();
}

void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	(void)f; (void)l; (void)fn;
	char msg[128];
	snprintf(msg, sizeof(msg), "assertion failed in the engine: %.80s", e);
	seam_fatal("process-death", msg);
}
