/*
 * tseam.c - the seams of seam.h for several simulated threads
 *
 * The engine is compiled with the instrumentation of the thread sanitizer, but not linked with its library: what it calls for each access to memory is
 * defined here. One real thread runs all of them, on stacks of their own; which one runs is decided at the points where one of them touches
 * memory that isn't its own stack, or uses a mutex.
 */
#define _GNU_SOURCE
#include "thr.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <regex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/mman.h>
#include <time.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_regcomp(regex_t *, const char *, int);
void __real_regfree(regex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);

extern char __executable_start, edata, end;

#define STACK (16u << 20)
#define NONE (-1)

/* ---------------------------------------------------------------- threads */
enum { T_READY, T_BLOCKED, T_DONE };
struct fiber {
	/* per call into the engine */
	struct seam_plan plan;
	struct seam_stats st;
	int inside;
	uint64_t op;
	/* scheduling */
	void *sp;
	char *stack;
	int state;
	const void *wants;
	uint64_t points;	/* of the current operation */
	int cur_op;
	uint64_t prio, stalled_until;
	int saved_errno;
	char *tls;
	int locks;
	uint32_t vc[THR_MAX + 1];
	/* a reader of a lock may hold more than one */
};
static struct fiber F[THR_MAX + 1];	/* the last one: the harness, before and after */
#define MAIN THR_MAX
static int cur = MAIN;
static int mt, nthr;
static struct thr_cfg cfg;
static struct thr_stats stats;
static uint64_t rnd_s, events, next_at, pct_at[64], stall_at[16];
static uint32_t npct, npct_done, nstall, nstall_done;
static void (*body)(void *, int);
static void *body_arg;
static struct thr_switch *rec;
static volatile uint64_t *nrec;
static size_t rec_cap;
static size_t plan_pos[THR_MAX + 1];
static char *tls_base;
static size_t tls_size;
static const void *tls_image;
static size_t tls_filesz;

static uint64_t rnd(void)
{
	uint64_t z = (rnd_s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }

__asm__(
	".text\n.globl thr_swap\n.type thr_swap,@function\nthr_swap:\n"
	"push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
	"mov %rsp,(%rdi)\nmov %rsi,%rsp\n"
	"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n"
	".size thr_swap,.-thr_swap\n");
void thr_swap(void **save, void *load);

static int find_tls(struct dl_phdr_info *i, size_t sz, void *arg)
{
	(void)sz; (void)arg;
	/* the program itself comes first */
	for (int k = 0; k < i->dlpi_phnum; k++) {
		if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
			tls_base = i->dlpi_tls_data;
			tls_size = i->dlpi_phdr[k].p_memsz;
			tls_filesz = i->dlpi_phdr[k].p_filesz;
			tls_image = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
		}
	}
	return 1;
}

static int own_stack(int t, const void *p) { return t != MAIN && (const char*)p >= F[t].stack && (const char*)p < F[t].stack + STACK; }
static int any_stack(const void *p)
{
	for (int t = 0; t < nthr; t++) if (own_stack(t, p)) return 1;
	return 0;
}

int thr_self(void) { return cur; }
uint64_t thr_now(void) { return ++events; }
int thr_holds(void) { return F[cur].locks; }
const struct thr_stats *thr_get_stats(void) { return &stats; }
void thr_op(int op) { F[cur].cur_op = op + 1; F[cur].points = 0; }
void thr_record(struct thr_switch *out, size_t cap, volatile uint64_t *n)
{
	rec = out;
	rec_cap = cap;
	nrec = n;
}

static void go(int to)
{
	int from = cur;
	if (to == from) return;
	F[from].saved_errno = errno;
	if (tls_size) memcpy(F[from].tls, tls_base, tls_size);
	if (from != MAIN && to != MAIN) stats.switches++;
	cur = to;
	if (tls_size) memcpy(tls_base, F[to].tls, tls_size);
	errno = F[to].saved_errno;
	thr_swap(&F[from].sp, F[to].sp);
}

static void note(int from, int to, int forced)
{
	if (nrec) {
		if (*nrec < rec_cap) rec[*nrec] = (struct thr_switch){(uint8_t)from, (uint8_t)to, (uint8_t)forced, F[from].cur_op, F[from].points};
		++*nrec;
	}
	stats.schedule = (stats.schedule ^ (uint64_t)(from * 8 + to)) * 0x100000001b3ull ^ F[from].points;
}

static int ready(int t, int or_stalled) { return F[t].state == T_READY && (or_stalled || F[t].stalled_until <= stats.points); }

/* who goes on when @except can't, or mustn't? NONE if there is nobody */
static int choose(int except)
{
	int cand[THR_MAX], n = 0;
	for (int pass = 0; pass < 2 && !n; pass++)
		for (int t = 0; t < nthr; t++) if (t != except && ready(t, pass)) cand[n++] = t;
	if (!n) return NONE;
	if (cfg.plan) return cand[0];
	if (cfg.mode == SM_PCT) {
		int b = cand[0];
		for (int i = 1; i < n; i++) if (F[cand[i]].prio > F[b].prio) b = cand[i];
		return b;
	}
	return cand[below((uint64_t)n)];
}

/* is a switch planned here? */
static int planned(int t, int forced)
{
	while (plan_pos[t] < cfg.nplan) {
		const struct thr_switch *s = &cfg.plan[plan_pos[t]];
		if (s->thread != t || s->op < F[t].cur_op || (s->op == F[t].cur_op && s->at < F[t].points)) { plan_pos[t]++; continue; }
		if (s->op > F[t].cur_op || s->at > F[t].points || s->forced != forced) return NONE;
		plan_pos[t]++;
		return s->target;
	}
	return NONE;
}

/* the current thread can't go on */
static void forced(void)
{
	int to = NONE;
	if (cfg.plan) {
		to = planned(cur, 1);
		if (to < 0 || to >= nthr || to == cur || !ready(to, 1)) to = NONE;
	}
	if (to == NONE) to = choose(cur);
	if (to == NONE) {
		int all = 1;
		for (int t = 0; t < nthr; t++) all &= F[t].state == T_DONE;
		if (!all) {
			char msg[200];
			int l = snprintf(msg, sizeof(msg), "nobody can go on:");
			for (int t = 0; t < nthr; t++)
				if (F[t].state == T_BLOCKED) l += snprintf(msg + l, sizeof(msg) - (size_t)l, " thread %d waits for a lock in operation %llu;", t, (unsigned long long)F[t].op);
			seam_fatal("deadlock", msg);
		}
		go(MAIN);
		return;
	}
	note(cur, to, 1);
	go(to);
}

/* a point at which another thread may go on instead */
static void point(int lock, int hot)
{
	int to = NONE;
	struct fiber *f = &F[cur];
	f->points++;
	stats.points++;
	if (cfg.plan) {
		to = planned(cur, 0);
		if (to >= 0 && to < nthr && to != cur && ready(to, 1)) { note(cur, to, 0); go(to); }
		return;
	}
	while (nstall_done < nstall && stats.points >= stall_at[nstall_done]) {
		nstall_done++;
		f->stalled_until = stats.points + cfg.stall_len;
		to = choose(cur);
		if (to != NONE) stats.stalls++;
	}
	if (to == NONE) switch (cfg.mode) {
	case SM_RANDOM:
		if (stats.points < next_at) return;
		next_at = stats.points + 1 + below(2 * (uint64_t)cfg.mean);
		to = choose(NONE);
		break;
	case SM_LOCKS:
		if (!lock) return;
		to = choose(NONE);
		break;
	case SM_FOCUS:
		if (lock ? below(2) : hot ? below(cfg.mean / 16 + 1) : below(cfg.mean * 8)) return;
		to = choose(NONE);
		break;
	case SM_PCT:
		while (npct_done < npct && stats.points >= pct_at[npct_done]) {
			npct_done++;
			f->prio = npct - npct_done;	/* below all the others */
		}
		to = choose(NONE);
		break;
	}
	if (to == NONE || to == cur) return;
	note(cur, to, 0);
	go(to);
}

void thr_yield(void) { if (mt) point(1, 0); }

static void entry(void)
{
	body(body_arg, cur);
	F[cur].state = T_DONE;
	for (;;) forced();
}

static int cmp64(const void *a, const void *b)
{
	uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
	return x < y ? -1 : x > y;
}

static void shadow_init(void);

void thr_run(int n, void (*b)(void *, int), void *arg, const struct thr_cfg *c)
{
	if (n < 1 || n > THR_MAX) seam_fatal("harness", "number of threads");
	cfg = *c;
	rnd_s = cfg.seed;
	body = b;
	body_arg = arg;
	nthr = n;
	dl_iterate_phdr(find_tls, NULL);
	for (int t = 0; t <= THR_MAX; t++) {
		if (t >= n && t != MAIN) continue;
		F[t].tls = __real_calloc(1, tls_size + 1);
		if (t == MAIN) continue;
		if (tls_size) memcpy(F[t].tls, tls_image, tls_filesz);
		F[t].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (F[t].stack == MAP_FAILED) seam_fatal("harness", "no stack");
		mprotect(F[t].stack, 4096, PROT_NONE);
		uintptr_t top = ((uintptr_t)F[t].stack + STACK) & ~(uintptr_t)63;
		void **sp = (void**)top;
		*--sp = NULL;			/* the return address entry() never uses; keeps the stack aligned */
		*--sp = (void*)entry;
		for (int i = 0; i < 6; i++) *--sp = NULL;
		F[t].sp = sp;
		F[t].state = T_READY;
		for (int u = 0; u <= THR_MAX; u++) F[t].vc[u] = 0;
		F[t].vc[t] = 1;
		F[t].prio = 1000 + below(1000000);
	}
	npct = cfg.changes < 64 ? cfg.changes : 64;
	for (uint32_t i = 0; i < npct; i++) pct_at[i] = 1 + below(cfg.horizon);
	qsort(pct_at, npct, sizeof(pct_at[0]), cmp64);
	nstall = cfg.stalls < 16 ? cfg.stalls : 16;
	for (uint32_t i = 0; i < nstall; i++) stall_at[i] = 1 + below(cfg.horizon);
	qsort(stall_at, nstall, sizeof(stall_at[0]), cmp64);
	next_at = 1 + below(2 * (uint64_t)cfg.mean);
	shadow_init();
	mt = 1;
	cur = MAIN;
	{
		int first = cfg.plan ? planned(MAIN, 1) : NONE;
		if (first < 0 || first >= nthr) first = choose(NONE);
		note(MAIN, first, 1);
		go(first);
	}
	mt = 0;
}

/* ---------------------------------------------------------------- who touched what */
struct cell {			/* what is known of 8 bytes */
	uintptr_t g;
	uint32_t re[THR_MAX], we[THR_MAX];	/* when a thread last read and wrote bytes of it */
	uint8_t rm[THR_MAX], wm[THR_MAX];	/* which bytes */
	uint8_t freed, touched;
};
#define CHUNK 256
struct chunk { struct cell all; struct cell *each; };	/* of the arena: in one piece as long as all of it was used alike */
static struct chunk *chunks;
static struct cell *pool;
static size_t pool_left;
static struct cell *sh;
static size_t sh_cap, sh_used;
static char *arena, *arena_end, *arena_next;
static uint8_t *arena_gone;	/* a bit for 16 bytes: freed */

static void shadow_init(void)
{
	sh_cap = 1u << 15;
	sh = mmap(NULL, sh_cap * sizeof(*sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t sz = (size_t)8 << 30;
	arena = mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (sh == MAP_FAILED || arena == MAP_FAILED) seam_fatal("harness", "no memory for the simulation");
	chunks = mmap(NULL, sz / CHUNK * sizeof(*chunks), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (chunks == MAP_FAILED) seam_fatal("harness", "no memory for the simulation");
	arena_gone = mmap(NULL, sz / 128, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (arena_gone == MAP_FAILED) seam_fatal("harness", "no memory for the simulation");
	arena_next = arena;
	arena_end = arena + sz;
}

static struct cell *slot(struct cell *tab, size_t cap, uintptr_t g)
{
	size_t h = (size_t)((g * 0x9E3779B97F4A7C15ull) >> 20) & (cap - 1);
	while (tab[h].g && tab[h].g != g) h = (h + 1) & (cap - 1);
	return &tab[h];
}

static int in_arena(uintptr_t a) { return (char*)a >= arena && (char*)a < arena_end; }

static struct cell *each_of(struct chunk *k)
{
	if (!k->each) {
		if (pool_left < CHUNK / 8) {
			pool_left = 1u << 14;
			pool = mmap(NULL, pool_left * sizeof(*pool), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (pool == MAP_FAILED) seam_fatal("harness", "no memory for the simulation");
		}
		k->each = pool;
		pool += CHUNK / 8;
		pool_left -= CHUNK / 8;
		for (int i = 0; i < CHUNK / 8; i++) k->each[i] = k->all;
	}
	return k->each;
}

/* what is known of it, without asking for more memory */
static const struct cell *known(uintptr_t a)
{
	if (in_arena(a)) {
		size_t o = (size_t)((char*)a - arena);
		struct chunk *k = &chunks[o / CHUNK];
		return k->each ? &k->each[o % CHUNK / 8] : &k->all;
	}
	return slot(sh, sh_cap, a >> 3);
}

static struct cell *cell_of(uintptr_t g)
{
	struct cell *c = slot(sh, sh_cap, g);
	if (c->g) return c;
	if (sh_used > sh_cap / 2) {
		size_t ncap = sh_cap * 2;
		struct cell *n = mmap(NULL, ncap * sizeof(*n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (n == MAP_FAILED) seam_fatal("harness", "no memory for the simulation");
		for (size_t i = 0; i < sh_cap; i++) if (sh[i].g) *slot(n, ncap, sh[i].g) = sh[i];
		munmap(sh, sh_cap * sizeof(*sh));
		sh = n;
		sh_cap = ncap;
		c = slot(sh, sh_cap, g);
	}
	sh_used++;
	c->g = g;
	return c;
}

static void describe(uintptr_t a, char *out, size_t n);

static void conflict(int other, int owrote, uintptr_t a, int write, const void *pc)
{
	char msg[400], what[160];
	describe(a, what, sizeof(what));
	snprintf(msg, sizeof(msg), "thread %d %s %s in operation %llu, while nothing keeps it apart from thread %d, which %s it (code at +0x%lx)", cur, write ? "writes" : "reads",
		what, (unsigned long long)F[cur].op, other, owrote ? "wrote" : "read", (unsigned long)((const char*)pc - &__executable_start));
	seam_fatal("data-race", msg);
}

static int was_freed(uintptr_t a, const struct cell *c)
{
	if (in_arena(a)) {
		size_t i = (size_t)((char*)a - arena) >> 4;
		return arena_gone[i >> 3] >> (i & 7) & 1;
	}
	return c->freed;
}

/* returns whether somebody else has touched it; @ends: it is about to be freed */
static int touch(uintptr_t a, size_t n, int write, const void *pc, int ends)
{
	struct fiber *f = &F[cur];
	int hot = 0;
	while (n) {
		unsigned off = (unsigned)(a & 7), k = 8 - off < n ? 8 - off : (unsigned)n;
		uint8_t m = (uint8_t)(((1u << k) - 1) << off);
		struct cell *c;
		if (in_arena(a)) {
			size_t o = (size_t)((char*)a - arena);
			struct chunk *q = &chunks[o / CHUNK];
			if (!q->each && o % CHUNK == 0 && n >= CHUNK) { c = &q->all; k = CHUNK; }
			else if (!q->each && ends) c = &q->all;
			else c = &each_of(q)[o % CHUNK / 8];
		} else {
			c = ends ? slot(sh, sh_cap, a >> 3) : cell_of(a >> 3);
		}
		if (was_freed(a, c)) {
			char msg[300], what[160];
			describe(a, what, sizeof(what));
			snprintf(msg, sizeof(msg), "thread %d %s %s in operation %llu, after it was freed", cur, write ? "writes" : "reads", what, (unsigned long long)f->op);
			seam_fatal("memory", msg);
		}
		for (int u = 0; u < nthr; u++) {
			if (u == cur) continue;
			if ((c->wm[u] & m) && c->we[u] > f->vc[u]) conflict(u, 1, a, write, pc);
			if (write && (c->rm[u] & m) && c->re[u] > f->vc[u]) conflict(u, 0, a, write, pc);
		}
		if (ends) { a += k; n -= k; continue; }
		if (c->touched & ~(1u << cur)) hot = 1;
		c->touched |= (uint8_t)(1u << cur);
		if (write) {
			if (c->we[cur] != f->vc[cur]) { c->we[cur] = f->vc[cur]; c->wm[cur] = 0; }
			c->wm[cur] |= m;
		} else {
			if (c->re[cur] != f->vc[cur]) { c->re[cur] = f->vc[cur]; c->rm[cur] = 0; }
			c->rm[cur] |= m;
		}
		a += k;
		n -= k;
	}
	return hot;
}

static inline void acc(const void *p, size_t n, int write, const void *pc)
{
	int hot;
	if (!mt || !F[cur].inside || !n) return;
	if (any_stack(p) || p == (const void*)&errno || ((const char*)p >= tls_base && (const char*)p < tls_base + tls_size)) return;
	stats.accesses++;
	/* the others may go on before the access, as it is about to be made */
	hot = known((uintptr_t)p)->touched & ~(1u << cur);
	point(0, hot != 0);
	touch((uintptr_t)p, n, write, pc, 0);
}

#define PC __builtin_return_address(0)
#define RW(n) \
	void __tsan_read##n(void *p) { acc(p, n, 0, PC); } \
	void __tsan_write##n(void *p) { acc(p, n, 1, PC); } \
	void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, PC); } \
	void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, PC); } \
	void __tsan_read_write##n(void *p) { acc(p, n, 1, PC); } \
	void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1, PC); } \
	void __tsan_volatile_read##n(void *p) { acc(p, n, 0, PC); } \
	void __tsan_volatile_write##n(void *p) { acc(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)v; acc(p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, 0, PC); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_init(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, 0, PC); acc(d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, 1, PC); return memset(d, c, n); }

/* what the C library does with the engine's memory */
size_t __real_strlen(const char *);
int __real_strcmp(const char *, const char *);
int __real_strncmp(const char *, const char *, size_t);
int __real_strcasecmp(const char *, const char *);
int __real_strncasecmp(const char *, const char *, size_t);
int __real_memcmp(const void *, const void *, size_t);
int __real_bcmp(const void *, const void *, size_t);
char *__real_strcpy(char *, const char *);
char *__real_strncpy(char *, const char *, size_t);
char *__real_strcat(char *, const char *);
char *__real_strchr(const char *, int);
char *__real_strrchr(const char *, int);
char *__real_strstr(const char *, const char *);
char *__real_strtok(char *, const char *);
struct tm *__real_gmtime(const time_t *);
struct tm *__real_localtime(const time_t *);

static size_t min(size_t a, size_t b) { return a < b ? a : b; }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); acc(s, n + 1, 0, PC); return n; }
static void two(const char *a, const char *b, size_t max, const void *pc)
{
	size_t n = min(min(strnlen(a, max), strnlen(b, max)) + 1, max);
	acc(a, n, 0, pc);
	acc(b, n, 0, pc);
}
int __wrap_strcmp(const char *a, const char *b) { two(a, b, ~(size_t)0, PC); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { two(a, b, n, PC); return __real_strncmp(a, b, n); }
int __wrap_strcasecmp(const char *a, const char *b) { two(a, b, ~(size_t)0, PC); return __real_strcasecmp(a, b); }
int __wrap_strncasecmp(const char *a, const char *b, size_t n) { two(a, b, n, PC); return __real_strncasecmp(a, b, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { acc(a, n, 0, PC); acc(b, n, 0, PC); return __real_memcmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { acc(a, n, 0, PC); acc(b, n, 0, PC); return __real_bcmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; acc(s, n, 0, PC); acc(d, n, 1, PC); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { acc(s, min(strnlen(s, n) + 1, n), 0, PC); acc(d, n, 1, PC); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { size_t n = __real_strlen(s) + 1; acc(s, n, 0, PC); acc(d + __real_strlen(d), n, 1, PC); return __real_strcat(d, s); }
char *__wrap_strchr(const char *s, int c) { acc(s, __real_strlen(s) + 1, 0, PC); return __real_strchr(s, c); }
char *__wrap_strrchr(const char *s, int c) { acc(s, __real_strlen(s) + 1, 0, PC); return __real_strrchr(s, c); }
char *__wrap_strstr(const char *a, const char *b) { acc(a, __real_strlen(a) + 1, 0, PC); acc(b, __real_strlen(b) + 1, 0, PC); return __real_strstr(a, b); }
/* these keep their result, or their place, in memory that all threads share */
static char tok_place[8] __attribute__((aligned(8)));
char *__wrap_strtok(char *s, const char *d) { acc(tok_place, 8, 1, PC); return __real_strtok(s, d); }
struct tm *__wrap_gmtime(const time_t *t) { struct tm *r; acc(t, 8, 0, PC); r = __real_gmtime(t); if (r) acc(r, sizeof(*r), 1, PC); return __real_gmtime(t); }
struct tm *__wrap_localtime(const time_t *t) { struct tm *r; acc(t, 8, 0, PC); r = __real_localtime(t); if (r) acc(r, sizeof(*r), 1, PC); return __real_localtime(t); }

/* ---------------------------------------------------------------- locks and atomics: what orders the threads */
enum { L_MUTEX, L_RECURSIVE, L_ERRCHECK };
struct lock {
	const void *p;
	int type, depth, owner;		/* owner: NONE, or a fiber */
	int readers;
	uint8_t rd[THR_MAX + 1];
	int destroyed;
	uint32_t vc[THR_MAX + 1];
};
#define NLOCK 16384
static struct lock locks[NLOCK];
static int64_t held;
static uint64_t totals[SF_KINDS];

static struct lock *lock_of(const void *p)
{
	size_t h = (size_t)(((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 24) & (NLOCK - 1);
	for (int i = 0; i < NLOCK; i++, h = (h + 1) & (NLOCK - 1)) {
		if (locks[h].p == p) return &locks[h];
		if (!locks[h].p) { locks[h].p = p; locks[h].owner = NONE; return &locks[h]; }
	}
	seam_fatal("harness", "too many locks");
	return NULL;
}

static void acquire(struct lock *l)
{
	for (int u = 0; u <= THR_MAX; u++) if (l->vc[u] > F[cur].vc[u]) F[cur].vc[u] = l->vc[u];
	stats.lock_order = (stats.lock_order ^ (uint64_t)(cur + 1)) * 0x100000001b3ull;
}

static void release(struct lock *l)
{
	for (int u = 0; u <= THR_MAX; u++) if (F[cur].vc[u] > l->vc[u]) l->vc[u] = F[cur].vc[u];
	F[cur].vc[cur]++;
}

static void wait_for(struct lock *l)
{
	stats.contended++;
	F[cur].state = T_BLOCKED;
	F[cur].wants = l->p;
	forced();
}

static void wake(struct lock *l)
{
	for (int t = 0; t < nthr; t++)
		if (F[t].state == T_BLOCKED && F[t].wants == l->p) { F[t].state = T_READY; F[t].wants = NULL; }
}

static int deliver(int kind)
{
	F[cur].st.fired++;
	totals[kind]++;
	errno = ENOMEM;
	return 1;
}

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	struct fiber *f = &F[cur];
	struct lock *l;
	if (f->inside) {
		f->st.minits++;
		if (f->plan.kind == SF_MINIT && f->st.minits == f->plan.at) { deliver(SF_MINIT); return EAGAIN; }
	}
	__real_pthread_mutex_init(m, a);
	l = lock_of(m);
	if (l->owner != NONE) seam_fatal("lock", "a mutex is initialised while it is held");
	memset(l->vc, 0, sizeof(l->vc));
	l->destroyed = 0;
	l->depth = 0;
	return 0;
}

static int kind_of(pthread_mutex_t *m)
{
	int k = m->__data.__kind & 3;
	return k == PTHREAD_MUTEX_RECURSIVE ? L_RECURSIVE : k == PTHREAD_MUTEX_ERRORCHECK ? L_ERRCHECK : L_MUTEX;
}

static int do_lock(pthread_mutex_t *m, int try)
{
	struct lock *l = lock_of(m);
	l->type = kind_of(m);
	if (mt && F[cur].inside) point(1, 0);
	if (l->destroyed) seam_fatal("lock", "a mutex is locked after it was destroyed");
	while (l->owner != NONE) {
		if (l->owner == cur) {
			if (l->type == L_RECURSIVE) { l->depth++; held++; F[cur].locks++; return 0; }
			if (try) return EBUSY;
			if (l->type == L_ERRCHECK) return EDEADLK;
			seam_fatal("deadlock", "a mutex is locked by the thread that holds it already");
		}
		if (try) return EBUSY;
		if (!mt) seam_fatal("deadlock", "a mutex is locked, and nobody is left to unlock it");
		wait_for(l);
	}
	l->owner = cur;
	l->depth = 1;
	held++;
	F[cur].locks++;
	acquire(l);
	return 0;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	struct fiber *f = &F[cur];
	if (f->inside) {
		f->st.locks++;
		if (f->plan.kind == SF_LOCK && f->st.locks == f->plan.at) { deliver(SF_LOCK); return EAGAIN; }
	}
	return do_lock(m, 0);
}

int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { (void)t; return __wrap_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return do_lock(m, 1); }

int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	struct lock *l = lock_of(m);
	if (l->owner != cur) seam_fatal("unlock", "a mutex is unlocked by a thread that doesn't hold it");
	held--;
	F[cur].locks--;
	if (--l->depth) return 0;
	l->owner = NONE;
	release(l);
	wake(l);
	if (mt && F[cur].inside) point(1, 0);
	return 0;
}

int __wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	struct lock *l = lock_of(m);
	if (l->owner != NONE) return EBUSY;
	l->destroyed = 1;
	return 0;
}

int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *a)
{
	struct lock *l = lock_of(m);
	(void)a;
	memset(m, 0, sizeof(*m));
	memset(l->vc, 0, sizeof(l->vc));
	l->destroyed = 0;
	return 0;
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { struct lock *l = lock_of(m); if (l->owner != NONE || l->readers) return EBUSY; l->destroyed = 1; return 0; }
static int rw(pthread_rwlock_t *m, int write, int try)
{
	struct lock *l = lock_of(m);
	struct fiber *f = &F[cur];
	if (f->inside && !try) {
		f->st.locks++;
		if (f->plan.kind == SF_LOCK && f->st.locks == f->plan.at) { deliver(SF_LOCK); return EAGAIN; }
	}
	if (mt && f->inside) point(1, 0);
	if (l->destroyed) seam_fatal("lock", "a lock is taken after it was destroyed");
	while (l->owner != NONE || (write && l->readers)) {
		if (try) return EBUSY;
		if (l->owner == cur) return EDEADLK;
		if (l->rd[cur] || !mt) seam_fatal("deadlock", "a lock is taken by the thread that holds it already");
		wait_for(l);
	}
	if (write) l->owner = cur;
	else { l->readers++; l->rd[cur]++; }
	held++;
	f->locks++;
	acquire(l);
	return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return rw(m, 0, 0); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return rw(m, 1, 0); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return rw(m, 0, 1); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return rw(m, 1, 1); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
	struct lock *l = lock_of(m);
	if (l->owner == cur) l->owner = NONE;
	else if (l->rd[cur]) { l->rd[cur]--; l->readers--; }
	else seam_fatal("unlock", "a lock is released by a thread that doesn't hold it");
	held--;
	F[cur].locks--;
	release(l);
	wake(l);
	if (mt && F[cur].inside) point(1, 0);
	return 0;
}
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int s) { struct lock *l = lock_of((const void*)m); (void)s; *m = 0; l->destroyed = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *m) { lock_of((const void*)m)->destroyed = 1; return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return rw((pthread_rwlock_t*)m, 1, 0); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *m) { return rw((pthread_rwlock_t*)m, 1, 1); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return __wrap_pthread_rwlock_unlock((pthread_rwlock_t*)m); }
int __wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	struct lock *l = lock_of(o);
	if (mt && F[cur].inside) point(1, 0);
	while (l->owner != NONE) wait_for(l);
	acquire(l);
	if (!l->readers) {
		l->owner = cur;
		fn();
		l->readers = 1;
		l->owner = NONE;
		release(l);
		wake(l);
	}
	return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(uintptr_t)(cur + 1); }
int __wrap_sched_yield(void) { if (mt && F[cur].inside) point(1, 0); return 0; }

/* an atomic access orders its thread after all those before it, and never conflicts with another atomic access */
static void atomic(const volatile void *p)
{
	struct lock *l;
	if (!mt || !F[cur].inside || any_stack((const void*)p)) return;
	point(1, 1);
	l = lock_of((const char*)p);
	acquire(l);
	release(l);
}
#define ATOMICS(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic(p); (void)mo; return *p; } \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic(p); (void)mo; *p = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)(o & v); return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)(o | v); return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)(o ^ v); return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { T o; atomic(p); (void)mo; o = *p; *p = (T)~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) \
	{ atomic(p); (void)mo; (void)fmo; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) \
	{ atomic(p); (void)mo; (void)fmo; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) \
	{ T o; atomic(p); (void)mo; (void)fmo; o = *p; if (o == e) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
static char fence_place;
void __tsan_atomic_thread_fence(int mo) { (void)mo; atomic(&fence_place); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- memory: given out once, never again */
static int fill_byte = 0xa5;
static uint64_t seq, live_cnt, live_bytes, live_regex;
#define CAP (1u << 16)
struct blk { void *p; size_t size; uint64_t seq, op; int owner; int gone; };
static struct blk tab[CAP];
static uint32_t used;

static uint32_t hsh(const void *p) { return (uint32_t)(((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 40) & (CAP - 1); }

static struct blk *find(const void *p)
{
	uint32_t h = hsh(p);
	while (tab[h].p && tab[h].p != p) h = (h + 1) & (CAP - 1);
	return tab[h].p ? &tab[h] : NULL;
}

static void describe(uintptr_t a, char *out, size_t n)
{
	for (uint32_t i = 0; i < CAP; i++) {
		if (tab[i].p && a >= (uintptr_t)tab[i].p && a < (uintptr_t)tab[i].p + tab[i].size) {
			snprintf(out, n, "byte %lu of a block of %lu bytes from operation %llu%s", (unsigned long)(a - (uintptr_t)tab[i].p), (unsigned long)tab[i].size,
				(unsigned long long)tab[i].op, tab[i].gone ? " (freed)" : "");
			return;
		}
	}
	if ((char*)a >= &__executable_start && (char*)a < &end) snprintf(out, n, "a static variable (at +0x%lx)", (unsigned long)((char*)a - &__executable_start));
	else snprintf(out, n, "memory of the caller");
}

static void *fresh(size_t n)
{
	char *p;
	if (!mt) return __real_malloc(n ? n : 1);
	n = (n + 31) & ~(size_t)15;
	if (arena_next + n > arena_end) seam_fatal("harness", "the arena is used up");
	p = arena_next;
	arena_next += n;
	return p;
}

static void track(void *p, size_t size)
{
	uint32_t h = hsh(p);
	while (tab[h].p && tab[h].p != p) h = (h + 1) & (CAP - 1);
	if (!tab[h].p && ++used > CAP / 4 * 3) seam_fatal("harness", "too many blocks");
	tab[h] = (struct blk){p, size, ++seq, F[cur].op, cur, 0};
	live_cnt++;
	live_bytes += size;
}

void seam_fill(int byte) { fill_byte = byte; }
void seam_reuse(int on) { (void)on; }
int seam_inside(void) { return F[cur].inside; }
uint64_t seam_live_blocks(void) { return live_cnt; }
uint64_t seam_live_bytes(void) { return live_bytes; }
uint64_t seam_live_regex(void) { return live_regex; }
int64_t seam_locks_held(void) { return held; }
uint64_t seam_alloc_seq(void) { return seq + 1; }
const uint64_t *seam_fired_totals(void) { return totals; }

int seam_live_since(uint64_t since, size_t *size, uint64_t *op)
{
	uint64_t best = ~0ull;
	for (uint32_t i = 0; i < CAP; i++)
		if (tab[i].p && !tab[i].gone && tab[i].seq >= since && tab[i].seq < best) { best = tab[i].seq; *size = tab[i].size; *op = tab[i].op; }
	return best != ~0ull;
}

void seam_enter(const struct seam_plan *p, uint64_t op)
{
	static const struct seam_plan none;
	struct fiber *f = &F[cur];
	f->plan = p ? *p : none;
	memset(&f->st, 0, sizeof(f->st));
	f->op = op;
	f->inside = 1;
}

void seam_leave(struct seam_stats *out)
{
	F[cur].inside = 0;
	if (out) *out = F[cur].st;
}

static int alloc_fails(void)
{
	struct fiber *f = &F[cur];
	f->st.allocs++;
	if (f->plan.kind == SF_ALLOC && f->st.allocs == f->plan.at) return deliver(SF_ALLOC);
	if (f->plan.kind == SF_ALLOC_OUTAGE && f->st.allocs >= f->plan.at && f->st.allocs - f->plan.at < f->plan.span) return deliver(SF_ALLOC_OUTAGE);
	return 0;
}

void *__wrap_malloc(size_t n)
{
	void *p;
	if (F[cur].inside) {
		if (n > (1u << 28)) seam_fatal("huge-alloc", "request for more than 256MB");
		if (alloc_fails()) return NULL;
	}
	p = fresh(n);
	if (p && F[cur].inside) { memset(p, fill_byte, n); track(p, n); }
	return p;
}

void *__wrap_calloc(size_t a, size_t b)
{
	size_t n;
	void *p;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	p = __wrap_malloc(n);
	if (p) memset(p, 0, n);
	return p;
}

void __wrap_free(void *p)
{
	struct blk *b;
	struct fiber *f = &F[cur];
	if (!p) return;
	if (f->inside) f->st.frees++;
	b = find(p);
	if (b && b->gone) seam_fatal("memory", "memory that was freed already is freed again");
	if (b) {
		live_cnt--;
		live_bytes -= b->size;
	}
	if (mt) {
		if (b) {
			if (f->inside && b->size) {
				point(0, 1);
				if (b->gone) seam_fatal("memory", "memory is freed by two threads");
				touch((uintptr_t)p, b->size, 1, PC, 1);
			}
			b->gone = 1;
			memset(p, 0xdd, b->size);
			if (in_arena((uintptr_t)p))
				for (size_t i = (size_t)((char*)p - arena) >> 4; i < (size_t)((char*)p - arena + b->size + 15) >> 4; i++) arena_gone[i >> 3] |= (uint8_t)(1 << (i & 7));
			else
				for (uintptr_t g = (uintptr_t)p >> 3; g < ((uintptr_t)p + b->size + 7) >> 3; g++) cell_of(g)->freed = 1;
		}
		return;
	}
	/* what the engine has freed is never given to anybody again */
	if (b) { b->gone = 1; memset(p, 0xdd, b->size); return; }
	if (in_arena((uintptr_t)p)) return;
	__real_free(p);
}

void *__wrap_realloc(void *o, size_t n)
{
	struct blk *b;
	void *p;
	if (!o) return __wrap_malloc(n);
	b = find(o);
	if (!F[cur].inside && !b && !mt) return __real_realloc(o, n);
	if (!b || b->gone) seam_fatal("memory", "realloc of memory that isn't allocated");
	if (!n) { __wrap_free(o); return NULL; }
	p = __wrap_malloc(n);
	if (!p) return NULL;
	acc(o, min(n, b->size), 0, PC);
	memcpy(p, o, min(n, b->size));
	__wrap_free(o);
	return p;
}

void *__wrap_reallocarray(void *o, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(o, n);
}

char *__wrap_strdup(const char *s)
{
	size_t n = __real_strlen(s) + 1;
	char *p = __wrap_malloc(n);
	acc(s, n, 0, PC);
	if (p) memcpy(p, s, n);
	return p;
}

char *__wrap_strndup(const char *s, size_t max)
{
	size_t n = strnlen(s, max);
	char *p = __wrap_malloc(n + 1);
	acc(s, min(n + 1, max), 0, PC);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}

int __wrap_regcomp(regex_t *r, const char *re, int flags)
{
	struct fiber *f = &F[cur];
	int rc;
	if (!f->inside) return __real_regcomp(r, re, flags);
	f->st.regcomps++;
	if (f->plan.kind == SF_REGCOMP && f->st.regcomps == f->plan.at) { deliver(SF_REGCOMP); return REG_ESPACE; }
	acc(r, sizeof(*r), 1, PC);
	rc = __real_regcomp(r, re, flags);
	if (!rc) live_regex++;
	return rc;
}

void __wrap_regfree(regex_t *r)
{
	if (F[cur].inside) { live_regex--; acc(r, sizeof(*r), 1, PC); }
	__real_regfree(r);
}

/* ---------------------------------------------------------------- the end of the process */
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int rc)
{
	if (F[cur].inside) seam_fatal("process-death", "exit() called by the engine");
	__real_exit(rc);
}
void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void)
{
	if (F[cur].inside) seam_fatal("process-death", "abort() called by the engine");
	__real_abort();
}
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	char msg[128];
	(void)f; (void)l; (void)fn;
	snprintf(msg, sizeof(msg), "assertion failed in the engine: %.80s", e);
	seam_fatal("process-death", msg);
}
