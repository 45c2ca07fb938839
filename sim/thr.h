/*
 * thr.h - simulated threads: fibers whose every access to shared memory, every mutex and every start and end of a call is a point at which a
 * seeded scheduler may let another one go on
 */
#ifndef THR_H
#define THR_H
#include <stddef.h>
#include <stdint.h>
#include "seam.h"
#ifdef __cplusplus
extern "C" {
#endif

#define THR_MAX 4

enum { SM_RANDOM, SM_PCT, SM_LOCKS, SM_FOCUS, SM_MODES };

/* when @thread has passed @at points of its operation @op, @target goes on; @forced: because @thread can't */
struct thr_switch { uint8_t thread, target, forced; int32_t op; uint64_t at; };

struct thr_cfg {
	uint64_t seed;
	int mode;
	uint32_t mean;		/* SM_RANDOM, SM_FOCUS: points between two switches */
	uint32_t changes;	/* SM_PCT: changes of priority */
	uint64_t horizon;	/* SM_PCT: points among which they are spread */
	uint32_t stalls;	/* how many times a thread stands still ... */
	uint64_t stall_len;	/* ... while the others take so many points */
	const struct thr_switch *plan;	/* not NULL: exactly this schedule */
	size_t nplan;
};

struct thr_stats { uint64_t switches, points, accesses, contended, stalls, lock_order, schedule; };

/* runs @body for each of the @n threads, until all of them are done */
void thr_run(int n, void (*body)(void *arg, int id), void *arg, const struct thr_cfg *cfg);
int thr_self(void);
void thr_yield(void);		/* a point of the harness' own */
uint64_t thr_now(void);		/* order of the events so far */
int thr_holds(void);		/* locks held by the calling thread */
const struct thr_stats *thr_get_stats(void);
void thr_op(int op);		/* the calling thread begins an operation: numbers go up */
/* where the switches are recorded: the first @cap of them; *n counts all of them */
void thr_record(struct thr_switch *out, size_t cap, volatile uint64_t *n);

#ifdef __cplusplus
}
#endif
#endif
