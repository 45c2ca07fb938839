/*
 * seam.h - the seams the simulator owns between the code under test and the outside world.
 *
 * Every call that can fail or whose outcome isn't decided by the inputs (memory allocation, regcomp, mutexes, exit) is
 * diverted here by the linker (-Wl,--wrap=...). The plan of one call into the code under test says which of them fail.
 */
#ifndef SEAM_H
#define SEAM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum seam_fault {
	SF_NONE, SF_ALLOC, SF_ALLOC_OUTAGE, SF_REGCOMP, SF_LOCK, SF_MINIT, SF_KINDS
};

struct seam_plan {
	int kind;	/* enum seam_fault */
	uint64_t at;	/* 1-based: which occurrence fails */
	uint64_t span;	/* SF_ALLOC_OUTAGE: how many occurrences from there on */
};

struct seam_stats {
	uint64_t allocs, frees, regcomps, locks, minits;	/* seen in this call */
	uint64_t fired;						/* faults that were actually delivered in this call */
};

/* anything the seam itself finds to be wrong is reported here: must not return */
extern void seam_fatal(const char *cls, const char *msg);

void seam_fill(int byte);		/* what fresh memory contains */
void seam_reuse(int on);		/* does memory that was freed come back at once? Resets what is kept for that */
void seam_enter(const struct seam_plan *plan, uint64_t op);
void seam_leave(struct seam_stats *out);
int seam_inside(void);

uint64_t seam_live_blocks(void);	/* blocks allocated by the code under test, and not freed yet */
uint64_t seam_live_bytes(void);
uint64_t seam_live_regex(void);
int64_t seam_locks_held(void);
/* description of one live block allocated at or after @since (allocation sequence number); 0 if there is none */
int seam_live_since(uint64_t since, size_t *size, uint64_t *op);
uint64_t seam_alloc_seq(void);
const uint64_t *seam_fired_totals(void);

#ifdef __cplusplus
}
#endif
#endif
