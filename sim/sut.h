/* sut.h - plain C view of the engine's public headers: the only way the simulator talks to it */
#ifndef SUT_H
#define SUT_H
#include <stddef.h>
#include <stdint.h>
#include "seam.h"
#ifdef __cplusplus
extern "C" {
#endif

enum { SUT_VARCHAR, SUT_INTEGER, SUT_TINYINT, SUT_DOUBLE, SUT_DATE, SUT_DATETIME };
enum { SUT_RESULTS, SUT_EXECUTED, SUT_ERROR, SUT_NULL /* no output at all */ };

struct sut_val { int null, type, prec; int64_t i; double d; const char *s; int unterminated; };
struct sut_col { const char *name; int type, prec, nullable, unique, auto_inc, pk, indexed; };
struct sut_out { int status; char msg[1025]; int msg_unterminated; uint64_t aff; void *h; };

typedef void (*sut_row_cb)(void *arg, int blk, int slot, int deleted, int empty, const struct sut_val *v, int n);

/* every function below that calls into the engine takes the plan of what fails during the call */
void sut_ctx(const struct seam_plan *plan, uint64_t op);	/* for the next call */
const struct seam_stats *sut_last(void);

void *sut_db_open(int *rc);
void sut_db_close(void *db);
void sut_exec(void *db, const char *sql, struct sut_out *o);
void sut_free(struct sut_out *o);
int sut_step(void *h);			/* 1 row, 0 end, <0 other */
int64_t sut_col_int64(void *h, int idx);
int sut_res_cols(void *h);
void sut_res_col(void *h, int i, struct sut_col *c);
void sut_res_row(void *h, struct sut_val *v);	/* row under the cursor */
uint64_t sut_res_walk(void *h, sut_row_cb cb, void *arg);

void *sut_table(void *db, const char *name);
int sut_ncols(void *t);
const char *sut_tname(void *t);
void sut_col(void *t, int i, struct sut_col *c);
int sut_walk(void *t, sut_row_cb cb, void *arg);	/* number of datablocks */
size_t sut_row_size(void *t);
size_t sut_page_size(void);
int sut_vacuum(void *t);
int sut_add_col(void *t, const char *name, int type, int prec, int nullable);
int sut_rem_col(void *t, const char *name, int own);
int sut_lock(void *t);
int sut_unlock(void *t);
int sut_db_lock(void *db);
int sut_db_unlock(void *db);
size_t sut_catalogue(void *db);

/* row-level API */
void *sut_tinit(const char *name);
int sut_tdestroy(void *t);
int sut_insert(void *t, const struct sut_val *v, int n);
int sut_delete(void *t, int blk, int slot);
int sut_update(void *t, int blk, int slot, const struct sut_val *v, int n);
int sut_table_add(void *db, void *t);

/* containers */
void *sut_bt_init(int degree, int str);
void sut_bt_free(void *b);
int sut_bt_insert(void *b, void *k, void *v);
int sut_bt_remove(void *b, void *k);
int sut_bt_update(void *b, void *k, void *v);
void *sut_bt_lookup(void *b, void *k);
/* structural walk: calls cb with every key in order, returns NULL or what is wrong with the structure */
const char *sut_bt_check(void *b, int degree, void (*cb)(void *arg, void *k, void *v), void *arg);

void *sut_ht_init(int *ok, int collide);
void sut_ht_free(void *h);
int sut_ht_put(void *h, const void *k, size_t kl, const void *v, size_t vl);
const void *sut_ht_get(void *h, const void *k, size_t kl, size_t *vl);
int sut_ht_remove(void *h, const void *k, size_t kl, size_t *vl, unsigned char *val, size_t cap);
size_t sut_ht_count(void *h);
size_t sut_ht_each(void *h, void (*cb)(void *arg, const void *k, size_t kl, const void *v, size_t vl), void *arg);
/* remove every entry from within the iteration, like the engine's own clean ups do */
size_t sut_ht_drain(void *h);

void *sut_vec_init(int *ok);
int sut_vec_push(void *v, const void *d, size_t n);
void sut_vec_clear(void *v);
const char *sut_vec_data(void *v, size_t *len);
void sut_vec_free(void *v);

void *sut_q_init(int *ok);
int sut_q_offer(void *q, const void *d, size_t n);
void *sut_q_poll(void *q);	/* caller frees with sut_mem_free */
void *sut_q_peek(void *q);
void *sut_q_peek_pos(void *q, size_t pos);
size_t sut_q_len(void *q);
int sut_q_empty(void *q);
void sut_q_free(void *q);

void *sut_st_init(int *ok);
int sut_st_push(void *s, const void *d, size_t n);
void *sut_st_pop(void *s);
void *sut_st_peek(void *s);
void *sut_st_peek_pos(void *s, int pos);
int sut_st_empty(void *s);
void sut_st_free(void *s);
int sut_st_unsafe_push(void *s, void *p);
void sut_mem_free(void *p);
void *sut_mem_alloc(size_t n);

/* linked lists: nodes are the caller's */
void *sut_ll_new(void);
void sut_ll_free(void *l);
void *sut_ll_newnode(void);
void sut_ll_delnode(void *n);
void sut_ll_add(void *n, void *after);
void sut_ll_del(void *n);
size_t sut_ll_len(void *l);
int sut_ll_empty(void *l);
size_t sut_ll_walk(void *l, int backwards, void **out, size_t max);
size_t sut_ll_sift(void *l, int phase, void **gone);	/* removes one of three elements while walking */

#ifdef __cplusplus
}
#endif
#endif
