#include "sut.h"
#include <engine/query.h>
#include <engine/database.h>
#include <primitive/row.h>
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/datablock.h>
#include <datastructure/btree.h>
#include <datastructure/hashtable.h>
#include <datastructure/linkedlist.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/vector.h>
#include <lib/bit.h>

static struct seam_plan next_plan;
static uint64_t next_op;
static struct seam_stats last;

void sut_ctx(const struct seam_plan *plan, uint64_t op)
{
	static const struct seam_plan none;
	next_plan = plan ? *plan : none;
	next_op = op;
}

const struct seam_stats *sut_last(void) { return &last; }

#define IN() seam_enter(&next_plan, next_op)
#define OUT() do { seam_leave(&last); memset(&next_plan, 0, sizeof(next_plan)); } while (0)

void *sut_db_open(int *rc)
{
	struct database *db = calloc(1, sizeof(*db));
	IN();
	*rc = database_open(db);
	OUT();
	if (*rc != MIDORIDB_OK) {
		free(db);
		return NULL;
	}
	return db;
}

void sut_db_close(void *db)
{
	IN();
	database_close(db);
	OUT();
	free(db);
}

void sut_exec(void *db, const char *sql, struct sut_out *o)
{
	struct query_output *q;
	char *copy = strdup(sql);

	IN();
	q = query_execute(db, copy);
	OUT();
	free(copy);

	memset(o, 0, sizeof(*o));
	o->h = q;
	if (!q) {
		o->status = SUT_NULL;
		return;
	}
	o->status = q->status == ST_OK_WITH_RESULTS ? SUT_RESULTS : q->status == ST_OK_EXECUTED ? SUT_EXECUTED : SUT_ERROR;
	o->aff = q->n_rows_aff;
	o->msg_unterminated = memchr(q->error.message, 0, sizeof(q->error.message)) == NULL;
	if (!o->msg_unterminated)
		strcpy(o->msg, q->error.message);
}

void sut_free(struct sut_out *o)
{
	if (!o->h) return;
	IN();
	query_free(o->h);
	OUT();
	o->h = NULL;
}

int sut_step(void *h)
{
	int rc;
	IN();
	rc = query_cur_step(&((struct query_output*)h)->results);
	OUT();
	return rc == MIDORIDB_ROW ? 1 : rc == MIDORIDB_OK ? 0 : -1;
}

int64_t sut_col_int64(void *h, int idx)
{
	int64_t r;
	IN();
	r = query_column_int64(&((struct query_output*)h)->results, idx);
	OUT();
	return r;
}

static void col_of(struct column *s, struct sut_col *c)
{
	c->name = s->name;
	c->type = (int)s->type;
	c->prec = s->precision;
	c->nullable = s->nullable;
	c->unique = s->unique;
	c->auto_inc = s->auto_inc;
	c->pk = s->primary_key;
	c->indexed = s->indexed;
}

static int rdtype(enum COLUMN_TYPE t)
{
	switch (t) {
	case CT_VARCHAR: return SUT_VARCHAR;
	case CT_INTEGER: return SUT_INTEGER;
	case CT_TINYINT: return SUT_TINYINT;
	case CT_DOUBLE: return SUT_DOUBLE;
	case CT_DATE: return SUT_DATE;
	default: return SUT_DATETIME;
	}
}

int sut_res_cols(void *h) { return ((struct query_output*)h)->results.table->column_count; }
void sut_res_col(void *h, int i, struct sut_col *c)
{
	struct column *s = &((struct query_output*)h)->results.table->columns[i];
	col_of(s, c);
	c->type = rdtype(s->type);
}

static void decode(struct table *t, struct row *row, struct sut_val *v)
{
	size_t off = 0;
	for (int i = 0; i < t->column_count; i++) {
		struct column *c = &t->columns[i];
		memset(&v[i], 0, sizeof(v[i]));
		v[i].type = rdtype(c->type);
		v[i].prec = c->precision;
		v[i].null = (row->null_bitmap[i / 8] >> (i % 8)) & 1;
		if (!v[i].null) {
			if (c->type == CT_VARCHAR) {
				memcpy(&v[i].s, row->data + off, sizeof(char*));
				if (!v[i].s) v[i].s = "<NULL pointer>";
				else if (!memchr(v[i].s, 0, c->precision)) v[i].unterminated = 1;
			} else if (c->type == CT_DOUBLE) {
				memcpy(&v[i].d, row->data + off, sizeof(double));
			} else if (c->type == CT_TINYINT) {
				v[i].i = *(unsigned char*)(row->data + off);
			} else {
				memcpy(&v[i].i, row->data + off, sizeof(int64_t));
			}
		}
		off += c->type == CT_VARCHAR ? sizeof(uintptr_t) : (size_t)c->precision;
	}
}

void sut_res_row(void *h, struct sut_val *v)
{
	struct result_set *r = &((struct query_output*)h)->results;
	decode(r->table, (struct row*)&r->cursor_blk->data[r->cursor_offset], v);
}

static int walk(struct table *t, sut_row_cb cb, void *arg)
{
	struct list_head *pos;
	struct sut_val v[TABLE_MAX_COLUMNS];
	size_t rs = sut_row_size(t);
	int blk = 0;

	list_for_each(pos, t->datablock_head)
	{
		struct datablock *b = container_of(pos, struct datablock, head);
		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / rs; i++) {
			struct row *row = (struct row*)&b->data[i * rs];
			/* the last slot of a block may be one that never gets used */
			if (row->flags.empty || (i + 1) * rs > DATABLOCK_PAGE_SIZE) {
				if (cb) cb(arg, blk, (int)i, 0, 1, NULL, 0);
				continue;
			}
			if (!row->flags.deleted) decode(t, row, v);
			if (cb) cb(arg, blk, (int)i, row->flags.deleted, 0, v, t->column_count);
		}
		blk++;
	}
	return blk;
}

uint64_t sut_res_walk(void *h, sut_row_cb cb, void *arg)
{
	return (uint64_t)walk(((struct query_output*)h)->results.table, cb, arg);
}

size_t sut_row_size(void *p)
{
	struct table *t = p;
	size_t s = 0;
	for (int i = 0; i < t->column_count; i++)
		s += t->columns[i].type == CT_VARCHAR ? sizeof(uintptr_t) : (size_t)t->columns[i].precision;
	return offsetof(struct row, data) + s;
}

size_t sut_page_size(void) { return DATABLOCK_PAGE_SIZE; }

void *sut_table(void *db, const char *name)
{
	void *t;
	IN();
	t = database_table_get(db, (char*)name);
	OUT();
	return t;
}

int sut_ncols(void *t) { return ((struct table*)t)->column_count; }
const char *sut_tname(void *t) { return ((struct table*)t)->name; }
void sut_col(void *t, int i, struct sut_col *c)
{
	col_of(&((struct table*)t)->columns[i], c);
	c->type = rdtype(((struct table*)t)->columns[i].type);
}
int sut_walk(void *t, sut_row_cb cb, void *arg) { return walk(t, cb, arg); }

int sut_vacuum(void *t)
{
	int r;
	IN();
	r = table_vacuum(t);
	OUT();
	return r;
}

static enum COLUMN_TYPE wrtype(int t)
{
	static const enum COLUMN_TYPE m[] = {CT_VARCHAR, CT_INTEGER, CT_TINYINT, CT_DOUBLE, CT_DATE, CT_DATETIME};
	return m[t];
}

int sut_add_col(void *t, const char *name, int type, int prec, int nullable)
{
	struct column c = {0};
	int r;
	strncpy(c.name, name, sizeof(c.name) - 1);
	c.type = wrtype(type);
	c.nullable = nullable;
	c.precision = prec;
	IN();
	r = table_add_column(t, &c);
	OUT();
	return r;
}

int sut_rem_col(void *t, const char *name, int own)
{
	struct column c = {0};
	int r;
	struct column *p = &c;
	strncpy(c.name, name, sizeof(c.name) - 1);
	/* the engine itself hands over the column of the table */
	for (int i = 0; own && i < ((struct table*)t)->column_count; i++)
		if (!strcmp(((struct table*)t)->columns[i].name, name)) p = &((struct table*)t)->columns[i];
	IN();
	r = table_rem_column(t, p);
	OUT();
	return r;
}

int sut_lock(void *t) { int r; IN(); r = table_lock(t); OUT(); return r; }
int sut_unlock(void *t) { int r; IN(); r = table_unlock(t); OUT(); return r; }
int sut_db_lock(void *d) { int r; IN(); r = database_lock(d); OUT(); return r; }
int sut_db_unlock(void *d) { int r; IN(); r = database_unlock(d); OUT(); return r; }
size_t sut_catalogue(void *d) { return ((struct database*)d)->tables->count; }

void *sut_tinit(const char *name)
{
	void *t;
	IN();
	t = table_init((char*)name);
	OUT();
	return t;
}

int sut_tdestroy(void *t)
{
	struct table *tt = t;
	int r;
	IN();
	r = table_destroy(&tt);
	OUT();
	return r && !tt;
}

int sut_table_add(void *db, void *t)
{
	int r;
	IN();
	r = database_table_add(db, t);
	OUT();
	return r;
}

static struct row *encode(struct table *t, const struct sut_val *v, int n, char **keep)
{
	size_t off = 0;
	struct row *row = calloc(1, sut_row_size(t) + 8);
	for (int i = 0; i < n && i < t->column_count; i++) {
		struct column *c = &t->columns[i];
		keep[i] = NULL;
		if (v[i].null) row->null_bitmap[i / 8] |= (char)(1 << (i % 8));
		if (c->type == CT_VARCHAR) {
			keep[i] = calloc(1, c->precision);
			if (!v[i].null) strncpy(keep[i], v[i].s, c->precision - 1);
			char *at = keep[i];
			/* what is NULL needn't be anywhere */
			if (v[i].null && (i + n) % 3) at = (i + n) % 3 == 1 ? NULL : (char*)16;
			memcpy(row->data + off, &at, sizeof(char*));
			off += sizeof(char*);
			continue;
		}
		if (c->type == CT_DOUBLE) memcpy(row->data + off, &v[i].d, sizeof(double));
		else if (c->type == CT_TINYINT) *(bool*)(row->data + off) = v[i].i != 0;
		else memcpy(row->data + off, &v[i].i, sizeof(int64_t));
		off += c->precision;
	}
	return row;
}

int sut_insert(void *p, const struct sut_val *v, int n)
{
	struct table *t = p;
	char *keep[TABLE_MAX_COLUMNS] = {0};
	struct row *row = encode(t, v, n, keep);
	int r;
	IN();
	r = table_insert_row(t, row, table_calc_row_size(t));
	OUT();
	for (int i = 0; i < t->column_count; i++) free(keep[i]);
	free(row);
	return r;
}

static struct datablock *nth(struct table *t, int blk)
{
	struct list_head *pos;
	int i = 0;
	list_for_each(pos, t->datablock_head)
	{
		if (i++ == blk) return container_of(pos, struct datablock, head);
	}
	return NULL;
}

int sut_delete(void *t, int blk, int slot)
{
	struct datablock *b = nth(t, blk);
	size_t rs = sut_row_size(t);
	int r;
	IN();
	r = table_delete_row(t, b, slot * rs);
	OUT();
	return r;
}

int sut_update(void *p, int blk, int slot, const struct sut_val *v, int n)
{
	struct table *t = p;
	struct datablock *b = nth(t, blk);
	char *keep[TABLE_MAX_COLUMNS] = {0};
	struct row *row = encode(t, v, n, keep);
	int r;
	IN();
	r = table_update_row(t, b, slot * sut_row_size(t), row, table_calc_row_size(t));
	OUT();
	for (int i = 0; i < t->column_count; i++) free(keep[i]);
	free(row);
	return r;
}

/* ---- btree ---- */
void *sut_bt_init(int degree, int str)
{
	void *b;
	IN();
	b = btree_init(degree, str ? &btree_cmp_str : &btree_cmp_ul);
	OUT();
	return b;
}
void sut_bt_free(void *b) { struct btree_head *h = b; IN(); btree_destroy(&h); OUT(); }
int sut_bt_insert(void *b, void *k, void *v) { int r; IN(); r = btree_insert(b, k, v); OUT(); return r; }
int sut_bt_remove(void *b, void *k) { int r; IN(); r = btree_remove(b, k); OUT(); return r; }
int sut_bt_update(void *b, void *k, void *v) { int r; IN(); r = btree_update(b, k, v); OUT(); return r; }
void *sut_bt_lookup(void *b, void *k) { void *r; IN(); r = btree_lookup(b, k); OUT(); return r; }

static const char *bt_node(struct btree_head *h, struct btree_node *n, int degree, int root, int depth, int *leaf,
		void (*cb)(void*, void*, void*), void *arg)
{
	const char *e;
	if (n->key_count > 2 * degree - 1) return "a node holds more keys than its maximum";
	if (!root && n->key_count < degree - 1) return "a node holds less keys than its minimum";
	if (n->is_leaf) {
		if (*leaf < 0) *leaf = depth;
		if (*leaf != depth) return "leaves are at different depths";
	}
	for (int i = 0; i < n->key_count; i++) {
		if (!n->is_leaf && (e = bt_node(h, &n->children[i], degree, 0, depth + 1, leaf, cb, arg))) return e;
		cb(arg, n->keys[i].key, n->keys[i].value);
	}
	if (!n->is_leaf) return bt_node(h, &n->children[n->key_count], degree, 0, depth + 1, leaf, cb, arg);
	return NULL;
}

const char *sut_bt_check(void *b, int degree, void (*cb)(void*, void*, void*), void *arg)
{
	struct btree_head *h = b;
	int leaf = -1;
	if (!h->root) return NULL;
	return bt_node(h, h->root, degree, 1, 0, &leaf, cb, arg);
}

/* ---- hashtable ---- */
static size_t bad_hash(const void *k, size_t l) { return l ? ((const unsigned char*)k)[0] & 1 : 0; }

void *sut_ht_init(int *ok, int collide)
{
	struct hashtable *h = calloc(1, sizeof(*h));
	IN();
	*ok = hashtable_init(h, &hashtable_str_compare, collide ? &bad_hash : &hashtable_str_hash);
	OUT();
	if (!*ok) { free(h); return NULL; }
	return h;
}
void sut_ht_free(void *h) { IN(); hashtable_free(h); OUT(); free(h); }
int sut_ht_put(void *h, const void *k, size_t kl, const void *v, size_t vl)
{ int r; IN(); r = hashtable_put(h, k, kl, v, vl); OUT(); return r; }
const void *sut_ht_get(void *h, const void *k, size_t kl, size_t *vl)
{
	struct hashtable_value *v;
	IN();
	v = hashtable_get(h, k, kl);
	OUT();
	if (!v) return NULL;
	*vl = v->len;
	return v->content;
}
int sut_ht_remove(void *h, const void *k, size_t kl, size_t *vl, unsigned char *val, size_t cap)
{
	struct hashtable_entry *e;
	IN();
	e = hashtable_remove(h, k, kl);
	OUT();
	if (!e) return 0;
	*vl = e->value.len;
	memcpy(val, e->value.content, *vl < cap ? *vl : cap);
	IN();
	hashtable_free_entry(e);
	OUT();
	return 1;
}
size_t sut_ht_count(void *h) { return ((struct hashtable*)h)->count; }
struct each { void (*cb)(void*, const void*, size_t, const void*, size_t); void *arg; size_t n; };
static void each_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	struct each *e = arg;
	UNUSED(h);
	e->n++;
	if (e->cb) e->cb(e->arg, k, kl, v, vl);
}
size_t sut_ht_each(void *h, void (*cb)(void*, const void*, size_t, const void*, size_t), void *arg)
{
	struct each e = {cb, arg, 0};
	hashtable_foreach(h, &each_cb, &e);
	return e.n;
}
static void drain_cb(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{
	struct hashtable_entry *e;
	UNUSED(v); UNUSED(vl);
	e = hashtable_remove(h, k, kl);
	if (e) { (*(size_t*)arg)++; hashtable_free_entry(e); }
}
size_t sut_ht_drain(void *h)
{
	size_t n = 0;
	IN();
	hashtable_foreach(h, &drain_cb, &n);
	OUT();
	return n;
}

/* ---- vector, queue, stack ---- */
void *sut_vec_init(int *ok)
{
	struct vector *v = calloc(1, sizeof(*v));
	IN();
	*ok = vector_init(v);
	OUT();
	if (!*ok) { free(v); return NULL; }
	return v;
}
int sut_vec_push(void *v, const void *d, size_t n) { int r; IN(); r = vector_push(v, (void*)d, n); OUT(); return r; }
void sut_vec_clear(void *v) { IN(); vector_clear(v); OUT(); }
const char *sut_vec_data(void *v, size_t *len) { *len = ((struct vector*)v)->len; return ((struct vector*)v)->data; }
void sut_vec_free(void *v) { IN(); vector_free(v); OUT(); free(v); }

void *sut_q_init(int *ok)
{
	struct queue *q = calloc(1, sizeof(*q));
	IN();
	*ok = queue_init(q);
	OUT();
	if (!*ok) { free(q); return NULL; }
	return q;
}
int sut_q_offer(void *q, const void *d, size_t n) { int r; IN(); r = queue_offer(q, (void*)d, n); OUT(); return r; }
void *sut_q_poll(void *q) { void *r; IN(); r = queue_poll(q); OUT(); return r; }
void *sut_q_peek(void *q) { void *r; IN(); r = queue_peek(q); OUT(); return r; }
void *sut_q_peek_pos(void *q, size_t p) { void *r; IN(); r = queue_peek_pos(q, p); OUT(); return r; }
size_t sut_q_len(void *q) { size_t r; IN(); r = queue_length(q); OUT(); return r; }
int sut_q_empty(void *q) { int r; IN(); r = queue_empty(q); OUT(); return r; }
void sut_q_free(void *q) { IN(); queue_free(q); OUT(); free(q); }

void *sut_st_init(int *ok)
{
	struct stack *s = calloc(1, sizeof(*s));
	IN();
	*ok = stack_init(s);
	OUT();
	if (!*ok) { free(s); return NULL; }
	return s;
}
int sut_st_push(void *s, const void *d, size_t n) { int r; IN(); r = stack_push(s, (void*)d, n); OUT(); return r; }
void *sut_st_pop(void *s) { void *r; IN(); r = stack_pop(s); OUT(); return r; }
void *sut_st_peek(void *s) { void *r; IN(); r = stack_peek(s); OUT(); return r; }
void *sut_st_peek_pos(void *s, int p) { void *r; IN(); r = stack_peek_pos(s, p); OUT(); return r; }
int sut_st_empty(void *s) { int r; IN(); r = stack_empty(s); OUT(); return r; }
void sut_st_free(void *s) { IN(); stack_free(s); OUT(); free(s); }
void sut_mem_free(void *p) { IN(); free(p); OUT(); }
void *sut_mem_alloc(size_t n) { void *r; IN(); r = malloc(n); OUT(); return r; }
int sut_st_unsafe_push(void *s, void *p) { int r; IN(); r = stack_unsafe_push(s, p); OUT(); return r; }

/* ---- linked list ---- */
struct lnode { uint64_t before; struct list_head head; uint64_t after; };
#define LNODE(p) ((p) ? &((struct lnode*)(p))->head : NULL)
void *sut_ll_newnode(void)
{
	struct lnode *n = calloc(1, sizeof(*n));
	list_head_init(&n->head);
	return n;
}
void *sut_ll_new(void) { return sut_ll_newnode(); }
void sut_ll_free(void *l) { free(l); }
void sut_ll_delnode(void *n) { free(n); }
void sut_ll_add(void *n, void *after) { IN(); list_add(LNODE(n), LNODE(after)); OUT(); }
void sut_ll_del(void *n) { IN(); list_del(LNODE(n)); OUT(); }
size_t sut_ll_len(void *l) { size_t r; IN(); r = list_length(LNODE(l)); OUT(); return r; }
int sut_ll_empty(void *l) { return list_is_empty(LNODE(l)); }
size_t sut_ll_walk(void *l, int backwards, void **out, size_t max)
{
	struct list_head *pos;
	size_t n = 0;
	if (!backwards) {
		list_for_each(pos, LNODE(l))
		{
			if (n >= max || !pos) return n;
			out[n++] = list_entry(pos, struct lnode, head);
		}
		return n;
	}
	for (pos = LNODE(l)->prev; pos != LNODE(l); pos = pos->prev) {
		if (n >= max || !pos) return n;
		out[n++] = list_entry(pos, struct lnode, head);
	}
	return n;
}
size_t sut_ll_sift(void *l, int phase, void **gone)
{
	struct list_head *pos, *tmp;
	size_t n = 0, i = 0;
	IN();
	list_for_each_safe(pos, tmp, LNODE(l))
	{
		if (i++ % 3 == (size_t)phase) {
			gone[n++] = list_entry(pos, struct lnode, head);
			list_del(pos);
		}
	}
	OUT();
	return n;
}
