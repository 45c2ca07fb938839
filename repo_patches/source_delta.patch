From c4f7c1f5b0b0f0e2f74ded46ddbf8083dbc87aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:41 +0000
Subject: [PATCH 01/67] fix: vacuum of a table without datablocks dereferences
 NULL

---
 src/primitive/vacuum.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primitive/vacuum.c b/src/primitive/vacuum.c
index b634752..f995a21 100644
--- a/src/primitive/vacuum.c
+++ b/src/primitive/vacuum.c
@@ -23,6 +23,10 @@ bool table_vacuum(struct table *table)
 	if (!table)
 		return false;
 
+	/* nothing was ever inserted (or left) so there is nothing to be compacted */
+	if (list_is_empty(table->datablock_head))
+		return true;
+
 	dst_blk_idx = 0;
 	src_blk_idx = 0;
 	dst_blk_offset = 0;
-- 
2.43.0


From 0554437f702a1e4ed78a8d392b9fec60e4b351b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:41 +0000
Subject: [PATCH 02/67] fix: result set cursor loses rows of results that span
 several datablocks

---
 src/engine/query.c | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 23fc1eb..351caa0 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -115,34 +115,34 @@ int query_cur_step(struct result_set *res)
 
 	row_size = table_calc_row_size(res->table);
 
-	/* is this the first time ? */
 	if (!res->cursor_blk) {
-
+		/* this is the first time */
 		res->cursor_blk = container_of(res->table->datablock_head->next, typeof(struct datablock), head);
 		res->cursor_offset = 0;
 	} else {
-		if (res->cursor_offset + row_size > DATABLOCK_PAGE_SIZE) {
-			res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
-			res->cursor_offset = 0;
-
-			if (&res->cursor_blk->head == res->table->datablock_head) {
-				/* end of the line */
-				return MIDORIDB_OK;
-			}
-		} else {
-			res->cursor_offset += row_size;
-		}
+		res->cursor_offset += row_size;
 	}
 
-	/* at this point we shouldn't have any of this, so clearly something went really wrong here */
-	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
-	BUG_ON(row->flags.deleted);
+	while (&res->cursor_blk->head != res->table->datablock_head) {
+
+		/* can there be another row in this datablock? */
+		if (res->cursor_offset + row_size <= DATABLOCK_PAGE_SIZE) {
+			row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
+
+			/* at this point we shouldn't have any of this, so clearly something went really wrong here */
+			BUG_ON(row->flags.deleted);
 
-	if (row->flags.empty)
-		/* end of the line */
-		return MIDORIDB_OK;
+			if (!row->flags.empty)
+				return MIDORIDB_ROW;
+		}
+
+		/* nothing else to see in this datablock, move on to the next one */
+		res->cursor_blk = container_of(res->cursor_blk->head.next, typeof(struct datablock), head);
+		res->cursor_offset = 0;
+	}
 
-	return MIDORIDB_ROW;
+	/* end of the line */
+	return MIDORIDB_OK;
 }
 
 int64_t query_column_int64(struct result_set *res, int col_idx)
@@ -153,6 +153,7 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 
 	/* sanity checks */
 	BUG_ON(!res || !res->table || !res->cursor_blk || col_idx > res->table->column_count - 1);
+	BUG_ON_CUSTOM_MSG(&res->cursor_blk->head == res->table->datablock_head, "cursor is past the last row\n");
 
 	row = (typeof(row))&res->cursor_blk->data[res->cursor_offset];
 
-- 
2.43.0


From 2960bd92a0d97230b5d2d554d816e99435a4e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:41 +0000
Subject: [PATCH 03/67] fix: query_column_int64 reads past columns narrower
 than 8 bytes

---
 src/engine/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/query.c b/src/engine/query.c
index 351caa0..75590e8 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -163,7 +163,8 @@ int64_t query_column_int64(struct result_set *res, int col_idx)
 	for (int i = 0; i < col_idx; i++)
 		offset += table_calc_column_space(&res->table->columns[i]);
 
-	ret = *(int64_t*)(row->data + offset);
+	/* never read more than what the column occupies within the row */
+	memcpy(&ret, row->data + offset, MIN(sizeof(ret), table_calc_column_space(&res->table->columns[col_idx])));
 	return ret;
 }
 
-- 
2.43.0


From 8f645be0b11a02b2b79cb1679d5f1e092ef2d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 04/67] fix: removing a column leaves the NULL bits of the
 remaining columns in the wrong position

---
 src/primitive/column.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index b405e3b..e762888 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -192,6 +192,15 @@ static void datablock_rem_column(struct table *table, size_t col_idx)
 				&row->data[data_offset + col_prec],
 				row_data_size - (data_offset + col_prec));
 
+			/* columns to the right take over the position of the column on their left, so does their NULL bit */
+			for (int j = col_idx; j < table->column_count; j++) {
+				if (j + 1 < table->column_count
+						&& bit_test(row->null_bitmap, j + 1, sizeof(row->null_bitmap)))
+					bit_set(row->null_bitmap, j, sizeof(row->null_bitmap));
+				else
+					bit_clear(row->null_bitmap, j, sizeof(row->null_bitmap));
+			}
+
 			/* make rows sit right next to each other now that row has a smaller size */
 			memmove(&entry->data[blk_offset], row, row_new_size);
 			blk_offset += row_new_size;
-- 
2.43.0


From d9ae03a2c00cc4ea992cfb7d8416db075eb94a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:18 +0000
Subject: [PATCH 05/67] fix: table keeps a column that it failed to add to its
 existing rows

---
 src/primitive/column.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index e762888..a5a4b9b 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -136,8 +136,11 @@ bool table_add_column(struct table *table, struct column *column)
 
 	/* if table isn't empty than we can to rearrange rows in datablocks */
 	if (!list_is_empty(table->datablock_head)) {
-		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table)))
+		if (!datablock_add_column(table, row_cur_size, table_calc_row_size(table))) {
+			/* rows still have the previous layout */
+			table->column_count--;
 			return false;
+		}
 	}
 
 	return true;
-- 
2.43.0


From 6abf95f86fe13371fdb79a31c7d4167b72966778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:35 +0000
Subject: [PATCH 06/67] fix: VARCHAR column added to a table with rows has no
 storage in those rows

---
 src/primitive/column.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/primitive/column.c b/src/primitive/column.c
index a5a4b9b..74fd486 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -37,12 +37,15 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 	struct list_head *old_head, *new_head;
 	struct list_head *old_pos, *new_pos, *tmp_pos;
 	struct datablock *old_entry, *new_entry;
+	struct column *column;
 	size_t blk_offset;
 
 	/* sanity checks */
 	if (!table || row_cur_size == row_nxt_size)
 		goto err;
 
+	column = &table->columns[table->column_count - 1];
+
 	old_head = table->datablock_head;
 	blk_offset = 0;
 	old_entry = NULL;
@@ -78,6 +81,20 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 
 			/* copy row into new datablock */
 			memcpy(&new_entry->data[blk_offset], row, row_cur_size);
+
+			/* just like any other row, var precision columns always have something alloc'ed */
+			if (table_check_var_column(column)) {
+				void *ptr = zalloc(column->precision);
+
+				if (!ptr) {
+					/* don't mistake it for a finished row */
+					table_datablock_init(new_entry, blk_offset, row_nxt_size);
+					goto err_free;
+				}
+
+				memcpy(&new_entry->data[blk_offset + row_cur_size], &ptr, sizeof(ptr));
+			}
+
 			blk_offset += row_nxt_size;
 		}
 	}
@@ -98,7 +115,17 @@ static bool datablock_add_column(struct table *table, size_t row_cur_size, size_
 err_free:
 	list_for_each_safe(new_pos, tmp_pos, new_head)
 	{
-		datablock_free(list_entry(new_pos, typeof(*new_entry), head));
+		new_entry = list_entry(new_pos, typeof(*new_entry), head);
+
+		/* the content of all other columns still belongs to the old datablocks */
+		for (size_t i = 0; table_check_var_column(column) && i < (DATABLOCK_PAGE_SIZE / row_nxt_size); i++) {
+			struct row *row = (struct row*)&new_entry->data[i * row_nxt_size];
+
+			if (!row->flags.empty)
+				free(*(void**)((char*)row + row_cur_size));
+		}
+
+		datablock_free(new_entry);
 	}
 	free(new_head);
 
-- 
2.43.0


From 0cb18c5335304d45d9c57c7b82b8b49ead16a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 07/67] fix: failed row insertion frees the wrong pointers and
 wipes the next row

---
 src/primitive/row.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index 03f8674..b163f28 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -108,7 +108,7 @@ err:
 	 */
 	pos = 0;
 	for (int i = 0; i < column_idx; i++) {
-		struct column *column = &table->columns[column_idx];
+		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **col_idx_ptr = (void**)&new_row->data[pos];
 			free(*col_idx_ptr);
@@ -116,7 +116,8 @@ err:
 		pos += table_calc_column_space(column);
 	}
 
-	memzero(new_row->data, table_calc_row_size(table));
+	memzero(new_row->null_bitmap, sizeof(new_row->null_bitmap));
+	memzero(new_row->data, table_calc_row_data_size(table));
 	new_row->flags.empty = true;
 	new_row->flags.deleted = false;
 
-- 
2.43.0


From faa608ea01bafce7e9e617405def5853ae9a55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 08/67] fix: failed INSERT of several rows leaves some of them
 behind

---
 src/engine/executor_insert.c | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 938cd85..c1fbb1b 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -191,6 +191,34 @@ static void build_column_order(struct table *table, struct ast_ins_insvals_node
 	}
 }
 
+/* remove every row that was inserted after the table's last datablock was @last_blk and its offset @last_offset */
+static void undo_inserted_rows(struct table *table, struct list_head *last_blk, size_t last_offset)
+{
+	size_t row_size = table_calc_row_size(table);
+	struct datablock *block;
+
+	while (table->datablock_head->prev != last_blk) {
+		block = list_entry(table->datablock_head->prev, typeof(*block), head);
+
+		for (size_t i = 0; i < DATABLOCK_PAGE_SIZE / row_size; i++)
+			table_free_row_content(table, (struct row*)&block->data[i * row_size]);
+
+		datablock_free(block);
+	}
+
+	table->free_dtbkl_offset = last_offset;
+
+	if (last_blk == table->datablock_head)
+		return;
+
+	block = list_entry(last_blk, typeof(*block), head);
+
+	for (size_t i = last_offset / row_size; i < DATABLOCK_PAGE_SIZE / row_size; i++)
+		table_free_row_content(table, (struct row*)&block->data[i * row_size]);
+
+	table_datablock_init(block, last_offset, row_size);
+}
+
 int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_node *ins_node,
 		struct query_output *output)
 {
@@ -198,6 +226,8 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	struct ast_node *entry;
 	struct table *table;
 	struct row *row;
+	struct list_head *last_blk;
+	size_t last_offset;
 	int column_order[TABLE_MAX_COLUMNS];
 	int rc = MIDORIDB_OK;
 
@@ -213,6 +243,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 	/* columns can be specified in an order that's different from the order defined in the CREATE stmt */
 	build_column_order(table, ins_node, column_order, ARR_SIZE(column_order));
 
+	/* either all rows are inserted or none is, so remember where they start */
+	last_blk = table->datablock_head->prev;
+	last_offset = table->free_dtbkl_offset;
+
 	list_for_each(pos, ins_node->node_children_head)
 	{
 		entry = list_entry(pos, typeof(*entry), head);
@@ -221,8 +255,10 @@ int executor_run_insertvals_stmt(struct database *db, struct ast_ins_insvals_nod
 
 			row = zalloc(table_calc_row_size(table));
 
-			if (!row)
+			if (!row) {
+				rc = -MIDORIDB_NOMEM;
 				goto err_row_alloc;
+			}
 
 			if ((rc = build_row(table, (struct ast_ins_values_node*)entry, column_order, row, output)))
 				goto err_build_row;
@@ -244,6 +280,10 @@ err_ins_row:
 err_build_row:
 	free(row);
 err_row_alloc:
+	undo_inserted_rows(table, last_blk, last_offset);
 err:
+	if (output->error.message[0] == '\0')
+		snprintf(output->error.message, sizeof(output->error.message) - 1,
+				"execution phase: internal error\n");
 	return rc;
 }
-- 
2.43.0


From b746e6eaf9878f6e3b61366cfe0be07a18bcbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:44 +0000
Subject: [PATCH 09/67] fix: expression that evaluates to NULL is accepted by
 NOT NULL column

---
 src/engine/executor_insert.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index c1fbb1b..665bc9d 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -130,6 +130,14 @@ static int build_row(struct table *table,
 			BUG_GENERIC();
 		}
 
+		/* semantic phase can't tell that, for instance, 1 / 0 turns into NULL */
+		if (exprval_entry->value_type.is_null && !column->nullable) {
+			snprintf(output->error.message, sizeof(output->error.message) - 1,
+					"NOT NULL constraint failed: %s.%s\n", table->name, column->name);
+			rc = -MIDORIDB_ERROR;
+			goto err;
+		}
+
 		if (!exprval_entry->value_type.is_null)
 			bit_clear(row_out->null_bitmap, column_order[val_pos], sizeof(row_out->null_bitmap));
 
-- 
2.43.0


From 9e9e9888e22fe1873f2bb0da7fc2e47f8236958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:03 +0000
Subject: [PATCH 10/67] fix: INSERT expressions die on modulo by zero and on
 terms that became NULL

---
 src/engine/optimiser_insert.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index 3148d1d..b54c08f 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -13,6 +13,8 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 		out->int_val = in->int_val * -1;
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
+	} else if (in->value_type.is_null) {
+		out->int_val = 0;
 	} else {
 		BUG_GENERIC();
 	}
@@ -49,7 +51,17 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
 		/* C doesn't support modulo operation on double data type. Replicating SQLite behaviour */
-		result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		if ((int)val_1->double_val == 0) {
+			/* same as the division by 0 */
+			out->value_type.is_approxnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else if ((int)val_1->double_val == -1) {
+			/* INT_MIN % -1 traps on x86-64 */
+			result = 0;
+		} else {
+			result = (double)(((int)val_2->double_val) % ((int)val_1->double_val));
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -60,7 +72,7 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
-	int result = 0;
+	int64_t result = 0;
 
 	if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
@@ -86,7 +98,17 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			result = val_2->int_val / val_1->int_val;
 		}
 	} else if (op->op_type == AST_INS_EXPR_OP_MOD) {
-		result = val_2->int_val % val_1->int_val;
+		if (val_1->int_val == 0) {
+			/* same as the division by 0 */
+			out->value_type.is_intnum = false;
+			out->value_type.is_null = true;
+			result = 0;
+		} else if (val_1->int_val == -1) {
+			/* INT64_MIN % -1 traps on x86-64 */
+			result = 0;
+		} else {
+			result = val_2->int_val % val_1->int_val;
+		}
 	} else {
 		BUG_GENERIC();
 	}
@@ -140,6 +162,10 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
 		negate(val_2, val_1);
+	} else if (val_1->value_type.is_null || val_2->value_type.is_null) {
+		/* if any term _became_ NULL, then we bubble that up */
+		memzero(&val_1->value_type, sizeof(val_1->value_type));
+		val_1->value_type.is_null = true;
 	} else if (val_1->value_type.is_intnum) {
 		calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
-- 
2.43.0


From a0d73ad712acd7bc967b93af05bd07ea13eca2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:19 +0000
Subject: [PATCH 11/67] fix: INSERT expressions die on modulo by zero and on
 terms that became NULL

---
 src/engine/optimiser_insert.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index b54c08f..fa0dfe4 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -166,6 +166,7 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 		/* if any term _became_ NULL, then we bubble that up */
 		memzero(&val_1->value_type, sizeof(val_1->value_type));
 		val_1->value_type.is_null = true;
+		val_1->int_val = 0;
 	} else if (val_1->value_type.is_intnum) {
 		calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
-- 
2.43.0


From a83851e548f69643412a64abddc4436af4f40f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 12/67] fix: DELETE and UPDATE compare only the lower 32 bits
 of INTEGER values

---
 src/engine/executor_delete.c | 2 +-
 src/engine/executor_update.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 505e79b..bb631e8 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index 1844ec6..e0ed596 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -54,7 +54,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From 5c860e80465075135416dcb89ffbe2ee18cf6b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/67] fix: DELETE and UPDATE die when comparing a column to
 itself

---
 src/engine/executor_delete.c | 5 ++++-
 src/engine/executor_update.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index bb631e8..9e26cc0 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both operands can be the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index e0ed596..d0acb65 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -137,7 +137,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both operands can be the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
-- 
2.43.0


From fd4e8082b9e4f7e0de33e67c8c10700e58adca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:51 +0000
Subject: [PATCH 14/67] fix: DELETE and UPDATE evaluate 'value < column' as
 'column < value'

---
 src/engine/executor_delete.c | 22 ++++++++++++++++++++--
 src/engine/executor_update.c | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 9e26cc0..235af3e 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -267,11 +267,28 @@ static bool cmp_value_to_value(struct ast_del_cmp_node *node, struct ast_del_exp
 
 }
 
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_del_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_del_cmp_node cmp_node = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -290,8 +307,9 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_del_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison - operands get swapped so the operator has to be mirrored */
+		cmp_node.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &cmp_node, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index d0acb65..fcf0b5e 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -246,11 +246,28 @@ static bool cmp_value_to_value(struct ast_upd_cmp_node *node, struct ast_upd_exp
 
 }
 
+static enum ast_comparison_type mirror_cmp_type(enum ast_comparison_type cmp_type)
+{
+	switch (cmp_type) {
+	case AST_CMP_GTE_OP:
+		return AST_CMP_LTE_OP;
+	case AST_CMP_GT_OP:
+		return AST_CMP_LT_OP;
+	case AST_CMP_LTE_OP:
+		return AST_CMP_GTE_OP;
+	case AST_CMP_LT_OP:
+		return AST_CMP_GT_OP;
+	default:
+		return cmp_type;
+	}
+}
+
 static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_node *node)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_node;
 	struct ast_upd_exprval_node *val_1 = NULL, *val_2 = NULL;
+	struct ast_upd_cmp_node cmp_node = {0};
 
 	list_for_each(pos, node->node_children_head)
 	{
@@ -269,8 +286,9 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_upd_cmp_no
 		/* field-to-value or value-to-field comparison */
 		return cmp_field_to_value(table, row, node, val_1, val_2);
 	} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-		/* value-to-field or value-to-field comparison */
-		return cmp_field_to_value(table, row, node, val_2, val_1);
+		/* value-to-field comparison - operands get swapped so the operator has to be mirrored */
+		cmp_node.cmp_type = mirror_cmp_type(node->cmp_type);
+		return cmp_field_to_value(table, row, &cmp_node, val_2, val_1);
 	} else {
 		/* value-to-value comparison */
 		return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From d67820f816e4e47ea9b2f0efd7aeb7ad55d7838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 15/67] fix: DELETE and UPDATE treat NOT IN as true when any of
 the values differs

---
 src/engine/executor_delete.c | 9 ++++++---
 src/engine/executor_update.c | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_delete.c b/src/engine/executor_delete.c
index 235af3e..9360670 100644
--- a/src/engine/executor_delete.c
+++ b/src/engine/executor_delete.c
@@ -372,11 +372,14 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_del_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			bool eval = cmp_field_to_value(table, row, &cmp_node, field, tmp_entry);
+
+			/* IN: at least one value matches the field. NOT IN: every single one is different from it */
+			if (eval != node->is_negation)
+				return eval;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool eval_delete_row(struct table *table, struct row *row, struct ast_node *node)
diff --git a/src/engine/executor_update.c b/src/engine/executor_update.c
index fcf0b5e..e5a4eef 100644
--- a/src/engine/executor_update.c
+++ b/src/engine/executor_update.c
@@ -351,11 +351,14 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_upd_isxi
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (!tmp_entry->value_type.is_name) {
-			if (cmp_field_to_value(table, row, &cmp_node, field, tmp_entry))
-				return true;
+			bool eval = cmp_field_to_value(table, row, &cmp_node, field, tmp_entry);
+
+			/* IN: at least one value matches the field. NOT IN: every single one is different from it */
+			if (eval != node->is_negation)
+				return eval;
 		}
 	}
-	return false;
+	return node->is_negation;
 }
 
 static bool should_update_row(struct table *table, struct row *row, struct ast_node *node)
-- 
2.43.0


From 74fadc67d28a8036f56b665d1ac391490531f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 16/67] fix: UPDATE sets NOT NULL columns to NULL

---
 src/parser/semantic_update.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 8b8534f..619c240 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -422,13 +422,22 @@ static bool check_values_for_isxin(struct ast_upd_isxin_node *isxin_node, struct
 	return true;
 }
 
-static bool check_values_for_assign(struct ast_upd_assign_node *assign_node, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool check_values_for_assign(struct table *table, struct ast_upd_assign_node *assign_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
 	struct ast_upd_cmp_node cmp_node = {0};
 	struct ast_upd_exprval_node field_node = {0};
 	struct ast_upd_exprval_node *tmpval_node = NULL;
+	struct column *column = NULL;
+
+	for (int i = 0; i < table->column_count; i++) {
+		if (strcmp(table->columns[i].name, assign_node->field_name) == 0)
+			column = &table->columns[i];
+	}
+
+	/* sanity check */
+	BUG_ON(!column);
 
 	/* synthesise field */
 	size_t name_len = MIN(sizeof(field_node.name_val), sizeof(assign_node->field_name));
@@ -448,12 +457,18 @@ static bool check_values_for_assign(struct ast_upd_assign_node *assign_node, str
 
 			if (!check_values_field_to_value(&cmp_node, &field_node, tmpval_node, ht, out_err, out_err_len))
 				return false; /* fail fast */
+
+			if (tmpval_node->value_type.is_null && !column->nullable) {
+				snprintf(out_err, out_err_len, "NOT NULL constraint failed: %s.%s\n", table->name,
+						column->name);
+				return false;
+			}
 		}
 	}
 	return true;
 }
 
-static bool __check_value_types(struct ast_node *root, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool __check_value_types(struct table *table, struct ast_node *root, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 
 	struct ast_node *tmp_entry;
@@ -464,13 +479,13 @@ static bool __check_value_types(struct ast_node *root, struct hashtable *ht, cha
 	} else if (root->node_type == AST_TYPE_UPD_EXPRISXIN) {
 		return check_values_for_isxin((struct ast_upd_isxin_node*)root, ht, out_err, out_err_len);
 	} else if (root->node_type == AST_TYPE_UPD_ASSIGN) {
-		return check_values_for_assign((struct ast_upd_assign_node*)root, ht, out_err, out_err_len);
+		return check_values_for_assign(table, (struct ast_upd_assign_node*)root, ht, out_err, out_err_len);
 	} else {
 		// traverse the tree
 		list_for_each(pos, root->node_children_head)
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
-			if (!__check_value_types(tmp_entry, ht, out_err, out_err_len))
+			if (!__check_value_types(table, tmp_entry, ht, out_err, out_err_len))
 				return false;
 		}
 	}
@@ -502,7 +517,7 @@ static bool check_value_types(struct database *db, struct ast_upd_update_node *r
 		}
 	}
 
-	valid = __check_value_types((struct ast_node*)root, &ht, out_err, out_err_len);
+	valid = __check_value_types(table, (struct ast_node*)root, &ht, out_err, out_err_len);
 
 err_ht_put_col:
 	/* clean up */
-- 
2.43.0


From 61f69c7afd5720fb3ab5c4c4414a27dcb920e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 17/67] fix: UPDATE silently truncates strings that don't fit
 in the column

---
 src/parser/semantic_update.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 619c240..ffd40e2 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -463,6 +463,14 @@ static bool check_values_for_assign(struct table *table, struct ast_upd_assign_n
 						column->name);
 				return false;
 			}
+
+			if (tmpval_node->value_type.is_str && column->type == CT_VARCHAR
+					&& strlen(tmpval_node->str_val) + 1 > (size_t)column->precision) {
+				snprintf(out_err, out_err_len,
+						"column: '%s' supports up to %d ASCII chars, value contains %lu\n",
+						column->name, column->precision, strlen(tmpval_node->str_val) + 1);
+				return false;
+			}
 		}
 	}
 	return true;
-- 
2.43.0


From d70af80baa5ac948fbe35349f9bb5790d0429c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 18/67] fix: UPDATE stores garbage when the assigned value
 isn't a literal

---
 src/parser/semantic_update.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index ffd40e2..44a88ef 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -452,7 +452,12 @@ static bool check_values_for_assign(struct table *table, struct ast_upd_assign_n
 	{
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-		if (tmp_entry->node_type == AST_TYPE_UPD_EXPRVAL) {
+		if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL
+				|| ((struct ast_upd_exprval_node*)tmp_entry)->value_type.is_name) {
+			snprintf(out_err, out_err_len, "column: '%s' can only be set to a raw value\n",
+					assign_node->field_name);
+			return false;
+		} else {
 			tmpval_node = (typeof(tmpval_node))tmp_entry;
 
 			if (!check_values_field_to_value(&cmp_node, &field_node, tmpval_node, ht, out_err, out_err_len))
-- 
2.43.0


From 248f4abb111ee7a65b495f8dab2b1af7a1037bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:15 +0000
Subject: [PATCH 19/67] fix: DELETE and UPDATE die on WHERE-clauses that can't
 be evaluated

---
 src/parser/semantic_delete.c | 47 ++++++++++++++++++++++++++++++++++++
 src/parser/semantic_update.c | 47 ++++++++++++++++++++++++++++++++++++
 2 files changed, 94 insertions(+)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 2af106c..73b5d39 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -84,6 +84,49 @@ static bool check_column_exists(struct database *db, struct ast_del_deleteone_no
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+static bool is_condition(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_DEL_CMP || node->node_type == AST_TYPE_DEL_LOGOP
+			|| node->node_type == AST_TYPE_DEL_EXPRISXIN || node->node_type == AST_TYPE_DEL_EXPRISXNULL;
+}
+
+/* syntax-wise, any expression can be an operand of any other. Ex.: "f1 = (f2 = 3)", "f1 AND 2", "1 IN (1, 2)" */
+static bool check_condition_operands(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool has_field = false;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (root->node_type == AST_TYPE_DEL_DELETEONE || root->node_type == AST_TYPE_DEL_LOGOP) {
+			if (!is_condition(tmp_entry)) {
+				snprintf(out_err, out_err_len, "WHERE-clause can only contain conditions\n");
+				return false;
+			}
+		} else if (is_condition(root)) {
+			if (tmp_entry->node_type != AST_TYPE_DEL_EXPRVAL) {
+				snprintf(out_err, out_err_len, "conditions can only compare fields and raw values\n");
+				return false;
+			}
+
+			has_field = has_field || ((struct ast_del_exprval_node*)tmp_entry)->value_type.is_name;
+		}
+
+		if (!check_condition_operands(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	if (root->node_type == AST_TYPE_DEL_EXPRISXIN && !has_field) {
+		snprintf(out_err, out_err_len, "IN-clause requires a field\n");
+		return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -490,6 +533,10 @@ bool semantic_analyse_delete_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, deleteone_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause (if any) be evaluated at all? */
+	if (!check_condition_operands((struct ast_node*)deleteone_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)deleteone_node, out_err, out_err_len))
 		return false;
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 44a88ef..1f67b54 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -88,6 +88,49 @@ static bool check_column_exists(struct database *db, struct ast_upd_update_node
 	return __check_column_exists(db, root, (struct ast_node*)root, out_err, out_err_len);
 }
 
+static bool is_condition(struct ast_node *node)
+{
+	return node->node_type == AST_TYPE_UPD_CMP || node->node_type == AST_TYPE_UPD_LOGOP
+			|| node->node_type == AST_TYPE_UPD_EXPRISXIN || node->node_type == AST_TYPE_UPD_EXPRISXNULL;
+}
+
+/* syntax-wise, any expression can be an operand of any other. Ex.: "f1 = (f2 = 3)", "f1 AND 2", "1 IN (1, 2)" */
+static bool check_condition_operands(struct ast_node *root, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool has_field = false;
+
+	list_for_each(pos, root->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (root->node_type == AST_TYPE_UPD_UPDATE || root->node_type == AST_TYPE_UPD_LOGOP) {
+			if (!is_condition(tmp_entry) && tmp_entry->node_type != AST_TYPE_UPD_ASSIGN) {
+				snprintf(out_err, out_err_len, "WHERE-clause can only contain conditions\n");
+				return false;
+			}
+		} else if (is_condition(root)) {
+			if (tmp_entry->node_type != AST_TYPE_UPD_EXPRVAL) {
+				snprintf(out_err, out_err_len, "conditions can only compare fields and raw values\n");
+				return false;
+			}
+
+			has_field = has_field || ((struct ast_upd_exprval_node*)tmp_entry)->value_type.is_name;
+		}
+
+		if (!check_condition_operands(tmp_entry, out_err, out_err_len))
+			return false;
+	}
+
+	if (root->node_type == AST_TYPE_UPD_EXPRISXIN && !has_field) {
+		snprintf(out_err, out_err_len, "IN-clause requires a field\n");
+		return false;
+	}
+
+	return true;
+}
+
 static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -554,6 +597,10 @@ bool semantic_analyse_update_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_column_exists(db, update_node, out_err, out_err_len))
 		return false;
 
+	/* can the WHERE-clause (if any) be evaluated at all? */
+	if (!check_condition_operands((struct ast_node*)update_node, out_err, out_err_len))
+		return false;
+
 	/* are all values in the "field IN (xxxxx)" raw values? We can't have fields in there */
 	if (!check_isxin_entries((struct ast_node*)update_node, out_err, out_err_len))
 		return false;
-- 
2.43.0


From 3e4b53db486393f771c42aa6fca00b8e4b923035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:17 +0000
Subject: [PATCH 20/67] fix: DELETE and UPDATE reject unknown columns without
 saying why

---
 src/parser/semantic_delete.c |  5 ++++-
 src/parser/semantic_update.c | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index 73b5d39..b189330 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -65,7 +65,10 @@ static bool __check_column_exists(struct database *db, struct ast_del_deleteone_
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node);
+			if (!column_exists(db, root, val_node)) {
+				snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else {
 		list_for_each(pos, node->node_children_head)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 1f67b54..9451c4e 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -65,12 +65,18 @@ static bool __check_column_exists(struct database *db, struct ast_upd_update_nod
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_name) {
-			return column_exists(db, root, val_node->name_val, sizeof(val_node->name_val));
+			if (!column_exists(db, root, val_node->name_val, sizeof(val_node->name_val))) {
+				snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", val_node->name_val);
+				return false;
+			}
 		}
 	} else if (node->node_type == AST_TYPE_UPD_ASSIGN) {
 		assign_node = (typeof(assign_node))node;
 
-		return column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name));
+		if (!column_exists(db, root, assign_node->field_name, sizeof(assign_node->field_name))) {
+			snprintf(out_err, out_err_len, "column '%s' doesn't exist\n", assign_node->field_name);
+			return false;
+		}
 	} else {
 		list_for_each(pos, node->node_children_head)
 		{
-- 
2.43.0


From d917f16d1706103bac049aea583da1230231430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 21/67] fix: vector_push writes to NULL and loses its content
 when it can't grow

---
 src/datastructure/vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/datastructure/vector.c b/src/datastructure/vector.c
index d8ae49e..35d811f 100644
--- a/src/datastructure/vector.c
+++ b/src/datastructure/vector.c
@@ -26,6 +26,7 @@ bool vector_init(struct vector *vec)
 bool vector_push(struct vector *vec, void *data, size_t len)
 {
 	size_t new_cap;
+	void *new_data;
 
 	/* sanity checks */
 	if (!vec || !data || len == 0)
@@ -34,12 +35,14 @@ bool vector_push(struct vector *vec, void *data, size_t len)
 	/* does the vector need to grow? */
 	if (vec->len + len > vec->capacity / 2) {
 		new_cap = (vec->len + len) * 3;
-		vec->data = realloc(vec->data, new_cap);
-		memzero(vec->data + vec->len, new_cap - vec->len);
+		new_data = realloc(vec->data, new_cap);
 
-		if (!vec->data)
+		/* the former content is still valid when realloc fails */
+		if (!new_data)
 			return false;
 
+		vec->data = new_data;
+		memzero(vec->data + vec->len, new_cap - vec->len);
 		vec->capacity = new_cap;
 	}
 
-- 
2.43.0


From dd2109b863e7e7c5cbd85aaf4ff9a1c0d02967ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 22/67] fix: failed regex matching frees the caller's stack and
 dies when out of memory

---
 src/lib/regex.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/regex.c b/src/lib/regex.c
index 9228981..028d7f3 100644
--- a/src/lib/regex.c
+++ b/src/lib/regex.c
@@ -15,12 +15,15 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 	char *match;
 	int num_matches;
 
-	BUG_ON(regcomp(&regex, exp, REG_EXTENDED));
+	/* expressions are hardcoded so this can only fail if we run out of memory */
+	if (regcomp(&regex, exp, REG_EXTENDED))
+		goto err;
+
 	num_matches = regex.re_nsub + 1;
 
 	matches = calloc(num_matches, sizeof(*matches));
 	if (!matches)
-		goto err;
+		goto err_matches;
 
 	if (regexec(&regex, text, num_matches, matches, 0))
 		goto err_regex;
@@ -54,10 +57,11 @@ bool regex_ext_match_grp(const char *text, const char *exp, struct stack *out)
 err_stack:
 	free(match);
 err_regex:
-	stack_free(out);
-	regfree(&regex);
 	free(matches);
+err_matches:
+	regfree(&regex);
 err:
+	/* it's the caller's responsibility to free whatever was pushed so far */
 	return false;
 
 }
-- 
2.43.0


From 1a87bd91d31c28c5b5706456eac5fef0f31033d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 23/67] fix: syntax errors overflow their buffer, get lost and
 share state across threads

---
 include/parser/syntax.h | 11 +++++++++++
 src/parser/midorisql.l  | 20 +++++++++-----------
 src/parser/midorisql.y  | 28 +++++++---------------------
 src/parser/syntax.c     | 30 ++++++++++++++++++++++++++++--
 4 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/include/parser/syntax.h b/include/parser/syntax.h
index 9c3ed0d..90f7827 100644
--- a/include/parser/syntax.h
+++ b/include/parser/syntax.h
@@ -11,6 +11,17 @@
 #include <compiler/common.h>
 #include <datastructure/queue.h>
 
+/* state which is specific to the statement being parsed - it's what scanner's yyextra points to */
+struct syntax_ctx {
+	/* first error found - empty if there isn't any */
+	char error[1024];
+	/* lexer state to go back to once a comment is over */
+	int comment_prev_state;
+};
+
 int syntax_parse(char *in, struct queue *out);
 
+/* take note of an error, only the first one of each statement is kept */
+void __attribute__((format(printf, 2, 3))) syntax_error(struct syntax_ctx *ctx, const char *fmt, ...);
+
 #endif /* INCLUDE_PARSER_SYNTAX_H_ */
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index dbb8e1d..6e842c0 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,11 +1,9 @@
 %option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
+%option extra-type="struct syntax_ctx *"
 
 %{
 #include "midorisql.tab.h"
-void yyerror(void*, void*, char *s, ...);
-int oldstate;
-
-#define YY_FATAL_ERROR(msg) yyerror(NULL, yyscanner, msg)
+#include <parser/syntax.h>
 %}
 
 %x COMMENT
@@ -100,8 +98,8 @@ FALSE	{ yylval->intval = 0; return BOOL; }
 '(\\.|''|[^'\n])*'	|
 \"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
 
-'(\\.|[^'\n])*$	        { yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
-\"(\\.|[^"\n])*$	{ yyerror(NULL, yyscanner, "Unterminated string %s", yytext); }
+'(\\.|[^'\n])*$	        { syntax_error(yyextra, "Unterminated string %s", yytext); }
+\"(\\.|[^"\n])*$	{ syntax_error(yyextra, "Unterminated string %s", yytext); }
 
    /* hex strings */
 X'[0-9A-F]+' |  
@@ -147,20 +145,20 @@ COUNT    { int c = input(yyscanner); unput(c);
                           yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
-`[^`\n]*$               { yyerror(NULL, yyscanner, "unterminated quoted name %s", yytext); }
+`[^`\n]*$               { syntax_error(yyextra, "unterminated quoted name %s", yytext); }
 
 
 	/* comments */   
 #.*		;
 "--"[ \t].*	;
 
-"/*"            { oldstate = YY_START; BEGIN COMMENT; }
-<COMMENT>"*/"   { BEGIN oldstate; }
+"/*"            { yyextra->comment_prev_state = YY_START; BEGIN COMMENT; }
+<COMMENT>"*/"   { BEGIN yyextra->comment_prev_state; }
 <COMMENT>.|\n   ;
-<COMMENT><<EOF>> { yyerror(NULL, yyscanner, "unclosed comment"); }
+<COMMENT><<EOF>> { syntax_error(yyextra, "unclosed comment"); yyterminate(); }
 
 	/* everything else */
 [ \t\n]         /* white space */
-.               { yyerror(NULL, yyscanner, "mystery character '%c'", *yytext); }
+.               { syntax_error(yyextra, "mystery character '%c'", *yytext); }
 
 %%
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 2b2dbd8..1b17f96 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -6,7 +6,9 @@
 
 %{
 #include <datastructure/queue.h>
+#include <parser/syntax.h>
 
+struct syntax_ctx* yyget_extra(void*);
 void yyerror(struct queue*, void*, const char *, ...);
 bool emit(struct queue *q, char *s, ...);
 int yylex(void*, void*);
@@ -487,31 +489,15 @@ data_type:
 
 void yyerror(struct queue *q, void* scanner, const char *s, ...)
 {
-	(void)scanner;
+	(void)q;
 	char buf[256];
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+
 	va_start(ap, s);
-	
-	/* if the error happened at the lexical phase then 
-	we print it to stderr as there is no queue ref yet */
-	if(!q){
-		vfprintf(stderr, s, ap);  
-		fprintf(stderr, "\n");
-	}else {
-		sprintf(buf, s, ap);
-	
-		/* although unlikely, if we fail to push content to the queue
-		   so other program can read the error message, then we fail 
-		   over to the stderr */
-		if(!queue_offer(q, buf, strlen(buf) + 1)){
-			vfprintf(stderr, s, ap);  
-			fprintf(stderr, "\n");
-		}
-	}
-	
+	vsnprintf(buf, sizeof(buf), s, ap);
 	va_end(ap);
+
+	syntax_error(yyget_extra(scanner), "%s", buf);
 }
 
 bool emit(struct queue *q, char *s, ...)
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index 0674de5..ba354bb 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -10,18 +10,31 @@
 #include <midorisql.yy.h>
 #include <errno.h>
 
+void syntax_error(struct syntax_ctx *ctx, const char *fmt, ...)
+{
+	va_list ap;
+
+	if (ctx->error[0] != '\0')
+		return;
+
+	va_start(ap, fmt);
+	vsnprintf(ctx->error, sizeof(ctx->error), fmt, ap);
+	va_end(ap);
+}
+
 int syntax_parse(char *in, struct queue *out)
 {
 	yyscan_t sc;
 	YY_BUFFER_STATE bs;
+	struct syntax_ctx ctx = {0};
 	int res;
 
 	/* sanity check */
 	BUG_ON(!in || !out);
 
-	if (yylex_init(&sc)) {
+	if (yylex_init_extra(&ctx, &sc)) {
 		res = errno;
-		if (!queue_offer(out, strerror(res), strlen(strerror(res))))
+		if (!queue_offer(out, strerror(res), strlen(strerror(res)) + 1))
 			fprintf(stderr, "error while gathering parser error \n");
 		return res;
 	}
@@ -31,5 +44,18 @@ int syntax_parse(char *in, struct queue *out)
 	yy_delete_buffer(bs, sc);
 	yylex_destroy(sc);
 
+	/* something went wrong even though the grammar managed to get to the end of the statement */
+	if (!res && ctx.error[0] != '\0')
+		res = 1;
+
+	if (res) {
+		/* whatever was emitted thus far is worthless. Leave the error for the caller instead */
+		while (!queue_empty(out))
+			free(queue_poll(out));
+
+		if (!queue_offer(out, ctx.error, strlen(ctx.error) + 1))
+			fprintf(stderr, "error while gathering parser error: %s\n", ctx.error);
+	}
+
 	return res;
 }
-- 
2.43.0


From 3e99c07a7836056020b6aca3c430edc86b71217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 24/67] fix: running out of memory while parsing corrupts the
 statement or crashes

---
 include/parser/syntax.h |  5 +++++
 src/engine/query.c      |  4 ++--
 src/parser/midorisql.l  | 44 ++++++++++++++++++++++++++++++++++-------
 src/parser/midorisql.y  | 12 +++++++++--
 src/parser/syntax.c     | 26 ++++++++++++++++++++----
 5 files changed, 76 insertions(+), 15 deletions(-)

diff --git a/include/parser/syntax.h b/include/parser/syntax.h
index 90f7827..255c8cd 100644
--- a/include/parser/syntax.h
+++ b/include/parser/syntax.h
@@ -8,6 +8,7 @@
 #ifndef INCLUDE_PARSER_SYNTAX_H_
 #define INCLUDE_PARSER_SYNTAX_H_
 
+#include <setjmp.h>
 #include <compiler/common.h>
 #include <datastructure/queue.h>
 
@@ -17,6 +18,10 @@ struct syntax_ctx {
 	char error[1024];
 	/* lexer state to go back to once a comment is over */
 	int comment_prev_state;
+	/* where to go when the lexer can't carry on */
+	jmp_buf fatal;
+	/* last piece of memory allocated by the lexer before scanning starts */
+	void *lexer_mem;
 };
 
 int syntax_parse(char *in, struct queue *out);
diff --git a/src/engine/query.c b/src/engine/query.c
index 75590e8..947ebc3 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -52,10 +52,10 @@ struct query_output* query_execute(struct database *db, char *query)
 
 	/* syntax analysis */
 	if (syntax_parse(query, &queue)) {
-		/* copy error from the tail of the queue */
+		/* copy error from the queue - parser may have failed to put it there if it ran out of memory */
 		char *err_msg = (char*)queue_peek(&queue);
 		size_t err_msg_len = sizeof(output->error.message) - 1;
-		strncpy(output->error.message, err_msg, err_msg_len);
+		strncpy(output->error.message, err_msg ? err_msg : "error while parsing query\n", err_msg_len);
 
 		goto err_syntax_parser;
 	}
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 6e842c0..25c5551 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -1,9 +1,19 @@
 %option noyywrap nodefault yylineno case-insensitive reentrant bison-bridge
 %option extra-type="struct syntax_ctx *"
+%option noyyalloc
 
 %{
 #include "midorisql.tab.h"
 #include <parser/syntax.h>
+
+/* flex terminates the process by default */
+#define YY_FATAL_ERROR(msg)						\
+	do {								\
+		syntax_error(yyget_extra(yyscanner), "%s", msg);	\
+		longjmp(yyget_extra(yyscanner)->fatal, 1);		\
+	} while (0)
+
+static char* dup_token(const char *text, struct syntax_ctx *ctx);
 %}
 
 %x COMMENT
@@ -96,19 +106,19 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = strdup(yytext); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = dup_token(yytext, yyextra); return STRING; }
 
 '(\\.|[^'\n])*$	        { syntax_error(yyextra, "Unterminated string %s", yytext); }
 \"(\\.|[^"\n])*$	{ syntax_error(yyextra, "Unterminated string %s", yytext); }
 
    /* hex strings */
 X'[0-9A-F]+' |  
-0X[0-9A-F]+  { yylval->strval = strdup(yytext); return STRING; }
+0X[0-9A-F]+  { yylval->strval = dup_token(yytext, yyextra); return STRING; }
 
    /* bit strings */
 
 0B[01]+      |
-B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
+B'[01]+'     { yylval->strval = dup_token(yytext, yyextra); return STRING; }
 
 
    /* operators */
@@ -136,13 +146,13 @@ B'[01]+'     { yylval->strval = strdup(yytext); return STRING; }
          */
 COUNT    { int c = input(yyscanner); unput(c);
            if(c == '(') {return FCOUNT;}
-           yylval->strval = strdup(yytext);
+           yylval->strval = dup_token(yytext, yyextra);
            return NAME; }
 
-[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = strdup(yytext);
+[A-Za-z][A-Za-z0-9_]*	{ yylval->strval = dup_token(yytext, yyextra);
                           return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = strdup(yytext+1);
-                          yylval->strval[yyleng-2] = 0;
+`[^`/\\.\n]+`           { yylval->strval = dup_token(yytext+1, yyextra);
+                          if (yylval->strval) yylval->strval[yyleng-2] = 0;
                           return NAME; }
 
 `[^`\n]*$               { syntax_error(yyextra, "unterminated quoted name %s", yytext); }
@@ -162,3 +172,23 @@ COUNT    { int c = input(yyscanner); unput(c);
 .               { syntax_error(yyextra, "mystery character '%c'", *yytext); }
 
 %%
+
+static char* dup_token(const char *text, struct syntax_ctx *ctx)
+{
+	char *ret = strdup(text);
+
+	if (!ret)
+		syntax_error(ctx, "memory exhausted");
+
+	return ret;
+}
+
+void* yyalloc(yy_size_t size, yyscan_t yyscanner)
+{
+	void *ret = malloc(size);
+
+	if (ret)
+		yyget_extra(yyscanner)->lexer_mem = ret;
+
+	return ret;
+}
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 1b17f96..406bba0 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -10,7 +10,15 @@
 
 struct syntax_ctx* yyget_extra(void*);
 void yyerror(struct queue*, void*, const char *, ...);
-bool emit(struct queue *q, char *s, ...);
+bool emit_token(struct queue *q, char *s, ...);
+
+/* there is no point in carrying on if any of the tokens is missing */
+#define emit(q, ...)							\
+	do {								\
+		if (!emit_token(q, __VA_ARGS__))			\
+			syntax_error(yyget_extra(scanner), "memory exhausted");	\
+	} while (0)
+
 int yylex(void*, void*);
 %}
 
@@ -500,7 +508,7 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 	syntax_error(yyget_extra(scanner), "%s", buf);
 }
 
-bool emit(struct queue *q, char *s, ...)
+bool emit_token(struct queue *q, char *s, ...)
 {
 	char buf[256];
 	va_list ap;
diff --git a/src/parser/syntax.c b/src/parser/syntax.c
index ba354bb..00a5915 100644
--- a/src/parser/syntax.c
+++ b/src/parser/syntax.c
@@ -25,8 +25,9 @@ void syntax_error(struct syntax_ctx *ctx, const char *fmt, ...)
 int syntax_parse(char *in, struct queue *out)
 {
 	yyscan_t sc;
-	YY_BUFFER_STATE bs;
 	struct syntax_ctx ctx = {0};
+	char *volatile buf;
+	size_t buf_len;
 	int res;
 
 	/* sanity check */
@@ -39,10 +40,27 @@ int syntax_parse(char *in, struct queue *out)
 		return res;
 	}
 
-	bs = yy_scan_string(in, sc);
-	res = yyparse(out, sc);
-	yy_delete_buffer(bs, sc);
+	/* scanner itself is released by yylex_destroy */
+	ctx.lexer_mem = NULL;
+	buf = NULL;
+	buf_len = strlen(in) + 2 /* flex requires 2 NUL chars at the end */;
+
+	if (setjmp(ctx.fatal)) {
+		/* lexer ran out of memory while getting ready, so nobody owns these yet */
+		free(ctx.lexer_mem);
+		res = 2;
+	} else if (!(buf = zalloc(buf_len))) {
+		syntax_error(&ctx, "memory exhausted");
+		res = 2;
+	} else {
+		memcpy(buf, in, buf_len - 2);
+		yy_scan_buffer(buf, buf_len, sc);
+		ctx.lexer_mem = NULL;
+		res = yyparse(out, sc);
+	}
+
 	yylex_destroy(sc);
+	free(buf);
 
 	/* something went wrong even though the grammar managed to get to the end of the statement */
 	if (!res && ctx.error[0] != '\0')
-- 
2.43.0


From fdf40a524eea96833eb17ea44c6b3243720c38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 25/67] fix: INTEGER values that don't fit in 32 bits get
 garbled

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.l  |  8 +++++++-
 src/parser/midorisql.y  | 18 ++++++++++++------
 6 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 0815743..95b5c30 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -169,7 +169,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_DEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index a030ca7..4b22301 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -162,7 +162,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_INS_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_INS_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index f82c01c..4f6db8d 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -72,7 +72,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_SEL_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 88f441b..064d980 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -220,7 +220,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 
 		ext_val = (char*)stack_peek_pos(&reg_pars, 0);
 		if (type == AST_UPD_EXPR_VAL_INTNUM) {
-			node->int_val = atoi(ext_val);
+			node->int_val = strtoll(ext_val, NULL, 10);
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 25c5551..f1289d9 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -90,7 +90,13 @@ XOR	{ return XOR; }
 
    /* numbers */
 
--?[0-9]+	        { yylval->intval = atoi(yytext); return INTNUM; } 
+-?[0-9]+	        {
+				errno = 0;
+				yylval->numval = strtoll(yytext, NULL, 10);
+				if (errno == ERANGE)
+					syntax_error(yyextra, "integer out of range: %s", yytext);
+				return INTNUM;
+			}
 
 -?[0-9]+"."[0-9]* |
 -?"."[0-9]+	|
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 406bba0..257678e 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -23,6 +23,7 @@ int yylex(void*, void*);
 %}
 
 %code requires { 
+#include <inttypes.h>
 #include <compiler/common.h>
 #include <datastructure/queue.h>
 }
@@ -41,6 +42,7 @@ int yylex(void*, void*);
 
 %union {
 	int intval;
+	int64_t numval;
 	double floatval;
 	char *strval;
 	int subtok;
@@ -50,7 +52,7 @@ int yylex(void*, void*);
 
 %token <strval> NAME
 %token <strval> STRING
-%token <intval> INTNUM
+%token <numval> INTNUM
 %token <intval> BOOL
 %token <floatval> APPROXNUM
 
@@ -260,7 +262,7 @@ join_condition:
 expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -327,7 +329,7 @@ del_opt_where: /* nil */
 
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -384,7 +386,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
-   | INTNUM        { emit(result, "NUMBER %d", $1); }
+   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
    | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
@@ -423,7 +425,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
-	   | INTNUM        { emit(result, "NUMBER %d", $1); }
+	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
 	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
@@ -489,7 +491,11 @@ data_type:
    | DOUBLE { $$ = 80000; }
    | DATE { $$ = 100000; }
    | DATETIME { $$ = 110000; }
-   | VARCHAR '(' INTNUM ')' { $$ = 130000 + $3; }
+   | VARCHAR '(' INTNUM ')' {
+			if ($3 < 1 || $3 > 9999)
+				yyerror(result, scanner, "VARCHAR length must be between 1 and 9999");
+			$$ = 130000 + (int)$3;
+		}
    ;
 
 
-- 
2.43.0


From c7718c81934e1b4050132b81bb70cd43eda27cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 26/67] fix: DOUBLE values lose digits and exponent

---
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 src/parser/midorisql.l  | 2 ++
 src/parser/midorisql.y  | 8 ++++----
 6 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 95b5c30..38f42ac 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -141,7 +141,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_DEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 4b22301..7bf1eaf 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -137,7 +137,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_INS_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index 4f6db8d..c0d92ba 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -44,7 +44,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_SEL_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 064d980..ecc23f6 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -192,7 +192,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "STRING '(.+)'";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
-		reg_exp = "FLOAT (-{0,1}[0-9\\.]+)";
+		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
 	} else if (type == AST_UPD_EXPR_VAL_BOOL) {
 		node->value_type.is_bool = true;
 		reg_exp = "BOOL ([0-1])";
diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index f1289d9..2772156 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -103,6 +103,8 @@ XOR	{ return XOR; }
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
 -?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
+                                  if (isinf(yylval->floatval))
+                                          syntax_error(yyextra, "number out of range: %s", yytext);
                                   return APPROXNUM; }
     /* booleans */
 TRUE	{ yylval->intval = 1; return BOOL; }
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 257678e..3dfc24e 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -263,7 +263,7 @@ expr: NAME          { emit(result, "NAME %s", $1); free($1); }
    | NAME '.' NAME { emit(result, "FIELDNAME %s.%s", $1, $3); free($1); free($3); }
    | STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -330,7 +330,7 @@ del_opt_where: /* nil */
 delete_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
@@ -387,7 +387,7 @@ insert_stmt: INSERT opt_into NAME opt_col_names
 insert_expr:
      STRING        { emit(result, "STRING %s", $1); free($1); }
    | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    | BOOL          { emit(result, "BOOL %d", $1); }
    | NULLX         { emit(result, "NULL"); }
    ;
@@ -426,7 +426,7 @@ update_opt_where: /* nil */ 	{ $$ = 0; }
 update_expr: NAME          { emit(result, "NAME %s", $1); free($1); }
 	   | STRING        { emit(result, "STRING %s", $1); free($1); }
 	   | INTNUM        { emit(result, "NUMBER %" PRId64, $1); }
-	   | APPROXNUM     { emit(result, "FLOAT %g", $1); }
+	   | APPROXNUM     { emit(result, "FLOAT %.17g", $1); }
    	   | BOOL          { emit(result, "BOOL %d", $1); }
    	   | NULLX         { emit(result, "NULL"); }
    	   ;
-- 
2.43.0


From a18eb37a6cf4da9f87de246475033bd3d78d13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 27/67] fix: SELECT compares INTEGER values as if they had 32
 bits

---
 src/engine/executor_select.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 72df5e2..8460e3b 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -459,7 +459,7 @@ static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double
 	}
 }
 
-static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int val_1, int val_2)
+static bool cmp_int_value_to_value(enum ast_comparison_type cmp_type, int64_t val_1, int64_t val_2)
 {
 	switch (cmp_type) {
 	case AST_CMP_DIFF_OP:
-- 
2.43.0


From 3462b5c16a3e379f9e0ffb9021f41937ee3d7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:22 +0000
Subject: [PATCH 28/67] fix: SELECT's IN only matches when the field equals
 every value

---
 src/engine/executor_select.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 8460e3b..a6f820e 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -972,7 +972,7 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 	struct ast_sel_fieldname_node *field = NULL;
 	struct ast_sel_exprval_node *value = NULL;
 	struct ast_sel_cmp_node cmp_node = {0};
-	bool is_field;
+	bool is_field = false, eval;
 
 	if (node->is_negation) {
 		cmp_node.cmp_type = AST_CMP_DIFF_OP;
@@ -1011,17 +1011,19 @@ static bool eval_isxin(struct table *table, struct row *row, struct ast_sel_isxi
 		if (!((struct ast_sel_exprval_node*)tmp_entry)->value_type.is_name) {
 
 			if (is_field) {
-				if (!cmp_fieldname_to_value(table, row, &cmp_node, field,
-								(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				eval = cmp_fieldname_to_value(table, row, &cmp_node, field,
+								(struct ast_sel_exprval_node*)tmp_entry);
 			} else {
-				if (!cmp_field_to_value(table, row, &cmp_node, value,
-							(struct ast_sel_exprval_node*)tmp_entry))
-					return false; // fail-fast
+				eval = cmp_field_to_value(table, row, &cmp_node, value,
+							(struct ast_sel_exprval_node*)tmp_entry);
 			}
+
+			/* IN: at least one value matches the field. NOT IN: every single one is different from it */
+			if (eval != node->is_negation)
+				return eval;
 		}
 	}
-	return true;
+	return node->is_negation;
 }
 
 static bool eval_row_cond(struct ast_node *node, struct table *table, struct row *row)
-- 
2.43.0


From 6fa47180249c09fa8bae25ede2daf31fd6787db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 29/67] fix: SELECT comparisons of a column with itself and
 values on the left

---
 src/engine/executor_select.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index a6f820e..b8f655d 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -543,7 +543,10 @@ static bool cmp_field_to_field(struct table *table, struct row *row, struct ast_
 			type = col->type;
 			offset_1 = tmp_offset;
 			col_idx_1 = i;
-		} else if (strcmp(col->name, val_2->name_val) == 0) {
+		}
+
+		/* both sides can be the same column */
+		if (strcmp(col->name, val_2->name_val) == 0) {
 			offset_2 = tmp_offset;
 			col_idx_2 = i;
 		}
@@ -891,8 +894,26 @@ static bool eval_cmp(struct table *table, struct row *row, struct ast_sel_cmp_no
 			/* field-to-value or value-to-field comparison */
 			return cmp_field_to_value(table, row, node, val_1, val_2);
 		} else if (!val_1->value_type.is_name && val_2->value_type.is_name) {
-			/* value-to-field or value-to-field comparison */
-			return cmp_field_to_value(table, row, node, val_2, val_1);
+			/* value-to-field comparison - field ends up on the left, so operator must be mirrored */
+			struct ast_sel_cmp_node cmp_node = *node;
+
+			switch (node->cmp_type) {
+			case AST_CMP_GTE_OP:
+				cmp_node.cmp_type = AST_CMP_LTE_OP;
+				break;
+			case AST_CMP_GT_OP:
+				cmp_node.cmp_type = AST_CMP_LT_OP;
+				break;
+			case AST_CMP_LTE_OP:
+				cmp_node.cmp_type = AST_CMP_GTE_OP;
+				break;
+			case AST_CMP_LT_OP:
+				cmp_node.cmp_type = AST_CMP_GT_OP;
+				break;
+			default:
+				break;
+			}
+			return cmp_field_to_value(table, row, &cmp_node, val_2, val_1);
 		} else {
 			/* value-to-value comparison */
 			return cmp_value_to_value(node, val_1, val_2);
-- 
2.43.0


From c5680d49cc5772791925db0c61c90cdea735f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 30/67] fix: SELECT leaks rows of a JOIN when it runs out of
 memory

---
 src/engine/executor_select.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index b8f655d..53b67d1 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -424,6 +424,8 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 	return MIDORIDB_OK;
 
 err_ptr:
+	/* columns copied so far may have content of their own */
+	table_free_row_content(mattbl, *out);
 	free(*out);
 err:
 	return -MIDORIDB_INTERNAL;
@@ -1150,8 +1152,11 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
-						if (!table_insert_row(mattbl, new_row, new_row_size))
+						if (!table_insert_row(mattbl, new_row, new_row_size)) {
+							table_free_row_content(mattbl, new_row);
+							free(new_row);
 							goto err;
+						}
 
 //						print_row(mattbl, new_row);
 
@@ -1341,7 +1346,7 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 			}
 
 			if (!cpy_cols(exs_table, exs_row, mattbl, new_row, false))
-				goto err_ptr;
+				goto err_ins;
 
 			init_count_cols(mattbl, new_row);
 
@@ -1359,7 +1364,6 @@ static int proc_from_clause_table(struct database *db, struct ast_sel_table_node
 
 err_ins:
 	table_free_row_content(mattbl, new_row);
-err_ptr:
 	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
-- 
2.43.0


From b8b0ae415783390660f81662cfbede7444ca5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 31/67] fix: joining three tables drops and overwrites rows

---
 src/engine/executor_select.c | 212 ++++++++++++-----------------------
 1 file changed, 72 insertions(+), 140 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 53b67d1..86b7f81 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -365,31 +365,27 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 			dst_offset += table_calc_column_space(&dst->columns[j]);
 		}
 
-		if (table_check_var_column(column)) {
-			void *ptr = zalloc(column->precision);
+		/*
+		 * Copy data only if column is not NULL. When rows of an early-materialisation table are copied, NULL is
+		 * also what columns that come from the other side of a JOIN are
+		 */
+		if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
+			if (table_check_var_column(column)) {
+				void *ptr = zalloc(column->precision);
 
-			if (!ptr)
-				return false;
+				if (!ptr)
+					return false;
 
-			/* Copy data only if column is not NULL */
-			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
 				memcpy(ptr, *((char**)((char*)src_row->data + src_offset)), column->precision);
-			}
 
-			uintptr_t *col_idx_ptr = (uintptr_t*)&dst_row->data[dst_offset];
-			*col_idx_ptr = (uintptr_t)ptr;
-
-		} else {
-
-			if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
+				uintptr_t *col_idx_ptr = (uintptr_t*)&dst_row->data[dst_offset];
+				*col_idx_ptr = (uintptr_t)ptr;
+			} else {
 				memcpy(dst_row->data + dst_offset, ((char*)src_row->data) + src_offset,
 					column->precision);
 			}
 
-		}
-
-		/* adjust null_bitmap */
-		if (!bit_test(src_row->null_bitmap, i, sizeof(src_row->null_bitmap))) {
+			/* adjust null_bitmap */
 			bit_clear(dst_row->null_bitmap, dst_col_idx, sizeof(dst_row->null_bitmap));
 		}
 
@@ -399,8 +395,8 @@ static bool cpy_cols(struct table *src, struct row *src_row, struct table *dst,
 	return true;
 }
 
-static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out, bool is_tbl2_earlymat)
+static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
+		struct table *mattbl, struct row **out, bool is_tbl1_earlymat, bool is_tbl2_earlymat)
 {
 	*out = zalloc(table_calc_row_size(mattbl));
 	if (!(*out))
@@ -413,7 +409,7 @@ static int _merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row
 		bit_set((*out)->null_bitmap, i, sizeof((*out)->null_bitmap));
 	}
 
-	if (!cpy_cols(tbl_1, row_1, mattbl, *out, false))
+	if (!cpy_cols(tbl_1, row_1, mattbl, *out, is_tbl1_earlymat))
 		goto err_ptr;
 
 	if (!cpy_cols(tbl_2, row_2, mattbl, *out, is_tbl2_earlymat))
@@ -432,13 +428,6 @@ err:
 
 }
 
-static int merge_rows(struct table *tbl_1, struct table *tbl_2, struct row *row_1, struct row *row_2,
-		struct table *mattbl, struct row **out)
-{
-	bool is_tbl2_earlymat = tbl_2 == mattbl;
-	return _merge_rows(tbl_1, tbl_2, row_1, row_2, mattbl, out, is_tbl2_earlymat);
-}
-
 static bool cmp_double_value_to_value(enum ast_comparison_type cmp_type, double val_1, double val_2)
 {
 	switch (cmp_type) {
@@ -1098,19 +1087,14 @@ static bool eval_row_cond(struct ast_node *node, struct table *table, struct row
 	return ret;
 }
 
-static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *left_node,
-		struct ast_sel_table_node *right_node, struct table *mattbl)
+static int _join_nested_loop(struct ast_sel_join_node *join_node, struct ast_sel_onexpr_node *onexpr_node,
+		struct table *left, struct table *right, bool is_left_earlymat, bool is_right_earlymat, struct table *mattbl)
 {
-	struct table *left, *right;
 	struct list_head *left_pos, *right_pos;
 	struct datablock *left_blk, *right_blk;
 	size_t left_row_size, right_row_size, new_row_size;
 	struct row *left_row, *right_row, *new_row;
 
-	left = database_table_get(db, left_node->table_name);
-	right = database_table_get(db, right_node->table_name);
-
 	left_row_size = table_calc_row_size(left);
 	right_row_size = table_calc_row_size(right);
 	new_row_size = table_calc_row_size(mattbl);
@@ -1147,16 +1131,14 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
 
 					/* copy columns of both rows to materialised row */
-					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row))
+					if (merge_rows(left, right, left_row, right_row, mattbl, &new_row, is_left_earlymat,
+							is_right_earlymat))
 						goto err;
 
 					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
 
-						if (!table_insert_row(mattbl, new_row, new_row_size)) {
-							table_free_row_content(mattbl, new_row);
-							free(new_row);
-							goto err;
-						}
+						if (!table_insert_row(mattbl, new_row, new_row_size))
+							goto err_ins;
 
 //						print_row(mattbl, new_row);
 
@@ -1171,92 +1153,34 @@ static int _join_nested_loop_tbl2tbl(struct database *db, struct ast_sel_join_no
 
 	return MIDORIDB_OK;
 
+err_ins:
+	table_free_row_content(mattbl, new_row);
+	free(new_row);
 err:
 	return -MIDORIDB_INTERNAL;
 
 }
 
-static int _join_nested_loop_tbl2mat(struct database *db, struct ast_sel_join_node *join_node,
-		struct ast_sel_onexpr_node *onexpr_node, struct ast_sel_table_node *table_node_1,
-		struct table *mattbl)
+/* empty early-materialisation table that has the same columns as the one informed */
+static struct table* clone_table_scafold(struct table *table)
 {
-	struct table *table_1, *table_2;
-	struct list_head *tbl1_pos, *tbl2_pos;
-	struct datablock *tbl1_blk, *tbl2_blk;
-	size_t tbl1_row_size, tbl2_row_size, new_row_size;
-	struct row *tbl1_row, *tbl2_row, *new_row;
-
-	table_1 = database_table_get(db, table_node_1->table_name);
-	table_2 = mattbl;
-
-	tbl1_row_size = table_calc_row_size(table_1);
-	tbl2_row_size = table_calc_row_size(table_2);
-	new_row_size = table_calc_row_size(mattbl);
-
-	// TODO add nested-loop for other join types.. for now I will focus on the INNER JOIN
-	BUG_ON(join_node->join_type != AST_SEL_JOIN_INNER);
-
-	list_for_each(tbl1_pos, table_1->datablock_head)
-	{
-		tbl1_blk = list_entry(tbl1_pos, typeof(*tbl1_blk), head);
-		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / tbl1_row_size); i++) {
-			tbl1_row = (struct row*)&tbl1_blk->data[tbl1_row_size * i];
+	struct table *clone;
 
-			if (tbl1_row->flags.empty)
-				break; /* end of the line */
-
-			if (tbl1_row->flags.deleted)
-				continue; /* nothing to do here */
-
-			list_for_each(tbl2_pos, table_2->datablock_head)
-			{
-				tbl2_blk = list_entry(tbl2_pos, typeof(*tbl2_blk), head);
-
-				for (size_t j = 0; j < (DATABLOCK_PAGE_SIZE / tbl2_row_size); j++) {
-					tbl2_row = (struct row*)&tbl2_blk->data[tbl2_row_size * j];
-
-					if (tbl2_row->flags.empty)
-						break; /* end of the line */
-
-					if (tbl2_row->flags.deleted)
-						continue; /* nothing to do here */
-
-					//TODO figure out how I will populate aliases into the new row
-					// SELECT (f1 + 4) as val FROM A JOIN B ON ....
-
-					/* copy columns of both rows to materialised row */
-					if (merge_rows(table_1, mattbl, tbl1_row, tbl2_row, mattbl, &new_row))
-						goto err;
-
-					if (eval_row_cond((struct ast_node*)onexpr_node, mattbl, new_row)) {
-
-						if (!table_update_row(mattbl, tbl2_blk, tbl2_row_size * j, new_row,
-									new_row_size))
-							goto err;
-
-//						print_row(mattbl, new_row);
-
-					} else {
-						/* when using materialisation tables,
-						 * if it doesn't match ON-clause then it needs to be discarded
-						 * TODO: this should change once we implement other JOIN types
-						 */
-						table_delete_row(mattbl, tbl2_blk, tbl2_row_size * j);
-					}
+	clone = table_init(table->name);
+	if (!clone)
+		goto err;
 
-					/* free up used resources */
-					table_free_row_content(mattbl, new_row);
-					free(new_row);
-				}
-			}
-		}
+	for (int i = 0; i < table->column_count; i++) {
+		if (!table_add_column(clone, &table->columns[i]))
+			goto err_col;
 	}
 
-	return MIDORIDB_OK;
+	return clone;
 
+err_col:
+	table_destroy(&clone);
 err:
-	return -MIDORIDB_INTERNAL;
-
+	return NULL;
 }
 
 static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *join_node, struct table *earmattbl)
@@ -1265,9 +1189,11 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 	struct ast_node *tmp_entry;
 
 	struct ast_sel_onexpr_node *onexpr_node = NULL;
-	struct ast_node *left_node = NULL, *right_node = NULL;
+	struct ast_node *nodes[2] = {NULL, NULL};
+	struct table *tables[2] = {NULL, NULL};
+	bool is_earlymat[2] = {false, false};
 
-	int early_ret;
+	int ret = MIDORIDB_OK;
 
 	list_for_each(pos, join_node->node_children_head)
 	{
@@ -1275,36 +1201,42 @@ static int proc_from_clause_join(struct database *db, struct ast_sel_join_node *
 
 		if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR) {
 			onexpr_node = (typeof(onexpr_node))tmp_entry;
-		} else if (!left_node) {
-			left_node = tmp_entry;
+		} else if (!nodes[0]) {
+			nodes[0] = tmp_entry;
 		} else {
-			right_node = tmp_entry;
+			nodes[1] = tmp_entry;
 		}
 	}
 
-	if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		return _join_nested_loop_tbl2tbl(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							(struct ast_sel_table_node*)right_node, earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_JOIN && right_node->node_type == AST_TYPE_SEL_TABLE) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)left_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)right_node,
-							earmattbl);
-	} else if (left_node->node_type == AST_TYPE_SEL_TABLE && right_node->node_type == AST_TYPE_SEL_JOIN) {
-		if ((early_ret = proc_from_clause_join(db, (struct ast_sel_join_node*)right_node, earmattbl)))
-			return early_ret;
-
-		return _join_nested_loop_tbl2mat(db, join_node, onexpr_node,
-							(struct ast_sel_table_node*)left_node,
-							earmattbl);
-	} else {
-		BUG_GENERIC();
+	for (int i = 0; i < 2; i++) {
+		if (nodes[i]->node_type == AST_TYPE_SEL_TABLE) {
+			tables[i] = database_table_get(db, ((struct ast_sel_table_node*)nodes[i])->table_name);
+		} else if (nodes[i]->node_type == AST_TYPE_SEL_JOIN) {
+			/* rows of a nested join are materialised on their own before they are joined with anything else */
+			tables[i] = clone_table_scafold(earmattbl);
+			if (!tables[i]) {
+				ret = -MIDORIDB_INTERNAL;
+				goto out;
+			}
+
+			is_earlymat[i] = true;
+
+			if ((ret = proc_from_clause_join(db, (struct ast_sel_join_node*)nodes[i], tables[i])))
+				goto out;
+		} else {
+			BUG_GENERIC();
+		}
 	}
 
-	return MIDORIDB_OK;
+	ret = _join_nested_loop(join_node, onexpr_node, tables[0], tables[1], is_earlymat[0], is_earlymat[1], earmattbl);
+
+out:
+	for (int i = 0; i < 2; i++) {
+		if (is_earlymat[i])
+			table_destroy(&tables[i]);
+	}
+
+	return ret;
 }
 
 static int proc_from_clause_table(struct database *db, struct ast_sel_table_node *table_node, struct table *mattbl)
-- 
2.43.0


From 59ba2940332d18c603d46f571665d141c13bd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:33 +0000
Subject: [PATCH 32/67] fix: GROUP BY and COUNT miscount rows, and more so over
 several datablocks

---
 src/engine/executor_select.c | 197 +++++++++++++++++------------------
 1 file changed, 95 insertions(+), 102 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 86b7f81..95ae2e9 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -331,6 +331,7 @@ static void init_count_cols(struct table *table, struct row *row)
 
 		if (column->is_count) {
 			(*(int64_t*)&row->data[offset]) = 1;
+			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
 		offset += table_calc_column_space(column);
@@ -1440,13 +1441,19 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	else if (!is_null_1 && is_null_2)
 		ret = 1;
 	else if (col_spcs.type == CT_DOUBLE) {
-		ret = (*(double*)&row_1->data[col_spcs.offset]) - (*(double*)&row_2->data[col_spcs.offset]);
+		double val_1 = *(double*)&row_1->data[col_spcs.offset];
+		double val_2 = *(double*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_TINYINT) {
 		ret = (*(bool*)&row_1->data[col_spcs.offset]) - (*(bool*)&row_2->data[col_spcs.offset]);
 	} else if (col_spcs.type == CT_INTEGER) {
-		ret = (*(int64_t*)&row_1->data[col_spcs.offset]) - (*(int64_t*)&row_2->data[col_spcs.offset]);
+		int64_t val_1 = *(int64_t*)&row_1->data[col_spcs.offset];
+		int64_t val_2 = *(int64_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_DATE || col_spcs.type == CT_DATETIME) {
-		ret = (*(time_t*)&row_1->data[col_spcs.offset]) - (*(time_t*)&row_2->data[col_spcs.offset]);
+		time_t val_1 = *(time_t*)&row_1->data[col_spcs.offset];
+		time_t val_2 = *(time_t*)&row_2->data[col_spcs.offset];
+		ret = (val_1 > val_2) - (val_1 < val_2);
 	} else if (col_spcs.type == CT_VARCHAR) {
 		ret = strcmp(*(char**)&row_1->data[col_spcs.offset], *(char**)&row_2->data[col_spcs.offset]);
 	} else {
@@ -1457,158 +1464,144 @@ static int cmp_rows_col_mattbl(struct table *table, struct row *row_1, struct ro
 	return ret;
 }
 
-static int inc_count_cols(struct table *table, struct datablock *blk, size_t blk_offset, struct row *row, size_t row_size)
+/* adds what was counted in row_2 to row_1 */
+static void merge_count_cols(struct table *table, struct row *row_1, struct row *row_2)
 {
 	struct column *column;
 	size_t offset = 0;
-	bool found = false;
 
 	for (int i = 0; i < table->column_count; i++) {
 		column = &table->columns[i];
 
-		if (column->is_count) {
-			found = true;
-			(*(int64_t*)&row->data[offset])++;
-		}
+		if (column->is_count)
+			*(int64_t*)&row_1->data[offset] += *(int64_t*)&row_2->data[offset];
 
 		offset += table_calc_column_space(column);
 	}
+}
 
-	if (found) {
-		if (!table_update_row(table, blk, blk_offset, row, row_size))
-			return -MIDORIDB_INTERNAL;
+/* do both rows have the same values in every field of the group-by clause? (if any) */
+static bool same_group(struct table *table, struct row *row_1, struct row *row_2, struct ast_node *groupby_node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	if (!groupby_node)
+		return true;
+
+	list_for_each(pos, groupby_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) != 0)
+			return false;
 	}
 
-	return MIDORIDB_OK;
+	return true;
 }
 
-static int proc_groupby_clause(struct ast_node *node, struct table *table)
+static int proc_groupby_clause(struct ast_node *groupby_node, struct table *table)
 {
-	struct list_head *grppos, *pos1, *pos2;
-	struct ast_node *tmp_entry;
+	struct list_head *pos1, *pos2;
 	struct datablock *blk_1, *blk_2;
 	struct row *row_1, *row_2;
 	size_t row_size;
-	int ret = MIDORIDB_OK;
 
 	row_size = table_calc_row_size(table);
 
-	list_for_each(grppos, node->node_children_head)
+	list_for_each(pos1, table->datablock_head)
 	{
-		/* process each field on the group-by clause list one at a time */
-		tmp_entry = list_entry(grppos, typeof(*tmp_entry), head);
-
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
+		blk_1 = list_entry(pos1, typeof(*blk_1), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row_1 = (struct row*)&blk_1->data[row_size * i];
 
-				if (row_1->flags.empty)
-					break; /* end of the line */
+			if (row_1->flags.empty)
+				break; /* end of the line */
 
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
+			if (row_1->flags.deleted)
+				continue; /* nothing to do here */
 
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
+			/* every row that comes after row_1, be it in the same datablock or in the following ones */
+			for (pos2 = pos1; pos2 != table->datablock_head; pos2 = pos2->next) {
+				blk_2 = list_entry(pos2, typeof(*blk_2), head);
+				for (size_t j = pos1 == pos2 ? i + 1 : 0; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
+					row_2 = (struct row*)&blk_2->data[row_size * j];
 
-						if (row_2->flags.empty)
-							break; /* end of the line */
+					if (row_2->flags.empty)
+						break; /* end of the line */
 
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+					if (row_2->flags.deleted)
+						continue; /* nothing to do here */
 
-						if (cmp_rows_col_mattbl(table, row_1, row_2, tmp_entry) == 0) {
+					if (same_group(table, row_1, row_2, groupby_node)) {
 
-							if (!table_delete_row(table, blk_2, row_size * j)) {
-								ret = -MIDORIDB_INTERNAL;
-								goto out;
-							}
+						if (!table_delete_row(table, blk_2, row_size * j))
+							return -MIDORIDB_INTERNAL;
 
-							/* increment counts if any */
-							if ((ret = inc_count_cols(table, blk_1, row_size * i,
-											row_1,
-											row_size)))
-								goto out;
-						}
+						/* increment counts if any */
+						merge_count_cols(table, row_1, row_2);
 					}
 				}
 			}
 		}
 	}
 
-out:
-	return ret;
+	return MIDORIDB_OK;
+}
 
+static bool is_table_empty(struct table *table)
+{
+	struct list_head *pos;
+	struct datablock *blk;
+	struct row *row;
+	size_t row_size;
+
+	row_size = table_calc_row_size(table);
+
+	list_for_each(pos, table->datablock_head)
+	{
+		blk = list_entry(pos, typeof(*blk), head);
+		for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
+			row = (struct row*)&blk->data[row_size * i];
+
+			if (row->flags.empty)
+				break; /* end of the line */
+
+			if (!row->flags.deleted)
+				return false;
+		}
+	}
+
+	return true;
 }
 
 static int handle_countonly_case(struct table *table)
 {
-	struct list_head *pos1, *pos2;
-	struct datablock *blk_1, *blk_2;
-	struct row *row_1, *row_2;
+	struct row *row;
 	size_t row_size;
-	int ret = MIDORIDB_OK;
+	bool ret;
 
 	/* check if we need to do that in the first plae */
-	bool non_count_field = false;
 	for (int i = 0; i < table->column_count; i++) {
-		if (!table->columns[i].is_count) {
-			non_count_field = true;
-			break;
-		}
+		if (!table->columns[i].is_count)
+			return MIDORIDB_OK;
 	}
 
-	if (!non_count_field) {
+	if (is_table_empty(table)) {
+		/* no rows at all is still something that can be counted */
 		row_size = table_calc_row_size(table);
 
-		list_for_each(pos1, table->datablock_head)
-		{
-			blk_1 = list_entry(pos1, typeof(*blk_1), head);
-			for (size_t i = 0; i < (DATABLOCK_PAGE_SIZE / row_size); i++) {
-				row_1 = (struct row*)&blk_1->data[row_size * i];
-
-				if (row_1->flags.empty)
-					break; /* end of the line */
-
-				if (row_1->flags.deleted)
-					continue; /* nothing to do here */
-
-				list_for_each(pos2, table->datablock_head)
-				{
-					blk_2 = list_entry(pos2, typeof(*blk_2), head);
-					for (size_t j = i + 1; j < (DATABLOCK_PAGE_SIZE / row_size); j++) {
-						row_2 = (struct row*)&blk_2->data[row_size * j];
-
-						if (row_2->flags.empty)
-							break; /* end of the line */
-
-						if (row_2->flags.deleted)
-							continue; /* nothing to do here */
+		row = zalloc(row_size);
+		if (!row)
+			return -MIDORIDB_INTERNAL;
 
-						if (!table_delete_row(table, blk_2, row_size * j)) {
-							ret = -MIDORIDB_INTERNAL;
-							goto out;
-						}
+		ret = table_insert_row(table, row, row_size);
+		free(row);
 
-						/* increment counts if any */
-						if ((ret = inc_count_cols(table, blk_1, row_size * i,
-										row_1,
-										row_size)))
-							goto out;
-					}
-				}
-			}
-		}
+		return ret ? MIDORIDB_OK : -MIDORIDB_INTERNAL;
 	}
 
-out:
-	return ret;
-
+	return proc_groupby_clause(NULL, table);
 }
 
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
@@ -1673,7 +1666,7 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	}
 
 	/* handle COUNT(*)-only field edge-case */
-	if ((ret = handle_countonly_case(table))) {
+	if (!groupby_node && (ret = handle_countonly_case(table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: error while processing COUNT-only-case\n");
 		goto err_bld_fc;
-- 
2.43.0


From d53c8bc7af7d8c6c1ff7285274197b11d96d49c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 33/67] fix: SELECT kills the process when its columns don't
 fit or memory runs out

---
 src/engine/executor_select.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 95ae2e9..836f9db 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -167,7 +167,7 @@ static int _build_cols_hashtable_fieldname(struct database *db, struct ast_node
 		if (strcmp(field_node->col_name, column->name) == 0) {
 			snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, column->name);
 
-			if (!hashtable_put(cols_ht, key, strlen(key) + 1, &column, sizeof(column)))
+			if (!hashtable_put(cols_ht, key, strlen(key) + 1, column, sizeof(*column)))
 				return -MIDORIDB_INTERNAL;
 		}
 	}
@@ -258,6 +258,10 @@ static int _build_cols_hashtable_count(struct ast_node *node, struct hashtable *
 	column.precision = table_calc_column_precision(column.type);
 	column.is_count = true;
 
+	/* the same thing may be counted more than once */
+	if (hashtable_get(cols_ht, key, strlen(key) + 1))
+		return MIDORIDB_OK;
+
 	if (!hashtable_put(cols_ht, key, strlen(key) + 1, &column, sizeof(column)))
 		return -MIDORIDB_INTERNAL;
 
@@ -290,33 +294,48 @@ static int build_cols_hashtable(struct database *db, struct ast_node *node, stru
 
 }
 
+struct scafold_arg {
+	struct table *table;
+	bool failed;
+};
+
 static void do_build_table_scafold(struct hashtable *hashtable, const void *key, size_t klen, const void *value,
 		size_t vlen, void *arg)
 {
 	UNUSED(hashtable);
 	UNUSED(vlen);
 
-	struct table *table;
+	struct scafold_arg *scafold;
 	struct column column = {0};
 
-	table = (typeof(table))arg;
+	scafold = (typeof(scafold))arg;
 
 	strncpy(column.name, key, MIN(sizeof(column.name), klen) - 1);
 	column.type = ((struct column*)value)->type;
 	column.precision = ((struct column*)value)->precision;
 	column.is_count = ((struct column*)value)->is_count;
 
-	BUG_ON(!table_add_column(table, &column));
+	if (!scafold->failed && !table_add_column(scafold->table, &column))
+		scafold->failed = true;
 }
 
 static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
 {
+	struct scafold_arg scafold = {0};
+
 	*out_table = table_init("early_mat_tbl");
 
 	if (!(*out_table))
 		return -MIDORIDB_INTERNAL;
 
-	hashtable_foreach(column_types, &do_build_table_scafold, *out_table);
+	scafold.table = *out_table;
+	hashtable_foreach(column_types, &do_build_table_scafold, &scafold);
+
+	if (scafold.failed) {
+		/* either there is no memory left or tables have too many columns altogether */
+		table_destroy(out_table);
+		return -MIDORIDB_INTERNAL;
+	}
 
 	return MIDORIDB_OK;
 }
-- 
2.43.0


From 05510317a1f0684d27dff3b6c38786d8b1af5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 34/67] fix: result columns with long names are cut short and
 mixed up

---
 include/primitive/column.h | 4 +++-
 src/primitive/column.c     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index a8959e3..7ddb56d 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -11,6 +11,8 @@
 #include <compiler/common.h>
 
 #define TABLE_MAX_COLUMN_NAME		127
+/* columns of query results are called <table>.<column> or COUNT(<table>.<column>) */
+#define TABLE_MAX_RESULT_COLUMN_NAME	(2 * TABLE_MAX_COLUMN_NAME + 1 /* dot */ + 7 /* COUNT() */)
 
 struct table;
 
@@ -29,7 +31,7 @@ enum COLUMN_TYPE {
 
 struct column {
 	/* NUL-terminated string */
-	char name[TABLE_MAX_COLUMN_NAME + 1 /*NUL char */];
+	char name[TABLE_MAX_RESULT_COLUMN_NAME + 1 /*NUL char */];
 	/* type of value meant to be stored */
 	enum COLUMN_TYPE type;
 	/* how much space it takes up in memory */
diff --git a/src/primitive/column.c b/src/primitive/column.c
index 74fd486..107a669 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -259,7 +259,7 @@ bool table_rem_column(struct table *table, struct column *column)
 		return false;
 
 	for (pos = 0; pos < table->column_count; pos++) {
-		if (strncmp(table->columns[pos].name, column->name, TABLE_MAX_COLUMN_NAME) == 0) {
+		if (strcmp(table->columns[pos].name, column->name) == 0) {
 			found = true;
 			break;
 		}
-- 
2.43.0


From 89123072f4af1d61f7201d91aa35ab3cb01d6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 35/67] fix: COUNT(field) counts rows in which the field is
 NULL

---
 src/engine/executor_select.c | 57 ++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 836f9db..be0b940 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -26,6 +26,8 @@
 					+ MEMBER_SIZE(struct ast_sel_fieldname_node, col_name)		\
 					+ 1 /* NUL */
 
+#define COUNT_NAME_LEN		(FQFIELD_NAME_LEN + sizeof("COUNT()"))
+
 //static void print_row(struct table *table, struct row *row)
 //{
 //	struct column *column;
@@ -102,6 +104,24 @@ static struct ast_node* find_node(struct ast_node *root, enum ast_node_type node
 	return ret;
 }
 
+/* name that a count column has in the early-materialisation table: COUNT(*) or COUNT(<table>.<column>) */
+static void build_count_key(struct ast_sel_count_node *node, char *key, size_t len)
+{
+	struct ast_node *child = NULL;
+	struct ast_sel_fieldname_node *fld_node;
+
+	if (!node->all && !list_is_empty(node->node_children_head))
+		child = list_entry(node->node_children_head->next, typeof(*child), head);
+
+	memzero(key, len);
+	if (child && child->node_type == AST_TYPE_SEL_FIELDNAME) {
+		fld_node = (typeof(fld_node))child;
+		snprintf(key, len - 1, "COUNT(%s.%s)", fld_node->table_name, fld_node->col_name);
+	} else {
+		strcpy(key, "COUNT(*)");
+	}
+}
+
 struct column_specs {
 	enum COLUMN_TYPE type;
 	size_t offset;
@@ -110,7 +130,7 @@ struct column_specs {
 
 static bool find_column_mattbl(struct table *table, struct ast_node *node, struct column_specs *out)
 {
-	char key[FQFIELD_NAME_LEN] = {0};
+	char key[COUNT_NAME_LEN] = {0};
 	bool found = false;
 
 	struct ast_sel_fieldname_node *fld_node;
@@ -132,8 +152,7 @@ static bool find_column_mattbl(struct table *table, struct ast_node *node, struc
 			memzero(key, sizeof(key));
 			snprintf(key, sizeof(key) - 1, "%s.%s", fld_node->table_name, fld_node->col_name);
 		} else if (node->node_type == AST_TYPE_SEL_COUNT) {
-			memzero(key, sizeof(key));
-			strcpy(key, "COUNT(*)");
+			build_count_key((struct ast_sel_count_node*)node, key, sizeof(key));
 		} else {
 			BUG_GENERIC();
 		}
@@ -250,10 +269,11 @@ static int _build_cols_hashtable_table(struct database *db, struct ast_node *nod
 
 static int _build_cols_hashtable_count(struct ast_node *node, struct hashtable *cols_ht)
 {
-	UNUSED(node);
-	char key[] = "COUNT(*)";
+	char key[COUNT_NAME_LEN];
 	struct column column = {0};
 
+	build_count_key((struct ast_sel_count_node*)node, key, sizeof(key));
+
 	column.type = CT_INTEGER;
 	column.precision = table_calc_column_precision(column.type);
 	column.is_count = true;
@@ -340,6 +360,26 @@ static int build_table_scafold(struct hashtable *column_types, struct table **ou
 	return MIDORIDB_OK;
 }
 
+/* does this row count? COUNT(<field>) skips rows in which field is NULL */
+static bool counts_row(struct table *table, struct row *row, struct column *count_col)
+{
+	char key[COUNT_NAME_LEN];
+
+	for (int i = 0; i < table->column_count; i++) {
+		if (table->columns[i].is_count)
+			continue;
+
+		memzero(key, sizeof(key));
+		snprintf(key, sizeof(key) - 1, "COUNT(%s)", table->columns[i].name);
+
+		if (strcmp(key, count_col->name) == 0)
+			return !bit_test(row->null_bitmap, i, sizeof(row->null_bitmap));
+	}
+
+	/* COUNT(*) */
+	return true;
+}
+
 static void init_count_cols(struct table *table, struct row *row)
 {
 	struct column *column;
@@ -349,7 +389,7 @@ static void init_count_cols(struct table *table, struct row *row)
 		column = &table->columns[i];
 
 		if (column->is_count) {
-			(*(int64_t*)&row->data[offset]) = 1;
+			(*(int64_t*)&row->data[offset]) = counts_row(table, row, column) ? 1 : 0;
 			bit_clear(row->null_bitmap, i, sizeof(row->null_bitmap));
 		}
 
@@ -1354,7 +1394,7 @@ static int proc_select_clause(struct ast_sel_select_node *node, struct table *ou
 	struct ast_sel_fieldname_node *fld_node;
 	int rem_col[TABLE_MAX_COLUMNS] = {0};
 	int rem_col_idx = -1;
-	char key[FQFIELD_NAME_LEN];
+	char key[COUNT_NAME_LEN];
 	bool found;
 
 	for (int i = 0; i < outtbl->column_count; i++) {
@@ -1379,8 +1419,7 @@ static int proc_select_clause(struct ast_sel_select_node *node, struct table *ou
 				memzero(key, sizeof(key));
 				snprintf(key, sizeof(key) - 1, "%s.%s", fld_node->table_name, fld_node->col_name);
 			} else if (tmp_entry->node_type == AST_TYPE_SEL_COUNT) {
-				memzero(key, sizeof(key));
-				strcpy(key, "COUNT(*)");
+				build_count_key((struct ast_sel_count_node*)tmp_entry, key, sizeof(key));
 			} else {
 				/* nothing to just, just move on */
 				continue;
-- 
2.43.0


From 8d22efc97d0123c73e68a2439a1263d28f4f03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 36/67] fix: listed columns come back in an arbitrary order

---
 include/parser/ast.h          |  2 ++
 src/engine/executor_select.c  | 53 +++++++++++++++++++++++++++++++++--
 src/engine/optimiser_select.c |  2 ++
 3 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8ab7cbc..8cfd04e 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -713,6 +713,8 @@ struct ast_sel_select_node {
 	struct list_head head;
 	/* DISTINCT keyword used */
 	bool distinct;
+	/* every column is selected ? (SELECT *) */
+	bool all;
 };
 
 /* Select Statements - end */
diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index be0b940..3432bd7 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -319,6 +319,16 @@ struct scafold_arg {
 	bool failed;
 };
 
+static bool has_column(struct table *table, char *name)
+{
+	for (int i = 0; i < table->column_count; i++) {
+		if (strcmp(table->columns[i].name, name) == 0)
+			return true;
+	}
+
+	return false;
+}
+
 static void do_build_table_scafold(struct hashtable *hashtable, const void *key, size_t klen, const void *value,
 		size_t vlen, void *arg)
 {
@@ -335,11 +345,46 @@ static void do_build_table_scafold(struct hashtable *hashtable, const void *key,
 	column.precision = ((struct column*)value)->precision;
 	column.is_count = ((struct column*)value)->is_count;
 
+	/* columns that were listed are there already */
+	if (has_column(scafold->table, column.name))
+		return;
+
 	if (!scafold->failed && !table_add_column(scafold->table, &column))
 		scafold->failed = true;
 }
 
-static int build_table_scafold(struct hashtable *column_types, struct table **out_table)
+/* columns that were explicitly listed must come in the order in which they were listed */
+static void build_table_scafold_select(struct ast_sel_select_node *select_node, struct hashtable *column_types,
+		struct scafold_arg *scafold)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_sel_fieldname_node *fld_node;
+	struct hashtable_value *value;
+	char key[COUNT_NAME_LEN];
+
+	list_for_each(pos, select_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		memzero(key, sizeof(key));
+		if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME) {
+			fld_node = (typeof(fld_node))tmp_entry;
+			snprintf(key, sizeof(key) - 1, "%s.%s", fld_node->table_name, fld_node->col_name);
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_COUNT) {
+			build_count_key((struct ast_sel_count_node*)tmp_entry, key, sizeof(key));
+		} else {
+			continue;
+		}
+
+		value = hashtable_get(column_types, key, strlen(key) + 1);
+		if (value)
+			do_build_table_scafold(column_types, key, strlen(key) + 1, value->content, value->len, scafold);
+	}
+}
+
+static int build_table_scafold(struct ast_sel_select_node *select_node, struct hashtable *column_types,
+		struct table **out_table)
 {
 	struct scafold_arg scafold = {0};
 
@@ -349,6 +394,10 @@ static int build_table_scafold(struct hashtable *column_types, struct table **ou
 		return -MIDORIDB_INTERNAL;
 
 	scafold.table = *out_table;
+
+	if (!select_node->all)
+		build_table_scafold_select(select_node, column_types, &scafold);
+
 	hashtable_foreach(column_types, &do_build_table_scafold, &scafold);
 
 	if (scafold.failed) {
@@ -1683,7 +1732,7 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	}
 
 	/* build early-materialisation table structure */
-	if ((ret = build_table_scafold(&cols_ht, &table))) {
+	if ((ret = build_table_scafold(select_node, &cols_ht, &table))) {
 		snprintf(output->error.message, sizeof(output->error.message),
 				"execution phase: cannot build early materialisation table\n");
 		goto err_bld_ht;
diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index ad4eaaa..9460e2e 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -254,6 +254,8 @@ static int replace_simple_expr(struct database *db, struct ast_node *node, struc
 		if ((ret = replace_selectall(db, root, root, output)))
 			return ret;
 
+		((struct ast_sel_select_node*)root)->all = true;
+
 		/* delete selectall node */
 		list_del(&node->head);
 		ast_free(node);
-- 
2.43.0


From 15278b348e2c232d1b283ac1f41b4a7e4ce92b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 37/67] fix: tables that share a column name can't be joined

---
 src/parser/semantic_select.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index cf97186..31bd4a9 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2472,8 +2472,12 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 			memzero(key, sizeof(key));
 			strcpy(key, col_name);
 
+			/* tables can share column names as long as they are qualified when used */
+			if (hashtable_get(ht, key, strlen(key) + 1))
+				continue;
+
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
-				snprintf(out_err, out_err_len, "duplicate column name: '%s'\n", key);
+				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
 				return false;
 			}
 
-- 
2.43.0


From 91cb993be67e1014acbc8fd4cab2d9f1b5d28c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 38/67] fix: SELECTs refused because of their GROUP BY clause
 have no error message

---
 src/parser/semantic_select.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 31bd4a9..2ddbe44 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1589,7 +1589,11 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 	}
 	else if (root->node_type == AST_TYPE_SEL_EXPRVAL
 			|| root->node_type == AST_TYPE_SEL_FIELDNAME) {
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (is_node_in_groupby_clause(root, groupby_node))
+			return true;
+
+		snprintf(out_err, out_err_len, "SELECT list is not in GROUP BY clause\n");
+		return false;
 	}
 	else if (root->node_type == AST_TYPE_SEL_ALIAS) {
 		alias_node = (typeof(alias_node))root;
@@ -1607,7 +1611,11 @@ static bool check_groupby_clause_inselect(struct ast_node *root, struct ast_node
 				return true;
 		}
 
-		return is_node_in_groupby_clause(root, groupby_node);
+		if (is_node_in_groupby_clause(root, groupby_node))
+			return true;
+
+		snprintf(out_err, out_err_len, "SELECT list is not in GROUP BY clause\n");
+		return false;
 	}
 	/* recursion */
 	else {
@@ -1710,8 +1718,10 @@ static bool check_groupby_clause(struct ast_node *root, char *out_err, size_t ou
 		 * 	SELECT f1, COUNT(f2) FROM B;  (should fail as f1 must be in the group-by clause)
 		 */
 		check_aggr_inselect_nogroupby(root, out_err, out_err_len, column_alias, &out_stats);
-		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0)
+		if (out_stats.no_count_fnc > 0 && out_stats.no_raw_fields > 0) {
+			snprintf(out_err, out_err_len, "fields alongside COUNT() must be in the GROUP BY clause\n");
 			return false;
+		}
 
 	}
 
-- 
2.43.0


From 435fe31d3094c53262cc2a273b7fbaad419548c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:04 +0000
Subject: [PATCH 39/67] fix: SELECT refuses dates and combinations of IS NULL
 with other predicates

---
 src/parser/semantic_select.c | 52 +++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 2ddbe44..ce68fb2 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2142,6 +2142,34 @@ struct sem_check_val_types {
 	enum COLUMN_TYPE type;
 };
 
+/* strings can be interpreted as DATE and DATETIME when they are compared with fields of these types */
+static bool is_date_literal(struct ast_node *node, struct sem_check_val_types *other)
+{
+	struct ast_sel_exprval_node *val_node;
+
+	if (node->node_type != AST_TYPE_SEL_EXPRVAL || (other->type != CT_DATE && other->type != CT_DATETIME))
+		return false;
+
+	val_node = (typeof(val_node))node;
+
+	return val_node->value_type.is_str && try_parse_date_type(val_node->str_val, other->type);
+}
+
+static bool is_same_type(struct sem_check_val_types *left, struct sem_check_val_types *right, char *out_err,
+		size_t out_err_len)
+{
+	/* whoever found them to be invalid must have said why */
+	if (left->invalid || right->invalid)
+		return false;
+
+	if (left->none != right->none || left->null != right->null || left->type != right->type) {
+		snprintf(out_err, out_err_len, "operands must have the same type\n");
+		return false;
+	}
+
+	return true;
+}
+
 static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node *cmp_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
 	struct sem_check_val_types ret = {0};
@@ -2150,6 +2178,7 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 	int i = 0;
 
 	struct ast_node *tmp_entry = NULL;
+	struct ast_node *left_node = NULL, *right_node = NULL;
 	struct list_head *pos;
 
 	/* sanity check */
@@ -2160,13 +2189,20 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
 		if (i == 0) {
+			left_node = tmp_entry;
 			left = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		} else {
+			right_node = tmp_entry;
 			right = __check_value_types(tmp_entry, ht, out_err, out_err_len);
 		}
 		i++;
 	}
 
+	if (left.invalid || right.invalid) {
+		ret.invalid = true;
+		return ret;
+	}
+
 	// NULL has a special set of rules
 	if (left.null || right.null) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
@@ -2178,15 +2214,22 @@ static struct sem_check_val_types check_value_types_cmp(struct ast_sel_cmp_node
 		return ret;
 	}
 
+	// DATE and DATETIME have a special set of rules
+	if (is_date_literal(left_node, &right) || is_date_literal(right_node, &left)) {
+		ret.type = CT_TINYINT;
+		return ret;
+	}
+
 	// VARCHAR has a special set of rules
 	if (left.type == CT_VARCHAR || right.type == CT_VARCHAR) {
 		if (cmp_node->cmp_type != AST_CMP_EQUALS_OP && cmp_node->cmp_type != AST_CMP_DIFF_OP) {
 			snprintf(out_err, out_err_len, "VARCHAR values can only use '=' or '<>' ops\n");
 			ret.invalid = true;
+			return ret;
 		}
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!is_same_type(&left, &right, out_err, out_err_len)) {
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // CMP resolves into a Boolean value
@@ -2220,7 +2263,7 @@ static struct sem_check_val_types check_value_types_exprop(struct ast_sel_exprop
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!is_same_type(&left, &right, out_err, out_err_len)) {
 		ret.invalid = true;
 	} else {
 		ret = left;
@@ -2253,7 +2296,7 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 		i++;
 	}
 
-	if (memcmp(&left, &right, sizeof(left))) {
+	if (!is_same_type(&left, &right, out_err, out_err_len)) {
 		ret.invalid = true;
 	} else {
 		ret.type = CT_TINYINT; // LOGOP resolves into a Boolean value
@@ -2413,6 +2456,9 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	} else if (node->node_type == AST_TYPE_SEL_EXPRISXIN) {
 		return check_value_types_isxin((struct ast_sel_isxin_node*)node, ht, out_err, out_err_len);
+	} else if (node->node_type == AST_TYPE_SEL_EXPRISXNULL || node->node_type == AST_TYPE_SEL_LIKE) {
+		ret.type = CT_TINYINT; // both resolve into a Boolean value
+		return ret;
 	}
 
 	// recursion
-- 
2.43.0


From ec895f49f8d70bb48fe9808fdf216c1d265a7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:11 +0000
Subject: [PATCH 40/67] fix: statements with unsupported syntax end the process

---
 src/parser/ast_create.c | 2 +-
 src/parser/ast_delete.c | 2 +-
 src/parser/ast_insert.c | 2 +-
 src/parser/ast_select.c | 2 +-
 src/parser/ast_update.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 8683f9f..103aaa1 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -347,7 +347,7 @@ struct ast_node* ast_create_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 38f42ac..3a0a6c5 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -401,7 +401,7 @@ struct ast_node* ast_delete_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 7bf1eaf..5f61f06 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -433,7 +433,7 @@ struct ast_node* ast_insert_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index c0d92ba..fc5e4da 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -1111,7 +1111,7 @@ struct ast_node* ast_select_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index ecc23f6..8f57eaa 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -460,7 +460,7 @@ struct ast_node* ast_update_build_tree(struct queue *parser)
 			break;
 		} else {
 			fprintf(stderr, "%s: %s handler not implement yet\n", __func__, str);
-			exit(1);
+			goto err_push_node;
 		}
 
 		if (!curr)
-- 
2.43.0


From 3d40ff366f2184d109d1b70a431abfe782e37b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 41/67] fix: empty, double-quoted and long strings are refused
 or truncated

---
 src/parser/ast_delete.c |  2 +-
 src/parser/ast_insert.c |  2 +-
 src/parser/ast_select.c |  2 +-
 src/parser/ast_update.c |  2 +-
 src/parser/midorisql.y  | 21 ++++++++++++++++-----
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 3a0a6c5..056eaf3 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -138,7 +138,7 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_DEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
diff --git a/src/parser/ast_insert.c b/src/parser/ast_insert.c
index 5f61f06..9e52340 100644
--- a/src/parser/ast_insert.c
+++ b/src/parser/ast_insert.c
@@ -134,7 +134,7 @@ static struct ast_ins_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_INS_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_INS_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index fc5e4da..cf109f3 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -41,7 +41,7 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_SEL_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index 8f57eaa..c2310c5 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -189,7 +189,7 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		reg_exp = "NUMBER (-{0,1}[0-9]+)";
 	} else if (type == AST_UPD_EXPR_VAL_STRING) {
 		node->value_type.is_str = true;
-		reg_exp = "STRING '(.+)'";
+		reg_exp = "STRING ['\"](.*)['\"]";
 	} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 		node->value_type.is_approxnum = true;
 		reg_exp = "FLOAT (-{0,1}[0-9\\.]+(e[-+][0-9]+){0,1})";
diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 3dfc24e..7e3bd5a 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -516,13 +516,24 @@ void yyerror(struct queue *q, void* scanner, const char *s, ...)
 
 bool emit_token(struct queue *q, char *s, ...)
 {
-	char buf[256];
+	char *buf;
 	va_list ap;
-	
-	memzero(buf, sizeof(buf));
+	int len;
+	bool ret;
+
 	va_start(ap, s);
-	vsnprintf(buf,sizeof(buf), s, ap);
+	len = vsnprintf(NULL, 0, s, ap);
 	va_end(ap);
 
-	return queue_offer(q, buf, strlen(buf) + 1);
+	if (len < 0 || !(buf = malloc(len + 1)))
+		return false;
+
+	va_start(ap, s);
+	vsnprintf(buf, len + 1, s, ap);
+	va_end(ap);
+
+	ret = queue_offer(q, buf, len + 1);
+	free(buf);
+
+	return ret;
 }
-- 
2.43.0


From 43cdaac2ab5e897e93868107ccc8bdf338ab41d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 42/67] fix: columns named count can't be used

---
 src/parser/midorisql.l | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 2772156..9736f07 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -152,10 +152,7 @@ B'[01]+'     { yylval->strval = dup_token(yytext, yyextra); return STRING; }
 	/* 
          * peek ahead and return function if name(
          */
-COUNT    { int c = input(yyscanner); unput(c);
-           if(c == '(') {return FCOUNT;}
-           yylval->strval = dup_token(yytext, yyextra);
-           return NAME; }
+COUNT/"("    { return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = dup_token(yytext, yyextra);
                           return NAME; }
-- 
2.43.0


From 526af3f62cbc50ce9921513da5a72efaa5a302c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 43/67] fix: SELECTs that use IN, IS NULL and aliases oddly end
 the process

---
 src/parser/semantic_select.c | 91 +++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index ce68fb2..981ca96 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -259,7 +259,7 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 						((struct alias_value*)table_lookup->content)->table_name,
 						0,
 						sizeof(value.table_name));
-				} else if (database_table_exists(db, value.table_name)) {
+				} else if (database_table_exists(db, field_node->table_name)) {
 					/* query contains full qualified name <table>.<column>. keep it as it is */
 					memccpy(value.table_name, field_node->table_name, 0, sizeof(value.table_name));
 				} else {
@@ -271,8 +271,8 @@ static bool check_column_alias(struct database *db, struct ast_node *root, char
 				/* table nodes are not used in this validation, so just move on */
 				continue;
 			} else {
-				/* is there an edge case that I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len, "only fields, expressions and values can have an alias\n");
+				return false;
 			}
 
 			/* is the name valid? column aliases follow table nomenclature rules */
@@ -2051,6 +2051,7 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 	struct ast_sel_exprval_node *val_node;
 	struct ast_node *tmp_entry;
 	int field_count;
+	bool first = true;
 
 	// base case
 	if (root->node_type == AST_TYPE_SEL_EXPRISXIN) {
@@ -2081,6 +2082,14 @@ static bool check_isxin_entries(struct ast_node *root, char *out_err, size_t out
 				snprintf(out_err, out_err_len, "Fields aren't allowed on IN-clauses\n");
 				return false;
 			}
+
+			/* what is looked for has to be that field */
+			if (first && field_count == 0) {
+				snprintf(out_err, out_err_len, "only fields are allowed on the left side of IN-clauses\n");
+				return false;
+			}
+
+			first = false;
 		}
 	} else {
 		list_for_each(pos, root->node_children_head)
@@ -2118,8 +2127,8 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 					return false;
 				}
 			} else if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME) {
-				/* something I haven't foreseen */
-				BUG_GENERIC();
+				snprintf(out_err, out_err_len, "only fields are allowed in IS NULL|IS NOT NULL\n");
+				return false;
 			}
 
 		}
@@ -2306,16 +2315,19 @@ static struct sem_check_val_types check_value_types_logop(struct ast_sel_logop_n
 
 static struct sem_check_val_types check_value_types_fieldname(struct ast_sel_fieldname_node *field_node, struct hashtable *ht, char *out_err, size_t out_err_len)
 {
-	UNUSED(out_err);
-	UNUSED(out_err_len);
-
 	struct sem_check_val_types ret = {0};
 	struct hashtable_value *ht_value;
 	char key[FQFIELD_NAME_LEN] = {0};
 
 	snprintf(key, sizeof(key) - 1, "%s.%s", field_node->table_name, field_node->col_name);
 	ht_value = hashtable_get(ht, key, strlen(key) + 1);
-	BUG_ON(!ht_value); // sanity check
+	if (!ht_value) {
+		/* tables that have an alias can't be referred to by their names */
+		snprintf(out_err, out_err_len, "no such column: '%.128s'.'%.128s'\n", field_node->table_name,
+				field_node->col_name);
+		ret.invalid = true;
+		return ret;
+	}
 	ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	return ret;
@@ -2351,7 +2363,11 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 				ht_value = hashtable_get(ht, key, strlen(key) + 1);
 			}
 
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column on the left side of the IN-clause\n");
+				goto err;
+			}
+
 			expected_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
 			// sanity check
@@ -2394,7 +2410,7 @@ static struct sem_check_val_types check_value_types_isxin(struct ast_sel_isxin_n
 							val_node->bool_val);
 					goto err;
 				}
-			} else {
+			} else if (!val_node->value_type.is_null) {
 				/* maybe new column type? */
 				BUG_GENERIC();
 			}
@@ -2426,7 +2442,11 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 
 		if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value); // sanity check
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				ret.invalid = true;
+				return ret;
+			}
 			ret.type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else if (val_node->value_type.is_approxnum) {
 			ret.type = CT_DOUBLE;
@@ -2552,7 +2572,8 @@ static bool build_column_value_types_ht(struct database *db, struct ast_node *no
 	return true;
 }
 
-static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_sel_alias_node *alias_node, struct hashtable *ht, char *out_err, size_t out_err_len)
+static bool extract_alias_types(struct ast_node *node, struct hashtable *ht, enum COLUMN_TYPE *col_type, char *out_err,
+		size_t out_err_len)
 {
 	struct list_head *pos;
 	struct ast_node *tmp_entry;
@@ -2560,27 +2581,29 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 	struct ast_sel_fieldname_node *field_node;
 	struct hashtable_value *ht_value;
 	char lookup_key[FQFIELD_NAME_LEN] = {0};
-	enum COLUMN_TYPE col_type = 0;
 
 	if (node->node_type == AST_TYPE_SEL_EXPRVAL) {
 		val_node = (typeof(val_node))node;
 
 		if (val_node->value_type.is_intnum) {
-			col_type = CT_INTEGER;
+			*col_type = CT_INTEGER;
 		} else if (val_node->value_type.is_approxnum) {
-			col_type = CT_DOUBLE;
+			*col_type = CT_DOUBLE;
 		} else if (val_node->value_type.is_bool) {
-			col_type = CT_TINYINT;
+			*col_type = CT_TINYINT;
 		} else if (val_node->value_type.is_str) {
-			col_type = CT_VARCHAR;
+			*col_type = CT_VARCHAR;
 		} else if (val_node->value_type.is_name) {
 			ht_value = hashtable_get(ht, val_node->name_val, strlen(val_node->name_val) + 1);
-			BUG_ON(!ht_value);
+			if (!ht_value) {
+				snprintf(out_err, out_err_len, "no such column: '%.128s'\n", val_node->name_val);
+				return false;
+			}
 
-			col_type = *(enum COLUMN_TYPE*)ht_value->content;
+			*col_type = *(enum COLUMN_TYPE*)ht_value->content;
 		} else {
-			// most likely a new column type has been added
-			BUG_GENERIC();
+			snprintf(out_err, out_err_len, "only fields, expressions and values can have an alias\n");
+			return false;
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_EXPROP) {
@@ -2589,13 +2612,13 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
-			break; /* single instance is fine as they are supposed to match type-wise */
+			/* single instance is fine as they are supposed to match type-wise */
+			return extract_alias_types(tmp_entry, ht, col_type, out_err, out_err_len);
 		}
 
 	} else if (node->node_type == AST_TYPE_SEL_COUNT) {
 		/* COUNT function such as SELECT COUNT(f1) as val FROM a; */
-		col_type = CT_INTEGER;
+		*col_type = CT_INTEGER;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
 		field_node = (typeof(field_node))node;
 
@@ -2604,17 +2627,20 @@ static enum COLUMN_TYPE extract_alias_types(struct ast_node *node, struct ast_se
 				field_node->col_name);
 
 		ht_value = hashtable_get(ht, lookup_key, strlen(lookup_key) + 1);
-		BUG_ON(!ht_value);
+		if (!ht_value) {
+			snprintf(out_err, out_err_len, "no such column: '%.128s'.'%.128s'\n", field_node->table_name,
+					field_node->col_name);
+			return false;
+		}
 
-		col_type = *(enum COLUMN_TYPE*)ht_value->content;
+		*col_type = *(enum COLUMN_TYPE*)ht_value->content;
 
 	} else {
-		/* is there an edge case that I haven't foreseen */
-		BUG_GENERIC();
+		snprintf(out_err, out_err_len, "only fields, expressions and values can have an alias\n");
+		return false;
 	}
 
-	return col_type;
-
+	return true;
 }
 
 static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *ht, char *out_err, size_t out_err_len)
@@ -2638,7 +2664,8 @@ static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *
 			}
 
 			strcpy(key, alias_node->alias_value);
-			col_type = extract_alias_types(tmp_entry, alias_node, ht, out_err, out_err_len);
+			if (!extract_alias_types(tmp_entry, ht, &col_type, out_err, out_err_len))
+				return false;
 
 			if (!hashtable_put(ht, key, strlen(key) + 1, &col_type, sizeof(col_type))) {
 				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
-- 
2.43.0


From dc5c69e2a2f35a65e49b501443296080195fb7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:18 +0000
Subject: [PATCH 44/67] fix: fields of tables listed next to a JOIN are refused

---
 src/parser/semantic_select.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 981ca96..7ba9674 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1448,11 +1448,15 @@ static bool check_join_on_fields(struct database *db, struct ast_node *node, str
 
 static bool check_from_clause(struct database *db, struct ast_node *root, char *out_err, size_t out_err_len)
 {
+	struct list_head *pos;
 	struct ast_node *join_node;
 
-	join_node = find_node(root, AST_TYPE_SEL_JOIN);
+	list_for_each(pos, root->node_children_head)
+	{
+		join_node = list_entry(pos, typeof(*join_node), head);
 
-	if (join_node) {
+		if (join_node->node_type != AST_TYPE_SEL_JOIN)
+			continue;
 
 		if (!check_join_on_expr(join_node, root, out_err, out_err_len))
 			return false;
@@ -1462,7 +1466,7 @@ static bool check_from_clause(struct database *db, struct ast_node *root, char *
 			return false;
 
 		/* check if fields/aliases on JOIN ON expression */
-		if (!check_join_on_fields(db, root, (struct ast_sel_join_node*)join_node, out_err, out_err_len))
+		if (!check_join_on_fields(db, join_node, (struct ast_sel_join_node*)join_node, out_err, out_err_len))
 			return false;
 	}
 
-- 
2.43.0


From 63a1ebc6791d9119a077e5c3ac0934b38e979c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:36 +0000
Subject: [PATCH 45/67] fix: SELECTs that can't be executed end the process or
 return wrong rows

---
 src/engine/executor_select.c | 135 +++++++++++++++++++++++++++++++++++
 1 file changed, 135 insertions(+)

diff --git a/src/engine/executor_select.c b/src/engine/executor_select.c
index 3432bd7..bfab02a 100644
--- a/src/engine/executor_select.c
+++ b/src/engine/executor_select.c
@@ -1711,6 +1711,136 @@ static int handle_countonly_case(struct table *table)
 	return proc_groupby_clause(NULL, table);
 }
 
+/* can conditions of this WHERE-clause/ON expression be evaluated? */
+static bool can_eval_cond(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_sel_exprval_node *val_node;
+	bool has_field = false;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		val_node = (typeof(val_node))tmp_entry;
+
+		switch (node->node_type) {
+		case AST_TYPE_SEL_WHERE:
+		case AST_TYPE_SEL_ONEXPR:
+		case AST_TYPE_SEL_LOGOP:
+			if (tmp_entry->node_type != AST_TYPE_SEL_LOGOP
+					&& tmp_entry->node_type != AST_TYPE_SEL_CMP
+					&& tmp_entry->node_type != AST_TYPE_SEL_EXPRISXIN
+					&& tmp_entry->node_type != AST_TYPE_SEL_EXPRISXNULL)
+				return false;
+
+			if (!can_eval_cond(tmp_entry))
+				return false;
+			break;
+		case AST_TYPE_SEL_CMP:
+		case AST_TYPE_SEL_EXPRISXIN:
+		case AST_TYPE_SEL_EXPRISXNULL:
+			if (tmp_entry->node_type == AST_TYPE_SEL_FIELDNAME)
+				has_field = true;
+			/* whatever is still a name is an alias of something that hasn't been evaluated */
+			else if (tmp_entry->node_type != AST_TYPE_SEL_EXPRVAL || val_node->value_type.is_name)
+				return false;
+			break;
+		default:
+			return false;
+		}
+	}
+
+	return has_field || (node->node_type != AST_TYPE_SEL_EXPRISXIN && node->node_type != AST_TYPE_SEL_EXPRISXNULL);
+}
+
+static bool can_join(struct ast_sel_join_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	bool has_onexpr = false;
+
+	if (node->join_type != AST_SEL_JOIN_INNER)
+		return false;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR) {
+			has_onexpr = true;
+
+			if (!can_eval_cond(tmp_entry))
+				return false;
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
+			if (!can_join((struct ast_sel_join_node*)tmp_entry))
+				return false;
+		} else if (tmp_entry->node_type != AST_TYPE_SEL_TABLE) {
+			return false;
+		}
+	}
+
+	return has_onexpr;
+}
+
+static bool can_group(struct ast_node *node)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type != AST_TYPE_SEL_FIELDNAME)
+			return false;
+	}
+
+	return true;
+}
+
+/* there are valid statements that can't be executed just yet */
+static bool can_execute(struct ast_sel_select_node *select_node, struct query_output *output)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	const char *reason = NULL;
+
+	list_for_each(pos, select_node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		switch (tmp_entry->node_type) {
+		case AST_TYPE_SEL_EXPRVAL:
+		case AST_TYPE_SEL_EXPROP:
+		case AST_TYPE_SEL_ALIAS:
+			reason = "only fields and COUNT are supported in the SELECT-clause";
+			break;
+		case AST_TYPE_SEL_JOIN:
+			if (!can_join((struct ast_sel_join_node*)tmp_entry))
+				reason = "only INNER JOINs that compare fields and values are supported";
+			break;
+		case AST_TYPE_SEL_WHERE:
+			if (!can_eval_cond(tmp_entry))
+				reason = "only comparisons of fields and values, IN and IS NULL are supported in the WHERE-clause";
+			break;
+		case AST_TYPE_SEL_GROUPBY:
+			if (!can_group(tmp_entry))
+				reason = "only fields are supported in the GROUPBY-clause";
+			break;
+		default:
+			break;
+		}
+
+		if (reason) {
+			snprintf(output->error.message, sizeof(output->error.message), "execution phase: %s\n", reason);
+			return false;
+		}
+	}
+
+	return true;
+}
+
 int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *select_node, struct query_output *output)
 {
 	struct hashtable cols_ht = {0};
@@ -1718,6 +1848,11 @@ int executor_run_select_stmt(struct database *db, struct ast_sel_select_node *se
 	struct ast_node *where_node, *groupby_node;
 	int ret = MIDORIDB_OK;
 
+	if (!can_execute(select_node, output)) {
+		ret = -MIDORIDB_ERROR;
+		goto err;
+	}
+
 	if (!hashtable_init(&cols_ht, &hashtable_str_compare, &hashtable_str_hash)) {
 		snprintf(output->error.message, sizeof(output->error.message), "execution phase: internal error\n");
 		ret = -MIDORIDB_INTERNAL;
-- 
2.43.0


From c01dca940eb6b1bbad9f2f362dd6a30e821ff8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:37 +0000
Subject: [PATCH 46/67] fix: ON expressions use columns of tables that aren't
 being joined

---
 src/engine/optimiser_select.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 9460e2e..4ce18ac 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -237,15 +237,19 @@ err:
 	return -MIDORIDB_NOMEM;
 }
 
-static int replace_simple_expr(struct database *db, struct ast_node *node, struct ast_node *root,
+static int replace_simple_expr(struct database *db, struct ast_node *node, struct ast_node *root, struct ast_node *scope,
 		struct query_output *output, struct hashtable *out_tbl_alias, struct hashtable *out_col_alias)
 {
 	struct list_head *pos, *tmp_pos;
 	struct ast_node *tmp_entry;
 	int ret;
 
+	/* names used in ON expressions are names of columns of the tables being joined and nothing else */
+	if (node->node_type == AST_TYPE_SEL_JOIN)
+		scope = node;
+
 	if (node->node_type == AST_TYPE_SEL_EXPRVAL) {
-		if ((ret = replace_expr_name(db, node, root, output, out_col_alias)))
+		if ((ret = replace_expr_name(db, node, scope, output, out_col_alias)))
 			return ret;
 	} else if (node->node_type == AST_TYPE_SEL_FIELDNAME) {
 		if ((ret = replace_fieldname(db, node, out_tbl_alias)))
@@ -264,7 +268,7 @@ static int replace_simple_expr(struct database *db, struct ast_node *node, struc
 		{
 			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
 
-			if ((ret = replace_simple_expr(db, tmp_entry, root, output, out_tbl_alias, out_col_alias)))
+			if ((ret = replace_simple_expr(db, tmp_entry, root, scope, output, out_tbl_alias, out_col_alias)))
 				return ret;
 		}
 	}
@@ -552,8 +556,8 @@ int optimiser_run_select_stmt(struct database *db, struct ast_sel_select_node *n
 
 	/* Replace every exprval (name) with a fieldname using the full-qualified column format
 	 * so that executor's code becomes "less" complicated. */
-	if ((ret = replace_simple_expr(db, (struct ast_node*)node, (struct ast_node*)node, output, &table_alias,
-					&column_alias)))
+	if ((ret = replace_simple_expr(db, (struct ast_node*)node, (struct ast_node*)node, (struct ast_node*)node, output,
+					&table_alias, &column_alias)))
 		goto cleanup_tbl_ht;
 
 	/* remove table aliases as they are no longer useful */
-- 
2.43.0


From 1b50eccbf9e5c6c16e432434271e8d81022a6756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:59 +0000
Subject: [PATCH 47/67] fix: CREATE TABLE forgets indexes and leaks tables that
 it failed to add

---
 src/engine/executor_create.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index da4ad76..1f44bd2 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -23,7 +23,9 @@ static void add_index(struct ast_crt_index_def_node *idx_def_node, struct table
 			col = &table->columns[i];
 
 			if (strncmp(col->name, entry->name, sizeof(col->name)) == 0) {
-				col->indexed = idx_def_node->is_index;
+				/* the same column can be part of several index definitions */
+				if (idx_def_node->is_index)
+					col->indexed = true;
 
 				/*
 				 * When primary key is defined after the column definition,
@@ -91,12 +93,20 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 		if (entry->node_type == AST_TYPE_CRT_COLUMNDEF) {
 			if ((rc = add_column((struct ast_crt_column_def_node*)entry, table)))
 				goto err_add_col;
-		} else if (entry->node_type == AST_TYPE_CRT_INDEXDEF) {
-			add_index((struct ast_crt_index_def_node*)entry, table);
 		}
 	}
 
-	rc = database_table_add(db, table);
+	/* indexes can be defined before the columns that they refer to */
+	list_for_each(pos, create_node->node_children_head)
+	{
+		entry = list_entry(pos, typeof(*entry), head);
+
+		if (entry->node_type == AST_TYPE_CRT_INDEXDEF)
+			add_index((struct ast_crt_index_def_node*)entry, table);
+	}
+
+	if ((rc = database_table_add(db, table)))
+		goto err_add_tbl;
 
 early_ret:
 	output->n_rows_aff = 0;
@@ -104,9 +114,9 @@ early_ret:
 
 	return rc;
 
+err_add_tbl:
 err_add_col:
-	//TODO free columns added so far
-	free(table);
+	table_destroy(&table);
 err_tbl_init:
 	database_unlock(db);
 err:
-- 
2.43.0


From ff540f745688be170ebef9c26cbef88b925e1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 48/67] fix: CREATE TABLE leaks its columns when it runs out of
 memory

---
 src/parser/ast_create.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/ast_create.c b/src/parser/ast_create.c
index 103aaa1..d2701fa 100644
--- a/src/parser/ast_create.c
+++ b/src/parser/ast_create.c
@@ -108,8 +108,7 @@ static struct ast_crt_column_def_node* __must_check build_columndef_node(struct
 err_regex:
 	stack_free(&tmp_st);
 err_stack_init:
-	if (!str)
-		free(str);
+	free(str);
 	free(node->node_children_head);
 err_head:
 	free(node);
-- 
2.43.0


From 9737dca1108b54d8d5979554a74cfcc3c2da9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:05 +0000
Subject: [PATCH 49/67] fix: SELECT of several tables frees the wrong nodes
 when it runs out of memory

---
 src/engine/optimiser_select.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/optimiser_select.c b/src/engine/optimiser_select.c
index 4ce18ac..efa2c06 100644
--- a/src/engine/optimiser_select.c
+++ b/src/engine/optimiser_select.c
@@ -454,18 +454,18 @@ int wrap_on_join_node(struct ast_node *left, struct ast_node *right)
 err_head:
 	free(join_node);
 err_node:
-err_onexpr:
 	/*ast_node is recursive so it will take care of cmp_node */
 	ast_free((struct ast_node*)onexpr_node);
 	return -MIDORIDB_INTERNAL;
-err_cmp:
+err_onexpr:
 	/*ast_node is recursive so it will take care of exprval */
 	ast_free((struct ast_node*)cmp_node);
 	return -MIDORIDB_INTERNAL;
-err_val_2:
+err_cmp:
 	ast_free((struct ast_node*)val_node_2);
-err_val_1:
+err_val_2:
 	ast_free((struct ast_node*)val_node_1);
+err_val_1:
 	return -MIDORIDB_INTERNAL;
 }
 
-- 
2.43.0


From 55e7e539d1b93650391b2f19d388e0c106b4bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:11 +0000
Subject: [PATCH 50/67] fix: ON expressions take the types of columns of tables
 that aren't being joined

---
 src/parser/semantic_select.c | 42 +++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 7ba9674..baa7e29 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -2485,6 +2485,12 @@ static struct sem_check_val_types __check_value_types(struct ast_node *node, str
 		return ret;
 	}
 
+	// ON expressions can only see the tables being joined - see check_value_types_join
+	else if (node->node_type == AST_TYPE_SEL_JOIN) {
+		ret.none = true;
+		return ret;
+	}
+
 	// recursion
 	else {
 		list_for_each(pos, node->node_children_head)
@@ -2690,6 +2696,39 @@ static bool build_alias_value_types_ht(struct ast_node *node, struct hashtable *
 	return true;
 }
 
+static bool check_value_types_join(struct database *db, struct ast_node *node, char *out_err, size_t out_err_len)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct hashtable ht = {0};
+	bool valid = true;
+
+	list_for_each(pos, node->node_children_head)
+	{
+		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+		if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
+			valid = check_value_types_join(db, tmp_entry, out_err, out_err_len);
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_ONEXPR && node->node_type == AST_TYPE_SEL_JOIN) {
+			if (!hashtable_init(&ht, &hashtable_str_compare, &hashtable_str_hash)) {
+				snprintf(out_err, out_err_len, "semantic phase: internal error\n");
+				return false;
+			}
+
+			valid = build_column_value_types_ht(db, node, NULL, &ht, out_err, out_err_len)
+					&& !__check_value_types(tmp_entry, &ht, out_err, out_err_len).invalid;
+
+			hashtable_foreach(&ht, &free_hashmap_entries, NULL);
+			hashtable_free(&ht);
+		}
+
+		if (!valid)
+			return false;
+	}
+
+	return true;
+}
+
 static bool check_value_types(struct database *db, struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	bool valid = true;
@@ -2711,7 +2750,8 @@ static bool check_value_types(struct database *db, struct ast_node *root, char *
 		goto err_build_ht;
 	}
 
-	valid = __check_value_types(root, &ht, out_err, out_err_len).invalid == false;
+	valid = __check_value_types(root, &ht, out_err, out_err_len).invalid == false
+			&& check_value_types_join(db, root, out_err, out_err_len);
 
 err_build_ht:
 	/* clean up */
-- 
2.43.0


From 9ca120f0c7ef483804442cee317ce3cef3d2e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:56 +0000
Subject: [PATCH 51/67] fix: B-tree lookups found keys that were removed
 already

---
 src/datastructure/btree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 7e064ae..71ad0cd 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -73,7 +73,8 @@ static struct btree_node_tuple* btree_search(struct btree_head *head, struct btr
 	while (i < node->key_count && head->cmp_fn(key, node->keys[i].key) > 0)
 		i++;
 
-	if (node->keys[i].key && head->cmp_fn(node->keys[i].key, key) == 0)
+	/* slots beyond the last key may still hold what used to be there */
+	if (i < node->key_count && head->cmp_fn(node->keys[i].key, key) == 0)
 		return &node->keys[i];
 
 	if (node->is_leaf)
-- 
2.43.0


From a2eca790da6e3b484d5b7f4b196dc21a52a7b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:57 +0000
Subject: [PATCH 52/67] fix: merging B-tree nodes could run out of memory
 halfway and lose keys

---
 src/datastructure/btree.c | 51 ++++++---------------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/src/datastructure/btree.c b/src/datastructure/btree.c
index 71ad0cd..282cb00 100644
--- a/src/datastructure/btree.c
+++ b/src/datastructure/btree.c
@@ -147,40 +147,6 @@ err_node:
 	return NULL;
 }
 
-static int __must_check btree_node_copy(struct btree_head *head, struct btree_node *dst, struct btree_node *src)
-{
-
-	int max_degree = btree_max_degree(head) + 1 /* sentinel node */;
-
-	dst->is_leaf = src->is_leaf;
-	dst->key_count = src->key_count;
-
-	if (!(dst->keys = calloc(max_degree, sizeof(struct btree_node_tuple))))
-		goto err;
-
-	memcpy(dst->keys, src->keys, max_degree * sizeof(struct btree_node_tuple));
-
-	if (!(dst->children = calloc(max_degree, sizeof(struct btree_node))))
-		goto err_children;
-
-	if (!src->is_leaf) {
-		for (int i = 0; i <= src->key_count; i++) {
-			if (btree_node_copy(head, &dst->children[i], &src->children[i]) != 0)
-				goto err_recur;
-		}
-	}
-
-	return 0;
-
-err_recur:
-	free(dst->children);
-err_children:
-	free(dst->keys);
-err:
-	printf("error while allocating mem");
-	return -MIDORIDB_NOMEM;
-}
-
 static int __must_check btree_split_child(struct btree_head *head, struct btree_node *x, int i)
 {
 	struct btree_node *y;
@@ -358,7 +324,6 @@ static struct btree_node_tuple btree_node_get_successor(struct btree_node *node,
 
 static int __must_check btree_node_merge(struct btree_head *head, struct btree_node *node, int idx)
 {
-	int ret = 0;
 	struct btree_node *child, *sibling;
 
 	child = &node->children[idx];
@@ -374,20 +339,18 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 		memzero(&sibling->keys[i], sizeof(struct btree_node_tuple));
 	}
 
-	// Copying the child pointers from C[idx+1] to C[idx]
+	// Moving the children from C[idx+1] to C[idx]
 	if (!child->is_leaf) {
-		for (int i = 0; i <= sibling->key_count; ++i) {
-			if ((ret = btree_node_copy(head, &child->children[i + head->min_degree], &sibling->children[i]))
-					!= 0)
-				return ret;
-		}
+		for (int i = 0; i <= sibling->key_count; ++i)
+			child->children[i + head->min_degree] = sibling->children[i];
 	}
 
 	// Updating the key count of child and the current node
 	child->key_count += sibling->key_count + 1;
 
-	// Freeing the memory occupied by sibling
-	__btree_destroy(head, sibling);
+	// Freeing the memory occupied by sibling - its children belong to C[idx] now
+	free(sibling->children);
+	free(sibling->keys);
 
 	// Moving all keys after idx in the current node one step before -
 	// to fill the gap created by moving keys[idx] to C[idx]
@@ -404,7 +367,7 @@ static int __must_check btree_node_merge(struct btree_head *head, struct btree_n
 
 	node->key_count--;
 
-	return ret;
+	return 0;
 }
 
 // A function to remove the idx-th key from this node - which is a non-leaf node
-- 
2.43.0


From a504e95c697004ce5c60950ecfb5011aa1fec248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 53/67] fix: popping from an empty stack terminated the process
 instead of returning NULL

---
 src/datastructure/stack.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datastructure/stack.c b/src/datastructure/stack.c
index 1fbf79f..f2a9c13 100644
--- a/src/datastructure/stack.c
+++ b/src/datastructure/stack.c
@@ -93,7 +93,10 @@ uintptr_t* stack_pop(struct stack *stack)
 	uintptr_t *ptr;
 
 	/* sanity checks */
-	BUG_ON(!stack || stack_empty(stack));
+	BUG_ON(!stack);
+
+	if (stack_empty(stack))
+		return NULL;
 
 	ptr = *((uintptr_t**)(stack->arr->data + stack->idx * sizeof(uintptr_t)));
 	stack->idx--;
-- 
2.43.0


From cca35aeba2562a90c39533542091da0b41bb56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 54/67] fix: dates followed by other text and days that don't
 exist were accepted

---
 include/primitive/column.h   | 11 +++++++++++
 src/engine/executor_insert.c | 15 +++++----------
 src/parser/semantic_delete.c | 23 ++---------------------
 src/parser/semantic_insert.c | 23 ++---------------------
 src/parser/semantic_select.c | 23 ++---------------------
 src/parser/semantic_update.c | 23 ++---------------------
 src/primitive/column.c       | 24 ++++++++++++++++++++++++
 7 files changed, 48 insertions(+), 94 deletions(-)

diff --git a/include/primitive/column.h b/include/primitive/column.h
index 7ddb56d..00320b0 100644
--- a/include/primitive/column.h
+++ b/include/primitive/column.h
@@ -76,6 +76,17 @@ bool table_add_column(struct table *table, struct column *column);
  */
 bool table_rem_column(struct table *table, struct column *column);
 
+/**
+ * table_parse_date - parse the text of a date or of a date and time
+ *
+ * @str: NUL-terminated text to be parsed
+ * @type: either CT_DATE or CT_DATETIME
+ * @out: broken-down time
+ *
+ * This function returns true if the whole text denotes a date that exists, false otherwise
+ */
+bool table_parse_date(const char *str, enum COLUMN_TYPE type, struct tm *out);
+
 /**
  * table_check_var_column - checks whether column has variable precision.
  *
diff --git a/src/engine/executor_insert.c b/src/engine/executor_insert.c
index 665bc9d..fc70967 100644
--- a/src/engine/executor_insert.c
+++ b/src/engine/executor_insert.c
@@ -19,23 +19,18 @@ static int parse_date_type(struct ast_ins_exprval_node *exprval_node, enum COLUM
 		)
 {
 	int rc = MIDORIDB_OK;
-	struct tm time_struct = {0};
-	const char *fmt;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
+	struct tm time_struct;
 
 	// Parse the string into a time structure
-	if (strptime(exprval_node->str_val, fmt, &time_struct) == NULL)
+	if (!table_parse_date(exprval_node->str_val, type, &time_struct))
 		goto err_parse;
 
 	// Convert the time structure to a time_t value
+	time_struct.tm_wday = -1;
 	*time_out = mktime(&time_struct);
 
-	// Check if the conversion was successful
-	if (*time_out == -1)
+	// Check if the conversion was successful (-1 is a valid time_t value)
+	if (time_struct.tm_wday == -1)
 		goto err_convert;
 
 	return rc;
diff --git a/src/parser/semantic_delete.c b/src/parser/semantic_delete.c
index b189330..fc0601c 100644
--- a/src/parser/semantic_delete.c
+++ b/src/parser/semantic_delete.c
@@ -213,28 +213,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
-	time_t time_out;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
+	struct tm time_struct;
 
+	return table_parse_date(str, type, &time_struct);
 }
 
 static bool check_values_field_to_field(struct ast_del_cmp_node *cmp, struct ast_del_exprval_node *val_1,
diff --git a/src/parser/semantic_insert.c b/src/parser/semantic_insert.c
index 1ecb77f..8701216 100644
--- a/src/parser/semantic_insert.c
+++ b/src/parser/semantic_insert.c
@@ -203,28 +203,9 @@ static bool validate_number_terms(struct database *db, struct ast_ins_insvals_no
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
-	time_t time_out;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
+	struct tm time_struct;
 
+	return table_parse_date(str, type, &time_struct);
 }
 
 static bool check_math_expr_type(struct column *column, struct ast_node *node, char *out_err, size_t out_err_len)
diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index baa7e29..335fef5 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -57,28 +57,9 @@ static void free_hashmap_entries(struct hashtable *hashtable, const void *key, s
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
-	time_t time_out;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
+	struct tm time_struct;
 
+	return table_parse_date(str, type, &time_struct);
 }
 
 static struct ast_node* find_node(struct ast_node *root, enum ast_node_type node_type)
diff --git a/src/parser/semantic_update.c b/src/parser/semantic_update.c
index 9451c4e..56729b2 100644
--- a/src/parser/semantic_update.c
+++ b/src/parser/semantic_update.c
@@ -219,28 +219,9 @@ static bool check_isxnull_entries(struct ast_node *root, char *out_err, size_t o
 
 static bool try_parse_date_type(char *str, enum COLUMN_TYPE type)
 {
-	struct tm time_struct = {0};
-	const char *fmt;
-	time_t time_out;
-
-	if (type == CT_DATE)
-		fmt = COLUMN_CTDATE_FMT;
-	else
-		fmt = COLUMN_CTDATETIME_FMT;
-
-	// Parse the string into a time structure
-	if (strptime(str, fmt, &time_struct) == NULL)
-		return false;
-
-	// Convert the time structure to a time_t value
-	time_out = mktime(&time_struct);
-
-	// Check if the conversion was successful
-	if (time_out == -1)
-		return false;
-
-	return true;
+	struct tm time_struct;
 
+	return table_parse_date(str, type, &time_struct);
 }
 
 static bool check_values_field_to_field(struct ast_upd_cmp_node *cmp, struct ast_upd_exprval_node *val_1,
diff --git a/src/primitive/column.c b/src/primitive/column.c
index 107a669..ef37e34 100644
--- a/src/primitive/column.c
+++ b/src/primitive/column.c
@@ -5,6 +5,7 @@
  *      Author: paulo
  */
 
+#define _XOPEN_SOURCE       /* See feature_test_macros(7) */
 #include <primitive/table.h>
 #include <primitive/column.h>
 #include <primitive/row.h>
@@ -32,6 +33,29 @@ bool table_validate_column_name(char *name)
 	return __valid_name(name, TABLE_MAX_COLUMN_NAME);
 }
 
+bool table_parse_date(const char *str, enum COLUMN_TYPE type, struct tm *out)
+{
+	static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
+	const char *end;
+	int year, max_day;
+
+	memset(out, 0, sizeof(*out));
+
+	end = strptime(str, type == CT_DATE ? COLUMN_CTDATE_FMT : COLUMN_CTDATETIME_FMT, out);
+
+	/* strptime stops where the format does, no matter what follows */
+	if (!end || *end != '\0')
+		return false;
+
+	/* strptime lets every month have 31 days and every minute have 62 seconds */
+	year = out->tm_year + 1900;
+	max_day = days[out->tm_mon];
+	if (out->tm_mon == 1 && ((year % 4 == 0 && year % 100 != 0) || year % 400 == 0))
+		max_day++;
+
+	return out->tm_mday <= max_day && out->tm_sec <= 59;
+}
+
 static bool datablock_add_column(struct table *table, size_t row_cur_size, size_t row_nxt_size)
 {
 	struct list_head *old_head, *new_head;
-- 
2.43.0


From 901ce516f5abb5e34d7a3c82af950cef5995fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:04 +0000
Subject: [PATCH 55/67] fix: statements of several threads on the same database
 corrupted its tables

The database lock was only held while a table was created, and was never initialised.
---
 src/engine/database.c        |  6 ++++++
 src/engine/executor_create.c |  6 ------
 src/engine/query.c           | 10 ++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/engine/database.c b/src/engine/database.c
index d729a2e..9fd302b 100644
--- a/src/engine/database.c
+++ b/src/engine/database.c
@@ -19,8 +19,13 @@ int database_open(struct database *db)
 	if (!hashtable_init(db->tables, &hashtable_str_compare, &hashtable_str_hash))
 		goto err_ht_init;
 
+	if (pthread_mutex_init(&db->mutex, NULL))
+		goto err_mutex;
+
 	return MIDORIDB_OK;
 
+err_mutex:
+	hashtable_free(db->tables);
 err_ht_init:
 	free(db->tables);
 err:
@@ -52,6 +57,7 @@ void database_close(struct database *db)
 	hashtable_free(db->tables);
 	free(db->tables);
 	db->tables = NULL;
+	pthread_mutex_destroy(&db->mutex);
 }
 
 int database_lock(struct database *db)
diff --git a/src/engine/executor_create.c b/src/engine/executor_create.c
index 1f44bd2..a249308 100644
--- a/src/engine/executor_create.c
+++ b/src/engine/executor_create.c
@@ -72,9 +72,6 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 	struct table *table;
 	int rc = MIDORIDB_OK;
 
-	if ((rc = database_lock(db)))
-		goto err;
-
 	/* evaluate the "IF NOT EXISTS" option, leave early if so */
 	if (create_node->if_not_exists && database_table_exists(db, create_node->table_name))
 		goto early_ret;
@@ -110,7 +107,6 @@ int executor_run_create_stmt(struct database *db, struct ast_crt_create_node *cr
 
 early_ret:
 	output->n_rows_aff = 0;
-	database_unlock(db);
 
 	return rc;
 
@@ -118,8 +114,6 @@ err_add_tbl:
 err_add_col:
 	table_destroy(&table);
 err_tbl_init:
-	database_unlock(db);
-err:
 	snprintf(output->error.message,
 			sizeof(output->error.message) - 1,
 			"Internal error at %s", __func__);
diff --git a/src/engine/query.c b/src/engine/query.c
index 947ebc3..81517ec 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -68,6 +68,12 @@ struct query_output* query_execute(struct database *db, char *query)
 		goto err_build_ast;
 	}
 
+	/* everything from here on looks at, or changes, tables that other threads may be using too */
+	if (database_lock(db)) {
+		snprintf(output->error.message, sizeof(output->error.message) - 1, "error while locking database\n");
+		goto err_lock;
+	}
+
 	/* semantic analysis */
 	if (!semantic_analyse(db, node, output->error.message, sizeof(output->error.message) - 1)) {
 		goto err_semantic_analysis;
@@ -81,6 +87,8 @@ struct query_output* query_execute(struct database *db, char *query)
 	if (executor_run(db, node, output))
 		goto err_execution_phase;
 
+	database_unlock(db);
+
 	if (node->node_type == AST_TYPE_SEL_SELECT)
 		output->status = ST_OK_WITH_RESULTS;
 	else
@@ -95,6 +103,8 @@ struct query_output* query_execute(struct database *db, char *query)
 err_execution_phase:
 err_optimisation_phase:
 err_semantic_analysis:
+	database_unlock(db);
+err_lock:
 	ast_free(node);
 err_build_ast:
 err_syntax_parser:
-- 
2.43.0


From a90d32d67276320ef5b19a0277f91454880af6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 56/67] fix: tables of several threads raced for the number of
 the next datablock

---
 src/primitive/datablock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitive/datablock.c b/src/primitive/datablock.c
index 4968f41..5e73351 100644
--- a/src/primitive/datablock.c
+++ b/src/primitive/datablock.c
@@ -15,7 +15,8 @@ struct datablock* datablock_alloc(struct list_head *head)
 {
 	struct datablock *new = NULL;
 	if ((new = malloc(sizeof(*new)))) {
-		new->block_id = block_id_acc++;
+		/* shared by all tables, which needn't be locked together */
+		new->block_id = __atomic_fetch_add(&block_id_acc, 1, __ATOMIC_RELAXED);
 		list_head_init(&new->head);
 		list_add(&new->head, head->prev);
 	}
-- 
2.43.0


From c26c8c0d200a8c5df357ef50eb8b2f61e8763068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:41 +0000
Subject: [PATCH 57/67] fix: names in LIMIT clauses aren't checked and crash
 the optimiser

---
 src/parser/semantic_select.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 335fef5..c0a0b7b 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -870,11 +870,13 @@ static bool check_column_names(struct database *db, struct ast_node *root, struc
 	struct ast_node *groupby_node;
 	struct ast_node *orderby_node;
 	struct ast_node *having_node;
+	struct ast_node *limit_node;
 
 	where_node = find_node(root, AST_TYPE_SEL_WHERE);
 	groupby_node = find_node(root, AST_TYPE_SEL_GROUPBY);
 	orderby_node = find_node(root, AST_TYPE_SEL_ORDERBYLIST);
 	having_node = find_node(root, AST_TYPE_SEL_HAVING);
+	limit_node = find_node(root, AST_TYPE_SEL_LIMIT);
 
 	/*
 	 * check if EXPRVAL (names) / fieldnames point to something that does not exist or that is ambiguous on SELECT fields.
@@ -963,6 +965,16 @@ static bool check_column_names(struct database *db, struct ast_node *root, struc
 			return false;
 	}
 
+	if (limit_node) {
+		/*
+		 * names used in the limit-clause follow the same rules as the ones in the where-clause
+		 *
+		 * 	SELECT f1 FROM A LIMIT f1 LIKE f2; (no such column)
+		 */
+		if (!check_column_names_where(db, root, limit_node, out_err, out_err_len, table_alias, column_alias))
+			return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From 40343da471501eb8a081c7096df687ab9f45c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 58/67] fix: integers out of range in INSERT expressions wrap
 around or end the process

---
 src/engine/optimiser_insert.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/engine/optimiser_insert.c b/src/engine/optimiser_insert.c
index fa0dfe4..b05c1de 100644
--- a/src/engine/optimiser_insert.c
+++ b/src/engine/optimiser_insert.c
@@ -7,10 +7,11 @@
 
 #include <engine/optimiser.h>
 
-static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
+static bool negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node *out)
 {
 	if (in->value_type.is_intnum) {
-		out->int_val = in->int_val * -1;
+		if (__builtin_sub_overflow(0, in->int_val, &out->int_val))
+			return false;
 	} else if (in->value_type.is_approxnum) {
 		out->double_val = in->double_val * -1;
 	} else if (in->value_type.is_null) {
@@ -19,6 +20,7 @@ static void negate(struct ast_ins_exprval_node *in, struct ast_ins_exprval_node
 		BUG_GENERIC();
 	}
 	memcpy(&out->value_type, &in->value_type, sizeof(out->value_type));
+	return true;
 }
 
 static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
@@ -69,7 +71,8 @@ static void calcd(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 	out->double_val = result;
 }
 
-static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
+/* returns false if the result is out of range */
+static bool calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *val_1,
 		struct ast_ins_exprval_node *val_2, struct ast_ins_exprval_node *out)
 {
 	int64_t result = 0;
@@ -80,11 +83,14 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 		out->value_type.is_null = true;
 		result = 0;
 	} else if (op->op_type == AST_INS_EXPR_OP_ADD) {
-		result = val_2->int_val + val_1->int_val;
+		if (__builtin_add_overflow(val_2->int_val, val_1->int_val, &result))
+			return false;
 	} else if (op->op_type == AST_INS_EXPR_OP_SUB) {
-		result = val_2->int_val - val_1->int_val;
+		if (__builtin_sub_overflow(val_2->int_val, val_1->int_val, &result))
+			return false;
 	} else if (op->op_type == AST_INS_EXPR_OP_MUL) {
-		result = val_2->int_val * val_1->int_val;
+		if (__builtin_mul_overflow(val_2->int_val, val_1->int_val, &result))
+			return false;
 	} else if (op->op_type == AST_INS_EXPR_OP_DIV) {
 		if (val_1->int_val == 0) {
 			/*
@@ -94,6 +100,10 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 			out->value_type.is_intnum = false;
 			out->value_type.is_null = true;
 			result = 0;
+		} else if (val_1->int_val == -1) {
+			/* INT64_MIN / -1 traps on x86-64 */
+			if (__builtin_sub_overflow(0, val_2->int_val, &result))
+				return false;
 		} else {
 			result = val_2->int_val / val_1->int_val;
 		}
@@ -114,6 +124,7 @@ static void calci(struct ast_ins_exprop_node *op, struct ast_ins_exprval_node *v
 	}
 
 	out->int_val = result;
+	return true;
 }
 
 static int resolve_math_expr(struct ast_node **node, struct query_output *output)
@@ -126,6 +137,7 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 	struct ast_ins_exprval_node *val_1;
 	struct ast_ins_exprval_node *val_2;
 	int ret = MIDORIDB_OK;
+	bool in_range = true;
 
 	/* sanity check */
 	BUG_ON(list_length((*node)->node_children_head) != 2);
@@ -161,20 +173,26 @@ static int resolve_math_expr(struct ast_node **node, struct query_output *output
 
 	/* calculating the result of that operation */
 	if (val_1->value_type.is_negation) {
-		negate(val_2, val_1);
+		in_range = negate(val_2, val_1);
 	} else if (val_1->value_type.is_null || val_2->value_type.is_null) {
 		/* if any term _became_ NULL, then we bubble that up */
 		memzero(&val_1->value_type, sizeof(val_1->value_type));
 		val_1->value_type.is_null = true;
 		val_1->int_val = 0;
 	} else if (val_1->value_type.is_intnum) {
-		calci(op, val_1, val_2, val_1);
+		in_range = calci(op, val_1, val_2, val_1);
 	} else if (val_1->value_type.is_approxnum) {
 		calcd(op, val_1, val_2, val_1);
 	} else {
 		BUG_GENERIC();
 	}
 
+	if (!in_range) {
+		snprintf(output->error.message, sizeof(output->error.message),
+				"optimiser phase: INTEGER value is out of range\n");
+		return -MIDORIDB_ERROR;
+	}
+
 	/* juggling with pointers so I don't have to alloc something new on the heap */
 	list_del(&val_1->head);
 	list_add(&val_1->head, op->head.prev);
-- 
2.43.0


From 9220a0c11da934af2176603c2c8a1c0ef9fb5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:06 +0000
Subject: [PATCH 59/67] fix: unqualified columns of tables with an alias can't
 be used in ON

---
 src/parser/semantic_select.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index c0a0b7b..8e1e6e9 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -1307,15 +1307,15 @@ static bool check_join_on_count(struct ast_node *node, char *out_err, size_t out
 static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exprval_node *val_node,
 		struct ast_sel_join_node *join_node, char *out_err, size_t out_err_len)
 {
-	struct list_head *pos;
+	struct list_head *pos1, *pos2;
 	struct ast_node *tmp_entry;
 	struct ast_sel_join_node *new_join_node;
 	struct ast_sel_table_node *table_node;
 	int count = 0;
 
-	list_for_each(pos, join_node->node_children_head)
+	list_for_each(pos1, join_node->node_children_head)
 	{
-		tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+		tmp_entry = list_entry(pos1, typeof(*tmp_entry), head);
 
 		if (tmp_entry->node_type == AST_TYPE_SEL_TABLE) {
 			table_node = (typeof(table_node))tmp_entry;
@@ -1323,6 +1323,15 @@ static int check_join_on_fields_exprname(struct database *db, struct ast_sel_exp
 			if (column_exists(db, table_node, val_node->name_val))
 				count++;
 
+		} else if (tmp_entry->node_type == AST_TYPE_SEL_ALIAS) {
+			list_for_each(pos2, tmp_entry->node_children_head)
+			{
+				table_node = list_entry(pos2, typeof(*table_node), head);
+
+				if (column_exists(db, table_node, val_node->name_val))
+					count++;
+			}
+
 		} else if (tmp_entry->node_type == AST_TYPE_SEL_JOIN) {
 			new_join_node = (typeof(new_join_node))tmp_entry;
 			count += check_join_on_fields_exprname(db, val_node, new_join_node, out_err, out_err_len);
-- 
2.43.0


From 7d360f3f169093b98dff5d3fffd1c945862d4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:44 +0000
Subject: [PATCH 60/67] fix: table aliases that are the name of another table
 of the SELECT end the process

---
 src/parser/semantic_select.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/parser/semantic_select.c b/src/parser/semantic_select.c
index 8e1e6e9..cee25ba 100644
--- a/src/parser/semantic_select.c
+++ b/src/parser/semantic_select.c
@@ -150,6 +150,35 @@ static bool check_table_alias(struct ast_node *root, char *out_err, size_t out_e
 	return true;
 }
 
+/* an alias can't be the name by which another table of the same statement goes */
+static bool check_table_alias_conflict(struct ast_node *root, struct ast_node *parent, char *out_err, size_t out_err_len,
+		struct hashtable *table_alias)
+{
+	struct list_head *pos;
+	struct ast_node *tmp_entry;
+	struct ast_sel_table_node *table_node;
+
+	if (root->node_type == AST_TYPE_SEL_TABLE) {
+		table_node = (typeof(table_node))root;
+
+		if ((!parent || parent->node_type != AST_TYPE_SEL_ALIAS)
+				&& hashtable_get(table_alias, table_node->table_name, strlen(table_node->table_name) + 1)) {
+			snprintf(out_err, out_err_len, "Not unique table/alias: '%.128s'\n", table_node->table_name);
+			return false;
+		}
+	} else {
+		list_for_each(pos, root->node_children_head)
+		{
+			tmp_entry = list_entry(pos, typeof(*tmp_entry), head);
+
+			if (!check_table_alias_conflict(tmp_entry, root, out_err, out_err_len, table_alias))
+				return false;
+		}
+	}
+
+	return true;
+}
+
 static bool check_table_names(struct database *db, struct ast_node *root, char *out_err, size_t out_err_len)
 {
 	struct list_head *pos;
@@ -2786,6 +2815,10 @@ bool semantic_analyse_select_stmt(struct database *db, struct ast_node *node, ch
 	if (!check_table_alias(node, out_err, out_err_len, &table_alias))
 		goto cleanup_tbl_ht;
 
+	/* aliases and the names of tables without one must be distinguishable */
+	if (!check_table_alias_conflict(node, NULL, out_err, out_err_len, &table_alias))
+		goto cleanup_tbl_ht;
+
 	/*
 	 * build column alias hashtable; check for column alias validity
 	 *
-- 
2.43.0


From a774782c5aee4eb94dc7315ac7092cec32bd8779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:17 +0000
Subject: [PATCH 61/67] fix: syntax errors after the name of a table in FROM
 free that name twice

---
 src/parser/midorisql.y | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.y b/src/parser/midorisql.y
index 7e3bd5a..5995a9d 100644
--- a/src/parser/midorisql.y
+++ b/src/parser/midorisql.y
@@ -230,7 +230,10 @@ table_reference:  table_factor
   | join_table
   ;
 
-table_factor: NAME { emit(result, "TABLE %s", $1); free($1); } opt_as_alias  
+table_factor: table_name opt_as_alias
+	    ;
+
+table_name: NAME { emit(result, "TABLE %s", $1); free($1); }
 	    ;
 
 opt_as_alias: AS NAME { emit (result, "ALIAS %s", $2); free($2); }
-- 
2.43.0


From 3d52b08cdaea58f292876f9b995674cf4c5b3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:59 +0000
Subject: [PATCH 62/67] fix: doubled quotes in strings are stored doubled

---
 src/parser/midorisql.l | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 9736f07..52d03b5 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -14,6 +14,7 @@
 	} while (0)
 
 static char* dup_token(const char *text, struct syntax_ctx *ctx);
+static char* dup_string(const char *text, struct syntax_ctx *ctx);
 %}
 
 %x COMMENT
@@ -114,7 +115,7 @@ FALSE	{ yylval->intval = 0; return BOOL; }
    /* strings */
 
 '(\\.|''|[^'\n])*'	|
-\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = dup_token(yytext, yyextra); return STRING; }
+\"(\\.|\"\"|[^"\n])*\"  { yylval->strval = dup_string(yytext, yyextra); return STRING; }
 
 '(\\.|[^'\n])*$	        { syntax_error(yyextra, "Unterminated string %s", yytext); }
 \"(\\.|[^"\n])*$	{ syntax_error(yyextra, "Unterminated string %s", yytext); }
@@ -188,6 +189,32 @@ static char* dup_token(const char *text, struct syntax_ctx *ctx)
 	return ret;
 }
 
+/* within a string, a doubled quote stands for the quote itself */
+static char* dup_string(const char *text, struct syntax_ctx *ctx)
+{
+	char *ret = dup_token(text, ctx);
+	char quote = *text;
+	char *out;
+
+	if (!ret)
+		return NULL;
+
+	out = ret;
+	*out++ = *text++;
+
+	while (*text) {
+		if (*text == '\\' && text[1])
+			*out++ = *text++;
+		else if (*text == quote && text[1] == quote)
+			text++;
+
+		*out++ = *text++;
+	}
+	*out = '\0';
+
+	return ret;
+}
+
 void* yyalloc(yy_size_t size, yyscan_t yyscanner)
 {
 	void *ret = malloc(size);
-- 
2.43.0


From 3c8684a66cbbf575735937d7435568fa146c3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:01 +0000
Subject: [PATCH 63/67] fix: statements after the first one are dropped without
 a word

---
 src/engine/query.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/query.c b/src/engine/query.c
index 81517ec..c99e465 100644
--- a/src/engine/query.c
+++ b/src/engine/query.c
@@ -68,6 +68,13 @@ struct query_output* query_execute(struct database *db, char *query)
 		goto err_build_ast;
 	}
 
+	/* whatever follows the STMT of the first statement wouldn't be executed */
+	if (queue_length(&queue) > 1) {
+		snprintf(output->error.message, sizeof(output->error.message) - 1,
+				"only one statement can be executed at a time\n");
+		goto err_lock;
+	}
+
 	/* everything from here on looks at, or changes, tables that other threads may be using too */
 	if (database_lock(db)) {
 		snprintf(output->error.message, sizeof(output->error.message) - 1, "error while locking database\n");
-- 
2.43.0


From 27d52c0e0b2d3c1e020845539ed4a42d5c350b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:10 +0000
Subject: [PATCH 64/67] fix: table_update_row() reads VARCHAR content that NULL
 columns don't have

---
 src/primitive/row.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitive/row.c b/src/primitive/row.c
index b163f28..1d40e17 100644
--- a/src/primitive/row.c
+++ b/src/primitive/row.c
@@ -158,7 +158,12 @@ bool table_update_row(struct table *table, struct datablock *blk, size_t offset,
 		struct column *column = &table->columns[i];
 		if (table_check_var_column(column)) {
 			void **ptr = (void**)&upd_row->data[pos];
-			memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
+
+			/* Copy data only if column is not NULL - there may be nothing to copy otherwise */
+			if (bit_test(row->null_bitmap, i, sizeof(row->null_bitmap)))
+				memzero(*ptr, column->precision);
+			else
+				memcpy(*ptr, *((char**)((char*)row->data + pos)), column->precision);
 		} else {
 			memcpy(upd_row->data + pos, ((char*)row->data) + pos, column->precision);
 		}
-- 
2.43.0


From 33626385fb8e669e19e7ad8e4a83575a16cfecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:07 +0000
Subject: [PATCH 65/67] fix: columns named like an exponent, e1 for instance,
 can't be qualified

---
 src/parser/midorisql.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index 52d03b5..b2a162b 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -103,7 +103,7 @@ XOR	{ return XOR; }
 -?"."[0-9]+	|
 -?[0-9]+E[-+]?[0-9]+	|
 -?[0-9]+"."[0-9]*E[-+]?[0-9]+ |
--?"."[0-9]*E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
+-?"."[0-9]+E[-+]?[0-9]+	{ yylval->floatval = atof(yytext) ;
                                   if (isinf(yylval->floatval))
                                           syntax_error(yyextra, "number out of range: %s", yytext);
                                   return APPROXNUM; }
-- 
2.43.0


From d7d8d2787c0fe4eebe22f9c4cfdcabcca9791c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:24 +0000
Subject: [PATCH 66/67] fix: quoted names are cut at the first character that
 names can't have

---
 src/parser/midorisql.l | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/parser/midorisql.l b/src/parser/midorisql.l
index b2a162b..3cf791b 100644
--- a/src/parser/midorisql.l
+++ b/src/parser/midorisql.l
@@ -15,6 +15,7 @@
 
 static char* dup_token(const char *text, struct syntax_ctx *ctx);
 static char* dup_string(const char *text, struct syntax_ctx *ctx);
+static char* dup_quoted_name(const char *text, struct syntax_ctx *ctx);
 %}
 
 %x COMMENT
@@ -157,8 +158,7 @@ COUNT/"("    { return FCOUNT; }
 
 [A-Za-z][A-Za-z0-9_]*	{ yylval->strval = dup_token(yytext, yyextra);
                           return NAME; }
-`[^`/\\.\n]+`           { yylval->strval = dup_token(yytext+1, yyextra);
-                          if (yylval->strval) yylval->strval[yyleng-2] = 0;
+`[^`/\\.\n]+`           { yylval->strval = dup_quoted_name(yytext, yyextra);
                           return NAME; }
 
 `[^`\n]*$               { syntax_error(yyextra, "unterminated quoted name %s", yytext); }
@@ -189,6 +189,27 @@ static char* dup_token(const char *text, struct syntax_ctx *ctx)
 	return ret;
 }
 
+/* quotes don't allow a name to have characters that no name can have */
+static char* dup_quoted_name(const char *text, struct syntax_ctx *ctx)
+{
+	char *ret = dup_token(text + 1, ctx);
+
+	if (!ret)
+		return NULL;
+
+	ret[strlen(ret) - 1] = '\0';
+
+	for (char *c = ret; *c; c++) {
+		if (!((*c >= 'a' && *c <= 'z') || (*c >= 'A' && *c <= 'Z') ||
+				(*c >= '0' && *c <= '9') || *c == '_')) {
+			syntax_error(ctx, "invalid character in name %s", text);
+			break;
+		}
+	}
+
+	return ret;
+}
+
 /* within a string, a doubled quote stands for the quote itself */
 static char* dup_string(const char *text, struct syntax_ctx *ctx)
 {
-- 
2.43.0


From 7593fba210ea64249ec070f69647a6cacadce2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:36 +0000
Subject: [PATCH 67/67] fix: names longer than a name can be are taken for
 those they start like

---
 include/parser/ast.h    | 10 ++++++++++
 src/parser/ast.c        |  9 +++++++++
 src/parser/ast_delete.c |  3 ++-
 src/parser/ast_select.c | 14 +++++++++-----
 src/parser/ast_update.c |  6 ++++--
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/parser/ast.h b/include/parser/ast.h
index 8cfd04e..d6fe4c1 100644
--- a/include/parser/ast.h
+++ b/include/parser/ast.h
@@ -717,6 +717,16 @@ struct ast_sel_select_node {
 	bool all;
 };
 
+/**
+ * ast_copy_name - copy a name of a table, column or alias to a node
+ * @dst: where it goes
+ * @name: name as in the statement
+ * @size: size of @dst, NUL included
+ *
+ * Returns false if the name is longer than names can be, so there is nothing that it can refer to.
+ */
+bool ast_copy_name(char *dst, const char *name, size_t size);
+
 /* Select Statements - end */
 
 struct ast_node* ast_build_tree(struct queue *out);
diff --git a/src/parser/ast.c b/src/parser/ast.c
index 1196b52..49b5a39 100644
--- a/src/parser/ast.c
+++ b/src/parser/ast.c
@@ -8,6 +8,15 @@
 #include <parser/ast.h>
 #include <lib/string.h>
 
+bool ast_copy_name(char *dst, const char *name, size_t size)
+{
+	if (strlen(name) >= size)
+		return false;
+
+	strcpy(dst, name);
+	return true;
+}
+
 struct ast_node* ast_build_tree(struct queue *parser)
 {
 	char *str = NULL;
diff --git a/src/parser/ast_delete.c b/src/parser/ast_delete.c
index 056eaf3..2b5f0e2 100644
--- a/src/parser/ast_delete.c
+++ b/src/parser/ast_delete.c
@@ -173,7 +173,8 @@ static struct ast_del_exprval_node* build_expr_val_node(struct queue *parser, en
 		} else if (type == AST_DEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_DEL_EXPR_VAL_NAME) {
-			strncpy(node->name_val, ext_val, sizeof(node->name_val) - 1);
+			if (!ast_copy_name(node->name_val, ext_val, sizeof(node->name_val)))
+				goto err_regex;
 		} else if (type == AST_DEL_EXPR_VAL_APPROXNUM) {
 			node->double_val = atof(ext_val);
 		} else if (type == AST_DEL_EXPR_VAL_BOOL) {
diff --git a/src/parser/ast_select.c b/src/parser/ast_select.c
index cf109f3..5e31084 100644
--- a/src/parser/ast_select.c
+++ b/src/parser/ast_select.c
@@ -76,7 +76,8 @@ static struct ast_sel_exprval_node* build_expr_val_node(struct queue *parser, en
 		} else if (type == AST_SEL_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_SEL_EXPR_VAL_NAME) {
-			strncpy(node->name_val, ext_val, sizeof(node->name_val) - 1);
+			if (!ast_copy_name(node->name_val, ext_val, sizeof(node->name_val)))
+				goto err_regex;
 		} else if (type == AST_SEL_EXPR_VAL_APPROXNUM) {
 			node->double_val = atof(ext_val);
 		} else if (type == AST_SEL_EXPR_VAL_BOOL) {
@@ -220,7 +221,8 @@ static struct ast_sel_alias_node* build_alias_node(struct queue *parser, struct
 	if (!regex_ext_match_grp(str, "ALIAS ([A-Za-z0-9_]+)", &reg_pars))
 		goto err_regex;
 
-	strncpy(node->alias_value, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->alias_value) - 1);
+	if (!ast_copy_name(node->alias_value, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->alias_value)))
+		goto err_regex;
 
 	/* field name or table */
 	tmp_node = (struct ast_node*)stack_pop(tmp_st);
@@ -268,8 +270,9 @@ static struct ast_sel_fieldname_node* build_fieldname_node(struct queue *parser)
 	if (!regex_ext_match_grp(str, "FIELDNAME ([A-Za-z0-9_]+)\\.([A-Za-z0-9_]+)", &reg_pars))
 		goto err_regex;
 
-	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1);
-	strncpy(node->col_name, (char*)stack_peek_pos(&reg_pars, 1), sizeof(node->col_name) - 1);
+	if (!ast_copy_name(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name)) ||
+			!ast_copy_name(node->col_name, (char*)stack_peek_pos(&reg_pars, 1), sizeof(node->col_name)))
+		goto err_regex;
 
 	free(str);
 	stack_free(&reg_pars);
@@ -340,7 +343,8 @@ static struct ast_sel_table_node* build_table_node(struct queue *parser)
 	if (!regex_ext_match_grp(str, "TABLE ([A-Za-z0-9_]+)", &reg_pars))
 		goto err_regex;
 
-	strncpy(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name) - 1);
+	if (!ast_copy_name(node->table_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->table_name)))
+		goto err_regex;
 
 	free(str);
 	stack_free(&reg_pars);
diff --git a/src/parser/ast_update.c b/src/parser/ast_update.c
index c2310c5..ab39a09 100644
--- a/src/parser/ast_update.c
+++ b/src/parser/ast_update.c
@@ -46,7 +46,8 @@ static struct ast_upd_assign_node* build_assign_node(struct queue *parser, struc
 	if (!regex_ext_match_grp(str, "ASSIGN ([A-Za-z0-9_]+)", &reg_pars))
 		goto err_regex;
 
-	strncpy(node->field_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->field_name) - 1);
+	if (!ast_copy_name(node->field_name, (char*)stack_peek_pos(&reg_pars, 0), sizeof(node->field_name)))
+		goto err_regex;
 
 	val_node = (struct ast_node*)stack_pop(tmp_st);
 
@@ -224,7 +225,8 @@ static struct ast_upd_exprval_node* build_expr_val_node(struct queue *parser, en
 		} else if (type == AST_UPD_EXPR_VAL_STRING) {
 			strncpy(node->str_val, ext_val, sizeof(node->str_val) - 1);
 		} else if (type == AST_UPD_EXPR_VAL_NAME) {
-			strncpy(node->name_val, ext_val, sizeof(node->name_val) - 1);
+			if (!ast_copy_name(node->name_val, ext_val, sizeof(node->name_val)))
+				goto err_regex;
 		} else if (type == AST_UPD_EXPR_VAL_APPROXNUM) {
 			node->double_val = atof(ext_val);
 		} else if (type == AST_UPD_EXPR_VAL_BOOL) {
-- 
2.43.0

