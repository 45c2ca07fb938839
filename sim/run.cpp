// run.cpp - executes one history against the real engine, comparing everything it does with the model
#include "sim.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <unistd.h>

Report *rep;
FILE *trace;

void say(const char *fmt, ...)
{
	if (!trace) return;
	va_list ap;
	va_start(ap, fmt);
	vfprintf(trace, fmt, ap);
	va_end(ap);
	fputc('\n', trace);
}

void violation(const std::string &cls, const std::string &msg)
{
	rep->violation = 1;
	rep->bad_op = rep->running_op;
	snprintf(rep->cls, sizeof(rep->cls), "%s", cls.c_str());
	snprintf(rep->msg, sizeof(rep->msg), "%s", msg.c_str());
	say("  => VIOLATION %s: %s", cls.c_str(), msg.c_str());
	if (trace) fflush(trace);
	_exit(98);
}

extern "C" void seam_fatal(const char *cls, const char *msg) { violation(cls, msg); }

void note_state(uint64_t h)
{
	if (rep->nstates < 2048) rep->states[rep->nstates++] = h;
}

// ---------------------------------------------------------------- hashing rows
static uint64_t fin(uint64_t h)
{
	h ^= h >> 31; h *= 0x7fb5d329728ea185ull; h ^= h >> 27; h *= 0x81dadef4bc2dd44dull; h ^= h >> 33;
	return h;
}
uint64_t hstr(const char *s, size_t n)
{
	uint64_t h = 1469598103934665603ull;
	for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ull;
	return h + n;
}
static uint64_t hval(int ty, bool null, int64_t i, double d, const char *s, size_t n)
{
	if (null) return 0x1111;
	if (ty == VARCHAR) return fin(hstr(s, n) + 1);
	if (ty == DOUBLE) { uint64_t u; if (d == 0) d = 0; memcpy(&u, &d, 8); return fin(u + 2); }
	return fin((uint64_t)i + 3);
}
uint64_t hrow(const Row &r)
{
	uint64_t h = 99;
	for (auto &v : r) h = fin(h * 31 + hval(v.ty, v.null, v.i, v.d, v.s.data(), v.s.size()));
	return h;
}
Val to_val(const sut_val &v)
{
	Val o;
	o.ty = v.type;
	o.null = v.null;
	o.i = v.i;
	o.d = v.d;
	if (!v.null && v.type == SUT_VARCHAR) {
		if (v.unterminated) violation("corrupt-value", "a VARCHAR value isn't terminated within its column's length");
		o.s = v.s;
	}
	return o;
}

// ---------------------------------------------------------------- what the engine holds
void walk_cb(void *arg, int blk, int slot, int deleted, int empty, const sut_val *v, int n)
{
	Walk *w = (Walk*)arg;
	if (empty) return;
	if (deleted) { w->deleted++; return; }
	Row r;
	r.reserve(n);
	for (int i = 0; i < n; i++) r.push_back(to_val(v[i]));
	w->rows.push_back(std::move(r));
	w->where.push_back({blk, slot});
}

std::string diff_rows(const std::vector<Row> &want, const std::vector<Row> &got)
{
	std::map<std::string, int> m;
	for (auto &r : want) m[dump_rows({r}, false)]++;
	for (auto &r : got) m[dump_rows({r}, false)]--;
	std::string miss, extra;
	for (auto &x : m) {
		if (x.second > 0 && miss.size() < 400) miss += x.first;
		if (x.second < 0 && extra.size() < 400) extra += x.first;
	}
	return "missing " + (miss.empty() ? "nothing" : miss) + "; unexpected " + (extra.empty() ? "nothing" : extra) + "; holds " + std::to_string(got.size());
}
struct Sess { void *db = nullptr; Db m; };
struct Held { bool used = false; sut_out out; std::vector<uint64_t> snap; std::vector<Row> rows; size_t pos = 0; bool ended = false; std::vector<int> tys; };

struct Runner {
	const Cfg &cfg;
	std::vector<Sess> ss;
	std::vector<Held> held = std::vector<Held>(8);
	int cur = 0;
	std::set<std::string> names_seen;

	explicit Runner(const Cfg &c) : cfg(c), ss(c.nsess) {}

	void obs(uint64_t v) { rep->hash = mix(rep->hash, v); }
	void shape(uint64_t v) { rep->shape = mix(rep->shape, v); }

	// bookkeeping around one call; returns whether a fault was delivered
	bool after_call()
	{
		const seam_stats *s = sut_last();
		rep->calls++;
		rep->allocs += s->allocs;
		obs(s->allocs * 3 + s->fired);
		obs(s->frees);
		if (seam_locks_held() != 0) violation("lock-held", "a mutex is still held after the call returned");
		return s->fired > 0;
	}

	// ---- the whole state of one session against the model
	void audit(int si)
	{
		Sess &s = ss[si];
		if (!s.db) return;
		uint64_t st = 7;
		for (auto &kv : s.m.tabs) {
			const Tab &t = kv.second;
			void *tp = sut_table(s.db, t.name.c_str());
			rep->checks++;
			if (!tp) violation("lost-table", "table '" + t.name + "' is no longer in the catalogue");
			if (t.name != sut_tname(tp)) violation("catalogue", "looking up '" + t.name + "' returned table '" + sut_tname(tp) + "'");
			check_schema(t, tp);
			Walk w;
			w.blocks = sut_walk(tp, walk_cb, &w);
			rep->rows_checked += w.rows.size();
			rep->max_rows = std::max<uint64_t>(rep->max_rows, w.rows.size());
			rep->max_blocks = std::max<uint64_t>(rep->max_blocks, (uint64_t)w.blocks);
			uint64_t a = 0, b = 0;
			for (auto &r : w.rows) a += hrow(r);
			for (auto &r : t.rows) b += hrow(r);
			if (a != b || w.rows.size() != t.rows.size())
				violation("state", "table " + t.name + " should hold " + std::to_string(t.rows.size()) + " rows: " +
					diff(t.rows, w.rows));
			st = mix(mixs(st, t.name), a + t.cols.size());
		}
		if (sut_catalogue(s.db) != s.m.tabs.size())
			violation("catalogue", "the catalogue holds " + std::to_string(sut_catalogue(s.db)) + " tables instead of " + std::to_string(s.m.tabs.size()));
		for (auto &n : names_seen)
			if (!s.m.tabs.count(n) && sut_table(s.db, n.c_str())) violation("catalogue", "table '" + n + "' exists, but was never created");
		note_state(st);
		obs(st);
	}

	static std::string diff(const std::vector<Row> &want, const std::vector<Row> &got) { return diff_rows(want, got); }

	void check_schema(const Tab &t, void *tp)
	{
		if (sut_ncols(tp) != (int)t.cols.size())
			violation("schema", "table " + t.name + " has " + std::to_string(sut_ncols(tp)) + " columns instead of " + std::to_string(t.cols.size()));
		for (size_t i = 0; i < t.cols.size(); i++) {
			struct sut_col c;
			sut_col_get(tp, (int)i, c);
			const ColDef &d = t.cols[i];
			int prec = d.ty == VARCHAR ? d.len : d.ty == TINYINT ? 1 : 8;
			if (d.name != c.name || d.ty != c.type || prec != c.prec || d.notnull == !!c.nullable)
				violation("schema", "column " + t.name + "." + d.name + " isn't what was declared: '" + c.name + "' type " + std::to_string(c.type) +
					" precision " + std::to_string(c.prec) + " nullable " + std::to_string(c.nullable));
			if (d.pk != !!c.pk || d.uniq != !!c.unique || d.autoinc != !!c.auto_inc || d.indexed != !!c.indexed)
				violation("schema", "attributes of column " + t.name + "." + d.name + " aren't what was declared");
		}
	}
	static void sut_col_get(void *tp, int i, struct sut_col &c) { ::sut_col(tp, i, &c); }

	// ---- results
	void check_results(const Outcome &o, sut_out &out, Held *keep)
	{
		int n = sut_res_cols(out.h);
		std::vector<int> map;	// expected column -> column of the result
		if (o.v == Outcome::OK) {
			if (n != (int)o.names.size())
				violation("result-columns", "the result has " + std::to_string(n) + " columns instead of " + std::to_string(o.names.size()));
			std::vector<bool> used(n, false);
			for (size_t e = 0; e < o.names.size(); e++) {
				int f = -1;
				for (int i = 0; i < n && f < 0; i++) {
					struct sut_col c;
					sut_res_col(out.h, i, &c);
					std::string nm = c.name;
					if (!used[i] && (nm == o.names[e] || (o.names[e] == "COUNT" && nm.compare(0, 5, "COUNT") == 0))) {
						f = i;
						if (c.type != o.tys[e]) violation("result-columns", "column " + nm + " of the result has the wrong type");
					}
				}
				if (f < 0) violation("result-columns", "the result has no column " + o.names[e]);
				used[f] = true;
				if (o.ordered_cols && f != (int)e)
					violation("column-order", "column " + o.names[e] + " is at position " + std::to_string(f) + " of the result instead of " + std::to_string(e));
				map.push_back(f);
			}
		}
		// the rows as they lie there, and then as the cursor shows them
		Walk w;
		sut_res_walk(out.h, walk_cb, &w);
		Held local;
		Held &h = keep ? *keep : local;
		h.out = out;
		h.snap.clear();
		h.rows = w.rows;
		h.pos = 0;
		h.ended = false;
		h.tys.clear();
		for (auto &r : w.rows) h.snap.push_back(hrow(r));
		for (auto x : h.snap) obs(x);
		if (o.v == Outcome::OK) {
			std::vector<Row> got;
			uint64_t a = 0, b = 0;
			for (auto &r : w.rows) {
				Row x;
				for (int m : map) x.push_back(r[m]);
				a += hrow(x);
				got.push_back(x);
			}
			for (auto &r : o.rows) b += hrow(r);
			rep->checks++;
			if (a != b || got.size() != o.rows.size())
				violation("result-rows", "the result should hold " + std::to_string(o.rows.size()) + " rows: " + diff(o.rows, got));
		}
		if (!keep) {
			step(h, (int)h.rows.size() + 2);
			out = h.out;
		}
	}

	void step(Held &h, int n)
	{
		for (int i = 0; i < n; i++) {
			rep->calls++;
			int rc = sut_step(h.out.h);
			if (rc < 0) violation("cursor", "the cursor reports neither a row nor the end");
			if (rc == 0) {
				if (h.pos != h.rows.size())
					violation("cursor", "the cursor ended after " + std::to_string(h.pos) + " of " + std::to_string(h.rows.size()) + " rows");
				h.ended = true;
				if (i > 2) return;
				continue;
			}
			if (h.ended) violation("cursor", "the cursor returned a row past its end");
			if (h.pos >= h.rows.size()) violation("cursor", "the cursor returned more rows than the result holds");
			const Row &want = h.rows[h.pos];
			std::vector<sut_val> v(want.size() ? want.size() : 1);
			sut_res_row(h.out.h, v.data());
			Row got;
			for (size_t k = 0; k < want.size(); k++) got.push_back(to_val(v[k]));
			if (hrow(got) != h.snap[h.pos])
				violation("held-result", "row " + std::to_string(h.pos) + " of a result changed from " + dump_rows({want}, false) + " to " + dump_rows({got}, false));
			for (size_t k = 0; k < want.size(); k++) {
				if (want[k].null || want[k].ty == VARCHAR || want[k].ty == DOUBLE) continue;
				int64_t x = sut_col_int64(h.out.h, (int)k);
				if (x != want[k].i) violation("column-value", "query_column_int64() returned " + std::to_string(x) + " instead of " + std::to_string(want[k].i));
			}
			h.pos++;
			rep->held_checked++;
		}
	}

	// ---- one execution of one statement. Returns 1 success, 0 failure; *fired tells whether a fault was delivered
	int sql_once(Op &op, const Stmt &st, const std::string &text, const seam_plan *plan, bool *fired, Held *keep)
	{
		Sess &s = ss[op.sess];
		sut_out out;
		uint64_t live = seam_live_blocks(), live_rx = seam_live_regex(), seq = seam_alloc_seq();
		sut_ctx(plan, (uint64_t)cur);
		sut_exec(s.db, text.c_str(), &out);
		*fired = after_call();
		obs((uint64_t)out.status * 7 + 1);
		Outcome o = predict(s.m, st);
		if (st.k == Stmt::RAW && st.ine) o.v = Outcome::EITHER;
		bool ok = out.status == SUT_RESULTS || out.status == SUT_EXECUTED;
		if (seam_live_regex() != live_rx) violation("leak", "a compiled regular expression isn't released");
		if (ok) {
			if (o.v == Outcome::ERR) violation("accepted", "the statement was accepted, but should be refused: " + o.why);
			if (o.v == Outcome::OK && (out.status == SUT_RESULTS) != o.results) violation("status", "wrong kind of success reported");
			if (o.v == Outcome::OK && !o.results && out.aff != o.aff)
				violation("rows-affected", "it reports " + std::to_string(out.aff) + " rows affected instead of " + std::to_string(o.aff));
			if (o.v == Outcome::EITHER && out.status == SUT_EXECUTED && out.aff != 0)
				violation("rows-affected", "it reports " + std::to_string(out.aff) + " rows affected, though its condition is never true");
			obs(out.aff);
			if (out.status == SUT_RESULTS) {
				check_results(o, out, keep);
				if (keep) { keep->used = true; rep->ok++; return 1; }
			}
		} else {
			if (o.v == Outcome::OK && !*fired && !o.may_refuse)
				violation("refused", std::string("the statement should succeed, but failed: ") + out.msg);
			if (out.status == SUT_NULL) {
				if (!*fired) violation("no-output", "query_execute() returned nothing although nothing failed");
			} else {
				if (out.msg_unterminated) violation("message", "the error message isn't terminated");
				if (!out.msg[0]) violation("message", "the statement failed without an error message" + std::string(o.why.empty() ? "" : " (" + o.why + ")"));
			}
			obs(hstr(out.msg, strlen(out.msg)));
		}
		sut_free(&out);
		bool grows = ok && (st.k == Stmt::CREATE || st.k == Stmt::INSERT || st.k == Stmt::UPDATE || st.k == Stmt::DELETE);
		if (!grows && seam_live_blocks() != live) {
			size_t sz = 0;
			uint64_t by = 0;
			seam_live_since(seq, &sz, &by);
			violation("leak", std::string(ok ? "a finished query" : "a failed statement") + " left " + std::to_string((int64_t)(seam_live_blocks() - live)) +
				" blocks of memory behind (the first one of " + std::to_string(sz) + " bytes)");
		}
		if (ok && o.v == Outcome::OK && o.changes) s.m.tabs[st.table] = o.after;
		ok ? rep->ok++ : rep->err++;
		rep->per_stmt[st.k]++;
		return ok;
	}

	// ---- fault plans: once, or once for every position
	template <class F> void with_faults(Op &op, bool nofault, F once)
	{
		bool fired = false;
		seam_plan plan = {0, 0, 0};
		if (op.f.mode == 0 || nofault) { int ok = once(nullptr, &fired); shape((uint64_t)ok); return; }
		plan.kind = op.f.kind;
		plan.span = op.f.span;
		if (op.f.mode == 1) {
			plan.at = op.f.at;
			int ok = once(&plan, &fired);
			for (int k = 0; k < SF_KINDS; k++) if (k == plan.kind && fired) rep->fired[k] += sut_fired_last;
			say("     fault %s, %s", fired ? "delivered" : "not reached", ok ? "succeeded" : "failed");
			shape((uint64_t)ok * 2 + fired);
			if (fired && !ok) {
				audit(op.sess);
				ok = once(nullptr, &fired);
				rep->recovered++;
				say("     again without fault: %s", ok ? "succeeded" : "failed");
			}
			return;
		}
		rep->sweeps++;
		int ok = 0;
		for (uint64_t at = op.f.at; at < 4000; at += op.f.stride) {
			plan.at = at;
			ok = once(&plan, &fired);
			if (fired) rep->fired[plan.kind] += sut_fired_last;
			bool reads = (op.k == O_SQL && op.st.k == Stmt::SELECT);
			if (!fired || (ok && !reads)) { say("     sweep over %llu positions, %s", (unsigned long long)at - 1, ok ? "succeeded" : "failed"); break; }
			audit(op.sess);
		}
		shape((uint64_t)ok + 40);
		if (fired && !ok) once(nullptr, &fired);
	}
	uint64_t sut_fired_last = 0;

	// ---- operations
	void run(Op &op, bool nofault, const std::set<int> *dropped_rows)
	{
		Sess &s = ss[op.sess];
		rep->steps++;
		rep->per_op[op.k]++;
		shape((uint64_t)op.k * 8 + (op.k == O_SQL ? op.st.k : 0));
		switch (op.k) {
		case O_OPEN:
			if (s.db) return;
			with_faults(op, nofault, [&](const seam_plan *p, bool *fired) {
				int rc;
				uint64_t live = seam_live_blocks();
				sut_ctx(p, (uint64_t)cur);
				s.db = sut_db_open(&rc);
				*fired = after_call();
				sut_fired_last = sut_last()->fired;
				if (!s.db && !*fired) violation("open", "database_open() failed with " + std::to_string(rc) + " although nothing failed");
				if (!s.db && seam_live_blocks() != live) violation("leak", "a failed database_open() leaves memory behind");
				s.m = Db();
				s.m.open = s.db != nullptr;
				return s.db != nullptr;
			});
			break;
		case O_CLOSE:
			if (!s.db) return;
			sut_ctx(nullptr, (uint64_t)cur);
			sut_db_close(s.db);
			after_call();
			s.db = nullptr;
			s.m = Db();
			break;
		case O_SQL: case O_HOLD: {
			if (!s.db) return;
			Stmt st = op.st;
			if (dropped_rows && st.k == Stmt::INSERT) {
				std::vector<std::vector<Lit>> keep;
				for (size_t i = 0; i < st.rows.size(); i++) if (!dropped_rows->count((int)i)) keep.push_back(st.rows[i]);
				if (!keep.empty()) st.rows = keep;
			}
			if (!st.table.empty()) names_seen.insert(st.table);
			Held *keep = nullptr;
			if (op.k == O_HOLD) {
				if (held[op.h].used) return;
				keep = &held[op.h];
			}
			std::string text = st.sql();
			with_faults(op, nofault, [&](const seam_plan *p, bool *fired) {
				if (keep && keep->used) { sut_ctx(nullptr, (uint64_t)cur); sut_free(&keep->out); keep->used = false; }
				int ok = sql_once(op, st, text, p, fired, keep);
				sut_fired_last = *fired ? 1 : 0;
				return ok;
			});
			break;
		}
		case O_STEP:
			if (!held[op.h].used) return;
			step(held[op.h], op.n);
			break;
		case O_FREE:
			if (!held[op.h].used) return;
			sut_ctx(nullptr, (uint64_t)cur);
			sut_free(&held[op.h].out);
			held[op.h].used = false;
			break;
		case O_AUDIT: break;
		default: {
			if (!s.db || !s.m.tabs.count(op.tab)) return;
			void *tp = sut_table(s.db, op.tab.c_str());
			if (!tp) violation("lost-table", "table '" + op.tab + "' is no longer in the catalogue");
			with_faults(op, nofault, [&](const seam_plan *p, bool *fired) {
				int ok = table_op(op, tp, s.m.tabs[op.tab], p, fired);
				sut_fired_last = *fired ? 1 : 0;
				return ok;
			});
		}
		}
		audit(op.sess);
	}

	int table_op(Op &op, void *tp, Tab &t, const seam_plan *p, bool *fired)
	{
		int ok = 0, c;
		uint64_t live = seam_live_blocks();
		Walk before, after;
		before.blocks = sut_walk(tp, walk_cb, &before);
		sut_ctx(p, (uint64_t)cur);
		std::vector<sut_val> v;
		auto raw = [&]() {
			for (auto &x : op.row) {
				sut_val y;
				memset(&y, 0, sizeof(y));
				y.null = x.null; y.type = x.ty; y.i = x.i; y.d = x.d; y.s = x.s.c_str();
				v.push_back(y);
			}
			if (v.size() != t.cols.size()) return false;
			for (size_t i = 0; i < v.size(); i++) if (v[i].type != t.cols[i].ty || (t.cols[i].ty == VARCHAR && (int)op.row[i].s.size() >= t.cols[i].len)) return false;
			return true;
		};
		*fired = false;
		switch (op.k) {
		case O_VACUUM: {
			ok = sut_vacuum(tp);
			*fired = after_call();
			if (!ok && !*fired) violation("refused", "table_vacuum() failed although nothing failed");
			after.blocks = sut_walk(tp, walk_cb, &after);
			bool same = before.rows.size() == after.rows.size();
			for (size_t i = 0; same && i < before.rows.size(); i++) same = hrow(before.rows[i]) == hrow(after.rows[i]);
			if (!same) violation("vacuum", "the live rows of table " + t.name + " aren't the same, in the same order, after vacuum: " + diff(before.rows, after.rows));
			size_t per = (sut_page_size() - 1) / sut_row_size(tp);
			int bound = std::max<int>(1, (int)((after.rows.size() + per - 1) / per));
			if (ok && after.blocks > bound)
				violation("vacuum", "after vacuum " + std::to_string(after.rows.size()) + " rows take " + std::to_string(after.blocks) + " blocks instead of " + std::to_string(bound));
			if (ok && after.deleted) violation("vacuum", "deleted rows are still there after vacuum");
			if (seam_live_blocks() > live + (*fired ? 0 : 2)) violation("leak", "vacuum took more memory than it gave back");
			obs((uint64_t)after.blocks);
			break;
		}
		case O_ADDCOL:
			ok = sut_add_col(tp, op.col.name.c_str(), op.col.ty, op.col.ty == VARCHAR ? op.col.len : op.col.ty == TINYINT ? 1 : 8, !op.col.notnull);
			*fired = after_call();
			if (t.col(op.col.name) >= 0 || t.cols.size() >= 128) {
				if (ok) violation("accepted", t.cols.size() >= 128 ? "table_add_column() adds a column beyond the limit of 128" : "table_add_column() adds a second column of the same name");
				rep->err++;
			} else if (!ok && !*fired) violation("refused", "table_add_column() failed although nothing failed");
			if (!ok && seam_live_blocks() != live) violation("leak", "a failed table_add_column() leaves memory behind");
			if (ok) {
				ColDef d = op.col;
				d.indexed = false;
				t.cols.push_back(d);
				for (auto &row : t.rows) { Val x; x.null = false; x.ty = d.ty; row.push_back(x); }
			}
			break;
		case O_REMCOL:
			c = t.col(op.col.name);
			if (c >= 0 && t.cols.size() < 2) return 1;
			ok = sut_rem_col(tp, op.col.name.c_str(), op.n & 1);
			*fired = after_call();
			if (c < 0) {
				if (ok) violation("accepted", "table_rem_column() removes a column that isn't there");
				rep->err++;
			} else if (!ok && !*fired) violation("refused", "table_rem_column() failed although nothing failed");
			if (ok) {
				t.cols.erase(t.cols.begin() + c);
				for (auto &row : t.rows) row.erase(row.begin() + c);
			}
			break;
		case O_ROWINS:
			if (!raw()) return 1;
			ok = sut_insert(tp, v.data(), (int)v.size());
			*fired = after_call();
			if (!ok && !*fired) violation("refused", "table_insert_row() failed although nothing failed");
			// an empty datablock may stay behind, for the rows to come
			if (!ok && seam_live_blocks() > live + 2) violation("leak", "a failed table_insert_row() leaves memory behind");
			if (ok) t.rows.push_back(op.row);
			break;
		case O_ROWDELS: {
			// rows picked by where they are stored
			size_t n = before.rows.size(), k = 2 + (size_t)op.h % 3, x = (size_t)op.h % (n + 1);
			std::map<uint64_t, int> gone;
			ok = 1;
			int victim = n ? before.where[x < n ? x : n - 1].first : 0;
			for (size_t i = 0; i < n; i++) {
				int b = before.where[i].first;
				bool first = i == 0 || before.where[i - 1].first != b, last = i + 1 == n || before.where[i + 1].first != b, hit = false;
				switch (op.n % 9) {
				case 0: hit = first; break;
				case 1: hit = last; break;
				case 2: hit = b == victim; break;
				case 3: hit = i >= x; break;
				case 4: hit = i < x; break;
				case 5: hit = i % k == k - 1; break;
				case 6: hit = k % 2 ? !first : !last; break;
				case 7: hit = true; break;
				default: hit = (first && i) || (last && i + 1 < n);
				}
				if (!hit) continue;
				sut_ctx(nullptr, (uint64_t)cur);
				if (!sut_delete(tp, b, before.where[i].second)) violation("refused", "table_delete_row() failed although nothing failed");
				after_call();
				gone[hrow(before.rows[i])]++;
			}
			std::vector<Row> left;
			for (auto &row : t.rows) {
				auto it = gone.find(hrow(row));
				if (it != gone.end() && it->second > 0) it->second--;
				else left.push_back(row);
			}
			t.rows = left;
			break;
		}
		case O_ROWDEL: case O_ROWUPD: {
			if (before.rows.empty()) return 1;
			size_t i = (size_t)op.n % before.rows.size();
			uint64_t hv = hrow(before.rows[i]);
			size_t j = 0;
			while (j < t.rows.size() && hrow(t.rows[j]) != hv) j++;
			if (j == t.rows.size()) violation("state", "a row of table " + t.name + " is unknown to the model");
			if (op.k == O_ROWDEL) {
				ok = sut_delete(tp, before.where[i].first, before.where[i].second);
				*fired = after_call();
				if (ok) t.rows.erase(t.rows.begin() + (long)j);
			} else {
				if (!raw()) return 1;
				ok = sut_update(tp, before.where[i].first, before.where[i].second, v.data(), (int)v.size());
				*fired = after_call();
				if (!ok && seam_live_blocks() != live) violation("leak", "a failed table_update_row() leaves memory behind");
				if (ok) t.rows[j] = op.row;
			}
			if (!ok && !*fired) violation("refused", "the row operation failed although nothing failed");
			break;
		}
		}
		return ok;
	}

	void finish()
	{
		for (auto &h : held)
			if (h.used) { step(h, 3); sut_ctx(nullptr, (uint64_t)cur); sut_free(&h.out); h.used = false; }
		for (auto &s : ss)
			if (s.db) { audit((int)(&s - &ss[0])); sut_ctx(nullptr, (uint64_t)cur); sut_db_close(s.db); after_call(); s.db = nullptr; }
		if (seam_live_blocks()) {
			size_t sz = 0;
			uint64_t by = 0;
			seam_live_since(0, &sz, &by);
			violation("leak", std::to_string(seam_live_blocks()) + " blocks of memory are never freed (the first one, " + std::to_string(sz) + " bytes, dates from operation " +
				std::to_string(by) + ")");
		}
		if (seam_live_regex()) violation("leak", "a compiled regular expression is never released");
		if (seam_locks_held()) violation("lock-held", "a mutex is still held at the end");
	}
};

void set_tz(int n)
{
	static const char *zones[] = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "XYZ-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "AAA12"};
	static const int64_t off[] = {0, 5 * 3600, -(5 * 3600 + 1800), -12 * 3600, 12 * 3600};
	setenv("TZ", zones[n], 1);
	tzset();
	tz_offset = off[n];
}

void run_history(const Cfg &cfg, uint64_t seed, const std::vector<Op> &ops, const Mask &mask)
{
	(void)seed;
	set_tz(cfg.tz);
	seam_fill(cfg.fill);
	seam_reuse(cfg.reuse);
	Runner r(cfg);
	say("# configuration: %s", cfg.str().c_str());
	for (size_t i = 0; i < ops.size(); i++) {
		if (mask.upto >= 0 && (int)i > mask.upto) break;
		if (mask.dropped.count((int)i)) continue;
		rep->running_op = (int)i;
		r.cur = (int)i;
		Op op = ops[i];
		std::set<int> rows;
		for (auto &s : mask.subs) if (s.first == (int)i) rows.insert(s.second);
		bool nofault = mask.nofault.count((int)i) > 0;
		if (trace) {
			Op shown = op;
			if (nofault) shown.f.mode = 0;
			if (!rows.empty() && shown.st.k == Stmt::INSERT) {
				std::vector<std::vector<Lit>> keep;
				for (size_t k = 0; k < shown.st.rows.size(); k++) if (!rows.count((int)k)) keep.push_back(shown.st.rows[k]);
				if (!keep.empty()) shown.st.rows = keep;
			}
			say("%3zu %s", i, shown.str().c_str());
			fflush(trace);
		}
		r.run(op, nofault, rows.empty() ? nullptr : &rows);
	}
	rep->running_op = (int)ops.size();
	r.finish();
	say("# every check passed");
}
