// trun.cpp - several simulated threads use the engine at once (P12: statements, P13: row operations under the lock of the table)
#include "sim.hpp"
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <unordered_set>

volatile uint64_t *sched_n;
thr_switch *sched_out;

static void obs(uint64_t v) { rep->hash = mix(rep->hash, v); }
static void shape(uint64_t v) { rep->shape = mix(rep->shape, v); }

// ---------------------------------------------------------------- how the threads take turns
static thr_cfg draw_schedule(Rng &r)
{
	thr_cfg c;
	memset(&c, 0, sizeof(c));
	c.seed = r.next();
	c.mode = (int)r.weighted({35, 30, 10, 25});
	c.mean = 1u << r.below(14);
	c.changes = (uint32_t)r.range(1, 6);
	c.horizon = 1ull << r.range(6, 19);
	if (r.chance(25)) { c.stalls = (uint32_t)r.range(1, 3); c.stall_len = 1ull << r.range(6, 18); }
	return c;
}

static const char *mode_name(int m) { static const char *n[] = {"random", "priorities", "locks only", "focus on shared memory"}; return n[m]; }

static void run_threads(int n, std::function<void(int)> body, thr_cfg cfg, const Mask &mask)
{
	if (mask.planned) { cfg.plan = mask.sched.data(); cfg.nplan = mask.sched.size(); static thr_switch none; if (!cfg.plan) cfg.plan = &none; }
	say("# %d threads, turns: %s, mean %u, %u changes within %llu, %u stalls of %llu", n, mask.planned ? "as planned" : mode_name(cfg.mode), cfg.mean, cfg.changes,
		(unsigned long long)cfg.horizon, cfg.stalls, (unsigned long long)cfg.stall_len);
	thr_record(sched_out, SCHED_CAP, sched_n);
	thr_run(n, [](void *a, int id) { (*(std::function<void(int)>*)a)(id); }, &body, &cfg);
	const thr_stats *s = thr_get_stats();
	rep->thr_switches += s->switches;
	rep->thr_accesses += s->accesses;
	rep->thr_contended += s->contended;
	rep->sim_ticks += s->points;
	rep->extra[0] += s->stalls;
	rep->extra[1 + (mask.planned ? 0 : cfg.mode)]++;
	obs(s->schedule);
	shape(s->lock_order);
	if (seam_locks_held()) violation("lock-held", "a lock is still held after all threads have ended");
}

static void no_leaks()
{
	if (seam_live_blocks()) {
		size_t sz = 0;
		uint64_t by = 0;
		seam_live_since(0, &sz, &by);
		violation("leak", std::to_string(seam_live_blocks()) + " blocks of memory are never freed (the first one, " + std::to_string(sz) + " bytes, dates from operation " +
			std::to_string(by) + ")");
	}
	if (seam_live_regex()) violation("leak", "a compiled regular expression is never released");
}

static void compare_table(const Tab &t, void *tp, const char *when)
{
	if (sut_ncols(tp) != (int)t.cols.size()) violation("schema", "table " + t.name + " has " + std::to_string(sut_ncols(tp)) + " columns instead of " + std::to_string(t.cols.size()) + when);
	for (size_t i = 0; i < t.cols.size(); i++) {
		struct sut_col c;
		sut_col(tp, (int)i, &c);
		if (t.cols[i].name != c.name || t.cols[i].ty != c.type || (t.cols[i].ty == VARCHAR && t.cols[i].len != c.prec))
			violation("schema", "column " + std::to_string(i) + " of table " + t.name + " should be " + t.cols[i].name + ", but is " + c.name + when);
	}
	Walk w;
	w.blocks = sut_walk(tp, walk_cb, &w);
	uint64_t a = 0, b = 0;
	for (auto &r : w.rows) a += hrow(r);
	for (auto &r : t.rows) b += hrow(r);
	rep->checks++;
	rep->rows_checked += w.rows.size();
	rep->max_rows = std::max<uint64_t>(rep->max_rows, w.rows.size());
	rep->max_blocks = std::max<uint64_t>(rep->max_blocks, (uint64_t)w.blocks);
	if (a != b || w.rows.size() != t.rows.size()) violation("state", "table " + t.name + " should hold " + std::to_string(t.rows.size()) + " rows" + when + ": " + diff_rows(t.rows, w.rows));
}

// ================================================================ P12: statements
struct Obs {			// what a caller saw of one statement
	int idx = 0, thread = 0, sess = 0;
	uint64_t inv = 0, resp = 0;
	bool done = false, fired = false;
	int status = 0;
	uint64_t aff = 0;
	std::string msg;
	std::vector<std::string> names;
	std::vector<int> tys;
	std::vector<Row> rows;
};

// could the statement, run on that contents, have been answered like that?
static bool answers(const Outcome &o, const Stmt &st, const Obs &b)
{
	bool ok = b.status == SUT_RESULTS || b.status == SUT_EXECUTED;
	if (!ok) return o.v != Outcome::OK || b.fired || o.may_refuse;
	if (o.v == Outcome::ERR) return st.k == Stmt::RAW && st.ine && b.aff == 0;
	if (o.v == Outcome::EITHER) return b.status == SUT_RESULTS || b.aff == 0;
	if ((b.status == SUT_RESULTS) != o.results) return false;
	if (!o.results) return b.aff == o.aff;
	if (b.names.size() != o.names.size() || b.rows.size() != o.rows.size()) return false;
	std::vector<int> map;
	std::vector<bool> used(b.names.size(), false);
	for (size_t e = 0; e < o.names.size(); e++) {
		int f = -1;
		for (size_t i = 0; i < b.names.size() && f < 0; i++)
			if (!used[i] && (b.names[i] == o.names[e] || (o.names[e] == "COUNT" && b.names[i].compare(0, 5, "COUNT") == 0))) f = (int)i;
		if (f < 0 || b.tys[(size_t)f] != o.tys[e]) return false;
		used[(size_t)f] = true;
		map.push_back(f);
	}
	uint64_t x = 0, y = 0;
	for (auto &r : b.rows) {
		Row q;
		for (int m : map) q.push_back(r[(size_t)m]);
		x += hrow(q);
	}
	for (auto &r : o.rows) y += hrow(r);
	return x == y;
}

static uint64_t db_hash(const Db &db)
{
	uint64_t h = 3;
	for (auto &kv : db.tabs) {
		uint64_t a = 0;
		for (auto &r : kv.second.rows) a += hrow(r);
		h = mix(mix(mixs(h, kv.first), a), kv.second.rows.size() * 200 + kv.second.cols.size());
	}
	return h;
}

struct Stmts {
	const Mask &mask;
	std::string prop;
	Rng r;
	Cfg cfg;
	std::vector<Op> ops;
	size_t first = 0;			// of the operations that run concurrently
	int nthreads = 2;
	std::vector<int> owner;			// thread of each operation
	std::vector<std::vector<Op>> priv;	// what each thread does with a database of its own, before its share
	std::vector<int> priv_base;
	int total = 0;
	std::vector<void*> db;
	std::vector<Db> model;
	std::vector<Obs> seen;
	thr_cfg sched;

	Stmts(const std::string &p, uint64_t seed, const Mask &m) : mask(m), prop(p), r(seed ^ 0x7412ead5ull), cfg(make_cfg(p, seed))
	{
		ops = generate(cfg, seed);
		nthreads = (int)r.pick(std::vector<int>{2, 2, 2, 3, 3, 4});
		size_t n = (size_t)r.range(nthreads, nthreads == 2 ? 8 : nthreads == 3 ? 9 : 10);
		if (n + (size_t)cfg.nsess > ops.size()) n = ops.size() - (size_t)cfg.nsess;
		first = ops.size() - n;
		// the same statement twice
		for (size_t i = first; i < ops.size(); i++)
			if (ops[i].k == O_SQL && i + 1 < ops.size() && r.chance(12)) { Fault f = ops[i + 1].f; ops[i + 1] = ops[i]; ops[i + 1].f = f; }
		owner.assign(ops.size(), -1);
		for (size_t i = first; i < ops.size(); i++) owner[i] = (int)r.below((uint64_t)nthreads);
		if (cfg.nsess > 1 && r.chance(35))
			for (size_t i = first; i < ops.size(); i++) owner[i] = ops[i].sess % nthreads;	// each database has its thread
		int next = (int)ops.size();
		for (int t = 0; t < nthreads; t++) {
			std::vector<Op> v;
			uint64_t s2 = r.next();
			if (r.chance(25)) {
				Cfg c2 = make_cfg(p, s2);
				c2.nsess = 1;
				c2.nops = (int)r.range(2, 7);
				c2.fkinds = cfg.fkinds;
				c2.fault_pct = cfg.fault_pct;
				v = generate(c2, s2);
			}
			priv_base.push_back(next);
			next += (int)v.size();
			priv.push_back(v);
		}
		total = next;
		sched = draw_schedule(r);
		if (!mask.planned) obs(sched.seed);
	}

	bool gone(int i) const { return mask.dropped.count(i) > 0; }

	void exec(int idx, const Op &op, void *d, Obs &b, sut_out &out)
	{
		seam_plan plan = {0, 0, 0};
		if (op.f.mode && !mask.nofault.count(idx)) plan = {op.f.kind, op.f.at, op.f.span};
		std::string text = op.st.sql();
		b.idx = idx;
		b.sess = op.sess;
		sut_ctx(&plan, (uint64_t)idx);
		b.inv = thr_now();
		sut_exec(d, text.c_str(), &out);
		b.resp = thr_now();
		const seam_stats *s = sut_last();
		b.fired = s->fired > 0;
		rep->calls++;
		rep->steps++;
		rep->per_op[O_SQL]++;
		rep->per_stmt[op.st.k]++;
		rep->allocs += s->allocs;
		obs(s->allocs * 3 + s->fired);
		if (b.fired) rep->fired[plan.kind] += s->fired;
		if (thr_holds()) violation("lock-held", "a lock is still held after the call returned");
		b.status = out.status;
		b.aff = out.aff;
		b.msg = out.msg;
		bool ok = b.status == SUT_RESULTS || b.status == SUT_EXECUTED;
		ok ? rep->ok++ : rep->err++;
		if (!ok) {
			if (out.status == SUT_NULL) { if (!b.fired) violation("no-output", "query_execute() returned nothing although nothing failed"); }
			else if (out.msg_unterminated || !out.msg[0]) violation("message", "the statement failed without an error message");
		}
		if (out.status == SUT_RESULTS) {
			int n = sut_res_cols(out.h);
			for (int i = 0; i < n; i++) {
				struct sut_col c;
				sut_res_col(out.h, i, &c);
				b.names.push_back(c.name);
				b.tys.push_back(c.type);
			}
			Walk w;
			sut_res_walk(out.h, walk_cb, &w);
			b.rows = w.rows;
		}
		b.done = true;
		obs((uint64_t)b.status * 7 + b.aff);
		shape((uint64_t)b.status * 64 + (uint64_t)op.st.k * 8 + (uint64_t)b.thread);
	}

	// the rows, once more, as the cursor shows them; other threads go on meanwhile
	void cursor(const Obs &b, sut_out &out)
	{
		for (size_t i = 0;; i++) {
			rep->calls++;
			int rc = sut_step(out.h);
			if (rc < 0) violation("cursor", "the cursor reports neither a row nor the end");
			if (rc == 0) {
				if (i != b.rows.size()) violation("cursor", "the cursor ended after " + std::to_string(i) + " of " + std::to_string(b.rows.size()) + " rows");
				return;
			}
			if (i >= b.rows.size()) violation("cursor", "the cursor returned more rows than the result holds");
			std::vector<sut_val> v(b.rows[i].size() + 1);
			sut_res_row(out.h, v.data());
			Row got;
			for (size_t k = 0; k < b.rows[i].size(); k++) got.push_back(to_val(v[k]));
			if (hrow(got) != hrow(b.rows[i]))
				violation("held-result", "row " + std::to_string(i) + " of a result changed from " + dump_rows({b.rows[i]}, false) + " to " + dump_rows({got}, false));
			rep->held_checked++;
		}
	}

	static std::string show(const Obs &b)
	{
		if (b.status == SUT_RESULTS) return "returns " + std::to_string(b.rows.size()) + " rows";
		if (b.status == SUT_EXECUTED) return "succeeds, " + std::to_string(b.aff) + " rows affected";
		std::string m = b.msg;
		while (!m.empty() && (m.back() == '\n' || m.back() == ' ')) m.pop_back();
		return std::string("fails") + (b.fired ? " (fault delivered)" : "") + ": " + m;
	}

	// one after the other, in-line with the model
	void alone(int idx, Op op, void *d, Db &m, int thread)
	{
		Obs b;
		sut_out out;
		b.thread = thread;
		exec(idx, op, d, b, out);
		Outcome o = predict(m, op.st);
		if (!answers(o, op.st, b))
			violation("outcome", "a statement on a database no other thread uses " + show(b) + ", but should " + (o.v == Outcome::OK ? "succeed" : "fail: " + o.why) + ": " + op.st.sql());
		bool ok = b.status == SUT_RESULTS || b.status == SUT_EXECUTED;
		if (ok && o.v == Outcome::OK && o.changes) m.tabs[op.st.table] = o.after;
		if (out.status == SUT_RESULTS) cursor(b, out);
		sut_ctx(nullptr, (uint64_t)idx);
		sut_free(&out);
	}

	void *open(int idx, const Op &op)
	{
		seam_plan plan = {0, 0, 0};
		if (op.f.mode && !mask.nofault.count(idx)) plan = {op.f.kind, op.f.at, op.f.span};
		int rc;
		sut_ctx(&plan, (uint64_t)idx);
		void *d = sut_db_open(&rc);
		bool fired = sut_last()->fired > 0;
		rep->steps++;
		rep->per_op[O_OPEN]++;
		if (fired) rep->fired[plan.kind] += sut_last()->fired;
		if (!d && !fired) violation("open", "database_open() failed although nothing failed");
		return d;
	}
	void close(int idx, void *d)
	{
		sut_ctx(nullptr, (uint64_t)idx);
		sut_db_close(d);
		rep->steps++;
		rep->per_op[O_CLOSE]++;
	}

	void thread(int t)
	{
		// a database of its own
		void *d = nullptr;
		Db m;
		for (size_t i = 0; i < priv[(size_t)t].size(); i++) {
			int idx = priv_base[(size_t)t] + (int)i;
			const Op &op = priv[(size_t)t][i];
			thr_op(idx);
			if (op.k == O_OPEN) {
				say("  [%d] opens a database of its own", t);
				d = open(idx, op);
			} else if (op.k == O_SQL && d && !gone(idx)) {
				say("  [%d] #%d (own database) %s", t, idx, op.str().c_str());
				alone(idx, op, d, m, t);
			}
		}
		if (d) {
			for (auto &kv : m.tabs) {
				void *tp = sut_table(d, kv.first.c_str());
				if (!tp) violation("lost-table", "table '" + kv.first + "' is not in the catalogue");
				compare_table(kv.second, tp, "");
			}
			say("  [%d] closes its database", t);
			close(priv_base[(size_t)t], d);
		}
		// its share of the statements
		struct Kept { size_t obs; sut_out out; };
		std::vector<Kept> kept;
		for (size_t i = first; i < ops.size(); i++) {
			if (owner[i] != t || ops[i].k != O_SQL || gone((int)i) || !db[(size_t)ops[i].sess]) continue;
			thr_op(total + (int)i);
			thr_yield();
			Obs &b = seen[i];
			sut_out out;
			b.thread = t;
			say("  [%d] #%zu calls   s%d %s", t, i, ops[i].sess, ops[i].str().c_str());
			exec((int)i, ops[i], db[(size_t)ops[i].sess], b, out);
			say("  [%d] #%zu %s", t, i, show(b).c_str());
			if (out.status == SUT_RESULTS && (ops[i].st.style ^ i) % 3 == 0) { kept.push_back({i, out}); continue; }
			if (out.status == SUT_RESULTS) cursor(b, out);
			sut_ctx(nullptr, (uint64_t)i);
			sut_free(&out);
		}
		thr_op(2 * total);
		thr_yield();
		for (auto &k : kept) {
			cursor(seen[k.obs], k.out);
			sut_ctx(nullptr, (uint64_t)k.obs);
			sut_free(&k.out);
		}
	}

	// ---- is there an order of the statements on one database that explains everything that was seen?
	struct Search {
		const std::vector<Op> &ops;
		std::vector<std::vector<const Obs*>> q;	// per thread
		std::unordered_set<uint64_t> dead;
		const std::function<bool(const Db&)> final_ok;
		std::vector<int> order, best;
		uint64_t nodes = 0;

		bool go(const Db &db, std::vector<size_t> &pos)
		{
			if (++nodes > 200000) return true;	// too many to tell: no verdict
			uint64_t limit = ~0ull;
			size_t left = 0;
			for (size_t t = 0; t < q.size(); t++) {
				left += q[t].size() - pos[t];
				if (pos[t] < q[t].size()) limit = std::min(limit, q[t][pos[t]]->resp);
			}
			if (order.size() > best.size()) best = order;
			if (!left) return final_ok(db);
			uint64_t key = db_hash(db);
			for (size_t p : pos) key = mix(key, p);
			if (dead.count(key)) return false;
			for (size_t t = 0; t < q.size(); t++) {
				if (pos[t] == q[t].size()) continue;
				const Obs *b = q[t][pos[t]];
				if (b->inv > limit) continue;	// another one had returned before this one was called
				const Stmt &st = ops[(size_t)b->idx].st;
				Outcome o = predict(db, st);
				if (!answers(o, st, *b)) continue;
				pos[t]++;
				order.push_back(b->idx);
				bool ok = b->status == SUT_RESULTS || b->status == SUT_EXECUTED;
				bool found;
				if (ok && o.v == Outcome::OK && o.changes) {
					Db n = db;
					n.tabs[st.table] = o.after;
					found = go(n, pos);
				} else found = go(db, pos);
				if (found) return true;
				pos[t]--;
				order.pop_back();
			}
			dead.insert(key);
			return false;
		}
	};

	void verdict(int s)
	{
		if (!db[(size_t)s]) return;
		std::set<std::string> names;
		for (auto &kv : model[(size_t)s].tabs) names.insert(kv.first);
		std::vector<std::vector<const Obs*>> q((size_t)nthreads);
		for (size_t i = first; i < ops.size(); i++) {
			if (ops[i].sess != s || !seen[i].done) continue;
			q[(size_t)seen[i].thread].push_back(&seen[i]);
			if (!ops[i].st.table.empty()) names.insert(ops[i].st.table);
		}
		// what the tables hold now
		std::map<std::string, void*> now;
		for (auto &n : names) {
			sut_ctx(nullptr, 0);
			void *tp = sut_table(db[(size_t)s], n.c_str());
			if (!tp) continue;
			if (n != sut_tname(tp)) violation("catalogue", "looking up '" + n + "' returned table '" + sut_tname(tp) + "'");
			now[n] = tp;
		}
		if (sut_catalogue(db[(size_t)s]) != now.size()) violation("catalogue", "the catalogue holds " + std::to_string(sut_catalogue(db[(size_t)s])) + " tables instead of " + std::to_string(now.size()));
		std::map<std::string, std::pair<uint64_t, size_t>> held;
		std::map<std::string, std::vector<Row>> held_rows;
		for (auto &kv : now) {
			Walk w;
			sut_walk(kv.second, walk_cb, &w);
			uint64_t a = 0;
			for (auto &r2 : w.rows) a += hrow(r2);
			held[kv.first] = {a, w.rows.size()};
			held_rows[kv.first] = w.rows;
			rep->rows_checked += w.rows.size();
			rep->max_rows = std::max<uint64_t>(rep->max_rows, w.rows.size());
		}
		Db last;
		std::string why;
		Search f{ops, q, {}, [&](const Db &d) {
			last = d;
			if (d.tabs.size() != now.size()) { why = "; the catalogue holds other tables"; return false; }
			for (auto &kv : d.tabs) {
				auto it = held.find(kv.first);
				if (it == held.end()) { why = "; table " + kv.first + " is missing"; return false; }
				uint64_t a = 0;
				for (auto &r2 : kv.second.rows) a += hrow(r2);
				if (a != it->second.first || kv.second.rows.size() != it->second.second) { why = "; table " + kv.first + ": " + diff_rows(kv.second.rows, held_rows[kv.first]); return false; }
				if (sut_ncols(now[kv.first]) != (int)kv.second.cols.size()) { why = "; table " + kv.first + " has other columns"; return false; }
			}
			return true;
		}, {}, {}};
		std::vector<size_t> pos((size_t)nthreads, 0);
		rep->checks++;
		bool ok = f.go(model[(size_t)s], pos);
		rep->extra[6] += f.nodes;
		if (!ok) {
			std::string m = "no order of the statements on database " + std::to_string(s) + " explains what their callers saw and what the tables hold now" + why + ":";
			for (auto &v : q) for (auto *b : v)
				m += " [thread " + std::to_string(b->thread) + ", called at " + std::to_string(b->inv) + ", returned at " + std::to_string(b->resp) + "] " +
					ops[(size_t)b->idx].st.sql().substr(0, 160) + " " + show(*b) + ";";
			violation("not-serial", m);
		}
		if (f.nodes > 200000) { rep->extra[7]++; return; }
		say("# database %d: explained by the order%s", s, [&]() { std::string x; for (int i : f.order) x += " #" + std::to_string(i); return x; }().c_str());
		note_state(db_hash(last));
		obs(db_hash(last));
		for (auto &kv : last.tabs) compare_table(kv.second, now[kv.first], " at the end");
		// a message belongs to its statement: the same statement, refused for the same reason, says the same again
		Db cur = model[(size_t)s];
		std::vector<std::pair<const Obs*, std::string>> refused;
		for (int i : f.order) {
			const Stmt &st = ops[(size_t)i].st;
			const Obs &b = seen[(size_t)i];
			Outcome o = predict(cur, st);
			bool good = b.status == SUT_RESULTS || b.status == SUT_EXECUTED;
			if (good && o.v == Outcome::OK && o.changes) cur.tabs[st.table] = o.after;
			if (b.status == SUT_ERROR && !b.fired && o.v == Outcome::ERR && !(st.k == Stmt::RAW && st.ine)) refused.push_back({&b, o.why});
		}
		// (the reason may be another one when a table came into being meanwhile)
		if (last.tabs.size() != model[(size_t)s].tabs.size()) return;
		for (auto &x : refused) {
			const Stmt &st = ops[(size_t)x.first->idx].st;
			Outcome o = predict(last, st);
			if (o.v != Outcome::ERR || o.why != x.second) continue;
			sut_out out;
			sut_ctx(nullptr, (uint64_t)x.first->idx);
			sut_exec(db[(size_t)s], st.sql().c_str(), &out);
			if (out.status != SUT_ERROR) violation("accepted", "a statement that was refused is accepted when it runs again: " + st.sql());
			rep->checks++;
			if (x.first->msg != out.msg) violation("message", "among other threads the statement fails with '" + x.first->msg + "', and alone with '" + out.msg + "': " + st.sql());
			sut_ctx(nullptr, (uint64_t)x.first->idx);
			sut_free(&out);
		}
	}

	void run()
	{
		set_tz(cfg.tz);
		seam_fill(cfg.fill);
		db.assign((size_t)cfg.nsess, nullptr);
		model.assign((size_t)cfg.nsess, Db());
		seen.assign(ops.size(), Obs());
		say("# configuration: %s", cfg.str().c_str());
		for (size_t i = 0; i < first; i++) {
			if (ops[i].k == O_OPEN) { Op o = ops[i]; o.f.mode = 0; db[(size_t)o.sess] = open((int)i, o); continue; }
			if (ops[i].k != O_SQL || gone((int)i)) continue;
			Op o = ops[i];
			o.f.mode = 0;
			say("%3zu s%d %s", i, o.sess, o.str().c_str());
			alone((int)i, o, db[(size_t)o.sess], model[(size_t)o.sess], -1);
		}
		run_threads(nthreads, [this](int t) { thread(t); }, sched, mask);
		for (int s = 0; s < cfg.nsess; s++) verdict(s);
		for (int s = 0; s < cfg.nsess; s++) if (db[(size_t)s]) close(0, db[(size_t)s]);
		no_leaks();
		if (seam_locks_held()) violation("lock-held", "a lock is still held at the end");
		say("# every check passed");
	}
};

// ================================================================ P13: rows, under the lock of their table
enum { R_INS, R_DEL, R_UPD, R_VAC, R_ADD, R_REM, R_LOOK, R_KINDS };

struct RowOp { int k; uint64_t rnd; int which; Fault f; };
struct Section { int a = -1, b = -1; bool priv = false; std::vector<RowOp> ops; int base = 0; };

struct Rows {
	const Mask &mask;
	Rng r;
	int nthreads, ntabs, total = 0, fill;
	bool catalogued;
	std::vector<std::vector<Section>> prog;
	std::vector<Tab> model;
	std::vector<void*> tab;
	std::vector<int> busy;
	void *db = nullptr;
	int fault_pct, maxcols;
	std::vector<int> w;
	thr_cfg sched;

	Rows(uint64_t seed, const Mask &m) : mask(m), r(seed ^ 0x5e0c7ull)
	{
		nthreads = (int)r.pick(std::vector<int>{2, 2, 3, 4});
		ntabs = (int)r.range(1, 3);
		fill = (int)r.pick(std::vector<int>{0xa5, 0, 0xff});
		catalogued = r.chance(50);
		fault_pct = r.chance(30) ? (int)r.pick(std::vector<int>{10, 30}) : 0;
		maxcols = (int)r.pick(std::vector<int>{2, 5, 12, 60});
		w = {40, 18, 18, 10, 6, 5, 5};
		for (auto &x : w) if (r.chance(20)) x = x / 4 + 1;
		for (int t = 0; t < nthreads; t++) {
			std::vector<Section> p;
			int n = (int)r.range(1, 7);
			for (int i = 0; i < n; i++) {
				Section s;
				s.base = total++;
				s.priv = r.chance(15);
				s.a = (int)r.below((uint64_t)ntabs);
				if (ntabs > 1 && r.chance(15)) { s.b = (int)r.below((uint64_t)ntabs); if (s.b == s.a) s.b = -1; else if (s.b < s.a) std::swap(s.a, s.b); }
				int k = (int)r.range(1, r.chance(15) ? 40 : 6);
				for (int j = 0; j < k; j++) {
					RowOp o;
					o.k = (int)r.weighted(w);
					o.rnd = r.next();
					o.which = s.b >= 0 && r.chance(50);
					if (r.chance(fault_pct)) { o.f.mode = 1; o.f.kind = r.chance(70) ? SF_ALLOC : SF_ALLOC_OUTAGE; o.f.at = 1 + r.below(6); o.f.span = 1 + r.below(5); }
					s.ops.push_back(o);
					total++;
				}
				p.push_back(s);
			}
			prog.push_back(p);
		}
		sched = draw_schedule(r);
		if (!mask.planned) obs(sched.seed);
	}

	static Val value(const ColDef &d, Rng &x)
	{
		Val v;
		v.ty = d.ty;
		v.null = !d.notnull && x.chance(20);
		if (v.null) return v;
		switch (d.ty) {
		case VARCHAR: { size_t n = x.below((uint64_t)std::min(d.len, 40)); for (size_t i = 0; i < n; i++) v.s += (char)('a' + x.below(26)); break; }
		case TINYINT: v.i = (int64_t)x.below(2); break;
		case DOUBLE: v.d = (double)(int64_t)x.next() / 1024.0; break;
		case INTEGER: v.i = (int64_t)x.next(); break;
		default: v.i = (int64_t)x.below(1u << 31);
		}
		return v;
	}
	static ColDef column(Rng &x, const Tab &t)
	{
		ColDef d;
		for (;;) {
			d.name = "c" + std::to_string(x.below(200));
			if (t.col(d.name) < 0) break;
		}
		d.ty = (int)x.below(6);
		d.len = d.ty == VARCHAR ? (int)x.range(2, 60) : 0;
		d.notnull = x.chance(20);
		return d;
	}
	static std::vector<sut_val> raw(const Row &row)
	{
		std::vector<sut_val> v;
		for (auto &x : row) {
			sut_val y;
			memset(&y, 0, sizeof(y));
			y.null = x.null; y.type = x.ty; y.i = x.i; y.d = x.d; y.s = x.s.c_str();
			v.push_back(y);
		}
		return v;
	}

	void row_op(int idx, const RowOp &o, void *tp, Tab &t, int thread)
	{
		static const char *names[] = {"inserts a row into", "deletes a row of", "updates a row of", "vacuums", "adds a column to", "removes a column of", "looks at"};
		static const int kinds[] = {O_ROWINS, O_ROWDEL, O_ROWUPD, O_VACUUM, O_ADDCOL, O_REMCOL, O_AUDIT};
		Rng x(o.rnd);
		seam_plan plan = {0, 0, 0};
		if (o.f.mode && !mask.nofault.count(idx)) plan = {o.f.kind, o.f.at, o.f.span};
		int ok = 1;
		Walk before;
		sut_walk(tp, walk_cb, &before);
		auto arm = [&]() { sut_ctx(&plan, (uint64_t)idx); };
		if (plan.kind) say("  [%d] #%d %s %s, fault kind %d at %llu for %llu", thread, idx, names[o.k], t.name.c_str(), plan.kind, (unsigned long long)plan.at, (unsigned long long)plan.span);
		else say("  [%d] #%d %s %s", thread, idx, names[o.k], t.name.c_str());
		size_t i = before.rows.empty() ? 0 : x.below(before.rows.size()), j = 0;
		if (o.k == R_DEL || o.k == R_UPD) {
			if (before.rows.empty()) return;
			uint64_t h = hrow(before.rows[i]);
			while (j < t.rows.size() && hrow(t.rows[j]) != h) j++;
			if (j == t.rows.size()) violation("state", "table " + t.name + " holds a row nobody put there: " + dump_rows({before.rows[i]}, false));
		}
		Row row;
		for (auto &d : t.cols) row.push_back(value(d, x));
		std::vector<sut_val> v = raw(row);
		ColDef d;
		bool called = true;
		switch (o.k) {
		case R_INS: arm(); ok = sut_insert(tp, v.data(), (int)v.size()); if (ok) t.rows.push_back(row); break;
		case R_DEL: arm(); ok = sut_delete(tp, before.where[i].first, before.where[i].second); if (ok) t.rows.erase(t.rows.begin() + (long)j); break;
		case R_UPD: arm(); ok = sut_update(tp, before.where[i].first, before.where[i].second, v.data(), (int)v.size()); if (ok) t.rows[j] = row; break;
		case R_VAC: arm(); ok = sut_vacuum(tp); break;
		case R_ADD:
			if (t.cols.size() >= 128) { called = false; break; }
			d = column(x, t);
			arm();
			ok = sut_add_col(tp, d.name.c_str(), d.ty, d.ty == VARCHAR ? d.len : d.ty == TINYINT ? 1 : 8, !d.notnull);
			if (ok) {
				t.cols.push_back(d);
				for (auto &q : t.rows) { Val z; z.null = false; z.ty = d.ty; q.push_back(z); }
			}
			break;
		case R_REM: {
			if (t.cols.size() < 2) { called = false; break; }
			size_t c = x.below(t.cols.size());
			arm();
			ok = sut_rem_col(tp, t.cols[c].name.c_str(), (int)(x.next() & 1));
			if (ok) {
				t.cols.erase(t.cols.begin() + (long)c);
				for (auto &q : t.rows) q.erase(q.begin() + (long)c);
			}
			break;
		}
		default: called = false; thr_yield();
		}
		rep->steps++;
		rep->per_op[kinds[o.k]]++;
		if (called) {
			const seam_stats *s = sut_last();
			rep->calls++;
			rep->allocs += s->allocs;
			if (s->fired) rep->fired[plan.kind] += s->fired;
			obs(s->allocs * 3 + (uint64_t)ok);
			if (!ok && !s->fired) violation("refused", std::string("a thread that ") + names[o.k] + " a table whose lock it holds is refused, although nothing failed");
			ok ? rep->ok++ : rep->err++;
		}
		shape((uint64_t)(o.k * 8 + ok * 4 + thread));
		compare_table(t, tp, " while its lock is held");
		if (o.k == R_VAC) {
			Walk after;
			sut_walk(tp, walk_cb, &after);
			bool same = before.rows.size() == after.rows.size();
			for (size_t k = 0; same && k < before.rows.size(); k++) same = hrow(before.rows[k]) == hrow(after.rows[k]);
			if (!same) violation("vacuum", "vacuum changed the order of the rows of table " + t.name);
		}
		uint64_t a = 0;
		for (auto &q : t.rows) a += hrow(q);
		note_state(mix(a, t.cols.size()));
		obs(a);
	}

	void *new_table(const std::string &name, Tab &t, Rng &x, int rows, int idx)
	{
		t = Tab();
		t.name = name;
		sut_ctx(nullptr, (uint64_t)idx);
		void *tp = sut_tinit(name.c_str());
		if (!tp) violation("refused", "table_init() failed although nothing failed");
		int n = (int)x.range(1, maxcols);
		for (int i = 0; i < n; i++) {
			ColDef d = column(x, t);
			if (!sut_add_col(tp, d.name.c_str(), d.ty, d.ty == VARCHAR ? d.len : d.ty == TINYINT ? 1 : 8, !d.notnull)) violation("refused", "table_add_column() failed although nothing failed");
			t.cols.push_back(d);
		}
		for (int i = 0; i < rows; i++) {
			Row row;
			for (auto &d : t.cols) row.push_back(value(d, x));
			std::vector<sut_val> v = raw(row);
			if (!sut_insert(tp, v.data(), (int)v.size())) violation("refused", "table_insert_row() failed although nothing failed");
			t.rows.push_back(row);
		}
		return tp;
	}

	void *get(int t)
	{
		if (!catalogued) return tab[(size_t)t];
		void *tp = sut_table(db, model[(size_t)t].name.c_str());
		if (tp != tab[(size_t)t]) violation("catalogue", "table " + model[(size_t)t].name + " isn't found in the catalogue");
		return tp;
	}

	void lock(int t, int thread)
	{
		sut_ctx(nullptr, 0);
		if (sut_lock(tab[(size_t)t])) violation("lock", "table_lock() failed although nothing failed");
		if (busy[(size_t)t]++) violation("exclusion", "two threads hold the lock of table " + model[(size_t)t].name + " at once");
		say("  [%d] holds the lock of %s", thread, model[(size_t)t].name.c_str());
	}
	void unlock(int t, int thread)
	{
		busy[(size_t)t]--;
		say("  [%d] releases the lock of %s", thread, model[(size_t)t].name.c_str());
		sut_ctx(nullptr, 0);
		if (sut_unlock(tab[(size_t)t])) violation("lock", "table_unlock() failed");
	}

	void thread(int id)
	{
		for (auto &s : prog[(size_t)id]) {
			if (mask.dropped.count(s.base)) continue;
			thr_op(s.base);
			thr_yield();
			if (s.priv) {
				Tab t;
				Rng x(s.ops[0].rnd ^ 77);
				say("  [%d] makes a table of its own", id);
				void *tp = new_table("P" + std::to_string(id), t, x, (int)x.below(6), s.base);
				for (size_t i = 0; i < s.ops.size(); i++) {
					int idx = s.base + 1 + (int)i;
					if (mask.dropped.count(idx)) continue;
					thr_op(idx);
					row_op(idx, s.ops[i], tp, t, id);
				}
				if (!sut_tdestroy(tp)) violation("refused", "table_destroy() failed");
				say("  [%d] destroys its table", id);
				continue;
			}
			void *pa = get(s.a), *pb = s.b >= 0 ? get(s.b) : nullptr;
			lock(s.a, id);
			if (s.b >= 0) lock(s.b, id);
			for (size_t i = 0; i < s.ops.size(); i++) {
				int idx = s.base + 1 + (int)i;
				if (mask.dropped.count(idx)) continue;
				thr_op(idx);
				row_op(idx, s.ops[i], s.ops[i].which ? pb : pa, model[(size_t)(s.ops[i].which ? s.b : s.a)], id);
			}
			if (s.b >= 0) unlock(s.b, id);
			unlock(s.a, id);
		}
	}

	void run()
	{
		set_tz(0);
		seam_fill(fill);
		model.resize((size_t)ntabs);
		busy.assign((size_t)ntabs, 0);
		if (catalogued) {
			int rc;
			sut_ctx(nullptr, 0);
			db = sut_db_open(&rc);
			if (!db) violation("open", "database_open() failed although nothing failed");
		}
		for (int t = 0; t < ntabs; t++) {
			Rng x(r.next());
			tab.push_back(new_table("T" + std::to_string(t), model[(size_t)t], x, (int)x.below(x.chance(30) ? 120 : 10), 0));
			if (catalogued && sut_table_add(db, tab.back())) violation("refused", "database_table_add() failed although nothing failed");
		}
		run_threads(nthreads, [this](int t) { thread(t); }, sched, mask);
		for (int t = 0; t < ntabs; t++) {
			compare_table(model[(size_t)t], tab[(size_t)t], " at the end");
			if (!catalogued && !sut_tdestroy(tab[(size_t)t])) violation("refused", "table_destroy() failed");
		}
		if (catalogued) { sut_ctx(nullptr, 0); sut_db_close(db); }
		no_leaks();
		if (seam_locks_held()) violation("lock-held", "a lock is still held at the end");
		say("# every check passed");
	}
};

int thr_count(const std::string &prop, uint64_t seed)
{
	Mask m;
	if (prop == "P12") return Stmts(prop, seed, m).total;
	return Rows(seed, m).total;
}

bool thr_has_fault(const std::string &prop, uint64_t seed, int op)
{
	Mask m;
	if (prop == "P12") {
		Stmts s(prop, seed, m);
		return op < (int)s.ops.size() && s.ops[(size_t)op].f.mode;
	}
	Rows s(seed, m);
	for (auto &p : s.prog) for (auto &q : p) if (op > q.base && op <= q.base + (int)q.ops.size()) return q.ops[(size_t)(op - q.base - 1)].f.mode;
	return false;
}

void thr_history(const std::string &prop, uint64_t seed, const Mask &mask)
{
	rep->running_op = -1;
	if (prop == "P12") Stmts(prop, seed, mask).run();
	else Rows(seed, mask).run();
}
