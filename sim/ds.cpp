// ds.cpp - the containers against their abstract types, under seeded histories and allocation failures
#include "sim.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <deque>
#include <list>

static void obs(uint64_t v) { rep->hash = mix(rep->hash, v); }
static void shape(uint64_t v) { rep->shape = mix(rep->shape, v); }
#define CHECK(cond, cls, ...) do { rep->checks++; if (!(cond)) { char b_[400]; snprintf(b_, sizeof(b_), __VA_ARGS__); violation(cls, b_); } } while (0)

// ---------------------------------------------------------------- histories
struct DOp { int k; int inst; uint64_t a, b; Fault f; int burst = 0; };
struct DCfg { int nops, degree, str, fault_pct, sweep_pct, fill, reuse, domain, collide, kinds, big; std::vector<DOp> ops; };

// B-tree operations
enum { B_INS, B_DEL, B_UPD, B_GET, B_ALL, B_NEW };
// operations of the other containers
enum { H_PUT, H_GET, H_DEL, H_EACH, H_DRAIN, H_NEW, V_PUSH, V_CLEAR, V_NEW, Q_OFFER, Q_POLL, Q_PEEK, Q_AT, Q_NEW, S_PUSH, S_PUSHRAW, S_POP, S_PEEK, S_AT,
	S_NEW, L_ADD, L_TAIL, L_DEL, L_LEN, L_ALL, D_KINDS };
static const char *bname[] = {"insert", "remove", "update", "lookup", "look up everything", "new tree"};
static const char *dname[] = {"hashtable put", "hashtable get", "hashtable remove", "hashtable iterate", "hashtable drain", "hashtable new", "vector push", "vector clear",
	"vector new", "queue offer", "queue poll", "queue peek", "queue peek_pos", "queue new", "stack push", "stack unsafe_push", "stack pop", "stack peek", "stack peek_pos",
	"stack new", "list add", "list add before", "list del", "list length", "list walk"};

static Fault draw_fault(Rng &r, const DCfg &c)
{
	Fault f;
	if (!r.chance(c.fault_pct)) return f;
	if (r.chance(c.sweep_pct)) { f.mode = 2; f.kind = SF_ALLOC; f.at = 1; return f; }
	f.mode = 1;
	f.kind = r.chance(70) ? SF_ALLOC : SF_ALLOC_OUTAGE;
	f.at = 1 + r.below(r.chance(70) ? 4 : 40);
	f.span = 1 + r.below(12);
	return f;
}

static DCfg ds_cfg(const std::string &prop, uint64_t seed)
{
	Rng r(seed ^ 0xd5d5d5);
	DCfg c;
	c.fill = r.pick(std::vector<int>{0xa5, 0, 0xff, 0x5a, 1});
	c.reuse = r.chance(40);
	c.fault_pct = r.pick(std::vector<int>{0, 2, 10, 30, 60});
	c.sweep_pct = r.pick(std::vector<int>{0, 30, 100});
	c.collide = r.chance(30);
	if (prop == "P14") {
		c.degree = r.pick(std::vector<int>{2, 2, 2, 2, 3, 3, 3, 4, 5, 6, 8, 16, 33, 64, 100});
		c.str = r.chance(40);
		c.domain = r.pick(std::vector<int>{6, 12, 30, 60, 150, 400, 1500, 6000});
		c.nops = r.pick(std::vector<int>{30, 80, 200, 400, 900, 2500});
		if (c.nops < 3 * c.domain && r.chance(50)) c.domain = std::max(6, c.nops / 3);
		// phases: ascending, descending, random, clustered; growing or shrinking
		int left = 0, pat = 0, w[6] = {0};
		uint64_t cur = 0;
		for (int i = 0; i < c.nops; i++) {
			if (left-- <= 0) {
				static const int ws[][6] = {{80, 5, 5, 9, 1, 0}, {5, 80, 5, 9, 1, 0}, {40, 40, 10, 9, 1, 0}, {98, 0, 1, 1, 0, 0}, {0, 98, 1, 1, 0, 0}, {20, 20, 30, 27, 2, 1}};
				left = (int)r.range(4, std::max(6, c.nops / 3));
				pat = (int)r.below(5);
				memcpy(w, ws[r.below(6)], sizeof(w));
				cur = r.below((uint64_t)c.domain);
			}
			DOp o;
			o.inst = 0;
			o.k = (int)r.weighted(std::vector<int>(w, w + 6));
			if (pat == 0) cur++;
			else if (pat == 1) cur += (uint64_t)c.domain - 1;
			else if (pat == 2) cur = r.below((uint64_t)c.domain);
			else if (pat == 3) cur += r.below(5) + (uint64_t)c.domain - 2;
			else cur = r.chance(50) ? r.below(4) : (uint64_t)c.domain - 1 - r.below(4);
			cur %= (uint64_t)c.domain;
			o.a = cur;
			// removals go for what is there, most of the time: resolved when it runs
			o.b = o.k == B_DEL || o.k == B_UPD ? r.below(100) < 75 : 0;
			o.f = draw_fault(r, c);
			c.ops.push_back(o);
		}
		return c;
	}
	c.nops = r.pick(std::vector<int>{40, 120, 300, 700, 1500});
	c.domain = r.pick(std::vector<int>{4, 12, 40, 200, 1000});
	c.big = r.chance(25);
	int w[D_KINDS];
	for (int i = 0; i < D_KINDS; i++) w[i] = 4;
	w[H_PUT] = w[V_PUSH] = w[Q_OFFER] = w[S_PUSH] = w[L_ADD] = 12;
	w[H_NEW] = w[V_NEW] = w[Q_NEW] = w[S_NEW] = w[H_DRAIN] = 1;
	w[V_CLEAR] = 2;
	// swarm: some kinds of containers only, some operations hardly ever
	static const int group[][2] = {{H_PUT, H_NEW}, {V_PUSH, V_NEW}, {Q_OFFER, Q_NEW}, {S_PUSH, S_NEW}, {L_ADD, L_ALL}};
	if (r.chance(60)) {
		int keep = (int)r.below(5), keep2 = (int)r.below(5);
		for (int g = 0; g < 5; g++) if (g != keep && g != keep2) for (int i = group[g][0]; i <= group[g][1]; i++) w[i] = 0;
	}
	for (int i = 0; i < D_KINDS; i++) if (r.chance(15)) w[i] /= 3;
	int left = 0, grow = 1, bursts = c.nops <= 300 && r.chance(40) ? (c.nops > 120 ? 2 : 6) : 0;
	uint64_t cur = 0;
	for (int i = 0; i < c.nops; i++) {
		if (left-- <= 0) { left = (int)r.range(5, 150); grow = r.chance(60); cur = r.below(1000); }
		DOp o;
		o.k = (int)r.weighted(std::vector<int>(w, w + D_KINDS));
		if (!grow) {
			if (o.k == H_PUT && r.chance(70)) o.k = H_DEL;
			if (o.k == Q_OFFER && r.chance(70)) o.k = Q_POLL;
			if (o.k == S_PUSH && r.chance(70)) o.k = S_POP;
			if (o.k == L_ADD && r.chance(70)) o.k = L_DEL;
		}
		o.inst = (int)r.below(2);
		o.a = r.chance(50) ? r.below((uint64_t)c.domain) : (cur++ % (uint64_t)c.domain);
		o.b = r.next();
		o.f = draw_fault(r, c);
		// many of the same at once, past every size the containers start with
		if (bursts && r.chance(bursts)) {
			o.burst = (int)r.pick(std::vector<int>{20, 100, 300, 600, 600, 1200, 2500});
			if (o.k != H_PUT && o.k != V_PUSH && o.k != Q_OFFER && o.k != Q_POLL && o.k != S_PUSH && o.k != S_POP) o.burst = 0;
		}
		c.ops.push_back(o);
	}
	return c;
}

int ds_count(const std::string &prop, uint64_t seed) { return (int)ds_cfg(prop, seed).ops.size(); }

// one call under the plan of its operation: once(plan) returns success; same(): the contents must be what they were
template <class F, class S> static int faulty(const DOp &op, bool nofault, int cur, F once, S same)
{
	seam_plan plan = {0, 0, 0};
	auto call = [&](const seam_plan *p) {
		sut_ctx(p, (uint64_t)cur);
		int ok = once();
		rep->calls++;
		rep->allocs += sut_last()->allocs;
		return ok;
	};
	if (op.f.mode == 0 || nofault) { int ok = call(nullptr); shape((uint64_t)ok); return ok; }
	plan.kind = op.f.kind;
	plan.span = op.f.span;
	int ok = 0;
	bool fired = false;
	uint64_t last = op.f.mode == 1 ? op.f.at : 400;
	if (op.f.mode == 2) rep->sweeps++;
	for (uint64_t at = op.f.at; at <= last; at++) {
		plan.at = at;
		ok = call(&plan);
		fired = sut_last()->fired > 0;
		rep->fired[plan.kind] += sut_last()->fired;
		if (ok || !fired) break;
		same();
	}
	say("     fault %s, %s", fired ? "delivered" : "not reached", ok ? "succeeded" : "failed");
	shape((uint64_t)ok * 2 + fired + 10);
	if (fired && !ok) { ok = call(nullptr); rep->recovered++; }
	return ok;
}

// ---------------------------------------------------------------- B-tree
struct BEnt { void *k, *v; };
struct BRun {
	DCfg c;
	void *bt = nullptr;
	std::map<std::string, BEnt> m;		// by the bytes that order the keys
	uint64_t vseq = 0;
	int cur = 0;

	std::string rank(uint64_t a) const
	{
		std::string s;
		if (c.str) {
			// of different lengths, some of them prefixes of others, some not ASCII
			uint64_t x = a;
			do { s += (char)(x % 7 == 6 ? 0xe0 + x % 5 : 'a' + x % 7); x /= 7; } while (x);
			if (a % 11 == 3) s += std::string(40, 'z');
			return s;
		}
		uint64_t k = a % 3 == 0 ? a : a % 3 == 1 ? (a << 33) + 5 : ~0ull - a;
		for (int i = 7; i >= 0; i--) s += (char)(k >> (8 * i));
		return s;
	}
	void *mk(const std::string &s) const
	{
		if (c.str) return strdup(s.c_str());
		uint64_t k = 0;
		for (unsigned char ch : s) k = k << 8 | ch;
		uint64_t *p = (uint64_t*)malloc(8);
		*p = k;
		return p;
	}
	void fresh()
	{
		sut_ctx(nullptr, (uint64_t)cur);
		bt = sut_bt_init(c.degree, c.str);
		if (!bt) violation("refused", "btree_init() failed although nothing did");
	}
	void drop()
	{
		sut_ctx(nullptr, (uint64_t)cur);
		sut_bt_free(bt);
		for (auto &e : m) { free(e.second.k); free(e.second.v); }
		m.clear();
		bt = nullptr;
		if (seam_live_blocks()) violation("leak", "btree_destroy() leaves " + std::to_string(seam_live_blocks()) + " blocks of memory behind");
	}
	struct Cb { BRun *r; std::map<std::string, BEnt>::iterator it; uint64_t h; const char *bad; };
	void structure()
	{
		Cb cb = {this, m.begin(), 0, nullptr};
		const char *e = sut_bt_check(bt, c.degree, [](void *arg, void *k, void *v) {
			Cb *x = (Cb*)arg;
			if (x->bad) return;
			if (x->it == x->r->m.end()) { x->bad = "the tree holds a key it shouldn't, or in the wrong place"; return; }
			if (x->it->second.k != k) { x->bad = "the keys of the tree aren't the ones inserted, in their order"; return; }
			if (x->it->second.v != v) { x->bad = "a key is bound to another value than the last one given"; return; }
			x->h = mixs(x->h, x->it->first);
			++x->it;
		}, &cb);
		rep->checks += m.size() + 1;
		rep->rows_checked += m.size();
		if (!e && !cb.bad && cb.it != m.end()) cb.bad = "the tree lost a key";
		if (cb.bad) violation("contents", cb.bad);
		if (e) violation("structure", e);
		rep->max_rows = std::max(rep->max_rows, (uint64_t)m.size());
		obs(cb.h);
		note_state(mix(cb.h, m.size()));
	}
	void lookup(const std::string &s)
	{
		void *probe = mk(s);
		sut_ctx(nullptr, (uint64_t)cur);
		void *v = sut_bt_lookup(bt, probe);
		free(probe);
		auto it = m.find(s);
		rep->calls++;
		CHECK(v == (it == m.end() ? nullptr : it->second.v), "lookup", it == m.end() ? "a key that isn't there is found" : v ? "a lookup finds another value" : "a key that is there isn't found");
	}
	void everything(int extra)
	{
		for (auto &e : m) lookup(e.first);
		for (int i = 0; i < extra; i++) lookup(rank((uint64_t)i));
		structure();
	}
	void run(const DOp &o, bool nofault)
	{
		std::string s = rank(o.a);
		int k = o.k;
		if (o.b && !m.empty() && (k == B_DEL || k == B_UPD)) {
			auto it = m.lower_bound(s);
			if (it == m.end()) it = m.begin();
			s = it->first;
		}
		bool have = m.count(s) > 0;
		if (k == B_INS && have) k = B_UPD;	// duplicates aren't a map's business
		say("[%d] %s key %llu%s", cur, bname[k], (unsigned long long)o.a, have ? " (there)" : "");
		rep->extra[k]++;
		shape((uint64_t)k * 2 + have);
		auto same = [&]() { everything(0); };
		if (k == B_INS) {
			void *key = mk(s), *val = malloc(8);
			int ok = faulty(o, nofault, cur, [&]() { return sut_bt_insert(bt, key, val) == 0; }, same);
			CHECK(ok, "refused", "btree_insert() failed although nothing did");
			m[s] = BEnt{key, val};
		} else if (k == B_DEL) {
			void *probe = mk(s);
			int ok = faulty(o, nofault, cur, [&]() { return sut_bt_remove(bt, probe) == 0; }, same);
			free(probe);
			if (have) {
				CHECK(ok, "refused", "btree_remove() failed although nothing did");
				free(m[s].k);
				free(m[s].v);
				m.erase(s);
			}
		} else if (k == B_UPD) {
			void *probe = mk(s), *val = malloc(8);
			int ok = faulty(o, nofault, cur, [&]() { return sut_bt_update(bt, probe, val); }, same);
			free(probe);
			CHECK(!!ok == have, "update", have ? "btree_update() doesn't find a key that is there" : "btree_update() updates a key that isn't there");
			if (have) { free(m[s].v); m[s].v = val; }
			else free(val);
		} else if (k == B_GET) {
			lookup(s);
		} else if (k == B_ALL) {
			everything(std::min(c.domain, 60));
		} else {
			drop();
			fresh();
		}
		lookup(s);
		structure();
	}
};

// ---------------------------------------------------------------- the other containers
static std::string blob(uint64_t seed, size_t n)
{
	std::string s(n, 0);
	Rng r(seed);
	for (size_t i = 0; i < n; i++) s[i] = (char)r.next();
	return s;
}

struct Item { void *node; uint64_t id; };
struct CRun {
	DCfg c;
	int cur = 0;
	seam_plan plan = {0, 0, 0};
	void *ht[2] = {0}, *ve[2] = {0}, *qu[2] = {0}, *st[2] = {0}, *li[2] = {0};
	std::map<std::string, std::string> mh[2];
	std::string mv[2];
	std::deque<std::string> mq[2];
	std::vector<std::string> ms[2];
	std::list<Item> ml[2];
	uint64_t lseq = 0;

	std::string key(uint64_t a) const
	{
		size_t n = a % 17 == 5 ? 300 + a % 50 : a % 5 == 0 ? a % 4 : 3 + a % 20;
		std::string s;
		uint64_t x = a;
		for (size_t i = 0; i < n; i++) { s += (char)(1 + (x * 37 + i * 11) % 255); x = x / 3 + i; }
		if (n > 3) s += std::to_string(a);
		return s;
	}
	size_t len(uint64_t b) const { return b % 50 == 7 && c.big ? 1 + b / 50 % 40000 : 1 + b / 50 % (b % 3 ? 12 : 400); }
	// frees what no other container has: everything it holds goes with it, and nothing else
	void released(const DOp &o, bool nofault, void (*f)(void*), void *p)
	{
		arm(o, nofault);
		f(p);
		hit();
	}
	template <class I> void make(void *&p, I init, const DOp *o, bool nofault, const char *what)
	{
		uint64_t live = seam_live_blocks();
		int ok = 0;
		DOp none = {0, 0, 0, 0, Fault(), 0};
		faulty(o ? *o : none, nofault, cur, [&]() { p = init(&ok); return ok; },
			[&]() { CHECK(seam_live_blocks() == live, "leak", "a failed %s leaves memory behind", what); });
		CHECK(ok && p, "refused", "%s failed although nothing did", what);
	}
	void start()
	{
		for (int i = 0; i < 2; i++) {
			make(ht[i], [&](int *ok) { return sut_ht_init(ok, c.collide); }, nullptr, true, "hashtable_init()");
			make(ve[i], [&](int *ok) { return sut_vec_init(ok); }, nullptr, true, "vector_init()");
			make(qu[i], [&](int *ok) { return sut_q_init(ok); }, nullptr, true, "queue_init()");
			make(st[i], [&](int *ok) { return sut_st_init(ok); }, nullptr, true, "stack_init()");
			li[i] = sut_ll_new();
		}
	}
	// an operation that has no way to report a failure: a fault mustn't change what it does
	void arm(const DOp &o, bool nofault)
	{
		plan.kind = o.f.kind;
		plan.at = o.f.at;
		plan.span = o.f.span;
		sut_ctx(o.f.mode == 0 || nofault ? nullptr : &plan, (uint64_t)cur);
	}
	bool hit()
	{
		uint64_t n = sut_last()->fired;
		rep->calls++;
		rep->allocs += sut_last()->allocs;
		if (n) { rep->fired[plan.kind] += n; rep->recovered++; shape(77); say("     fault delivered"); }
		return n > 0;
	}
	// ---- comparisons
	struct Each { std::map<std::string, std::string> *m; std::set<std::string> seen; const char *bad; uint64_t h; };
	void check_ht(int i, bool deep)
	{
		auto &m = mh[i];
		CHECK(sut_ht_count(ht[i]) == m.size(), "count", "the hash table counts %zu entries instead of %zu", sut_ht_count(ht[i]), m.size());
		Each e = {&m, {}, nullptr, 0};
		if (!deep && m.size() > 100 && cur % 16) return;
		size_t n = sut_ht_each(ht[i], [](void *arg, const void *k, size_t kl, const void *v, size_t vl) {
			Each *x = (Each*)arg;
			if (!kl || ((const char*)k)[kl - 1]) { x->bad = "a key isn't what was put"; return; }
			std::string ks((const char*)k, kl - 1);
			auto it = x->m->find(ks);
			if (it == x->m->end()) x->bad = "the iteration shows an entry that isn't there";
			else if (it->second != std::string((const char*)v, vl)) x->bad = "the iteration shows another value than was put";
			else if (!x->seen.insert(ks).second) x->bad = "the iteration shows an entry twice";
			x->h += mixs(mixs(1, ks), it == x->m->end() ? "" : it->second);
		}, &e);
		rep->checks += n;
		rep->rows_checked += n;
		if (e.bad) violation("iterate", e.bad);
		CHECK(n == m.size(), "iterate", "the iteration shows %zu entries instead of %zu", n, m.size());
		for (auto &x : m) get(i, x.first);
		obs(e.h);
		note_state(e.h);
		rep->max_rows = std::max(rep->max_rows, (uint64_t)m.size());
	}
	void get(int i, const std::string &k)
	{
		size_t vl = 0;
		char *probe = strdup(k.c_str());
		sut_ctx(nullptr, (uint64_t)cur);
		const void *v = sut_ht_get(ht[i], probe, k.size() + 1, &vl);
		free(probe);
		auto it = mh[i].find(k);
		rep->calls++;
		CHECK((v != nullptr) == (it != mh[i].end()), "get", v ? "a key that isn't there is found" : "a key that is there isn't found");
		if (v) CHECK(it->second == std::string((const char*)v, vl), "get", "the value found isn't the one that was put");
	}
	void check_vec(int i)
	{
		size_t n;
		const char *d = sut_vec_data(ve[i], &n);
		CHECK(n == mv[i].size(), "vector", "the vector is %zu bytes long instead of %zu", n, mv[i].size());
		CHECK(!memcmp(d, mv[i].data(), n), "vector", "the vector holds other bytes than were pushed");
		obs(n);
		note_state(mixs(2, mv[i].substr(n > 64 ? n - 64 : 0)));
	}
	void check_q(int i, bool deep)
	{
		auto &m = mq[i];
		sut_ctx(nullptr, (uint64_t)cur);
		size_t n = sut_q_len(qu[i]);
		CHECK(n == m.size(), "queue", "the queue has %zu elements instead of %zu", n, m.size());
		sut_ctx(nullptr, (uint64_t)cur);
		CHECK(!!sut_q_empty(qu[i]) == m.empty(), "queue", "queue_empty() is wrong");
		sut_ctx(nullptr, (uint64_t)cur);
		void *p = sut_q_peek(qu[i]);
		CHECK((p == nullptr) == m.empty(), "queue", "queue_peek() is wrong about the queue being empty");
		uint64_t h = 3;
		for (size_t k = 0; k < m.size(); k++) {
			if (!deep && k > 3 && k + 3 < m.size() && (k + (size_t)cur) % 13) continue;
			sut_ctx(nullptr, (uint64_t)cur);
			void *x = sut_q_peek_pos(qu[i], k);
			CHECK(x && !memcmp(x, m[k].data(), m[k].size()), "queue", "element %zu of the queue isn't what was offered", k);
			if (!k) CHECK(x == p, "queue", "queue_peek() isn't the first element");
			h = mix(h, m[k].size());
		}
		obs(h);
		note_state(h);
	}
	void check_st(int i, bool deep)
	{
		auto &m = ms[i];
		sut_ctx(nullptr, (uint64_t)cur);
		CHECK(!!sut_st_empty(st[i]) == m.empty(), "stack", "stack_empty() is wrong");
		uint64_t h = 4;
		void *p = nullptr;
		if (!m.empty()) {
			sut_ctx(nullptr, (uint64_t)cur);
			p = sut_st_peek(st[i]);
			CHECK(p && !memcmp(p, m.back().data(), m.back().size()), "stack", "the top of the stack isn't what was pushed last");
		}
		for (size_t k = 0; k < m.size(); k++) {
			if (!deep && k > 3 && k + 3 < m.size() && (k + (size_t)cur) % 13) continue;
			sut_ctx(nullptr, (uint64_t)cur);
			void *x = sut_st_peek_pos(st[i], (int)k);
			CHECK(x && !memcmp(x, m[k].data(), m[k].size()), "stack", "element %zu of the stack isn't what was pushed", k);
			h = mix(h, m[k].size());
		}
		obs(h);
		note_state(h);
	}
	void check_ll(int i)
	{
		auto &m = ml[i];
		sut_ctx(nullptr, (uint64_t)cur);
		size_t n = sut_ll_len(li[i]);
		CHECK(n == m.size(), "list", "the list has %zu elements instead of %zu", n, m.size());
		CHECK(!!sut_ll_empty(li[i]) == m.empty(), "list", "list_is_empty() is wrong");
		std::vector<void*> f(n + 2), b(n + 2);
		size_t nf = sut_ll_walk(li[i], 0, f.data(), n + 1), nb = sut_ll_walk(li[i], 1, b.data(), n + 1);
		CHECK(nf == n && nb == n, "list", "walking the list shows %zu elements forwards and %zu backwards instead of %zu", nf, nb, n);
		size_t k = 0;
		uint64_t h = 5;
		for (auto &it : m) {
			CHECK(f[k] == it.node && b[n - 1 - k] == it.node, "list", "element %zu of the list isn't what it should be", k);
			h = mix(h, it.id);
			k++;
		}
		obs(h);
		note_state(mix(5, n));
	}
	void stop()
	{
		for (int i = 0; i < 2; i++) {
			check_ht(i, true); check_vec(i); check_q(i, true); check_st(i, true); check_ll(i);
			sut_ctx(nullptr, (uint64_t)cur);
			size_t n = sut_ht_drain(ht[i]);
			CHECK(n == mh[i].size(), "drain", "removing every entry while iterating removes %zu of %zu", n, mh[i].size());
			sut_ctx(nullptr, (uint64_t)cur); sut_ht_free(ht[i]);
			sut_ctx(nullptr, (uint64_t)cur); sut_vec_free(ve[i]);
			sut_ctx(nullptr, (uint64_t)cur); sut_q_free(qu[i]);
			sut_ctx(nullptr, (uint64_t)cur); sut_st_free(st[i]);
			for (auto &it : ml[i]) sut_ll_delnode(it.node);
			sut_ll_free(li[i]);
		}
		if (seam_live_blocks()) violation("leak", std::to_string(seam_live_blocks()) + " blocks of memory are never freed");
	}

	void burst(const DOp &o)
	{
		int i = o.inst;
		for (int n = 0; n < o.burst; n++) {
			std::string k = key(o.a + (uint64_t)n * 7 + 1), v = blob(o.b + (uint64_t)n, 1 + (o.b + (uint64_t)n * 13) % 24);
			std::vector<char> kb(k.begin(), k.end()), vb(v.begin(), v.end());
			kb.push_back(0);
			void *p = nullptr;
			rep->calls++;
			sut_ctx(nullptr, (uint64_t)cur);
			switch (o.k) {
			case H_PUT:
				if (mh[i].count(k)) break;
				CHECK(sut_ht_put(ht[i], kb.data(), k.size() + 1, vb.data(), v.size()), "refused", "hashtable_put() failed although nothing did");
				mh[i][k] = v;
				break;
			case V_PUSH:
				CHECK(sut_vec_push(ve[i], vb.data(), v.size()), "refused", "vector_push() failed although nothing did");
				mv[i] += v;
				break;
			case Q_OFFER:
				CHECK(sut_q_offer(qu[i], vb.data(), v.size()), "refused", "queue_offer() failed although nothing did");
				mq[i].push_back(v);
				break;
			case S_PUSH:
				CHECK(sut_st_push(st[i], vb.data(), v.size()), "refused", "stack_push() failed although nothing did");
				ms[i].push_back(v);
				break;
			case Q_POLL:
				if (mq[i].empty()) break;
				p = sut_q_poll(qu[i]);
				CHECK(p && !memcmp(p, mq[i].front().data(), mq[i].front().size()), "queue", "queue_poll() returns something else than the oldest element");
				mq[i].pop_front();
				break;
			case S_POP:
				if (ms[i].empty()) break;
				p = sut_st_pop(st[i]);
				CHECK(p && !memcmp(p, ms[i].back().data(), ms[i].back().size()), "stack", "stack_pop() returns something else than the newest element");
				ms[i].pop_back();
				break;
			}
			if (p) { sut_ctx(nullptr, (uint64_t)cur); sut_mem_free(p); }
		}
		say("     %d of those at once", o.burst);
		if (o.burst) rep->extra[11]++;
	}
	void run(const DOp &o, bool nofault)
	{
		burst(o);
		int i = o.inst;
		uint64_t live = seam_live_blocks();
		std::string k = key(o.a), v = blob(o.b, len(o.b));
		auto nogrowth = [&](const char *what) { CHECK(seam_live_blocks() == live, "leak", "a failed %s leaves memory behind or frees too much", what); };
		// what is handed over dies right after the call
		auto dup = [](const std::string &s, bool z) { char *p = (char*)malloc(s.size() + z); memcpy(p, s.data(), s.size()); if (z) p[s.size()] = 0; return p; };
		say("[%d] %s #%d key %llu length %zu", cur, dname[o.k], i, (unsigned long long)o.a, v.size());
		rep->extra[o.k <= H_NEW ? 6 : o.k <= V_NEW ? 7 : o.k <= Q_NEW ? 8 : o.k <= S_NEW ? 9 : 10]++;
		shape((uint64_t)o.k * 3 + (uint64_t)i);
		switch (o.k) {
		case H_PUT: {
			bool have = mh[i].count(k) > 0;
			char *kb = dup(k, true), *vb = dup(v, false);
			int ok = faulty(o, nofault, cur, [&]() { return sut_ht_put(ht[i], kb, k.size() + 1, vb, v.size()); }, [&]() { nogrowth("hashtable_put()"); check_ht(i, true); });
			free(kb); free(vb);
			if (have) { CHECK(!ok, "put", "hashtable_put() accepts a key that is there already"); nogrowth("hashtable_put()"); }
			else { CHECK(ok, "refused", "hashtable_put() failed although nothing did"); mh[i][k] = v; }
			check_ht(i, o.f.mode != 0);
			break;
		}
		case H_GET: {
			size_t vl = 0;
			char *kb = dup(k, true);
			arm(o, nofault);
			const void *p = sut_ht_get(ht[i], kb, k.size() + 1, &vl);
			free(kb);
			auto it = mh[i].find(k);
			if (!(hit() && !p)) CHECK((p != nullptr) == (it != mh[i].end()) && (!p || it->second == std::string((const char*)p, vl)), "get", "hashtable_get() doesn't find what was put");
			nogrowth("hashtable_get()");
			get(i, k);
			break;
		}
		case H_DEL: {
			if (o.b % 4 && !mh[i].empty()) { auto it = mh[i].lower_bound(k); if (it == mh[i].end()) it = mh[i].begin(); k = it->first; }
			auto it = mh[i].find(k);
			std::vector<unsigned char> buf(50000);
			size_t vl = 0;
			char *kb = dup(k, true);
			int ok = faulty(o, nofault, cur, [&]() { return sut_ht_remove(ht[i], kb, k.size() + 1, &vl, buf.data(), buf.size()); }, [&]() { nogrowth("hashtable_remove()"); check_ht(i, true); });
			free(kb);
			CHECK(!!ok == (it != mh[i].end()), "remove", ok ? "hashtable_remove() removes a key that isn't there" : "hashtable_remove() doesn't find a key that is there");
			if (ok) {
				CHECK(vl == it->second.size() && !memcmp(buf.data(), it->second.data(), vl), "remove", "hashtable_remove() returns another value than was put");
				mh[i].erase(it);
			}
			check_ht(i, false);
			get(i, k);
			break;
		}
		case H_EACH: check_ht(i, true); break;
		case H_DRAIN: {
			arm(o, nofault);
			size_t n = sut_ht_drain(ht[i]);
			if (hit()) { sut_ctx(nullptr, (uint64_t)cur); n += sut_ht_drain(ht[i]); }
			CHECK(n == mh[i].size(), "drain", "removing every entry while iterating removes %zu of %zu", n, mh[i].size());
			mh[i].clear();
			check_ht(i, true);
			break;
		}
		case H_NEW:
			sut_ctx(nullptr, (uint64_t)cur);
			sut_ht_drain(ht[i]);
			released(o, nofault, sut_ht_free, ht[i]);
			mh[i].clear();
			make(ht[i], [&](int *ok) { return sut_ht_init(ok, c.collide); }, &o, nofault, "hashtable_init()");
			check_ht(i, true);
			break;
		case V_PUSH: {
			char *vb = dup(v, false);
			if (mv[i].size() > 2000000) { free(vb); break; }
			int ok = faulty(o, nofault, cur, [&]() { return sut_vec_push(ve[i], vb, v.size()); }, [&]() { nogrowth("vector_push()"); check_vec(i); });
			free(vb);
			CHECK(ok, "refused", "vector_push() failed although nothing did");
			mv[i] += v;
			check_vec(i);
			break;
		}
		case V_CLEAR:
			arm(o, nofault);
			sut_vec_clear(ve[i]);
			hit();
			mv[i].clear();
			check_vec(i);
			CHECK(seam_live_blocks() <= live, "leak", "vector_clear() takes more memory");
			break;
		case V_NEW:
			released(o, nofault, sut_vec_free, ve[i]);
			mv[i].clear();
			make(ve[i], [&](int *ok) { return sut_vec_init(ok); }, &o, nofault, "vector_init()");
			check_vec(i);
			break;
		case Q_OFFER: {
			char *vb = dup(v, false);
			int ok = faulty(o, nofault, cur, [&]() { return sut_q_offer(qu[i], vb, v.size()); }, [&]() { nogrowth("queue_offer()"); check_q(i, true); });
			free(vb);
			CHECK(ok, "refused", "queue_offer() failed although nothing did");
			mq[i].push_back(v);
			check_q(i, false);
			break;
		}
		case Q_POLL: {
			arm(o, nofault);
			void *p = sut_q_poll(qu[i]);
			if (hit() && !p) { nogrowth("queue_poll()"); check_q(i, true); sut_ctx(nullptr, (uint64_t)cur); p = sut_q_poll(qu[i]); }
			CHECK((p == nullptr) == mq[i].empty(), "queue", "queue_poll() is wrong about the queue being empty");
			if (p) {
				CHECK(!memcmp(p, mq[i].front().data(), mq[i].front().size()), "queue", "queue_poll() returns something else than the oldest element");
				sut_ctx(nullptr, (uint64_t)cur);
				sut_mem_free(p);
				mq[i].pop_front();
			}
			check_q(i, false);
			break;
		}
		case Q_PEEK: case Q_AT: {
			size_t at = o.k == Q_PEEK ? 0 : mq[i].empty() ? 0 : o.b % mq[i].size();
			arm(o, nofault);
			void *p = o.k == Q_PEEK ? sut_q_peek(qu[i]) : mq[i].empty() ? nullptr : sut_q_peek_pos(qu[i], at);
			if (!((o.k == Q_PEEK || !mq[i].empty()) && hit() && !p)) CHECK(mq[i].empty() ? !p : p && !memcmp(p, mq[i][at].data(), mq[i][at].size()), "queue", "element %zu of the queue isn't what was offered", at);
			nogrowth("look into the queue");
			check_q(i, o.k == Q_AT);
			break;
		}
		case Q_NEW:
			released(o, nofault, sut_q_free, qu[i]);
			mq[i].clear();
			make(qu[i], [&](int *ok) { return sut_q_init(ok); }, &o, nofault, "queue_init()");
			check_q(i, true);
			break;
		case S_PUSH: {
			char *vb = dup(v, false);
			int ok = faulty(o, nofault, cur, [&]() { return sut_st_push(st[i], vb, v.size()); }, [&]() { nogrowth("stack_push()"); check_st(i, true); });
			free(vb);
			CHECK(ok, "refused", "stack_push() failed although nothing did");
			ms[i].push_back(v);
			check_st(i, false);
			break;
		}
		case S_PUSHRAW: {
			sut_ctx(nullptr, (uint64_t)cur);
			void *p = sut_mem_alloc(v.size());
			memcpy(p, v.data(), v.size());
			live = seam_live_blocks();
			int ok = faulty(o, nofault, cur, [&]() { return sut_st_unsafe_push(st[i], p); }, [&]() { nogrowth("stack_unsafe_push()"); check_st(i, true); });
			CHECK(ok, "refused", "stack_unsafe_push() failed although nothing did");
			ms[i].push_back(v);
			check_st(i, false);
			break;
		}
		case S_POP: {
			arm(o, nofault);
			void *p = sut_st_pop(st[i]);
			if (hit() && !p) { nogrowth("stack_pop()"); check_st(i, true); sut_ctx(nullptr, (uint64_t)cur); p = sut_st_pop(st[i]); }
			CHECK((p == nullptr) == ms[i].empty(), "stack", "stack_pop() is wrong about the stack being empty");
			if (p) {
				CHECK(!memcmp(p, ms[i].back().data(), ms[i].back().size()), "stack", "stack_pop() returns something else than the newest element");
				sut_ctx(nullptr, (uint64_t)cur);
				sut_mem_free(p);
				ms[i].pop_back();
			}
			check_st(i, false);
			break;
		}
		case S_PEEK: case S_AT: {
			if (!ms[i].empty()) {
				size_t at = o.k == S_PEEK ? ms[i].size() - 1 : o.b % ms[i].size();
				arm(o, nofault);
				void *p = o.k == S_PEEK ? sut_st_peek(st[i]) : sut_st_peek_pos(st[i], (int)at);
				if (!(hit() && !p)) CHECK(p && !memcmp(p, ms[i][at].data(), ms[i][at].size()), "stack", "element %zu of the stack isn't what was pushed", at);
				nogrowth("look into the stack");
			}
			check_st(i, o.k == S_AT);
			break;
		}
		case S_NEW:
			released(o, nofault, sut_st_free, st[i]);
			ms[i].clear();
			make(st[i], [&](int *ok) { return sut_st_init(ok); }, &o, nofault, "stack_init()");
			check_st(i, true);
			break;
		case L_ADD: case L_TAIL: {
			// in front of everything, or right behind an element
			void *n = sut_ll_newnode();
			auto it = ml[i].begin();
			void *after = li[i];
			if (o.k == L_TAIL && !ml[i].empty()) {
				std::advance(it, (long)(o.b % ml[i].size()));
				after = it->node;
				++it;
			}
			arm(o, nofault);
			sut_ll_add(n, after);
			hit();
			ml[i].insert(o.k == L_TAIL && !ml[i].empty() ? it : ml[i].begin(), Item{n, ++lseq});
			check_ll(i);
			break;
		}
		case L_DEL: {
			if (ml[i].empty()) break;
			auto it = ml[i].begin();
			std::advance(it, (long)(o.b % ml[i].size()));
			arm(o, nofault);
			sut_ll_del(it->node);
			hit();
			sut_ll_delnode(it->node);
			ml[i].erase(it);
			check_ll(i);
			break;
		}
		case L_LEN: check_ll(i); break;
		case L_ALL: {
			// removes every other element while walking, with the safe form of the loop
			std::vector<void*> gone(ml[i].size() + 1);
			arm(o, nofault);
			size_t n = sut_ll_sift(li[i], (int)(o.b % 3), gone.data());
			hit();
			size_t pos = 0, g = 0;
			for (auto it = ml[i].begin(); it != ml[i].end(); pos++) {
				if (pos % 3 == o.b % 3) {
					CHECK(g < n && gone[g] == it->node, "list", "walking and removing visits other elements than there are");
					sut_ll_delnode(it->node);
					it = ml[i].erase(it);
					g++;
				} else ++it;
			}
			CHECK(g == n, "list", "walking and removing visits more elements than there are");
			check_ll(i);
			break;
		}
		}
	}
};

void ds_run(const std::string &prop, uint64_t seed, const Mask &mask)
{
	DCfg c = ds_cfg(prop, seed);
	seam_fill(c.fill);
	seam_reuse(c.reuse);
	rep->hash = 1;
	rep->shape = 1;
	BRun b;
	CRun x;
	bool tree = prop == "P14";
	say("seed %llu: %s, %zu operations, fill %02x%s, faults in %d %%, domain of %d keys", (unsigned long long)seed,
		tree ? ("tree of degree " + std::to_string(c.degree) + (c.str ? ", strings" : ", numbers")).c_str() : "containers", c.ops.size(), c.fill, c.reuse ? ", freed memory comes back at once" : "",
		c.fault_pct, c.domain);
	b.c = c;
	x.c = c;
	if (tree) b.fresh(); else x.start();
	for (size_t i = 0; i < c.ops.size(); i++) {
		if (mask.upto >= 0 && (int)i > mask.upto) break;
		if (mask.dropped.count((int)i)) continue;
		rep->running_op = b.cur = x.cur = (int)i;
		rep->steps++;
		rep->sim_ticks++;
		if (tree) b.run(c.ops[i], mask.nofault.count((int)i) > 0);
		else x.run(c.ops[i], mask.nofault.count((int)i) > 0);
	}
	if (tree) { b.everything(std::min(c.domain, 200)); b.drop(); }
	else x.stop();
	seam_reuse(0);
}
