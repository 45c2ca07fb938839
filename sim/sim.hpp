// sim.hpp - shared declarations of the simulator
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "sut.h"
#include "thr.h"

// ---------------------------------------------------------------- randomness
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(int pct) { return (int)below(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	size_t weighted(const std::vector<int> &w)
	{
		uint64_t t = 0;
		for (int x : w) t += x;
		uint64_t r = below(t);
		for (size_t i = 0; i < w.size(); i++) {
			if (r < (uint64_t)w[i]) return i;
			r -= w[i];
		}
		return 0;
	}
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	return h * 0xff51afd7ed558ccdull ^ (h >> 29);
}
inline uint64_t mixs(uint64_t h, const std::string &s)
{
	for (char c : s) h = mix(h, (unsigned char)c);
	return mix(h, s.size() + 77);
}

// ---------------------------------------------------------------- model
enum Ty { VARCHAR = SUT_VARCHAR, INTEGER = SUT_INTEGER, TINYINT = SUT_TINYINT, DOUBLE = SUT_DOUBLE, DATE = SUT_DATE,
	DATETIME = SUT_DATETIME };

struct Val {
	bool null = true;
	int ty = INTEGER;
	int64_t i = 0;
	double d = 0;
	std::string s;
	std::string str() const;
	std::string key() const;	// exact, for comparisons between states
};
typedef std::vector<Val> Row;

struct ColDef {
	std::string name;
	int ty = INTEGER;
	int len = 0;			// VARCHAR only
	bool notnull = false, pk = false, uniq = false, autoinc = false, indexed = false;
};

struct Tab {
	std::string name;
	std::vector<ColDef> cols;
	std::vector<Row> rows;
	int col(const std::string &n) const;
	size_t row_size() const;
};

struct Db {
	bool open = false;
	std::map<std::string, Tab> tabs;
};

struct Expr { char op; std::vector<Expr> kids; int64_t i = 0; double d = 0; };	// 'i' 'd' '+' '-' '*' '/' '%' 'n'(eg) 'p'(aren) '0'(NULL) 'b'(TRUE) 's'(tring)

struct Lit {
	enum K { NUL, INT, DBL, BOOL, STR, EXPR } k = NUL;
	int64_t i = 0;
	double d = 0;
	std::string s;
	std::shared_ptr<Expr> e;
	std::string sql() const;
};

struct Opd { bool field = false; std::string tab, col; Lit lit; };
enum { OP_LT = 1, OP_GT, OP_NE, OP_EQ, OP_LE, OP_GE };
struct Pred {
	enum K { CMP, IN, NOTIN, ISNULL, NOTNULL, AND, OR, XOR } k = CMP;
	int op = OP_EQ;
	Opd a, b;
	std::vector<Lit> vals;
	std::vector<Pred> kids;
};

struct FieldRef { std::string tab, col; };	// tab empty: unqualified
struct SelItem { enum K { FIELD, COUNTALL, COUNTFIELD } k = FIELD; FieldRef f; };

struct Stmt {
	enum K { CREATE, INSERT, DELETE, UPDATE, SELECT, RAW } k = RAW;
	std::string table;
	bool ine = false;
	std::vector<ColDef> cols;
	std::vector<std::pair<int, std::vector<std::string>>> keys;	// table level: 1 primary key, 0 index
	std::vector<std::string> incols;
	std::vector<std::vector<Lit>> rows;
	std::vector<std::pair<std::string, Lit>> sets;
	std::shared_ptr<Pred> where;
	bool star = false;
	std::vector<SelItem> items;
	std::vector<std::string> from;			// from[0] , from[1] ... or joins
	std::vector<std::string> alias;			// of from[i]; empty: none. Either nobody has one or there's one entry for each
	std::vector<std::shared_ptr<Pred>> on;		// on[i] joins from[i+1]; null: comma
	std::vector<FieldRef> group;
	std::string raw;				// RAW: must be refused, with a message
	uint64_t style = 0;				// how it is written down
	std::string sql() const;
	std::string sql(uint64_t style) const;
};

struct Outcome {
	enum V { OK, ERR, EITHER } v = ERR;
	std::string why;		// why it is an error
	bool may_refuse = false;	// beyond the capacity of a result: refused, or right
	uint64_t aff = 0;
	bool results = false;
	bool ordered_cols = false;
	std::vector<std::string> names;
	std::vector<int> tys;
	std::vector<Row> rows;
	bool changes = false;
	Tab after;			// state of the table when changes is set
};

// civil time: what a date literal denotes
extern int64_t tz_offset;	// seconds to add to UTC fields
bool parse_date(const std::string &s, int ty, int64_t &out);
Outcome predict(const Db &db, const Stmt &st);
bool eval_pred(const Pred &p, const std::vector<const Tab*> &tabs, const std::vector<const Row*> &rows);
std::string dump_rows(const std::vector<Row> &rows, bool sorted);

// ---------------------------------------------------------------- histories
struct Fault { int mode = 0; /* 0 none, 1 once, 2 sweep */ int kind = 0; uint64_t at = 0, span = 1, stride = 1; };

enum OpK { O_SQL, O_OPEN, O_CLOSE, O_VACUUM, O_ADDCOL, O_REMCOL, O_HOLD, O_STEP, O_FREE, O_AUDIT, O_ROWINS, O_ROWDEL, O_ROWUPD, O_ROWDELS,
	O_KINDS };
struct Op {
	int k = O_SQL, sess = 0;
	Stmt st;
	std::string tab;
	ColDef col;
	int h = 0, n = 0;
	Fault f;
	Row row;
	std::string str() const;
};

struct Cfg {			// drawn once per run ("swarm")
	std::string prop;
	int nops = 60, nsess = 1;
	int w[O_KINDS] = {0};
	int ws[6] = {0};	// statement kinds
	int fault_pct = 0;
	std::vector<int> fkinds;
	int sweep_pct = 0;
	int domain = 0;		// 0 tiny, 1 mixed, 2 extreme
	int maxcols = 6, mincols = 1, maxtabs = 3, maxrows_ins = 4, wide = 0;
	int err_pct = 6;	// statements made wrong on purpose
	int null_pct = 20, notnull_pct = 20;
	int style_pct = 30;
	int depth = 3;
	int longstr = 0;
	int alias_pct = 8;
	bool oddnames = false;	// names of tables and columns that are words of the language, or nearly
	int join_pct = 30, group_pct = 20, count_pct = 15;
	int tymask = 63;
	int rowcap = 120;
	int bulk = 0;
	int tz = 0;
	int fill = 0xa5;
	int reuse = 0;
	int where_pct = 70;
	std::string str() const;
};

struct Mask {
	std::set<int> dropped;			// operations
	std::set<std::pair<int, int>> subs;	// rows of INSERTs
	std::set<int> nofault;
	int upto = -1;				// stop after that operation
	bool planned = false;			// the threads take exactly these turns
	std::vector<thr_switch> sched;
};

Cfg make_cfg(const std::string &prop, uint64_t seed);
std::vector<Op> generate(const Cfg &cfg, uint64_t seed);

// what a run reports: lives in memory shared with the supervising process
struct Report {
	volatile int running_op;
	int violation;
	char cls[64], msg[1600];
	int bad_op;
	uint64_t hash;			// of everything that was observed
	uint64_t shape;			// of the sequence of operations and how they ended
	uint64_t steps;			// operations executed
	uint64_t calls;			// calls into the engine
	uint64_t checks;		// comparisons against the model
	uint64_t fired[SF_KINDS];
	uint64_t sweeps, recovered;
	uint64_t per_op[O_KINDS], per_stmt[6], ok, err;
	uint64_t rows_checked, max_rows, max_blocks, held_checked;
	uint64_t allocs;
	uint64_t sim_ticks;
	uint64_t thr_switches, thr_accesses, thr_contended;
	uint32_t nstates;
	uint64_t states[2048];
	uint64_t extra[16];
	int finished;
};
extern Report *rep;
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
void note_state(uint64_t h);
extern FILE *trace;		// human readable trace, or NULL
void run_history(const Cfg &cfg, uint64_t seed, const std::vector<Op> &ops, const Mask &mask);

// shared by the drivers
struct Walk { std::vector<Row> rows; std::vector<std::pair<int, int>> where; uint64_t deleted = 0; int blocks = 0; };
void walk_cb(void *arg, int blk, int slot, int deleted, int empty, const sut_val *v, int n);
uint64_t hrow(const Row &r);
uint64_t hstr(const char *s, size_t n);
Val to_val(const sut_val &v);
std::string diff_rows(const std::vector<Row> &want, const std::vector<Row> &got);
void say(const char *fmt, ...);
void set_tz(int n);

// threads
extern volatile uint64_t *sched_n;
extern thr_switch *sched_out;
enum { SCHED_CAP = 1 << 18 };
int thr_count(const std::string &prop, uint64_t seed);
bool thr_has_fault(const std::string &prop, uint64_t seed, int op);
void thr_history(const std::string &prop, uint64_t seed, const Mask &mask);

// container properties
int ds_count(const std::string &prop, uint64_t seed);	// number of operations
void ds_run(const std::string &prop, uint64_t seed, const Mask &mask);
#endif
