// model.cpp - the reference model: a few hundred lines of plain relational semantics
#include "sim.hpp"
#include <set>
#include <algorithm>
#include <cmath>
#include <ctime>

int64_t tz_offset = 0;

// ---------------------------------------------------------------- values
static std::string fmt_double(double d)
{
	char b[64];
	snprintf(b, sizeof(b), "%.17g", d);
	std::string s = b;
	if (s.find_first_of(".en") == std::string::npos) s += ".0";
	return s;
}

std::string Val::str() const
{
	if (null) return "NULL";
	if (ty == VARCHAR) return "'" + (s.size() > 40 ? s.substr(0, 37) + "...(" + std::to_string(s.size()) + ")" : s) + "'";
	if (ty == DOUBLE) return fmt_double(d);
	return std::to_string(i);
}

std::string Val::key() const
{
	if (null) return "N";
	if (ty == VARCHAR) return "S" + s;
	if (ty == DOUBLE) {
		uint64_t u;
		double x = d == 0 ? 0 : d;
		memcpy(&u, &x, 8);
		return "D" + std::to_string(u);
	}
	return "I" + std::to_string(i);
}

std::string dump_rows(const std::vector<Row> &rows, bool sorted)
{
	std::vector<std::string> v;
	for (auto &r : rows) {
		std::string s = "(";
		for (size_t i = 0; i < r.size(); i++) s += (i ? ", " : "") + r[i].str();
		v.push_back(s + ")");
	}
	if (sorted) std::sort(v.begin(), v.end());
	std::string out;
	for (size_t i = 0; i < v.size() && i < 12; i++) out += v[i] + " ";
	if (v.size() > 12) out += "... " + std::to_string(v.size()) + " rows";
	return out;
}

int Tab::col(const std::string &n) const
{
	for (size_t i = 0; i < cols.size(); i++)
		if (cols[i].name == n) return (int)i;
	return -1;
}

// civil date to days, proleptic Gregorian calendar (Howard Hinnant's algorithm)
static int64_t days_from_civil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t era = (y >= 0 ? y : y - 399) / 400;
	int64_t yoe = y - era * 400;
	int64_t doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}

bool parse_date(const std::string &s, int ty, int64_t &out)
{
	int y, mo, d, h = 0, mi = 0, se = 0, n = -1;
	if (ty == DATE) {
		if (sscanf(s.c_str(), "%4d-%2d-%2d%n", &y, &mo, &d, &n) != 3 || n < 0) return false;
	} else if (sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d%n", &y, &mo, &d, &h, &mi, &se, &n) != 6 || n < 0) {
		return false;
	}
	if (n != (int)s.size()) return false;
	static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
	if (mo < 1 || mo > 12 || d < 1 || d > dm[mo - 1] + (mo == 2 && leap) || h > 23 || mi > 59 || se > 59) return false;
	out = days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se + tz_offset;
	return true;
}

// ---------------------------------------------------------------- literals and expressions
static std::string expr_sql(const Expr &e)
{
	switch (e.op) {
	case 'i': return std::to_string(e.i);
	case 'd': return fmt_double(e.d);
	case '0': return "NULL";
	case 'b': return "TRUE";
	case 's': return "'x'";
	case 'n': return "- (" + expr_sql(e.kids[0]) + ")";
	case 'p': return "(" + expr_sql(e.kids[0]) + ")";
	default:
		return expr_sql(e.kids[0]) + " " + e.op + " " + expr_sql(e.kids[1]);
	}
}

static std::string quoted(const std::string &s, char q)
{
	std::string r(1, q);
	for (char c : s) { r += c; if (c == q) r += c; }
	return r + q;
}

std::string Lit::sql() const
{
	switch (k) {
	case NUL: return "NULL";
	case INT: return std::to_string(i);
	case DBL: return fmt_double(d);
	case BOOL: return i ? "TRUE" : "FALSE";
	case STR: return quoted(s, '\'');
	case EXPR: return expr_sql(*e);
	}
	return "";
}

// numbers only; null: division by zero somewhere below; over: an integer out of range somewhere below
struct Num { bool null = false, over = false; int64_t i = 0; double d = 0; };
static Num eval_expr(const Expr &e, bool dbl)
{
	Num r, a, b;
	if (e.op == 'i') { r.i = e.i; return r; }
	if (e.op == 'd') { r.d = e.d; return r; }
	a = eval_expr(e.kids[0], dbl);
	if (e.op == 'p') return a;
	auto fit = [&](__int128 x) { r.i = (int64_t)x; if (!dbl && x != r.i) r.over = true; };
	if (e.op == 'n') { r.null = a.null; r.over = a.over; r.d = -a.d; if (!a.null) fit(-(__int128)a.i); return r; }
	b = eval_expr(e.kids[1], dbl);
	r.over = a.over || b.over;
	if (a.null || b.null) { r.null = true; return r; }
	switch (e.op) {
	case '+': fit((__int128)a.i + b.i); r.d = a.d + b.d; break;
	case '-': fit((__int128)a.i - b.i); r.d = a.d - b.d; break;
	case '*': fit((__int128)a.i * b.i); r.d = a.d * b.d; break;
	case '/':
		if (dbl ? b.d == 0 : b.i == 0) { r.null = true; break; }
		if (dbl) r.d = a.d / b.d;
		else fit((__int128)a.i / b.i);
		break;
	case '%':
		if (dbl ? b.d == 0 : b.i == 0) { r.null = true; break; }
		if (dbl) r.d = (int64_t)a.d % (int64_t)b.d;	// generated with whole numbers only
		else fit((__int128)a.i % b.i);
		break;
	}
	return r;
}

// does every leaf of the expression suit the column?
static bool expr_suits(const Expr &e, int ty)
{
	if (e.op == 'i') return ty == INTEGER;
	if (e.op == 'd') return ty == DOUBLE;
	if (e.op == '0' || e.op == 'b' || e.op == 's') return false;
	for (auto &k : e.kids)
		if (!expr_suits(k, ty)) return false;
	return true;
}

// what a literal becomes when it's stored in a column. Returns false (with why) if it must be refused
static bool store(const Lit &l, const ColDef &c, Val &v, std::string &why)
{
	v = Val();
	v.ty = c.ty;
	v.null = false;
	switch (l.k) {
	case Lit::NUL: v.null = true; break;
	case Lit::INT:
		if (c.ty != INTEGER) { why = "integer for column " + c.name; return false; }
		v.i = l.i;
		break;
	case Lit::DBL:
		if (c.ty != DOUBLE) { why = "double for column " + c.name; return false; }
		v.d = l.d;
		break;
	case Lit::BOOL:
		if (c.ty != TINYINT) { why = "boolean for column " + c.name; return false; }
		v.i = l.i;
		break;
	case Lit::STR:
		if (c.ty == VARCHAR) {
			if ((int)l.s.size() >= c.len) { why = "string too long for column " + c.name; return false; }
			v.s = l.s;
		} else if (c.ty == DATE || c.ty == DATETIME) {
			if (!parse_date(l.s, c.ty, v.i)) { why = "invalid date for column " + c.name; return false; }
		} else {
			why = "string for column " + c.name;
			return false;
		}
		break;
	case Lit::EXPR: {
		const Expr *x = l.e.get();
		while (x->op == 'p') x = &x->kids[0];
		if (x->op == '0') { v.null = true; break; }	// NULL between parentheses is NULL
		if (!expr_suits(*l.e, c.ty)) { why = "expression of the wrong type for column " + c.name; return false; }
		Num n = eval_expr(*l.e, c.ty == DOUBLE);
		if (n.over) { why = "integer out of range for column " + c.name; return false; }
		v.null = n.null;
		v.i = n.i;
		v.d = n.d;
		break;
	}
	}
	if (v.null && c.notnull) { why = "NULL for NOT NULL column " + c.name; return false; }
	return true;
}

// ---------------------------------------------------------------- predicates
static bool find_field(const std::string &tab, const std::string &col, const std::vector<const Tab*> &tabs, int &t, int &c,
		std::string &why)
{
	int n = 0;
	for (size_t i = 0; i < tabs.size(); i++) {
		if (!tab.empty() && tabs[i]->name != tab) continue;
		int k = tabs[i]->col(col);
		if (k >= 0) { n++; t = (int)i; c = k; }
	}
	if (n == 0) why = "unknown column " + tab + "." + col;
	if (n > 1) why = "ambiguous column " + col;
	return n == 1;
}

static int lit_ty(const Lit &l) { return l.k == Lit::INT ? INTEGER : l.k == Lit::DBL ? DOUBLE : l.k == Lit::BOOL ? TINYINT : VARCHAR; }

static bool lit_suits(const Lit &l, int ty, int op, std::string &why)
{
	int64_t x;
	if (l.k == Lit::NUL) {
		if (op != OP_EQ && op != OP_NE) { why = "NULL ordered"; return false; }
		return true;
	}
	if (l.k == Lit::STR) {
		if (ty == DATE || ty == DATETIME) {
			if (!parse_date(l.s, ty, x)) { why = "invalid date in condition"; return false; }
			return true;
		}
		if (ty != VARCHAR) { why = "string compared to another type"; return false; }
		if (op != OP_EQ && op != OP_NE) { why = "VARCHAR ordered"; return false; }
		return true;
	}
	if (lit_ty(l) != ty) { why = "operands of different types"; return false; }
	return true;
}

static bool check_pred(const Pred &p, const std::vector<const Tab*> &tabs, bool qualified, std::string &why)
{
	int t1, c1, t2, c2;
	auto field = [&](const Opd &o, int &t, int &c) {
		if (!qualified && !o.tab.empty()) { why = "qualified name"; return false; }
		return find_field(o.tab, o.col, tabs, t, c, why);
	};
	switch (p.k) {
	case Pred::AND: case Pred::OR: case Pred::XOR:
		for (auto &k : p.kids)
			if (!check_pred(k, tabs, qualified, why)) return false;
		return true;
	case Pred::ISNULL: case Pred::NOTNULL:
		if (!p.a.field) { why = "IS NULL needs a field"; return false; }
		return field(p.a, t1, c1);
	case Pred::IN: case Pred::NOTIN:
		if (!p.a.field) { why = "IN needs a field"; return false; }
		if (!field(p.a, t1, c1)) return false;
		for (auto &l : p.vals)
			if (!lit_suits(l, tabs[t1]->cols[c1].ty, OP_EQ, why)) return false;
		return true;
	case Pred::CMP:
		if (p.a.field && p.b.field) {
			if (!field(p.a, t1, c1) || !field(p.b, t2, c2)) return false;
			int ty = tabs[t1]->cols[c1].ty;
			if (ty != tabs[t2]->cols[c2].ty) { why = "columns of different types"; return false; }
			if (ty == VARCHAR && p.op != OP_EQ && p.op != OP_NE) { why = "VARCHAR ordered"; return false; }
			return true;
		}
		if (p.a.field || p.b.field) {
			const Opd &f = p.a.field ? p.a : p.b;
			const Opd &l = p.a.field ? p.b : p.a;
			if (!field(f, t1, c1)) return false;
			return lit_suits(l.lit, tabs[t1]->cols[c1].ty, p.op, why);
		}
		if (p.a.lit.k != p.b.lit.k) { why = "values of different types"; return false; }
		if (p.a.lit.k == Lit::STR || p.a.lit.k == Lit::NUL)
			if (p.op != OP_EQ && p.op != OP_NE) { why = "values can't be ordered"; return false; }
		return true;
	}
	return false;
}

static Val lit_val(const Lit &l, int ty)
{
	Val v;
	v.ty = ty;
	v.null = l.k == Lit::NUL;
	v.i = l.i;
	v.d = l.d;
	v.s = l.s;
	if (l.k == Lit::STR && (ty == DATE || ty == DATETIME)) parse_date(l.s, ty, v.i);
	return v;
}

static int order(const Val &a, const Val &b)
{
	if (a.ty == VARCHAR) return a.s < b.s ? -1 : a.s > b.s;
	if (a.ty == DOUBLE) return a.d < b.d ? -1 : a.d > b.d;
	return a.i < b.i ? -1 : a.i > b.i;
}

static bool cmp_vals(const Val &a, const Val &b, int op)
{
	if (a.null || b.null) return false;
	int o = order(a, b);
	switch (op) {
	case OP_LT: return o < 0;
	case OP_GT: return o > 0;
	case OP_NE: return o != 0;
	case OP_EQ: return o == 0;
	case OP_LE: return o <= 0;
	default: return o >= 0;
	}
}

bool eval_pred(const Pred &p, const std::vector<const Tab*> &tabs, const std::vector<const Row*> &rows)
{
	std::string why;
	int t, c;
	auto val = [&](const Opd &o) -> Val {
		find_field(o.tab, o.col, tabs, t, c, why);
		return (*rows[t])[c];
	};
	switch (p.k) {
	case Pred::AND: return eval_pred(p.kids[0], tabs, rows) && eval_pred(p.kids[1], tabs, rows);
	case Pred::OR: return eval_pred(p.kids[0], tabs, rows) || eval_pred(p.kids[1], tabs, rows);
	case Pred::XOR: return eval_pred(p.kids[0], tabs, rows) != eval_pred(p.kids[1], tabs, rows);
	case Pred::ISNULL: return val(p.a).null;
	case Pred::NOTNULL: return !val(p.a).null;
	case Pred::IN: case Pred::NOTIN: {
		Val v = val(p.a);
		if (v.null) return false;
		bool any = false, nul = false;
		for (auto &l : p.vals) {
			if (l.k == Lit::NUL) nul = true;
			else any = any || cmp_vals(v, lit_val(l, v.ty), OP_EQ);
		}
		if (p.k == Pred::IN) return any;
		return !any && !nul;
	}
	case Pred::CMP:
		if (p.a.field && p.b.field) return cmp_vals(val(p.a), val(p.b), p.op);
		if (p.a.field) { Val v = val(p.a); return cmp_vals(v, lit_val(p.b.lit, v.ty), p.op); }
		if (p.b.field) { Val v = val(p.b); return cmp_vals(lit_val(p.a.lit, v.ty), v, p.op); }
		return cmp_vals(lit_val(p.a.lit, lit_ty(p.a.lit)), lit_val(p.b.lit, lit_ty(p.a.lit)), p.op);
	}
	return false;
}

// ---------------------------------------------------------------- statements
static Outcome refuse(const std::string &why)
{
	Outcome o;
	o.v = Outcome::ERR;
	o.why = why;
	return o;
}

static bool valid_name(const std::string &n)
{
	if (n.empty() || n.size() > 127 || !isalpha((unsigned char)n[0])) return false;
	for (char c : n)
		if (!isalnum((unsigned char)c) && c != '_') return false;
	return true;
}

static Outcome p_create(const Db &db, const Stmt &st)
{
	Outcome o;
	if (!valid_name(st.table)) return refuse("invalid table name");
	if (db.tabs.count(st.table) && !st.ine) return refuse("table exists");
	std::set<std::string> seen;
	for (auto &c : st.cols) {
		if (!valid_name(c.name)) return refuse("invalid column name");
		if (!seen.insert(c.name).second) return refuse("duplicate column");
		if (c.ty == VARCHAR && (c.len < 1 || c.len > 9999)) return refuse("VARCHAR length");
	}
	for (auto &k : st.keys)
		for (auto &n : k.second)
			if (!seen.count(n)) return refuse("key on unknown column");
	o.v = Outcome::OK;
	if (db.tabs.count(st.table)) return o;
	if (st.cols.size() > 128) return refuse("too many columns");
	o.changes = true;
	o.after.name = st.table;
	o.after.cols = st.cols;
	for (auto &c : o.after.cols)
		if (c.pk) c.notnull = c.uniq = true;
	for (auto &k : st.keys)
		for (auto &n : k.second) {
			ColDef &c = o.after.cols[o.after.col(n)];
			if (k.first) c.pk = c.notnull = c.uniq = true;
			else c.indexed = true;
		}
	return o;
}

static Outcome p_insert(const Db &db, const Stmt &st)
{
	auto it = db.tabs.find(st.table);
	if (it == db.tabs.end()) return refuse("no such table");
	Outcome o;
	o.after = it->second;
	Tab &t = o.after;
	std::vector<int> map;
	if (st.incols.empty()) {
		for (size_t i = 0; i < t.cols.size(); i++) map.push_back((int)i);
	} else {
		std::set<std::string> seen;
		for (auto &n : st.incols) {
			if (t.col(n) < 0) return refuse("unknown column");
			if (!seen.insert(n).second) return refuse("duplicate column in list");
			map.push_back(t.col(n));
		}
	}
	for (auto &r : st.rows) {
		if (r.size() != map.size()) return refuse("number of values");
		Row row(t.cols.size());
		std::vector<bool> given(t.cols.size(), false);
		for (size_t i = 0; i < row.size(); i++) row[i].ty = t.cols[i].ty;
		for (size_t i = 0; i < r.size(); i++) {
			std::string why;
			if (!store(r[i], t.cols[map[i]], row[map[i]], why)) return refuse(why);
			given[map[i]] = true;
		}
		for (size_t i = 0; i < row.size(); i++)
			if (!given[i] && t.cols[i].notnull) return refuse("NOT NULL column without value");
		t.rows.push_back(row);
	}
	o.v = Outcome::OK;
	o.aff = st.rows.size();
	o.changes = true;
	return o;
}

static Outcome p_delete(const Db &db, const Stmt &st)
{
	auto it = db.tabs.find(st.table);
	if (it == db.tabs.end()) return refuse("no such table");
	Outcome o;
	std::vector<const Tab*> tabs = {&it->second};
	if (st.where && !check_pred(*st.where, tabs, false, o.why)) return refuse(o.why);
	o.after = it->second;
	o.after.rows.clear();
	for (auto &r : it->second.rows) {
		if (!st.where || eval_pred(*st.where, tabs, {&r})) o.aff++;
		else o.after.rows.push_back(r);
	}
	o.v = Outcome::OK;
	o.changes = true;
	return o;
}

static Outcome p_update(const Db &db, const Stmt &st)
{
	auto it = db.tabs.find(st.table);
	if (it == db.tabs.end()) return refuse("no such table");
	Outcome o;
	const Tab &t = it->second;
	std::vector<const Tab*> tabs = {&t};
	std::vector<std::pair<int, Val>> sets;
	for (auto &s : st.sets) {
		Val v;
		std::string why;
		int c = t.col(s.first);
		if (c < 0) return refuse("unknown column");
		if (!store(s.second, t.cols[c], v, why)) return refuse(why);
		sets.push_back({c, v});
	}
	if (st.where && !check_pred(*st.where, tabs, false, o.why)) return refuse(o.why);
	o.after = t;
	for (size_t i = 0; i < t.rows.size(); i++) {
		if (st.where && !eval_pred(*st.where, tabs, {&t.rows[i]})) continue;
		o.aff++;
		for (auto &s : sets) o.after.rows[i][s.first] = s.second;
	}
	o.v = Outcome::OK;
	o.changes = true;
	return o;
}

template<class F> static void rename_tables(Pred &p, F ren)
{
	for (Opd *x : {&p.a, &p.b}) if (x->field) ren(x->tab);
	for (auto &k : p.kids) rename_tables(k, ren);
}

static Outcome p_select(const Db &db, const Stmt &as_written)
{
	Outcome o;
	Stmt st = as_written;
	if (!st.alias.empty()) {
		std::map<std::string, std::string> to;
		std::set<std::string> aliases, hidden;
		for (size_t i = 0; i < st.from.size(); i++) {
			if (!db.tabs.count(st.from[i])) return refuse("no such table");
			if (!st.alias[i].empty() && !aliases.insert(st.alias[i]).second) return refuse("alias given twice");
			std::string n = st.alias[i].empty() ? st.from[i] : st.alias[i];
			if (to.count(n)) return refuse("alias like another table");
			to[n] = st.from[i];
		}
		// the name of a table that has an alias: refused, or still that table
		for (auto &n : st.from) if (!to.count(n)) { to[n] = n; hidden.insert(n); }
		auto ren = [&](std::string &t) {
			if (t.empty()) return;
			if (hidden.count(t)) o.may_refuse = true;
			auto it = to.find(t);
			t = it == to.end() ? "?" + t : it->second;
		};
		for (auto &x : st.items) if (x.k != SelItem::COUNTALL) ren(x.f.tab);
		for (auto &x : st.group) ren(x.tab);
		if (st.where) { st.where = std::make_shared<Pred>(*st.where); rename_tables(*st.where, ren); }
		for (auto &x : st.on) if (x) { x = std::make_shared<Pred>(*x); rename_tables(*x, ren); }
	}
	std::vector<const Tab*> tabs;
	std::set<std::string> seen;
	for (auto &n : st.from) {
		auto it = db.tabs.find(n);
		if (it == db.tabs.end()) return refuse("no such table");
		if (!seen.insert(n).second) { o.v = Outcome::EITHER; o.why = "same table twice"; return o; }
		tabs.push_back(&it->second);
	}
	size_t chain = 0;	// names in ON are those of the tables of that chain of joins, up to the one being joined
	for (size_t i = 0; i < st.on.size(); i++) {
		if (!st.on[i]) { chain = i + 1; continue; }
		std::vector<const Tab*> sofar(tabs.begin() + (long)chain, tabs.begin() + (long)i + 2);
		if (!check_pred(*st.on[i], sofar, true, o.why)) return refuse(o.why);
	}
	if (st.where && !check_pred(*st.where, tabs, true, o.why)) return refuse(o.why);

	struct Out { int kind, t, c; };		// 0 column, 1 count, 2 count of column
	std::vector<Out> outs;
	bool count = false, field = false;
	if (st.star) {
		for (size_t i = 0; i < tabs.size(); i++)
			for (size_t k = 0; k < tabs[i]->cols.size(); k++) outs.push_back({0, (int)i, (int)k});
		field = true;
	} else {
		for (auto &it : st.items) {
			int t = 0, c = 0;
			if (it.k != SelItem::COUNTALL && !find_field(it.f.tab, it.f.col, tabs, t, c, o.why)) return refuse(o.why);
			outs.push_back({(int)it.k, t, c});
			(it.k == SelItem::FIELD ? field : count) = true;
		}
	}
	for (size_t i = 0; i < outs.size(); i++)
		for (size_t k = 0; k < i; k++)
			if (outs[i].kind == outs[k].kind && (outs[i].kind == 1 || (outs[i].t == outs[k].t && outs[i].c == outs[k].c))) {
				o.v = Outcome::EITHER;	// shown once or twice: the dialect leaves it open
				o.why = "the same column twice";
				return o;
			}
	std::vector<std::pair<int, int>> group;
	for (auto &g : st.group) {
		int t, c;
		if (!find_field(g.tab, g.col, tabs, t, c, o.why)) return refuse(o.why);
		group.push_back({t, c});
	}
	if (!group.empty() && !st.star)
		for (size_t i = 0; i < outs.size(); i++) {
			if (outs[i].kind != 0) continue;
			bool in = false, same = false;
			for (size_t k = 0; k < group.size(); k++) {
				if (group[k] != std::make_pair(outs[i].t, outs[i].c)) continue;
				in = true;
				same = same || st.group[k].tab == st.items[i].f.tab;
			}
			if (!in) return refuse("a field that isn't grouped by");
			if (!same) o.may_refuse = true;	// both have to be written alike
		}
	if (!group.empty() && st.star) { o.v = Outcome::EITHER; o.why = "all fields of groups"; return o; }
	if (count && field && group.empty()) { o.v = Outcome::EITHER; o.why = "COUNT next to fields, without GROUP BY"; return o; }

	// results are built from the columns of all the tables; a table has at most 128 of them
	size_t width = 0;
	for (auto t : tabs) width += t->cols.size();
	for (auto &x : outs) if (x.kind) width++;
	o.may_refuse = o.may_refuse || width > 128;

	// the product of the tables, filtered
	std::vector<std::vector<const Row*>> prod;
	std::vector<const Row*> cur(tabs.size());
	auto rec = [&](auto &&self, size_t i) -> void {
		if (i == tabs.size()) {
			size_t chain = 0;
			for (size_t k = 0; k < st.on.size(); k++) {
				if (!st.on[k]) { chain = k + 1; continue; }
				std::vector<const Tab*> sofar(tabs.begin() + (long)chain, tabs.begin() + (long)k + 2);
				std::vector<const Row*> rows(cur.begin() + (long)chain, cur.begin() + (long)k + 2);
				if (!eval_pred(*st.on[k], sofar, rows)) return;
			}
			if (st.where && !eval_pred(*st.where, tabs, cur)) return;
			prod.push_back(cur);
			return;
		}
		for (auto &r : tabs[i]->rows) { cur[i] = &r; self(self, i + 1); }
	};
	rec(rec, 0);

	for (auto &x : outs) {
		if (x.kind == 0) {
			o.names.push_back(tabs[x.t]->name + "." + tabs[x.t]->cols[x.c].name);
			o.tys.push_back(tabs[x.t]->cols[x.c].ty);
		} else {
			o.names.push_back("COUNT");
			o.tys.push_back(INTEGER);
		}
	}
	if (!group.empty() || count) {
		std::map<std::string, std::vector<size_t>> groups;
		std::vector<std::string> first;
		for (size_t i = 0; i < prod.size(); i++) {
			std::string k;
			for (auto &g : group) { std::string v = (*prod[i][g.first])[g.second].key(); k += std::to_string(v.size()) + ":" + v; }
			if (!groups.count(k)) first.push_back(k);
			groups[k].push_back(i);
		}
		if (group.empty() && groups.empty()) { first.push_back(""); groups[""]; }
		for (auto &k : first) {
			Row r;
			auto &g = groups[k];
			for (auto &x : outs) {
				Val v;
				if (x.kind == 0) v = (*prod[g[0]][x.t])[x.c];
				else {
					v.null = false;
					v.ty = INTEGER;
					for (size_t i : g)
						if (x.kind == 1 || !(*prod[i][x.t])[x.c].null) v.i++;
				}
				r.push_back(v);
			}
			o.rows.push_back(r);
		}
	} else {
		for (auto &p : prod) {
			Row r;
			for (auto &x : outs) r.push_back((*p[x.t])[x.c]);
			o.rows.push_back(r);
		}
	}
	o.v = Outcome::OK;
	o.results = true;
	o.ordered_cols = !st.star;
	return o;
}

Outcome predict(const Db &db, const Stmt &st)
{
	switch (st.k) {
	case Stmt::CREATE: return p_create(db, st);
	case Stmt::INSERT: return p_insert(db, st);
	case Stmt::DELETE: return p_delete(db, st);
	case Stmt::UPDATE: return p_update(db, st);
	case Stmt::SELECT: return p_select(db, st);
	default: return refuse("malformed statement");
	}
}

// ---------------------------------------------------------------- how a statement is written down
struct Writer {
	Rng r;
	bool fancy;
	std::string out;
	Writer(uint64_t style) : r(style), fancy(style != 0) {}

	void gap(bool needed)
	{
		if (!fancy) { if (needed) out += ' '; return; }
		switch (r.below(24)) {
		case 0: out += "\n"; break;
		case 1: out += " \t "; break;
		case 2: out += " /* f1 = 'x'; */ "; break;
		case 3: out += " -- DELETE\n"; break;
		case 4: out += "# it's ;\n"; break;
		case 5: case 6: case 7: case 8: case 9: case 10: if (!needed) break; /* fallthrough */
		default: out += ' ';
		}
	}
	void kw(const std::string &k)
	{
		gap(true);
		if (!fancy) { out += k; return; }
		int m = (int)r.below(3);
		for (char c : k) out += m == 0 ? c : m == 1 ? (char)tolower(c) : (r.chance(50) ? (char)tolower(c) : c);
	}
	// words of the language are names between backquotes only
	static bool reserved(const std::string &n)
	{
		static const std::set<std::string> w = {"AND", "AS", "ASC", "AUTO_INCREMENT", "BETWEEN", "BY", "CASE", "CHAR", "CHARACTER", "COLUMN", "COMMENT", "CREATE", "CROSS",
			"CURRENT_DATE", "CURRENT_TIMESTAMP", "DATE", "DATETIME", "DELETE", "DESC", "DISTINCT", "DOUBLE", "ELSE", "END", "EXISTS", "EXPLAIN", "FROM", "GROUP", "HAVING",
			"IF", "IN", "INDEX", "INNER", "INSERT", "INT", "INT4", "INTEGER", "INTO", "IS", "JOIN", "KEY", "LEFT", "LIKE", "LIMIT", "MOD", "NOT", "NULL", "ON", "OR",
			"ORDER", "OUTER", "PRIMARY", "RIGHT", "SELECT", "SET", "TABLE", "TINYINT", "THEN", "UNIQUE", "UPDATE", "VALUE", "VALUES", "VARCHAR", "VARCHARACTER", "WHEN",
			"WHERE", "XOR", "TRUE", "FALSE", "UNKNOWN"};
		if (n == "COUNT") return true;	// so it is when ( follows
		std::string u;
		for (char c : n) u += (char)toupper((unsigned char)c);
		return w.count(u) > 0;
	}
	void name(const std::string &n)
	{
		gap(true);
		if (reserved(n) || (fancy && r.chance(15))) out += "`" + n + "`";
		else out += n;
	}
	void field(const std::string &t, const std::string &c)
	{
		if (t.empty()) { name(c); return; }
		name(t);
		if (fancy && r.chance(5)) gap(false);
		out += ".";
		if (fancy && r.chance(5)) gap(false);
		out += reserved(c) || (fancy && r.chance(5)) ? "`" + c + "`" : c;
	}
	void punct(const std::string &p) { gap(false); out += p; }
	void tok(const std::string &p) { gap(true); out += p; }
	void opd(const Opd &o)
	{
		if (o.field) field(o.tab, o.col);
		else if (o.lit.k == Lit::NUL || o.lit.k == Lit::BOOL) kw(o.lit.sql());
		else if (o.lit.k == Lit::STR && fancy && r.chance(25)) tok(quoted(o.lit.s, '"'));
		else tok(o.lit.sql());
	}
	static int prec(Pred::K k) { return k == Pred::OR ? 0 : k == Pred::XOR ? 1 : k == Pred::AND ? 2 : 9; }
	void pred(const Pred &p, int minprec)
	{
		bool par = prec(p.k) < minprec || (fancy && r.chance(15));
		if (par) punct("(");
		switch (p.k) {
		case Pred::AND: case Pred::OR: case Pred::XOR:
			pred(p.kids[0], prec(p.k));
			if (p.k == Pred::XOR) kw("XOR");
			else if (p.k == Pred::AND) { if (fancy && r.chance(25)) tok("&&"); else kw("AND"); }
			else { if (fancy && r.chance(25)) tok("||"); else kw("OR"); }
			pred(p.kids[1], prec(p.k) + 1);
			break;
		case Pred::ISNULL: opd(p.a); kw("IS"); kw("NULL"); break;
		case Pred::NOTNULL: opd(p.a); kw("IS"); kw("NOT"); kw("NULL"); break;
		case Pred::IN: case Pred::NOTIN:
			opd(p.a);
			if (p.k == Pred::NOTIN) kw("NOT");
			kw("IN");
			punct(fancy ? "(" : " (");
			for (size_t i = 0; i < p.vals.size(); i++) {
				if (i) punct(",");
				Opd o;
				o.lit = p.vals[i];
				opd(o);
			}
			punct(")");
			break;
		case Pred::CMP: {
			static const char *n[] = {"", "<", ">", "<>", "=", "<=", ">="};
			opd(p.a);
			gap(!fancy);
			out += p.op == OP_NE && fancy && r.chance(40) ? "!=" : n[p.op];
			opd(p.b);
			break;
		}
		}
		if (par) punct(")");
	}
	void from(const Stmt &st, size_t i)
	{
		name(st.from[i]);
		if (st.alias.empty() || st.alias[i].empty()) return;
		if (!fancy || r.chance(50)) kw("AS");
		name(st.alias[i]);
	}
	void lit(const Lit &l)
	{
		Opd o;
		o.lit = l;
		opd(o);
	}
};

std::string Stmt::sql() const { return sql(style); }
std::string Stmt::sql(uint64_t sty) const
{
	Writer w(sty);
	switch (k) {
	case RAW: return raw;
	case CREATE:
		w.kw("CREATE"); w.kw("TABLE");
		if (ine) { w.kw("IF"); w.kw("NOT"); w.out += ' '; w.out += "EXISTS"; }
		w.name(table);
		w.punct(" (");
		for (size_t i = 0; i < cols.size(); i++) {
			const ColDef &c = cols[i];
			if (i) w.punct(",");
			w.name(c.name);
			switch (c.ty) {
			case INTEGER: w.kw(w.fancy && w.r.chance(40) ? "INTEGER" : "INT"); break;
			case TINYINT: w.kw("TINYINT"); break;
			case DOUBLE: w.kw("DOUBLE"); break;
			case DATE: w.kw("DATE"); break;
			case DATETIME: w.kw("DATETIME"); break;
			default: w.kw("VARCHAR"); w.punct("("); w.punct(std::to_string(c.len)); w.punct(")");
			}
			if (c.notnull) { w.kw("NOT"); w.kw("NULL"); }
			if (c.autoinc) w.kw("AUTO_INCREMENT");
			if (c.uniq) w.kw("UNIQUE");
			if (c.pk) { w.kw("PRIMARY"); w.kw("KEY"); }
		}
		for (auto &x : keys) {
			w.punct(",");
			if (x.first) { w.kw("PRIMARY"); w.kw("KEY"); }
			else w.kw("INDEX");
			w.punct("(");
			for (size_t i = 0; i < x.second.size(); i++) { if (i) w.punct(","); w.name(x.second[i]); }
			w.punct(")");
		}
		w.punct(")");
		break;
	case INSERT:
		w.kw("INSERT");
		if (!w.fancy || w.r.chance(70)) w.kw("INTO");
		w.name(table);
		if (!incols.empty()) {
			w.punct(" (");
			for (size_t i = 0; i < incols.size(); i++) { if (i) w.punct(","); w.name(incols[i]); }
			w.punct(")");
		}
		w.kw("VALUES");
		for (size_t i = 0; i < rows.size(); i++) {
			if (i) w.punct(",");
			w.punct(" (");
			for (size_t j = 0; j < rows[i].size(); j++) { if (j) w.punct(","); w.lit(rows[i][j]); }
			w.punct(")");
		}
		break;
	case DELETE:
		w.kw("DELETE"); w.kw("FROM"); w.name(table);
		break;
	case UPDATE:
		w.kw("UPDATE"); w.name(table); w.kw("SET");
		for (size_t i = 0; i < sets.size(); i++) {
			if (i) w.punct(",");
			w.name(sets[i].first);
			w.punct(w.fancy ? "=" : " =");
			w.lit(sets[i].second);
		}
		break;
	case SELECT:
		w.kw("SELECT");
		if (star) w.tok("*");
		for (size_t i = 0; i < items.size(); i++) {
			if (i) w.punct(",");
			if (items[i].k == SelItem::FIELD) { w.field(items[i].f.tab, items[i].f.col); continue; }
			w.kw("COUNT");
			w.out += "(";
			if (items[i].k == SelItem::COUNTALL) w.punct("*");
			else w.field(items[i].f.tab, items[i].f.col);
			w.punct(")");
		}
		w.kw("FROM");
		w.from(*this, 0);
		for (size_t i = 1; i < from.size(); i++) {
			if (!on[i - 1]) { w.punct(","); w.from(*this, i); continue; }
			if (!w.fancy || w.r.chance(50)) w.kw("INNER");
			w.kw("JOIN");
			w.from(*this, i);
			w.kw("ON");
			w.pred(*on[i - 1], 0);
		}
		break;
	}
	if (where) { w.kw("WHERE"); w.pred(*where, 0); }
	if (!group.empty()) {
		w.kw("GROUP"); w.kw("BY");
		for (size_t i = 0; i < group.size(); i++) { if (i) w.punct(","); w.field(group[i].tab, group[i].col); }
	}
	w.punct(";");
	size_t b = w.out.find_first_not_of(' ');
	return w.out.substr(b == std::string::npos ? 0 : b);
}
