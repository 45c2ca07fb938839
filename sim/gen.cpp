// gen.cpp - from one seed to one history: configuration ("swarm") and operations
#include "sim.hpp"
#include <algorithm>

static const char *opn[] = {"SQL", "OPEN", "CLOSE", "VACUUM", "ADD-COLUMN", "REM-COLUMN", "SELECT-HELD", "STEP", "FREE-RESULT",
	"AUDIT", "ROW-INSERT", "ROW-DELETE", "ROW-UPDATE", "ROWS-DELETE"};

std::string Op::str() const
{
	std::string s = "[session " + std::to_string(sess) + "] ";
	s += opn[k];
	if (k == O_SQL || k == O_HOLD) {
		std::string q = st.sql();
		if (q.size() > 900) q = q.substr(0, 900) + "...(" + std::to_string(q.size()) + " chars)";
		s += " " + q;
	}
	if (k == O_HOLD || k == O_STEP || k == O_FREE) s += " #" + std::to_string(h);
	if (k == O_STEP) s += " x" + std::to_string(n);
	if (k == O_VACUUM || k == O_ADDCOL || k == O_REMCOL || k >= O_ROWINS) s += " " + tab;
	if (k == O_ADDCOL || k == O_REMCOL) s += "." + col.name + " type " + std::to_string(col.ty) + " len " + std::to_string(col.len);
	if (k == O_ROWINS || k == O_ROWUPD) s += " " + dump_rows({row}, false);
	if (k == O_ROWDEL || k == O_ROWUPD) s += " row #" + std::to_string(n);
	if (k == O_ROWDELS) {
		static const char *pn[] = {"the first row of each block", "the last row of each block", "a whole block", "every row from", "every row up to", "every 2nd, 3rd or 4th row",
			"all but one row of each block", "every row", "what is next to the boundary of blocks"};
		s += std::string(": ") + pn[n % 9] + " (" + std::to_string(h) + ")";
	}
	if (f.mode) {
		static const char *fk[] = {"", "allocation", "allocation outage", "regcomp", "mutex lock", "mutex init"};
		s += f.mode == 1 ? "  !! fault: " : "  !! sweep: ";
		s += std::string(fk[f.kind]) + " #" + std::to_string(f.at) + (f.kind == SF_ALLOC_OUTAGE ? "+" + std::to_string(f.span) : "");
	}
	return s;
}

std::string Cfg::str() const
{
	char b[256];
	snprintf(b, sizeof(b), "ops=%d sessions=%d domain=%d cols=%d..%d tabs=%d fault%%=%d sweep%%=%d err%%=%d tz=%d fill=%02x reuse=%d", nops, nsess,
			domain, mincols, maxcols, maxtabs, fault_pct, sweep_pct, err_pct, tz, fill, reuse);
	return b;
}

Cfg make_cfg(const std::string &prop, uint64_t seed)
{
	Rng r(seed ^ 0xC0F1C0F1ull);
	Cfg c;
	c.prop = prop;
	c.fill = (int)r.pick(std::vector<int>{0xa5, 0x00, 0xff, 0x01, 0x7f});
	c.reuse = r.chance(40);
	c.domain = (int)r.below(3);
	c.style_pct = r.chance(50) ? 0 : 60;
	c.null_pct = (int)r.pick(std::vector<int>{0, 15, 40});
	c.notnull_pct = (int)r.pick(std::vector<int>{0, 20, 50});
	c.tymask = r.chance(60) ? 63 : (int)r.range(1, 63);
	c.maxcols = (int)r.pick(std::vector<int>{2, 5, 9});
	c.longstr = r.chance(15);
	c.nops = (int)r.range(25, 70);
	c.w[O_SQL] = 100;
	c.w[O_VACUUM] = r.chance(50) ? 6 : 0;
	int dflt[6] = {6, 40, 18, 22, 34, 0};
	for (int i = 0; i < 6; i++) c.ws[i] = r.chance(85) ? dflt[i] : dflt[i] / 4;

	if (prop == "P01") {
		c.nsess = (int)r.range(1, 3);
		c.w[O_HOLD] = c.w[O_STEP] = r.chance(40) ? 8 : 0;
		c.w[O_FREE] = c.w[O_HOLD] / 2;
		c.w[O_CLOSE] = c.w[O_OPEN] = r.chance(40) ? 3 : 0;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = r.chance(25) ? 3 : 0;
		c.ws[5] = 3;
		c.nops = (int)r.range(40, 110);
	} else if (prop == "P02") {
		c.nops = (int)r.range(8, 18);
		c.sweep_pct = 45;
		c.fkinds = {SF_ALLOC};
		c.maxtabs = 2;
		c.err_pct = 12;
		c.w[O_VACUUM] = r.chance(30) ? 6 : 0;
		c.w[O_ADDCOL] = r.chance(45) ? 12 : 0;
		c.w[O_REMCOL] = c.w[O_ADDCOL] / 2;
		c.domain = (int)r.below(2);
		c.longstr = 0;
		c.group_pct = 30;
		c.w[O_ROWINS] = c.w[O_ROWUPD] = r.chance(25) ? 8 : 0;
	} else if (prop == "P03") {
		c.fault_pct = (int)r.pick(std::vector<int>{10, 30, 60});
		c.fkinds = {SF_ALLOC, SF_ALLOC_OUTAGE, SF_ALLOC_OUTAGE, SF_REGCOMP, SF_LOCK, SF_MINIT};
		if (r.chance(30)) c.fkinds = {(int)r.range(1, SF_KINDS - 1)};
		c.nsess = (int)r.range(1, 2);
		c.w[O_CLOSE] = c.w[O_OPEN] = r.chance(60) ? 5 : 0;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = r.chance(40) ? 5 : 0;
		c.w[O_HOLD] = c.w[O_STEP] = r.chance(40) ? 8 : 0;
		c.w[O_FREE] = c.w[O_HOLD] / 2;
		c.w[O_VACUUM] = r.chance(50) ? 8 : 0;
		c.ws[0] = 15;
		c.w[O_ROWINS] = c.w[O_ROWDEL] = c.w[O_ROWUPD] = r.chance(30) ? 8 : 0;
	} else if (prop == "P04") {
		c.nsess = (int)r.range(1, 3);
		c.w[O_CLOSE] = c.w[O_OPEN] = 8;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = 5;
		c.w[O_VACUUM] = 8;
		c.w[O_HOLD] = c.w[O_STEP] = c.w[O_FREE] = 6;
		c.w[O_ROWINS] = c.w[O_ROWDEL] = c.w[O_ROWUPD] = r.chance(40) ? 8 : 0;
		c.w[O_ROWDELS] = r.chance(30) ? 5 : 0;
		c.err_pct = 15;
		c.ws[5] = 6;
		c.longstr = r.chance(40);
		c.fault_pct = r.chance(30) ? (int)r.pick(std::vector<int>{5, 25}) : 0;
		c.fkinds = {SF_ALLOC, SF_ALLOC_OUTAGE, SF_REGCOMP, SF_LOCK, SF_MINIT};
	} else if (prop == "P05") {
		c.w[O_HOLD] = 40;
		c.w[O_STEP] = 50;
		c.w[O_FREE] = 8;
		c.w[O_VACUUM] = 10;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = r.chance(50) ? 6 : 0;
		c.w[O_CLOSE] = c.w[O_OPEN] = r.chance(50) ? 4 : 0;
		c.ws[4] = 5;
		c.bulk = r.chance(50) ? 40 : 0;
		c.w[O_ROWDELS] = c.bulk ? 6 : 0;
		c.w[O_ROWINS] = c.w[O_ROWDEL] = c.w[O_ROWUPD] = r.chance(30) ? 8 : 0;
		c.rowcap = 400;
		c.nsess = (int)r.range(1, 2);
		c.group_pct = 10;
	} else if (prop == "P06") {
		c.w[O_VACUUM] = 40;
		c.bulk = (int)r.pick(std::vector<int>{0, 30, 90});
		c.rowcap = 600;
		c.maxcols = (int)r.pick(std::vector<int>{1, 3, 12, 60, 120});
		if (c.maxcols > 12) c.mincols = c.maxcols / 2;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = r.chance(50) ? 6 : 0;
		c.w[O_ROWDELS] = r.chance(70) ? 30 : 0;
		c.w[O_ROWDEL] = r.chance(40) ? 30 : 0;
		c.w[O_ROWINS] = r.chance(30) ? 10 : 0;
		c.w[O_ROWUPD] = r.chance(20) ? 10 : 0;
		c.ws[2] = 40;
		c.ws[4] = 8;
		c.maxtabs = 2;
	} else if (prop == "P07") {
		c.w[O_ADDCOL] = 40;
		c.fault_pct = r.chance(30) ? 30 : 0;
		c.fkinds = {SF_ALLOC, SF_ALLOC_OUTAGE};
		c.w[O_REMCOL] = 35;
		c.w[O_VACUUM] = 8;
		c.w[O_HOLD] = c.w[O_STEP] = r.chance(30) ? 5 : 0;
		c.bulk = r.chance(40) ? 40 : 0;
		c.w[O_ROWDELS] = c.bulk ? 8 : 0;
		c.w[O_ROWINS] = c.w[O_ROWDEL] = c.w[O_ROWUPD] = r.chance(30) ? 8 : 0;
		c.rowcap = 300;
		c.maxcols = (int)r.pick(std::vector<int>{2, 6, 20, 125});
		if (c.maxcols > 20) c.mincols = 100;
		if (r.chance(12)) { c.maxcols = 128; c.mincols = 124; c.w[O_REMCOL] = 8; }
		c.maxtabs = 2;
		c.null_pct = 35;
	} else if (prop == "P08") {
		c.ws[0] = 120;
		c.maxtabs = (int)r.pick(std::vector<int>{5, 30, 80});
		c.maxcols = (int)r.pick(std::vector<int>{3, 12, 130});
		c.nsess = (int)r.range(1, 3);
		c.fault_pct = r.chance(40) ? 25 : 0;
		c.fkinds = {SF_ALLOC, SF_LOCK, SF_REGCOMP, SF_MINIT};
		c.nops = (int)r.range(40, 160);
		c.w[O_CLOSE] = c.w[O_OPEN] = r.chance(30) ? 3 : 0;
		c.err_pct = 15;
		c.rowcap = 20;
	} else if (prop == "P09") {
		c.notnull_pct = 50;
		c.null_pct = 35;
		c.err_pct = 40;
		c.ws[1] = 60;
		c.ws[3] = 60;
		c.ws[4] = 6;
		c.longstr = r.chance(30);
		c.maxtabs = 2;
		c.w[O_ADDCOL] = c.w[O_REMCOL] = r.chance(20) ? 4 : 0;
	} else if (prop == "P10") {
		c.depth = (int)r.range(2, 5);
		c.where_pct = 100;
		c.ws[0] = 3; c.ws[1] = 30; c.ws[2] = 14; c.ws[3] = 20; c.ws[4] = 80;
		c.join_pct = 5; c.group_pct = 3; c.count_pct = 3;
		c.maxtabs = 2;
		c.err_pct = 10;
		c.maxcols = 7;
		c.mincols = 2;
	} else if (prop == "P11") {
		c.ws[0] = 4; c.ws[1] = 40; c.ws[2] = 10; c.ws[3] = 10; c.ws[4] = 80;
		c.alias_pct = 20; c.join_pct = 75; c.group_pct = 45; c.count_pct = 25;
		c.maxtabs = 4;
		c.domain = r.chance(70) ? 0 : 1;
		c.maxcols = 4;
		c.err_pct = 4;
		c.bulk = r.chance(25) ? 60 : 0;
		c.rowcap = c.bulk ? 250 : 16;
		if (c.bulk) { c.join_pct = 15; c.group_pct = 60; c.maxtabs = 2; }
		c.where_pct = 40;
		c.depth = 2;
	} else if (prop == "P12") {
		c.nsess = (int)r.pick(std::vector<int>{1, 1, 1, 2, 3});
		c.nops = c.nsess + (int)r.range(4, 26);
		c.w[O_VACUUM] = 0;
		c.ws[0] = (int)r.pick(std::vector<int>{6, 30});
		c.ws[5] = r.chance(40) ? 8 : 0;
		c.rowcap = (int)r.pick(std::vector<int>{8, 20, 40});
		c.maxcols = (int)r.pick(std::vector<int>{2, 4, 7});
		c.maxtabs = (int)r.pick(std::vector<int>{1, 2, 3, 20});
		c.domain = (int)r.pick(std::vector<int>{0, 0, 1, 2});
		c.depth = 2;
		c.fault_pct = r.chance(25) ? 25 : 0;
		c.fkinds = {SF_ALLOC, SF_ALLOC_OUTAGE, SF_REGCOMP, SF_LOCK};
	} else if (prop == "P16") {
		c.ws[5] = 160;
		c.nsess = (int)r.range(1, 2);
		c.err_pct = 25;
		c.fault_pct = r.chance(25) ? 15 : 0;
		c.fkinds = {SF_ALLOC, SF_REGCOMP};
		c.rowcap = 30;
	} else if (prop == "P17") {
		c.tymask = (1 << DATE) | (1 << DATETIME) | (r.chance(50) ? 1 << INTEGER : 0);
		c.where_pct = 90;
		c.err_pct = 15;
		c.null_pct = 10;
		c.w[O_ROWINS] = 0;
	}
	if ((prop == "P01" || prop == "P03" || prop == "P05" || prop == "P11" || prop == "P16") && r.chance(6)) {	// joins of tables with many columns
		c.maxcols = (int)r.pick(std::vector<int>{30, 50, 66, 90, 128});
		c.mincols = c.maxcols / 2;
		c.maxtabs = (int)r.range(2, 3);
		c.join_pct = 60;
		c.rowcap = std::min(c.rowcap, 12);
		c.bulk = 0;
	}
	bool any = prop != "P02" && prop != "P12";
	if (any && r.chance(2)) {	// statements on hundreds of rows
		c.bulk = 300;
		c.rowcap = 700;
		c.maxcols = std::min(c.maxcols, 3);
		c.mincols = 1;
		c.maxtabs = 1;
		c.join_pct = 0;
		c.nops = (int)r.range(10, 30);
		c.w[O_ROWDELS] += 5;
	} else if (any && r.chance(2)) {	// a long life
		c.nops = (int)r.range(270, 600);
		c.rowcap = std::min(c.rowcap, 12);
		c.bulk = 0;
	}
	if (prop == "P17" || r.chance(15)) c.tz = (int)r.below(5);
	c.oddnames = r.chance(prop == "P01" ? 25 : 12);
	return c;
}

// ---------------------------------------------------------------- generator
struct Gen {
	const Cfg &c;
	bool no_alias = false;
	Rng r;
	std::vector<Db> dbs;
	struct Held { bool used = false; int sess = 0; };
	std::vector<Held> held = std::vector<Held>(8);

	Gen(const Cfg &cfg, uint64_t seed) : c(cfg), r(seed ^ 0x5EED5EED5EEDull), dbs(cfg.nsess) {}

	// ---- names
	std::string tab_name()
	{
		static const std::vector<std::string> pool = {"A", "B", "C", "users", "orders", "t1", "t10", "T_2", "a", "early_mat_tbl"};
		if (c.maxtabs > 10) return "tab" + std::to_string(r.below(c.maxtabs * 2));
		if (r.chance(c.oddnames ? 8 : 2)) return std::string("L") + std::string(r.chance(50) ? 126 : 100, 'n');
		if (c.oddnames && r.chance(30)) {
			static const std::vector<std::string> odd = {"Z", "zZ_09", "from_x", "TABLE", "select", "NAME", "e1", "E2", "x0", "b01", "Integer", "counts", "m", "Y_", "STRING", "az", "mM5", "COUNT", "isnull", "values1"};
			return r.pick(odd);
		}
		return pool[r.below(std::min<size_t>(pool.size(), c.maxtabs * 2))];
	}
	std::string any_tab(int s, bool wrong)
	{
		std::vector<std::string> v;
		for (auto &t : dbs[s].tabs) v.push_back(t.first);
		if (v.empty() || wrong) {
			if (r.chance(30)) return "nope";
			return tab_name();
		}
		return r.pick(v);
	}
	std::string col_name(int i)
	{
		static const std::vector<std::string> odd = {"id", "age", "name", "f10", "count", "x_1", "F1"};
		if (r.chance(8)) return r.pick(odd);
		if (c.oddnames && r.chance(30)) {
			static const std::vector<std::string> more = {"Z", "z", "a", "A", "aZ9_", "Zz", "selected", "android", "notes", "in_1", "nulls", "counts", "ints", "trueish", "dates", "order_by",
				"SELECT", "from", "NULL", "Key", "STRING", "COUNTALL", "values", "and", "Date", "VARCHAR", "e1", "E5", "e10", "x1F", "b01", "TRUE", "false", "m0", "y", "NAME", "CMP", "FLOAT", "true_", "is"};
			return r.pick(more);
		}
		if (r.chance(c.oddnames ? 5 : 1)) return "c" + std::string(r.chance(50) ? 126 : 90, 'z');
		return "f" + std::to_string(i);
	}
	std::string field_of(const Tab &t, bool wrong)
	{
		if (wrong || t.cols.empty()) return r.chance(50) ? "nofield" : "f99";
		return t.cols[r.below(t.cols.size())].name;
	}
	int a_type()
	{
		int t;
		do t = (int)r.below(6); while (!(c.tymask >> t & 1));
		return t;
	}
	ColDef coldef(int i)
	{
		ColDef d;
		d.name = col_name(i);
		d.ty = a_type();
		if (d.ty == VARCHAR) {
			d.len = (int)r.pick(std::vector<int>{1, 2, 4, 10, 20, 64, 128, 200});
			if (c.longstr && r.chance(40)) d.len = (int)r.pick(std::vector<int>{255, 256, 257, 300, 1000, 5000, 9999});
		}
		d.notnull = r.chance(c.notnull_pct);
		d.uniq = r.chance(6);
		d.autoinc = r.chance(3);
		d.pk = r.chance(4);
		return d;
	}

	// ---- values
	std::string text(int max)
	{
		static const std::vector<std::string> w = {"", "a", "b", "ab", "paulo", "x y", "100%", "a;b", "--no", "#h", "NULL", "f1 = 1",
			"STRING x", "\xc3\xa9t\xc3\xa9", "(1,2)", "TRUE", "%s%n", "it is", "\xf0\x9f\x98\x80", "tab\there", "1", "A", "it's", "'", "\"", "'q'", "''", "say \"no\"", "'a'',\"b"};
		std::string s;
		if (max <= 0) return "";
		if (max > 4 && r.chance(10)) {
			// long strings that differ in one place, often the last one
			static const std::vector<int> at = {3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 127, 128, 199, 254, 255, 256, 511, 1023, 1024, 4095};
			int n = r.chance(30) ? max : std::min(max, at[r.below(at.size())] + 1);
			s.assign((size_t)n, 'k');
			s[r.chance(75) ? (size_t)n - 1 : r.below((uint64_t)n)] = (char)('j' + r.below(3));
			if (r.chance(20) && n < max) s += 'k';
			return s;
		}
		if (r.chance(c.domain == 0 ? 90 : 60)) {
			s = w[r.below(c.domain == 0 ? 5 : w.size())];
		} else {
			int n = r.chance(40) ? max : (int)r.range(0, std::min(max, 40));
			if (c.longstr && r.chance(30)) n = max;
			for (int i = 0; i < n; i++) s += (char)('a' + r.below(26));
		}
		if (c.domain && r.chance(3)) s = r.chance(50) ? s + " " : " " + s;
		if ((int)s.size() > max) s.resize(max);
		return s;
	}
	std::string date(int ty, bool good)
	{
		char b[64];
		if (!good) {
			// not dates at all, dates followed by something, days and times that don't exist
			static const std::vector<std::string> bad = {"not a date", "2023-13-01", "2023-00-10", "2023-02-32", "20230101x", "-", "2023/01/01", "x2023-01-01",
				"2023-02-29", "2023-02-30", "2100-02-29", "2023-04-31", "2023-06-31", "2023-09-31", "2023-11-31", "1900-02-29", "2024-02-30"};
			static const std::vector<std::string> badt = {"2023-01-01 24:00:00", "2023-01-01 10:60:00", "2023-01-01 10:00:60", "2023-01-01 10:00:61", "2023-01-01 10:00",
				"2023-02-29 00:00:00", "1969-12-32 23:59:59"};
			if (r.chance(25)) return date(ty, true) + r.pick(std::vector<std::string>{"x", " ", "0:00", "-01", ".5", "Z", " 10"});
			if (ty == DATETIME && r.chance(60)) return r.pick(badt);
			return r.pick(bad);
		}
		int y = c.domain == 0 ? (int)r.range(2020, 2022) : r.chance(70) ? (int)r.range(1965, 2040) : (int)r.pick(std::vector<int>{1800, 1901, 1969, 1970, 2038, 2100, 2106, 9999, 1600, 1900, 2000, 2000, 2400});
		int m = (int)r.range(1, c.domain == 0 ? 2 : 12);
		static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
		bool leap = (y % 4 == 0 && y % 100) || y % 400 == 0;
		int d = (int)r.range(1, c.domain == 0 ? 3 : dm[m - 1] + (m == 2 && leap));
		if (c.domain && r.chance(20)) d = dm[m - 1] + (m == 2 && leap);
		if (c.domain && r.chance(3)) {
			// around the epoch and other limits of time_t
			static const std::vector<std::string> edge = {"1969-12-31 23:59:59", "1970-01-01 00:00:00", "1969-12-31 23:59:58", "1970-01-01 00:00:01", "2038-01-19 03:14:07",
				"2038-01-19 03:14:08", "1901-12-13 20:45:51", "2106-02-07 06:28:15", "1970-01-01 11:59:59", "1969-12-31 18:59:59", "1969-12-31 12:59:59"};
			std::string e = r.pick(edge);
			return ty == DATE ? e.substr(0, 10) : e;
		}
		if (ty == DATE) snprintf(b, sizeof(b), "%04d-%02d-%02d", y, m, d);
		else if (r.chance(25)) snprintf(b, sizeof(b), "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, r.chance(50) ? 0 : 23, r.chance(50) ? 0 : 59, r.chance(50) ? 0 : 58);
		else snprintf(b, sizeof(b), "%04d-%02d-%02d %02d:%02d:%02d", y, m, d, (int)r.below(24), (int)r.below(60), (int)r.below(60));
		return b;
	}
	int64_t integer()
	{
		static const std::vector<int64_t> ext = {0, 1, -1, 2147483647, 2147483648LL, -2147483648LL, -2147483649LL, 4294967296LL, 4294967297LL,
			INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 1LL << 62, 1LL << 53, (1LL << 53) + 1, 255, 256, 65536};
		if (c.domain == 0) return (int64_t)r.below(5);
		if (c.domain == 1 || r.chance(50)) return r.range(-10, 30);
		return r.pick(ext);
	}
	double dbl()
	{
		static const std::vector<double> small = {0, 0.5, 1, 1.5, 2.25};
		static const std::vector<double> ext = {1e300, -1e300, 1e-300, 0.1, 0.2, 3.141592653589793, 1e17, 123456789.123456789, -0.75, 2147483648.5, 4294967296.25,
			1.7976931348623157e308, 2.2250738585072014e-308, 0.30000000000000004, 0.3, 1e15 + 0.5};
		if (c.domain == 0) return r.pick(small);
		if (c.domain == 1 || r.chance(40)) return (double)r.range(-40, 40) / 4;
		return r.pick(ext);
	}
	Lit lit(int ty, int len, bool wrong, bool nul)
	{
		Lit l;
		if (nul) return l;
		if (wrong) {
			int w = (int)r.below(4);
			l.k = w == 0 ? Lit::INT : w == 1 ? Lit::DBL : w == 2 ? Lit::BOOL : Lit::STR;
			l.i = w == 2 ? (int64_t)r.below(2) : integer();
			l.d = dbl();
			l.s = w == 3 ? (ty == VARCHAR ? std::string((size_t)len + r.below(c.longstr ? 400 : 3), 'q') : date(ty, false)) : "";
			return l;
		}
		switch (ty) {
		case INTEGER: l.k = Lit::INT; l.i = integer(); break;
		case DOUBLE: l.k = Lit::DBL; l.d = dbl(); break;
		case TINYINT: l.k = Lit::BOOL; l.i = (int64_t)r.below(2); break;
		case VARCHAR: l.k = Lit::STR; l.s = text(len - 1); break;
		default: l.k = Lit::STR; l.s = date(ty, true);
		}
		return l;
	}
	Expr expr(int ty, int depth, bool wrong)
	{
		Expr e;
		if (depth == 0 || r.chance(30)) {
			if (wrong && r.chance(30)) { e.op = r.chance(40) ? "0bs"[r.below(3)] : ty == INTEGER ? 'd' : 'i'; e.i = 3; e.d = 2.5; return e; }
			e.op = ty == INTEGER ? 'i' : 'd';
			e.i = r.range(-3, 12);
			if (ty == INTEGER && r.chance(4)) {
				static const int64_t far[] = {INT64_MAX, INT64_MIN, INT64_MIN + 1, 1LL << 62, -(1LL << 62), 3037000500LL, 4294967296LL, 2147483647LL};
				e.i = far[r.below(8)];
			}
			e.d = (double)r.range(-3, 12);
			if (ty == DOUBLE && depth > 0 && r.chance(40)) e.d += 0.25;
			return e;
		}
		int k = (int)r.below(7);
		static const char ops[] = "+-*/%np";
		e.op = ops[k];
		if (ty == DOUBLE && e.op == '%') depth = 1;	// only whole numbers have a meaning there
		if (e.op == 'n' || e.op == 'p') { e.kids.push_back(expr(ty, depth - 1, wrong)); return e; }
		for (int i = 0; i < 2; i++) {
			Expr x = expr(ty, depth - 1, wrong);
			if (std::string("+-*/%").find(x.op) != std::string::npos) {
				Expr p;
				p.op = 'p';
				p.kids.push_back(x);
				x = p;
			}
			e.kids.push_back(x);
		}
		return e;
	}

	// ---- predicates
	Pred leaf(const std::vector<const Tab*> &tabs, bool qual, bool wrong)
	{
		Pred p;
		const Tab &t = *tabs[r.below(tabs.size())];
		auto fld = [&](const Tab &x, const std::string &n) {
			Opd o;
			o.field = true;
			o.col = n;
			int cnt = 0;
			for (auto *y : tabs) cnt += y->col(n) >= 0;
			if (qual && (cnt > 1 || r.chance(40))) o.tab = x.name;
			return o;
		};
		bool bad = wrong && r.chance(30);
		std::string n = field_of(t, bad && r.chance(40));
		int ci = t.col(n);
		int ty = ci >= 0 ? t.cols[ci].ty : (int)r.below(6);
		int len = ci >= 0 ? t.cols[ci].len : 5;
		auto a_lit = [&](bool nul) -> Lit {
			// prefer a value that's present
			if (!bad && ci >= 0 && !t.rows.empty() && ty != VARCHAR && ty != DATE && ty != DATETIME && r.chance(45)) {
				const Val &v = r.pick(t.rows)[ci];
				if (!v.null) {
					Lit l;
					l.k = ty == INTEGER ? Lit::INT : ty == DOUBLE ? Lit::DBL : Lit::BOOL;
					l.i = v.i;
					l.d = v.d;
					if (ty != TINYINT && r.chance(30)) { if (l.i < INT64_MAX - 2 && l.i > INT64_MIN + 2) l.i += r.range(-1, 1); l.d += 0.25; }
					if (l.d == 0) l.d = 0;
					return l;
				}
			}
			// or nearly one that's present
			if (!bad && ci >= 0 && !t.rows.empty() && ty == VARCHAR && r.chance(30)) {
				const Val &v = r.pick(t.rows)[ci];
				Lit l;
				l.k = Lit::STR;
				if (!v.null) {
					l.s = v.s;
					if (!l.s.empty() && r.chance(40)) {
						char &e = r.chance(60) ? l.s.back() : l.s[r.below(l.s.size())];
						switch (r.below(4)) {
						case 0: if (isalpha((unsigned char)e)) e = (char)(e ^ 32); break;
						case 1: l.s.pop_back(); break;
						case 2: l.s += r.chance(50) ? " " : "a"; break;
						default: if (isalnum((unsigned char)e)) e = e == 'b' ? 'a' : 'b';
						}
					}
					// half a character is no text
					for (char x : l.s) if ((unsigned char)x > 127) return lit(ty, len + 3, false, nul);
					return l;
				}
			}
			if (!bad && ci >= 0 && !t.rows.empty() && (ty == DATE || ty == DATETIME) && r.chance(35)) {
				const Val &v = r.pick(t.rows)[ci];
				if (!v.null) {
					time_t at = (time_t)(v.i - tz_offset + (r.chance(30) ? r.range(-1, 1) * (ty == DATE ? 86400 : 1) : 0));
					struct tm tm;
					char b[64];
					if (gmtime_r(&at, &tm) && tm.tm_year + 1900 >= 1000 && tm.tm_year + 1900 <= 9999) {
						Lit l;
						l.k = Lit::STR;
						strftime(b, sizeof(b), ty == DATE ? "%Y-%m-%d" : "%Y-%m-%d %H:%M:%S", &tm);
						l.s = b;
						return l;
					}
				}
			}
			return lit(ty, len + 3, bad && r.chance(60), nul);
		};
		int k = (int)r.below(100);
		if (k < 12) {
			p.k = r.chance(50) ? Pred::ISNULL : Pred::NOTNULL;
			if (bad && r.chance(30)) p.a.lit = a_lit(false);
			else p.a = fld(t, n);
		} else if (k < 34) {
			p.k = r.chance(55) ? Pred::IN : Pred::NOTIN;
			if (bad && r.chance(30)) p.a.lit = a_lit(false);
			else p.a = fld(t, n);
			int cnt = r.chance(5) ? (int)r.range(5, r.chance(25) ? 300 : 70) : (int)r.range(1, 4), far = -1;
			if (cnt > 4 && (ty == INTEGER || ty == VARCHAR) && r.chance(60)) far = (int)r.below((uint64_t)cnt);	// nothing there is like most of them
			for (int i = 0; i < cnt; i++) {
				if (i < far && r.chance(97)) {
					Lit l;
					l.k = ty == INTEGER ? Lit::INT : Lit::STR;
					l.i = 1000000 + (int64_t)r.below(1000000);
					if (ty == VARCHAR) l.s = "far " + std::to_string(r.below(100000));
					p.vals.push_back(l);
				} else p.vals.push_back(a_lit(r.chance(far < 0 ? 7 : 2)));
			}
		} else {
			p.k = Pred::CMP;
			bool eqonly = ty == VARCHAR || ty == TINYINT;
			p.op = eqonly && !(bad && ty == VARCHAR) ? (r.chance(60) ? OP_EQ : OP_NE) : (int)r.range(1, 6);
			if (k < 50) {
				std::vector<Opd> same;
				for (auto *x : tabs)
					for (auto &cd : x->cols)
						if (cd.ty == ty || bad) same.push_back(fld(*x, cd.name));
				p.a = fld(t, n);
				if (same.empty()) p.b = p.a;
				else p.b = r.pick(same);
				if (bad && p.op != OP_EQ) p.op = OP_NE;
			} else if (k < 53) {
				// values only
				int vt = (int)r.below(5);
				static const int of[] = {INTEGER, DOUBLE, TINYINT, VARCHAR, INTEGER};
				bool nul = vt == 4;
				p.a.lit = lit(of[vt], 6, false, nul);
				p.b.lit = r.chance(30) ? p.a.lit : lit(of[vt], 6, false, nul);
				p.op = vt < 2 || (bad && vt > 2 && r.chance(50)) ? (int)r.range(1, 6) : r.chance(60) ? OP_EQ : OP_NE;
				if (bad && !nul && r.chance(60)) p.b.lit = lit(of[r.below(4)], 6, false, false);
				if (p.a.lit.k == Lit::BOOL && p.op != OP_EQ) p.op = OP_NE;
			} else {
				Opd f = fld(t, n), l;
				bool nul = r.chance(4);
				if (nul && !bad) p.op = r.chance(50) ? OP_EQ : OP_NE;
				l.lit = a_lit(nul);
				if (l.lit.k == Lit::BOOL && p.op != OP_EQ) p.op = OP_NE;
				if (r.chance(70)) { p.a = f; p.b = l; }
				else { p.a = l; p.b = f; }
			}
		}
		return p;
	}
	Pred pred(const std::vector<const Tab*> &tabs, bool qual, int depth, bool wrong)
	{
		if (depth <= 0 || r.chance(40)) return leaf(tabs, qual, wrong);
		Pred p;
		p.k = r.chance(45) ? Pred::AND : r.chance(70) ? Pred::OR : Pred::XOR;
		p.kids.push_back(pred(tabs, qual, depth - 1, wrong));
		p.kids.push_back(pred(tabs, qual, depth - 1, wrong));
		return p;
	}

	// ---- statements
	Stmt create(int s, bool wrong)
	{
		Stmt st;
		st.k = Stmt::CREATE;
		for (int i = 0; i < 4; i++) {
			st.table = tab_name();
			if (!dbs[s].tabs.count(st.table) || wrong) break;
		}
		if (wrong && !dbs[s].tabs.empty() && r.chance(50)) st.table = any_tab(s, false);
		st.ine = r.chance(25);
		int n = (int)r.range(c.mincols, c.maxcols);
		if (r.chance(50)) n = (int)r.range(c.mincols, std::min(c.maxcols, 4) < c.mincols ? c.mincols : std::min(c.maxcols, 4));
		std::set<std::string> seen;
		for (int i = 0; i < n; i++) {
			ColDef d = coldef(i + 1);
			if (!seen.insert(d.name).second && !(wrong && r.chance(50))) { d.name = "g" + std::to_string(i + 1); seen.insert(d.name); }
			st.cols.push_back(d);
		}
		for (int k = 0; k < 2; k++) {
			if (!r.chance(10)) continue;
			std::vector<std::string> v;
			int m = (int)r.range(1, 2);
			for (int i = 0; i < m; i++) v.push_back(wrong && r.chance(30) ? "nofield" : st.cols[r.below(st.cols.size())].name);
			st.keys.push_back({k, v});
		}
		return st;
	}
	Stmt insert(int s, bool wrong)
	{
		Stmt st;
		st.k = Stmt::INSERT;
		st.table = any_tab(s, wrong && r.chance(15));
		auto it = dbs[s].tabs.find(st.table);
		if (it == dbs[s].tabs.end()) { st.rows = {{lit(INTEGER, 0, false, false)}}; return st; }
		const Tab &t = it->second;
		std::vector<int> map;
		for (size_t i = 0; i < t.cols.size(); i++) map.push_back((int)i);
		if (r.chance(35)) {
			for (size_t i = map.size(); i > 1; i--) std::swap(map[i - 1], map[r.below(i)]);
			if (r.chance(60)) {
				std::vector<int> keep;
				for (int m : map)
					if (r.chance(60) || (t.cols[m].notnull && !(wrong && r.chance(30)))) keep.push_back(m);
				if (!keep.empty()) map = keep;
			}
			for (int m : map) st.incols.push_back(t.cols[m].name);
			if (wrong && r.chance(15)) st.incols[r.below(st.incols.size())] = "nofield";
			if (wrong && r.chance(10)) { st.incols.push_back(st.incols[0]); map.push_back(map[0]); }
		}
		int n = (int)r.range(1, r.chance(60) ? 1 : c.maxrows_ins);
		if (c.bulk && r.chance(30)) n = (int)r.range(2, c.bulk);
		for (int k = 0; k < n; k++) {
			std::vector<Lit> row;
			for (int m : map) {
				const ColDef &d = t.cols[m];
				bool bad = wrong && r.chance(40 / n + 5);
				bool nul = r.chance(c.null_pct) && (!d.notnull || (wrong && r.chance(50)));
				if (!nul && bad && d.ty != INTEGER && d.ty != DOUBLE && r.chance(15)) {	// numbers for something else
					Lit l;
					l.k = Lit::EXPR;
					l.e = std::make_shared<Expr>(expr(r.chance(50) ? INTEGER : DOUBLE, 2, false));
					row.push_back(l);
				} else if (!nul && (d.ty == INTEGER || d.ty == DOUBLE) && r.chance(12)) {
					Lit l;
					l.k = Lit::EXPR;
					l.e = std::make_shared<Expr>(expr(d.ty, (int)r.range(1, 3), bad));
					if (l.e->op == 'i' || l.e->op == 'd' || l.e->op == '0' || l.e->op == 'b' || l.e->op == 's') { Expr p; p.op = 'p'; p.kids.push_back(*l.e); *l.e = p; }
					row.push_back(l);
				} else {
					row.push_back(lit(d.ty, d.len, bad, nul));
				}
			}
			if (wrong && r.chance(8)) { if (r.chance(50)) row.push_back(lit(INTEGER, 0, false, false)); else if (row.size() > 1) row.pop_back(); }
			st.rows.push_back(row);
		}
		return st;
	}
	std::shared_ptr<Pred> where(const Tab &t, bool wrong)
	{
		if (!r.chance(c.where_pct) || t.cols.empty()) return nullptr;
		if (!wrong && r.chance(2)) {	// many terms, one after the other
			auto p = std::make_shared<Pred>(leaf({&t}, false, false));
			int n = (int)r.range(5, r.chance(80) ? 30 : 120), same = r.chance(50) ? (int)r.below(3) : -1;
			for (int i = 0; i < n; i++) {
				Pred q;
				int k = same >= 0 ? same : (int)r.below(3);
				q.k = k == 0 ? Pred::AND : k == 1 ? Pred::OR : Pred::XOR;
				q.kids = {*p, leaf({&t}, false, false)};
				*p = q;
			}
			return p;
		}
		return std::make_shared<Pred>(pred({&t}, false, (int)r.below(c.depth + 1), wrong));
	}
	Stmt del(int s, bool wrong)
	{
		Stmt st;
		st.k = Stmt::DELETE;
		st.table = any_tab(s, wrong && r.chance(20));
		auto it = dbs[s].tabs.find(st.table);
		if (it != dbs[s].tabs.end()) {
			st.where = where(it->second, wrong);
			if (!st.where && r.chance(70) && !it->second.cols.empty()) st.where = std::make_shared<Pred>(leaf({&it->second}, false, wrong));
		}
		return st;
	}
	Stmt upd(int s, bool wrong)
	{
		Stmt st;
		st.k = Stmt::UPDATE;
		st.table = any_tab(s, wrong && r.chance(15));
		auto it = dbs[s].tabs.find(st.table);
		if (it == dbs[s].tabs.end() || it->second.cols.empty()) { st.sets = {{"f1", lit(INTEGER, 0, false, false)}}; return st; }
		const Tab &t = it->second;
		int n = (int)r.range(1, std::min<int>(r.chance(6) ? 40 : 3, (int)t.cols.size()));
		std::set<std::string> seen;
		bool again = r.chance(5);	// the last one of several for the same column counts
		for (int i = 0; i < n + again; i++) {
			const ColDef &d = t.cols[r.below(t.cols.size())];
			if (!seen.insert(d.name).second && !again) continue;
			bool bad = wrong && r.chance(30);
			bool nul = r.chance(c.null_pct) && (!d.notnull || (wrong && r.chance(50)));
			st.sets.push_back({bad && r.chance(15) ? "nofield" : d.name, lit(d.ty, d.len, bad, nul)});
		}
		st.where = where(t, wrong && r.chance(40));
		return st;
	}
	Stmt sel(int s, bool wrong)
	{
		Stmt st;
		st.k = Stmt::SELECT;
		std::vector<std::string> names;
		for (auto &t : dbs[s].tabs) if (!t.second.cols.empty()) names.push_back(t.first);
		if (names.empty() || (wrong && r.chance(12))) {
			st.star = true;
			st.from = {any_tab(s, true)};
			return st;
		}
		size_t nt = 1;
		if (names.size() > 1 && r.chance(c.join_pct)) nt = r.range(2, r.chance(30) ? r.chance(15) ? 5 : 3 : 2);
		nt = std::min(nt, names.size());
		for (size_t i = 0; i < nt; i++) {
			size_t k = r.below(names.size());
			st.from.push_back(names[k]);
			names.erase(names.begin() + (long)k);
		}
		// the product must stay affordable
		while (st.from.size() > 1) {
			uint64_t p = 1;
			size_t cols = 0;
			for (auto &n : st.from) { p *= dbs[s].tabs[n].rows.size() + 1; cols += dbs[s].tabs[n].cols.size(); }
			if (p <= 3000 && cols <= 100) break;
			st.from.pop_back();
		}
		std::vector<const Tab*> tabs;
		for (auto &n : st.from) tabs.push_back(&dbs[s].tabs[n]);
		int how = (int)r.below(100);	// joins, commas, or some of each
		size_t chain = 0;		// where the current chain of joins begins
		for (size_t i = 1; i < tabs.size(); i++) {
			bool join = how < 55 || (how >= 80 && r.chance(50));
			if (!join) chain = i;
			std::vector<const Tab*> sofar(tabs.begin() + (long)chain, tabs.begin() + (long)i + 1);
			st.on.push_back(join ? std::make_shared<Pred>(join_cond(sofar, wrong)) : nullptr);
		}
		if (r.chance(c.where_pct)) st.where = std::make_shared<Pred>(pred(tabs, true, (int)r.below(c.depth + 1), wrong));
		auto ref = [&](const Tab &t, const std::string &n) {
			FieldRef f;
			f.col = n;
			int cnt = 0;
			for (auto *y : tabs) cnt += y->col(n) >= 0;
			if (cnt > 1 || r.chance(30)) f.tab = t.name;
			return f;
		};
		if (r.chance(c.group_pct)) {
			int n = (int)r.range(1, r.chance(60) ? 1 : 3);
			std::set<std::string> seen;
			for (int i = 0; i < n; i++) {
				const Tab &t = *tabs[r.below(tabs.size())];
				std::string f = field_of(t, false);
				if (!seen.insert(t.name + "." + f).second) continue;
				FieldRef g = ref(t, f);
				st.group.push_back(g);
				SelItem it;
				it.f = g;	// the engine wants both to be written the same way
				st.items.push_back(it);
			}
			// some of the groups' fields, in any order, now and then one that isn't among them
			if (r.chance(25)) for (size_t i = st.items.size(); i > 1; i--) std::swap(st.items[i - 1], st.items[r.below(i)]);
			bool dropped = r.chance(25);
			if (dropped) st.items.erase(st.items.begin() + (long)r.below(st.items.size()));
			if (wrong && r.chance(30)) {
				const Tab &t = *tabs[r.below(tabs.size())];
				SelItem it;
				it.f = ref(t, field_of(t, false));
				st.items.push_back(it);
			}
			if (wrong && r.chance(10)) st.items.push_back(st.items.empty() ? SelItem() : st.items[0]);
			if (st.items.empty() || r.chance(75)) counts(st, tabs, ref, false);
		} else if (r.chance(c.count_pct)) {
			counts(st, tabs, ref, wrong);
		} else if (r.chance(45)) {
			st.star = true;
		} else {
			int n = (int)r.range(1, 4);
			std::set<std::string> seen;
			for (int i = 0; i < n; i++) {
				const Tab &t = *tabs[r.below(tabs.size())];
				std::string f = field_of(t, wrong && r.chance(15));
				if (!seen.insert(t.name + "." + f).second) continue;
				SelItem it;
				it.f = ref(t, f);
				st.items.push_back(it);
			}
		}
		if (!no_alias && r.chance(c.alias_pct)) aliases(st, wrong);
		return st;
	}
	template <class F> void counts(Stmt &st, const std::vector<const Tab*> &tabs, F &&ref, bool wrong)
	{
		int n = r.chance(70) ? 1 : (int)r.range(2, 4);
		bool all = false;
		std::set<std::string> seen;
		for (int i = 0; i < n; i++) {
			SelItem it;
			it.k = SelItem::COUNTALL;
			if (r.chance(35) || all) {
				const Tab &t = *tabs[r.below(tabs.size())];
				std::string f = field_of(t, wrong && r.chance(20));
				if (!seen.insert(t.name + "." + f).second && r.chance(90)) continue;
				it.k = SelItem::COUNTFIELD;
				it.f = ref(t, f);
			} else all = true;
			st.items.insert(st.items.begin() + (long)r.below(st.items.size() + 1), it);
		}
	}
	// gives some tables another name
	void aliases(Stmt &st, bool wrong)
	{
		static const std::vector<std::string> names = {"x", "y", "zz", "t1", "A", "B", "C", "f1", "f2", "Abc_9"};
		std::map<std::string, std::string> to;
		for (auto &n : st.from) {
			std::string a;
			if (r.chance(70)) {
				a = r.pick(names);
				for (auto &o : st.alias) if (o == a && !(wrong && r.chance(30))) a = "";
				for (auto &o : st.from) if (o == a && o != n && !r.chance(20)) a = "";
			}
			st.alias.push_back(a);
			if (!a.empty()) to[n] = a;
		}
		auto ren = [&](std::string &t) { auto it = to.find(t); if (it != to.end() && !(wrong && r.chance(8))) t = it->second; };
		auto rp = [&](auto &&self, Pred &p) -> void {
			if (p.a.field) ren(p.a.tab);
			if (p.b.field) ren(p.b.tab);
			for (auto &k : p.kids) self(self, k);
		};
		for (auto &x : st.items) ren(x.f.tab);
		for (auto &x : st.group) ren(x.tab);
		if (st.where) rp(rp, *st.where);
		for (auto &x : st.on) if (x) rp(rp, *x);
	}
	Pred join_cond(const std::vector<const Tab*> &tabs, bool wrong)
	{
		// mostly equality between the new table and one of the previous ones
		const Tab &n = *tabs.back(), &o = *tabs[r.below(tabs.size() - 1)];
		for (int i = 0; i < 8 && r.chance(90); i++) {
			const ColDef &x = n.cols[r.below(n.cols.size())], &y = o.cols[r.below(o.cols.size())];
			if (x.ty != y.ty) continue;
			Pred p;
			p.k = Pred::CMP;
			p.a.field = p.b.field = true;
			p.a.tab = o.name; p.a.col = y.name;
			p.b.tab = n.name; p.b.col = x.name;
			if (r.chance(30)) std::swap(p.a, p.b);
			if (x.ty != VARCHAR && x.ty != TINYINT && r.chance(20)) p.op = (int)r.range(1, 6);
			if (r.chance(20)) {
				Pred q;
				q.k = r.chance(60) ? Pred::AND : Pred::OR;
				q.kids = {p, cmp_leaf(tabs, wrong)};
				return q;
			}
			return p;
		}
		return cmp_leaf(tabs, wrong);
	}
	// ON accepts comparisons only
	Pred cmp_leaf(const std::vector<const Tab*> &tabs, bool wrong)
	{
		for (;;) {
			Pred p = leaf(tabs, true, wrong);
			if (p.k == Pred::CMP) return p;
		}
	}

	// a name no buffer for names has room for
	std::string longname(bool refused)
	{
		static const std::vector<int> maybe = {100, 126, 127, 128, 129, 130, 150, 200, 254, 255, 256, 257, 300, 500, 1000, 5000};
		static const std::vector<int> never = {128, 129, 130, 144, 160, 200, 254, 255, 256, 257, 300, 513, 1025, 5000};
		size_t n = (size_t)r.pick(refused ? never : maybe);
		std::string x(1, (char)('a' + r.below(26)));
		while (x.size() < n) x += (char)(r.chance(80) ? 'a' + x.size() % 26 : '0' + x.size() % 10);
		return x;
	}
	// a sound statement with one of its names, or several, replaced by one nothing can have
	std::string toolong(int s)
	{
		no_alias = true;
		std::string q = any_stmt(s, false).sql(0);
		no_alias = false;
		std::set<std::string> known;
		for (auto &t : dbs[s].tabs) { known.insert(t.first); for (auto &c : t.second.cols) known.insert(c.name); }
		std::vector<std::pair<size_t, size_t>> at;
		char quote = 0;
		for (size_t i = 0; i < q.size();) {
			if (quote) { if (q[i] == '\\') i++; else if (q[i] == quote) quote = 0; i++; continue; }
			if (q[i] == '\'' || q[i] == '"' || q[i] == '`') { quote = q[i++]; continue; }
			if (!isalpha((unsigned char)q[i])) { i++; continue; }
			size_t j = i;
			while (j < q.size() && (isalnum((unsigned char)q[j]) || q[j] == '_')) j++;
			if (known.count(q.substr(i, j - i)) && (i == 0 || !isdigit((unsigned char)q[i - 1]))) at.push_back({i, j - i});
			i = j;
		}
		if (at.empty()) return "SELECT " + longname(true) + " FROM nope;";
		size_t k = r.below(at.size());
		bool all = r.chance(25);
		std::string name = longname(true), old = q.substr(at[k].first, at[k].second);
		if (old.size() == 127 && r.chance(80)) name = old + name.substr(0, (size_t)r.range(1, 100));
		else if (r.chance(50)) {	// a character no name can have
			static const std::string first = "_19", odd = " -+@[]{}()$%&=<>!?,;:'\"\\#*|~^/.\t\x01\x7f\xc3";
			name = old;
			if (r.chance(20)) name.insert(name.begin(), first[r.below(first.size())]);
			else {
				size_t p = r.chance(50) ? name.size() : r.chance(30) ? 0 : r.below(name.size() + 1);
				do name.insert(name.begin() + (long)p, odd[r.below(odd.size())]); while (r.chance(30));
				if (p == old.size() && r.chance(30)) name += longname(false).substr(0, 5);
			}
			name = "`" + name + "`";
		}
		for (size_t i = at.size(); i-- > 0;)
			if (i == k || (all && q.substr(at[i].first, at[i].second) == old)) q.replace(at[i].first, at[i].second, name);
		return q;
	}
	// statements nobody should ever write
	std::string hostile(int s)
	{
		if (c.prop == "P16" && r.chance(15)) return toolong(s);
		if (r.chance(6)) {	// one too many
			std::string q = any_stmt(s, false).sql(0);
			return q + (r.chance(50) ? " " : "") + any_stmt(s, false).sql(0);
		}
		static const std::vector<std::string> fixed = {"", ";", " ", "\n", "SELEC * FROM A;", "SELECT * FROM A", "SELECT FROM A;", "INSERT INTO A VALUES (1;",
			"INSERT INTO A VALUES 1);", "CREATE TABLE;", "CREATE TABLE A ();", "CREATE TABLE A (f1);", "UPDATE A f1 = 1;", "UPDATE A SET f1 < 1;",
			"DELETE A WHERE f1 = 1;", "DELETE FROM A WHERE;", "SELECT * FROM A WHERE f1 = 'unterminated;", "SELECT * FROM A /* unclosed ;",
			"SELECT * FROM `A;", "\x01\x02\x03", "\xff\xfe;", "SELECT * FROM A WHERE f1 = 99999999999999999999;", "CREATE TABLE Z (f1 VARCHAR(0));",
			"CREATE TABLE Z (f1 VARCHAR(10000));", "CREATE TABLE Z (f1 VARCHAR(-1));", "CREATE TABLE Z (f1 VARCHAR(99999999999));", "INSERT INTO A SELECT * FROM A;",
			"SELECT 1", "SELECT * FROM A WHERE f1 = 1e999;", "-- nothing", "# nothing", "/* nothing */", "'", "\"", "`", "((((((((", "))))", ";;;;",
			"INSERT INTO A (f1, f1) VALUES (1, 2);", "INSERT INTO A () VALUES ();", "DROP TABLE A;", "ALTER TABLE A ADD x INT;", "CREATE TABLE 1A (f1 INT);",
			"CREATE TABLE _A (f1 INT);", "SELECT * FROM A WHERE f1 LIKE 'x' BETWEEN 1 AND 2;", "SELECT * FROM A WHERE f1 = $1;", "UPDATE A SET f1 = f1 + 1;",
			"CREATE TABLE x.y (f1 INT);", "INSERT INTO A VALUES (f1);", "INSERT INTO A VALUES (COUNT(*));"};
		int k = (int)r.below(10);
		if (k < 4) return r.pick(fixed);
		if (k == 4) { // deep nesting
			int n = (int)r.pick(std::vector<int>{50, 500, 3000, 12000});
			return "SELECT * FROM A WHERE " + std::string(n, '(') + "f1 = 1" + std::string(n + (r.chance(50) ? 1 : -1), ')') + ";";
		}
		if (k == 5) return "SELECT * FROM " + std::string((size_t)r.pick(std::vector<int>{128, 129, 200, 255, 256, 257, 1000, 20000}), 'x') + ";";
		if (k == 6) { // cut a sound statement short
			bool no;
			std::string q = c.prop == "P16" && r.chance(30) ? odd_select(s, no) : any_stmt(s, false).sql(0);
			if (q.size() > 2) q.resize(1 + r.below(q.size() - 1));
			while (!q.empty() && (q.back() == ';' || q.back() == ' ')) q.pop_back();
			return q;
		}
		if (k == 7) { // a character that means nothing
			std::string q = any_stmt(s, false).sql(0);
			static const std::string junk = "$@\\?\x02\x7f\x80]{";
			// outside of strings and names: in front of the statement
			return junk[r.below(junk.size())] + q;
		}
		if (k == 8) { // words in the wrong order
			static const std::vector<std::string> tok = {"SELECT", "*", "FROM", "A", "B", "WHERE", "f1", "=", "1", "'x'", "AND", "OR", "(", ")", ",", "IN", "NOT",
				"NULL", "IS", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE", "CREATE", "TABLE", "INT", "VARCHAR", "GROUP", "BY", "COUNT(*)", "JOIN", "ON", "A.f1", "2.5", "TRUE"};
			std::string q = r.chance(50) ? "" : "VALUES";	// no statement starts like that
			q = "VALUES";
			int n = (int)r.range(1, 25);
			for (int i = 0; i < n; i++) q += " " + r.pick(tok);
			return q + ";";
		}
		// statements on tables or columns that aren't there
		static const std::vector<std::string> sem = {"SELECT nope FROM ", "DELETE FROM nope_", "UPDATE nope_ SET f1 = 1;", "INSERT INTO nope_ VALUES (1);"};
		std::string q = r.pick(sem);
		if (q.back() == ' ') q += any_tab(s, false);
		if (q.back() != ';') q += ";";
		return q;
	}
	// a SELECT with some of its words missing, doubled or swapped
	void mutate(Stmt &st)
	{
		if (st.raw.compare(0, 7, "SELECT ")) return;
		std::vector<std::string> w;
		const std::string &q = st.raw;
		for (size_t i = 0; i < q.size();) {
			size_t j = i + 1;
			if (q[i] == '\'' || q[i] == '`') { while (j < q.size() && q[j] != q[i]) j++; j++; }
			else if (isalnum((unsigned char)q[i]) || q[i] == '_') while (j < q.size() && (isalnum((unsigned char)q[j]) || q[j] == '_')) j++;
			if (q[i] != ' ') w.push_back(q.substr(i, j - i));
			i = j;
		}
		int n = (int)r.range(1, 3);
		for (int i = 0; i < n && w.size() > 3; i++) {
			size_t a = 1 + r.below(w.size() - 2), b = 1 + r.below(w.size() - 2);
			switch (r.below(4)) {
			case 0: w.erase(w.begin() + (long)a); break;
			case 1: w.insert(w.begin() + (long)a, w[b]); break;
			case 2: std::swap(w[a], w[b]); break;
			default: w.insert(w.begin() + (long)a, r.pick(std::vector<std::string>{"AS", "JOIN", "ON", ",", "(", ")", "GROUP", "BY", "ORDER", "HAVING", "LIMIT", "COUNT", "NOT", "x", ".", "*", "LIKE", "NULL", "WHERE", "FROM", "DISTINCT"}));
			}
		}
		st.raw = "";
		for (auto &x : w) st.raw += (st.raw.empty() || x == "." ? "" : st.raw.back() == '.' ? "" : " ") + x;
		st.ine = true;
	}
	// syntactically plausible SELECT and conditions which may or may not be supported: they mustn't change or kill anything
	// unknown: set if it names something that's nowhere, so it must be refused
	std::string odd_select(int s, bool &unknown)
	{
		std::string t = any_tab(s, false), t2 = any_tab(s, false);
		std::string f = "f1", g = "f2", f2 = "f1";
		auto it2 = dbs[s].tabs.find(t2);
		if (it2 != dbs[s].tabs.end() && !it2->second.cols.empty()) f2 = field_of(it2->second, false);
		static const std::vector<std::string> talias = {"x", "x", "x", "A", "f1", "al0", "_x", "`1x`", "B"};
		std::string ta = r.chance(25) ? r.pick(talias) : "", ta2 = r.chance(15) ? r.chance(30) ? "x" : "y" : "";
		if (!ta.empty() && r.chance(8)) ta = longname(false);
		int odd = (int)r.pick(std::vector<int>{0, 0, 1, 3, 8, 20});	// how much the names are odd
		bool plant = r.chance(12);
		unknown = false;
		auto it = dbs[s].tabs.find(t);
		if (it != dbs[s].tabs.end() && !it->second.cols.empty()) { f = field_of(it->second, false); g = field_of(it->second, false); }
		auto e = [&](auto &&self, int d) -> std::string {
			if (d <= 0) {
				if (plant && r.chance(40)) {
					static const std::vector<std::string> no = {"nosuch", "nosuch.f1", "nosuch.nosuch", "NULLS"};
					plant = false;
					unknown = true;
					return r.chance(30) ? t + ".nosuch" : r.pick(no);
				}
				if (r.chance(odd)) return (ta.empty() ? "x" : ta) + "." + (r.chance(80) ? f : g);
				if (r.chance(odd)) return t2 + "." + f2;
				if (r.chance(odd)) return f2;
				if (r.chance(odd)) { static const std::vector<std::string> al = {"al0", "al0", "al1", "al2", "x", "y.f1", "COUNT(*)"}; return r.pick(al); }
				if (r.chance(odd)) return "COUNT(" + (r.chance(50) ? f : t + "." + f) + ")";
				if (r.chance(3)) return longname(false);
				if (r.chance(2)) return t + "." + longname(false);
				if (r.chance(2)) return "'" + std::string((size_t)r.pick(std::vector<int>{255, 256, 1023, 1024, 4000, 70000}), 'y') + "'";
				if (r.chance(2)) return std::string((size_t)r.pick(std::vector<int>{20, 60, 130, 300, 3000}), '0') + "1";
				if (r.chance(2)) return "1" + std::string((size_t)r.pick(std::vector<int>{17, 20, 60, 300, 3000}), '7') + (r.chance(50) ? ".5" : "");
				static const std::vector<std::string> leafs = {"1", "2.5", "'x'", "NULL", "TRUE", "CURRENT_DATE", "CURRENT_TIMESTAMP", "COUNT(*)", "''", "-1", "'2023-01-01'"};
				int k = (int)r.below(10);
				if (k < 4) return f;
				if (k < 6) return t + "." + g;
				return r.pick(leafs);
			}
			static const std::vector<std::string> bin = {" + ", " - ", " * ", " / ", " % ", " = ", " < ", " <> ", " AND ", " OR ", " XOR ", " LIKE ", " MOD ", " NOT LIKE ", " && ",
				" || ", " != ", " DIV ", " & ", " | ", " << ", " REGEXP ", " <=> "};
			switch (r.below(11)) {
			case 9: return (r.chance(70) ? "NOT " : "! ") + self(self, d - 1);
			case 10: return r.chance(50) ? self(self, d - 1) + " NOT IN (" + self(self, r.chance(50) ? d - 1 : 0) + ")" : self(self, 0) + " BETWEEN " + self(self, 0) + " AND " + self(self, 0);
			case 0: return "(" + self(self, d - 1) + ")";
			case 1: return self(self, d - 1) + " IN (" + self(self, d - (int)r.range(1, 2)) + ", " + self(self, 0) + ")";
			case 2: return self(self, d - 1) + (r.chance(50) ? " IS NULL" : " IS NOT NULL");
			case 3: return "- " + self(self, d - 1);
			case 4: if (r.chance(30)) return "CASE WHEN " + self(self, d - 1) + " THEN " + self(self, 0) + " ELSE " + self(self, 0) + " END"; /* fallthrough */
			default: return self(self, d - 1) + r.pick(bin) + self(self, d - 1);
			}
		};
		std::string q;
		if (r.chance(75)) {
			q = "SELECT ";
			if (r.chance(10)) q += "DISTINCT ";
			if (r.chance(40)) q += "*";
			else {
				int n = (int)r.range(1, 3);
				int al = (int)r.pick(std::vector<int>{0, 5, 15, 60});
				for (int i = 0; i < n; i++) {
					static const std::vector<std::string> cn = {"f1", "x", "al0", "_a", "COUNT", "`1`", "A"};
					q += (i ? ", " : "") + (r.chance(70) ? f : e(e, (int)r.below(3)));
					if (r.chance(al)) q += (r.chance(80) ? " AS " : " ") + (r.chance(10) ? longname(false) : r.chance(15) ? r.pick(cn) : "al" + std::to_string(i));
				}
			}
			if (!r.chance(6)) {
				q += " FROM " + t;
				if (!ta.empty()) q += (r.chance(80) ? " AS " : " ") + ta;
				if (r.chance(odd)) q += ", " + t2 + (ta2.empty() ? "" : " AS " + ta2);
				if (r.chance(12)) q += std::string(r.chance(50) ? " LEFT JOIN " : r.chance(50) ? " RIGHT OUTER JOIN " : " INNER JOIN ") + any_tab(s, false) + (r.chance(20) ? " AS j" : "") + " ON " + e(e, 2);
				else if (r.chance(20)) q += (r.chance(50) ? " JOIN " : " INNER JOIN ") + t2 + (ta2.empty() ? "" : " AS " + ta2) + " ON " + (r.chance(50) ? e(e, 0) + " = " + e(e, 0) : e(e, 2));
				if (r.chance(60)) q += " WHERE " + e(e, (int)r.below(4));
				if (r.chance(25)) { q += " GROUP BY " + e(e, (int)r.below(2)); if (r.chance(20)) q += ", " + e(e, 0); }
				if (r.chance(15)) q += " HAVING " + e(e, (int)r.below(3));
				if (r.chance(25)) { q += " ORDER BY " + e(e, (int)r.below(2)) + (r.chance(40) ? " DESC" : ""); if (r.chance(20)) q += ", " + e(e, 0); }
				if (r.chance(10)) q += " LIMIT " + e(e, (int)r.below(2));
			}
		} else if (r.chance(50)) {
			// never true, so nothing may change should it be accepted
			q = "DELETE FROM " + t + " WHERE " + "(" + e(e, (int)r.below(3)) + ") AND 1 = 2";
		} else {
			q = "UPDATE " + t + " SET " + f + " = " + e(e, (int)r.below(2)) + " WHERE (" + e(e, (int)r.below(3)) + ") AND 1 = 2";
		}
		return q + ";";
	}

	Stmt any_stmt(int s, bool allow_raw)
	{
		Stmt st;
		bool wrong = r.chance(c.err_pct);
		bool none = dbs[s].tabs.empty();
		std::vector<int> w(c.ws, c.ws + 6);
		if ((int)dbs[s].tabs.size() >= c.maxtabs) w[0] = w[0] > 60 ? w[0] / 4 : 2;
		else if ((int)dbs[s].tabs.size() < std::min(2, c.maxtabs)) w[0] = 60;
		if (none) w = {100, 2, 1, 1, 2, c.ws[5] ? 5 : 0};
		if (!allow_raw) w[5] = 0;
		switch (r.weighted(w)) {
		case 0: st = create(s, wrong); break;
		case 1: st = insert(s, wrong); break;
		case 2: st = del(s, wrong); break;
		case 3: st = upd(s, wrong); break;
		case 4: st = sel(s, wrong); break;
		default:
			st.k = Stmt::RAW;
			if (c.prop == "P16" && r.chance(55)) { bool no; st.raw = odd_select(s, no); st.ine = !no; if (r.chance(15)) mutate(st); }	// ine: may be accepted
			else st.raw = hostile(s);
		}
		if (st.k == Stmt::INSERT) {
			auto it = dbs[s].tabs.find(st.table);
			if (it != dbs[s].tabs.end() && (int)(it->second.rows.size() + st.rows.size()) > c.rowcap) { st = Stmt(); st = del(s, false); }
		}
		if (r.chance(c.style_pct)) st.style = r.next() | 1;
		return st;
	}

	void apply(Op &op)
	{
		Db &db = dbs[op.sess];
		if (op.k == O_SQL) {
			Outcome o = predict(db, op.st);
			if (o.v == Outcome::OK && o.changes) db.tabs[op.st.table] = o.after;
		} else if (op.k == O_ADDCOL || op.k == O_REMCOL) {
			Tab &t = db.tabs[op.tab];
			if (op.k == O_ADDCOL) {
				if (t.cols.size() >= 128 || t.col(op.col.name) >= 0) return;
				t.cols.push_back(op.col);
				for (auto &row : t.rows) { Val v; v.null = false; v.ty = op.col.ty; row.push_back(v); }
			} else {
				int i = t.col(op.col.name);
				if (i < 0) return;
				t.cols.erase(t.cols.begin() + i);
				for (auto &row : t.rows) row.erase(row.begin() + i);
			}
		} else if (op.k == O_ROWINS) db.tabs[op.tab].rows.push_back(op.row);
		else if (op.k == O_ROWDELS) {
			// the layout isn't known here: about as many
			auto &v = db.tabs[op.tab].rows;
			size_t n = v.size(), keep = op.n == 7 ? 0 : op.n == 3 ? (size_t)op.h : op.n == 4 ? n - std::min(n, (size_t)op.h) : op.n >= 5 && op.n != 8 ? n / 2 : n - n / 10;
			v.resize(std::min(n, keep));
		}
		else if (op.k == O_ROWDEL) db.tabs[op.tab].rows.erase(db.tabs[op.tab].rows.begin() + op.n);
		else if (op.k == O_ROWUPD) db.tabs[op.tab].rows[op.n] = op.row;
	}

	void faults(Op &op)
	{
		if (c.fkinds.empty()) return;
		if (r.chance(c.sweep_pct)) {
			op.f.mode = 2;
			op.f.kind = r.pick(c.fkinds);
			op.f.at = 1;
			op.f.stride = 1;
		} else if (r.chance(c.fault_pct)) {
			op.f.mode = 1;
			op.f.kind = r.pick(c.fkinds);
			op.f.span = r.pick(std::vector<uint64_t>{1, 2, 3, 5, 20, 1000});
			uint64_t m = op.f.kind == SF_LOCK || op.f.kind == SF_MINIT ? 2 : op.f.kind == SF_REGCOMP ? r.pick(std::vector<uint64_t>{2, 6, 20}) :
				op.k == O_VACUUM || op.k == O_ADDCOL || op.k == O_OPEN ? r.pick(std::vector<uint64_t>{2, 8, 30}) :
				r.pick(std::vector<uint64_t>{6, 20, 60, 120, 250});
			op.f.at = 1 + r.below(m);
		}
	}

	Row full_row(const Tab &t)
	{
		Row row;
		for (auto &d : t.cols) {
			Val v;
			v.ty = d.ty;
			v.null = !d.notnull && r.chance(c.null_pct);
			if (!v.null) {
				Lit l = lit(d.ty, d.len, false, false);
				v.i = l.i; v.d = l.d; v.s = l.s;
				if (d.ty == DATE || d.ty == DATETIME) { v.s = ""; v.i = (int64_t)r.below(1u << 31); }
			}
			row.push_back(v);
		}
		return row;
	}

	std::vector<Op> run()
	{
		std::vector<Op> ops;
		auto add = [&](Op op) { apply(op); ops.push_back(op); };
		for (int s = 0; s < c.nsess; s++) {
			Op op;
			op.k = O_OPEN;
			op.sess = s;
			if (!c.fkinds.empty() && r.chance(c.fault_pct)) { op.f.mode = 1; op.f.kind = r.pick(c.fkinds); op.f.at = 1 + r.below(4); op.f.span = 1 + r.below(4); }
			dbs[s].open = true;
			ops.push_back(op);
		}
		std::vector<int> w(c.w, c.w + O_KINDS);
		int guard = 0;
		while ((int)ops.size() < c.nops && guard++ < c.nops * 20) {
			Op op;
			op.k = (int)r.weighted(w);
			op.sess = (int)r.below(c.nsess);
			Db &db = dbs[op.sess];
			if (op.k == O_OPEN) { if (db.open) continue; db = Db(); db.open = true; faults(op); if (op.f.mode == 2) op.f.mode = 0; ops.push_back(op); continue; }
			if (op.k == O_STEP || op.k == O_FREE) {
				op.h = (int)r.below(held.size());
				if (!held[op.h].used) continue;
				op.sess = held[op.h].sess;
				op.n = (int)r.pick(std::vector<int>{1, 1, 2, 7, 100, 2000});
				if (op.k == O_FREE) held[op.h].used = false;
				ops.push_back(op);
				continue;
			}
			if (!db.open) continue;
			std::string t;
			Tab *tab = nullptr;
			if (op.k != O_SQL && op.k != O_CLOSE) {
				if (db.tabs.empty()) continue;
				t = any_tab(op.sess, false);
				tab = &db.tabs[t];
				op.tab = t;
			}
			switch (op.k) {
			case O_CLOSE: db = Db(); ops.push_back(op); continue;
			case O_SQL: op.st = any_stmt(op.sess, true); faults(op); break;
			case O_VACUUM: faults(op); break;
			case O_ADDCOL:
				op.col = coldef((int)r.below(140));
				op.col.pk = op.col.uniq = op.col.autoinc = false;
				op.col.notnull = r.chance(20);
				if (c.prop == "P02" && r.chance(35)) { op.col.ty = VARCHAR; op.col.len = (int)r.range(1, 20); }
				if (tab->cols.size() >= 128) op.col.name = "g" + std::to_string(r.below(1000));
				if (tab->col(op.col.name) >= 0 && r.chance(75)) continue;
				faults(op);
				break;
			case O_REMCOL:
				if (tab->cols.size() < 2) continue;
				op.col = r.pick(tab->cols);
				if (r.chance(4)) op.col.name = field_of(*tab, true);
				op.n = (int)r.below(2);
				faults(op);
				break;
			case O_HOLD: {
				op.h = (int)r.below(held.size());
				if (held[op.h].used) continue;
				op.st = sel(op.sess, false);
				held[op.h].used = true;
				held[op.h].sess = op.sess;
				faults(op);
				break;
			}
			case O_ROWINS:
				if (tab->cols.empty() || (int)tab->rows.size() >= c.rowcap) continue;
				op.row = full_row(*tab);
				faults(op);
				break;
			case O_ROWDELS:
				if (tab->rows.empty()) continue;
				op.n = (int)r.weighted({10, 10, 20, 20, 10, 10, 10, 2, 15});
				op.h = (int)r.below(tab->rows.size() + 1);
				break;
			case O_ROWDEL: case O_ROWUPD:
				if (tab->rows.empty()) continue;
				op.n = (int)r.below(tab->rows.size());
				if (op.k == O_ROWUPD) op.row = full_row(*tab);
				faults(op);
				break;
			}
			add(op);
		}
		return ops;
	}
};

std::vector<Op> generate(const Cfg &cfg, uint64_t seed)
{
	Gen g(cfg, seed);
	return g.run();
}
