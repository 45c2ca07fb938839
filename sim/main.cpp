// main.cpp - runs seeds, each of them in a process of its own; minimises and replays what it finds
#include "sim.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

static std::string prop;
static int cpu_limit = 20;

static void on_alarm(int)
{
	if (!rep->violation) {
		rep->violation = 1;
		rep->bad_op = rep->running_op;
		strcpy(rep->cls, "no-progress");
		strcpy(rep->msg, "the operation doesn't end");
	}
	_exit(98);
}

#ifdef THREADS
static bool is_thr() { return true; }
#else
static bool is_thr() { return false; }
int thr_count(const std::string &, uint64_t) { return 0; }
bool thr_has_fault(const std::string &, uint64_t, int) { return false; }
void thr_history(const std::string &, uint64_t, const Mask &) {}
volatile uint64_t *sched_n;
thr_switch *sched_out;
#endif
static bool is_ds() { return prop == "P14" || prop == "P15"; }

static void child(uint64_t seed, const Mask &mask, FILE *tr)
{
	trace = tr;
	signal(SIGVTALRM, on_alarm);
	itimerval tv = {{0, 0}, {cpu_limit, 0}};
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	if (is_thr()) {
		thr_history(prop, seed, mask);
	} else if (is_ds()) {
		ds_run(prop, seed, mask);
	} else {
		Cfg cfg = make_cfg(prop, seed);
		run_history(cfg, seed, generate(cfg, seed), mask);
	}
	rep->finished = 1;
	if (tr) fflush(tr);
	_exit(0);
}

// run one seed; true if a violation was found (described in rep)
static bool run_one(uint64_t seed, const Mask &mask, FILE *tr = nullptr)
{
	static int errfd = -1;
	if (errfd < 0) errfd = memfd_create("stderr", 0);
	memset((void*)rep, 0, sizeof(*rep));
	if (sched_n) *sched_n = 0;
	if (ftruncate(errfd, 0)) {}
	lseek(errfd, 0, SEEK_SET);
	if (tr) fflush(tr);
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		dup2(errfd, 2);
		int null = open("/dev/null", O_WRONLY);
		if (!tr || fileno(tr) != 1) dup2(null, 1);
		child(seed, mask, tr);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && rep->finished) return false;
	if (!rep->violation) {
		char buf[65536];
		ssize_t n = pread(errfd, buf, sizeof(buf) - 1, 0);
		buf[n > 0 ? n : 0] = 0;
		rep->violation = 1;
		rep->bad_op = rep->running_op;
		const char *e = strstr(buf, "ERROR: AddressSanitizer: "), *u = strstr(buf, "runtime error: ");
		if (e) {
			e += 25;
			std::string w(e, strcspn(e, " \n"));
			snprintf(rep->cls, sizeof(rep->cls), "memory-error");
			snprintf(rep->msg, sizeof(rep->msg), "memory error in the engine: %s", w.c_str());
		} else if (u) {
			snprintf(rep->cls, sizeof(rep->cls), "memory-error");
			snprintf(rep->msg, sizeof(rep->msg), "undefined behaviour in the engine: %.*s", (int)strcspn(u + 15, "\n"), u + 15);
		} else if (WIFSIGNALED(st)) {
			snprintf(rep->cls, sizeof(rep->cls), "crash");
			snprintf(rep->msg, sizeof(rep->msg), "the process died of signal %d", WTERMSIG(st));
		} else {
			snprintf(rep->cls, sizeof(rep->cls), "process-death");
			snprintf(rep->msg, sizeof(rep->msg), "the process ended with status %d", WEXITSTATUS(st));
		}
		if (tr) { fprintf(tr, "  => VIOLATION %s: %s\n", rep->cls, rep->msg); fflush(tr); }
	}
	return true;
}

static double now()
{
	return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- minimisation
static Mask minimise(uint64_t seed, double budget)
{
	Mask m;
	double end = now() + budget;
	if (!run_one(seed, m)) return m;
	std::string cls = rep->cls;
	int bad = rep->bad_op;
	m.upto = bad;
	if (is_thr() && *sched_n <= SCHED_CAP) {
		// the turns they took, as a plan that can be cut down
		Mask t = m;
		t.planned = true;
		t.sched.assign(sched_out, sched_out + *sched_n);
		if (run_one(seed, t) && cls == rep->cls) m = t;
	}
	auto fails = [&](const Mask &x) { return run_one(seed, x) && cls == rep->cls; };
	if (!fails(m)) m.upto = -1;
	int total;
	std::vector<Op> ops;
	if (is_thr()) total = thr_count(prop, seed);
	else if (is_ds()) total = ds_count(prop, seed);
	else { Cfg c = make_cfg(prop, seed); ops = generate(c, seed); total = (int)ops.size(); }
	if (m.upto >= 0) total = std::min(total, m.upto + 1);
	auto cut_turns = [&](double until) {
		for (int chunk = std::max<int>(1, (int)m.sched.size() / 2); !m.sched.empty(); chunk /= 2) {
			for (int i = (int)m.sched.size(); i > 0 && now() < until; i -= chunk) {
				int a = std::max(0, i - chunk);
				if (a >= (int)m.sched.size()) continue;
				Mask t = m;
				t.sched.erase(t.sched.begin() + a, t.sched.begin() + std::min<int>(i, (int)t.sched.size()));
				if (fails(t)) m = t;
			}
			if (chunk <= 1 || now() > until) break;
		}
	};
	if (m.planned) cut_turns(now() + budget * 0.4);
	// operations, in chunks of decreasing size
	for (int chunk = std::max(1, total / 2);; chunk /= 2) {
		for (int i = total - 1; i >= 0 && now() < end; i -= chunk) {
			Mask t = m;
			int n = 0;
			for (int k = i; k > i - chunk && k >= 0; k--) n += t.dropped.insert(k).second;
			if (n && fails(t)) m = t;
		}
		if (chunk == 1 || now() > end) break;
	}
	for (int i = 0; i < (int)ops.size() && now() < end; i++) {
		if (m.dropped.count(i) || (m.upto >= 0 && i > m.upto)) continue;
		if (ops[i].f.mode) {
			Mask t = m;
			t.nofault.insert(i);
			if (fails(t)) m = t;
		}
		if (ops[i].k == O_SQL && ops[i].st.k == Stmt::INSERT)
			for (size_t k = 0; k < ops[i].st.rows.size() && now() < end; k++) {
				Mask t = m;
				t.subs.insert({i, (int)k});
				if (fails(t)) m = t;
			}
	}
	if (is_thr())
		for (int i = 0; i < total && now() < end; i++) {
			if (m.dropped.count(i) || !thr_has_fault(prop, seed, i)) continue;
			Mask t = m;
			t.nofault.insert(i);
			if (fails(t)) m = t;
		}
	if (m.planned) cut_turns(end);
	for (int i = total - 1; i >= 0 && now() < end; i--) {
		Mask t = m;
		if (t.dropped.insert(i).second && fails(t)) m = t;
	}
	return m;
}

static void save(const std::string &path, uint64_t seed, const Mask &m)
{
	bool v = run_one(seed, m);
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); exit(2); }
	fprintf(f, "property %s\nseed %llu\n", prop.c_str(), (unsigned long long)seed);
	if (m.upto >= 0) fprintf(f, "upto %d\n", m.upto);
	for (int d : m.dropped) if (m.upto < 0 || d <= m.upto) fprintf(f, "drop %d\n", d);
	for (int d : m.nofault) fprintf(f, "nofault %d\n", d);
	for (auto &s : m.subs) fprintf(f, "droprow %d %d\n", s.first, s.second);
	if (m.planned) {
		fprintf(f, "planned\n");
		for (auto &w : m.sched) fprintf(f, "turn %d after %llu points of operation %d goes to %d%s\n", w.thread, (unsigned long long)w.at, w.op, w.target, w.forced ? " forced" : "");
	}
	fprintf(f, "class %s\nhash %016llx\n", v ? rep->cls : "none", (unsigned long long)rep->hash);
	std::string msg = rep->msg;
	std::replace(msg.begin(), msg.end(), '\n', ' ');
	fprintf(f, "message %s\n# --- what happens, step by step ---\n", msg.c_str());
	fflush(f);
	FILE *tf = tmpfile();
	run_one(seed, m, tf);
	rewind(tf);
	char line[4096];
	while (fgets(line, sizeof(line), tf)) fprintf(f, "# %s%s", line, strchr(line, '\n') ? "" : "\n");
	fclose(tf);
	fclose(f);
}

static int replay(const std::string &path, bool quiet)
{
	FILE *f = fopen(path.c_str(), "r");
	if (!f) { perror(path.c_str()); return 2; }
	char line[8192], w[64];
	Mask m;
	unsigned long long seed = 0, hash = 0, at = 0;
	std::string cls;
	int a, b, d;
	while (fgets(line, sizeof(line), f)) {
		if (line[0] == '#') continue;
		if (sscanf(line, "property %63s", w) == 1) prop = w;
		else if (sscanf(line, "seed %llu", &seed) == 1) {}
		else if (sscanf(line, "upto %d", &a) == 1) m.upto = a;
		else if (sscanf(line, "droprow %d %d", &a, &b) == 2) m.subs.insert({a, b});
		else if (sscanf(line, "drop %d", &a) == 1) m.dropped.insert(a);
		else if (sscanf(line, "nofault %d", &a) == 1) m.nofault.insert(a);
		else if (sscanf(line, "turn %d after %llu points of operation %d goes to %d", &a, &at, &b, &d) == 4) {
			thr_switch x = {(uint8_t)a, (uint8_t)d, (uint8_t)(strstr(line, "forced") != nullptr), b, at};
			m.sched.push_back(x);
		} else if (!strncmp(line, "planned", 7)) m.planned = true;
		else if (sscanf(line, "class %63s", w) == 1) cls = w;
		else if (sscanf(line, "hash %llx", &hash) == 1) {}
	}
	fclose(f);
	bool v = run_one(seed, m, quiet ? nullptr : stdout);
	bool same = v && cls == rep->cls && (hash == 0 || hash == rep->hash);
	printf("%s class=%s hash=%016llx %s\n", v ? "REPRODUCED" : "NOT-REPRODUCED", v ? rep->cls : "none", (unsigned long long)rep->hash, same ? "exactly" : "differently");
	if (v) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
	return v ? 1 : 0;
}

static std::string esc(const std::string &s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

int main(int argc, char **argv)
{
	std::string mode = argc > 1 ? argv[1] : "", out, file;
	uint64_t seed = 1, stride = 1, count = 1;
	double limit = 1e9;
	for (int i = 2; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--stride") stride = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--count") count = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--limit") limit = atof(val().c_str());
		else if (a == "--cpu") cpu_limit = atoi(val().c_str());
		else if (a == "--out") out = val();
		else file = a;
	}
	rep = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (is_thr()) {
		sched_n = (volatile uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		sched_out = (thr_switch*)mmap(nullptr, SCHED_CAP * sizeof(thr_switch), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	if (mode == "replay") return replay(file, false);
	if (mode == "trace") return run_one(seed, Mask(), stdout) ? 1 : 0;
	if (mode == "one") {
		bool v = run_one(seed, Mask());
		printf("seed %llu hash %016llx %s %s %s\n", (unsigned long long)seed, (unsigned long long)rep->hash, v ? "VIOLATION" : "ok", v ? rep->cls : "", v ? rep->msg : "");
		return v;
	}
	if (mode == "minimise") {
		Mask m = minimise(seed, limit > 1e8 ? 60 : limit);
		save(out, seed, m);
		return 0;
	}
	if (mode != "worker") { fprintf(stderr, "usage: sim worker|one|trace|minimise|replay ...\n"); return 2; }

	std::unordered_set<uint64_t> shapes, states, hashes;
	Report sum;
	memset((void*)&sum, 0, sizeof(sum));
	uint64_t runs = 0, first_hash = 0, nviol = 0;
	double start = now();
	std::string viol;
	for (uint64_t k = 0; k < count && now() - start < limit; k++) {
		uint64_t s = seed + k * stride;
		bool v = run_one(s, Mask());
		runs++;
		if (k == 0) {
			first_hash = rep->hash;
			if (!v) {
				// one seed is one execution: run it again
				Report save1 = *rep;
				bool v2 = run_one(s, Mask());
				if (v2 || rep->hash != first_hash || rep->shape != save1.shape) { printf("{\"nondeterministic\": %llu}\n", (unsigned long long)s); return 3; }
				*rep = save1;
			}
		}
		shapes.insert(rep->shape);
		hashes.insert(rep->hash);
		for (uint32_t i = 0; i < rep->nstates; i++) states.insert(rep->states[i]);
		sum.steps += rep->steps; sum.calls += rep->calls; sum.checks += rep->checks; sum.sweeps += rep->sweeps; sum.recovered += rep->recovered;
		for (int i = 0; i < SF_KINDS; i++) sum.fired[i] += rep->fired[i];
		for (int i = 0; i < O_KINDS; i++) sum.per_op[i] += rep->per_op[i];
		for (int i = 0; i < 6; i++) sum.per_stmt[i] += rep->per_stmt[i];
		for (int i = 0; i < 16; i++) sum.extra[i] += rep->extra[i];
		sum.ok += rep->ok; sum.err += rep->err; sum.rows_checked += rep->rows_checked; sum.held_checked += rep->held_checked; sum.allocs += rep->allocs;
		sum.sim_ticks += rep->sim_ticks; sum.thr_switches += rep->thr_switches; sum.thr_accesses += rep->thr_accesses; sum.thr_contended += rep->thr_contended;
		sum.max_rows = std::max(sum.max_rows, rep->max_rows);
		sum.max_blocks = std::max(sum.max_blocks, rep->max_blocks);
		if (v) {
			nviol++;
			viol = "{\"seed\": " + std::to_string(s) + ", \"class\": \"" + esc(rep->cls) + "\", \"msg\": \"" + esc(rep->msg) + "\"}";
			break;
		}
	}
	auto arr = [](const uint64_t *a, int n) { std::string s = "["; for (int i = 0; i < n; i++) s += (i ? ", " : "") + std::to_string(a[i]); return s + "]"; };
	printf("{\"runs\": %llu, \"wall\": %.3f, \"first_hash\": \"%016llx\", \"shapes\": %zu, \"states\": %zu, \"hashes\": %zu, \"steps\": %llu, \"calls\": %llu, \"checks\": %llu, "
		"\"sweeps\": %llu, \"recovered\": %llu, \"fired\": %s, \"per_op\": %s, \"per_stmt\": %s, \"extra\": %s, \"ok\": %llu, \"err\": %llu, \"rows\": %llu, \"held\": %llu, \"allocs\": %llu, "
		"\"max_rows\": %llu, \"max_blocks\": %llu, \"ticks\": %llu, \"switches\": %llu, \"accesses\": %llu, \"contended\": %llu, \"violation\": %s}\n",
		(unsigned long long)runs, now() - start, (unsigned long long)first_hash, shapes.size(), states.size(), hashes.size(), (unsigned long long)sum.steps,
		(unsigned long long)sum.calls, (unsigned long long)sum.checks, (unsigned long long)sum.sweeps, (unsigned long long)sum.recovered, arr(sum.fired, SF_KINDS).c_str(),
		arr(sum.per_op, O_KINDS).c_str(), arr(sum.per_stmt, 6).c_str(), arr(sum.extra, 16).c_str(), (unsigned long long)sum.ok, (unsigned long long)sum.err,
		(unsigned long long)sum.rows_checked, (unsigned long long)sum.held_checked, (unsigned long long)sum.allocs, (unsigned long long)sum.max_rows,
		(unsigned long long)sum.max_blocks, (unsigned long long)sum.sim_ticks, (unsigned long long)sum.thr_switches, (unsigned long long)sum.thr_accesses,
		(unsigned long long)sum.thr_contended, viol.empty() ? "null" : viol.c_str());
	return nviol ? 1 : 0;
}
