#include "core.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <new>
#include <random>
#include <sstream>

namespace sim {
const char *ent_name[] = {"uniform", "zeros", "max", "small", "constant", "cycle", "mixed", "one-word"};
Clock g_clock;
ReadPlan g_read;
long g_alloc_fail_at = -1, g_alloc_count = 0;
int g_alloc_fill = 0;
size_t g_alloc_limit = 3ull << 30;
static Entropy g_default_entropy;
static Entropy *g_cur_entropy = &g_default_entropy;
Entropy *current_entropy() { return g_cur_entropy; }
void set_entropy(Entropy *e) { g_cur_entropy = e ? e : &g_default_entropy; }
int g_libc_rand = 0;
Rng g_libc(0x5eed0001ull);
uint64_t *g_rec_shm = NULL;

void Entropy::configure(int m, uint64_t seed) {
	mode = m; rng = Rng(seed ^ 0xE47); draws = 0;
	k = 1 + rng.below(8);
	for (int i = 0; i < 8; ++i) cyc[i] = rng.next();
}
uint32_t Entropy::next() {
	bool f = flip_at >= 0 && draws == (uint64_t)flip_at;
	uint32_t x = raw_next();
	return f ? (x ^ flip_mask) : x;
}
uint32_t Entropy::raw_next() {
	uint64_t i = draws++;
	switch (mode) {
		case ENT_UNIFORM: return rng.next();
		case ENT_ZERO: return 0;
		case ENT_MAX: return 0xffffffffu;
		case ENT_SMALL: return rng.below(3);
		case ENT_CONST: return cyc[0];
		case ENT_CYCLE: return cyc[i % k];
		case ENT_MIXED: {
			uint64_t r = rng.next();
			switch (r % 6) { case 0: return 0; case 1: return 0xffffffffu; case 2: return (r >> 8) & 3; case 3: return r & 256 ? 1 : 0x80000000u; default: return r >> 16; }
		}
		case ENT_ONEWORD: return i % 3 == (rng.s & 0) + k % 3 ? rng.next() : 0;
	}
	return 0;
}
void Run::say(const char *fmt, ...) {
	if (!verbose) return;
	char b[4096];
	va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	trace.push_back(b);
}
void Run::violate(const std::string &cls, const char *fmt, ...) {
	char b[4096];
	va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
	Violation v; v.cls = cls; v.detail = b;
	viol.push_back(v);
	if (verbose) trace.push_back("VIOLATED " + cls + ": " + b);
}
double wall() {
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string g_root;
static pid_t g_root_owner = 0;
static volatile char *g_asan_flag = NULL;
const std::string &scratch() {
	static std::string dir;
	static pid_t owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		dir = g_root + "/p" + std::to_string((long)owner);
		mkdir(dir.c_str(), 0755);
	}
	return dir;
}
void write_file(const std::string &path, const std::string &data) {
	int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	size_t o = 0;
	while (fd >= 0 && o < data.size()) { ssize_t k = write(fd, data.data() + o, data.size() - o); if (k <= 0) break; o += k; }
	if (fd < 0 || o != data.size()) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(77); }
	close(fd);
}
static int rm_one(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void make_root() {
	const char *t = getenv("LIBRA_SIM_TMP");
	std::string s = std::string(t && *t ? t : "/tmp") + "/libra_sim.XXXXXX";
	std::vector<char> b(s.begin(), s.end());
	b.push_back(0);
	if (!mkdtemp(b.data())) { perror("mkdtemp"); exit(2); }
	g_root = b.data();
	g_root_owner = getpid();
}
static void drop_root() { if (g_root_owner == getpid() && g_root.find("/libra_sim.") != std::string::npos) nftw(g_root.c_str(), rm_one, 16, FTW_DEPTH | FTW_PHYS); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_asan() { if (g_asan_flag) *g_asan_flag = 1; }
ChildEnd in_child(void (*fn)(void *), void *arg, double timeout) {
	ChildEnd e;
	e.hung = e.signaled = e.asan = false; e.sig = e.code = 0;
	if (!g_asan_flag) g_asan_flag = (volatile char *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	*g_asan_flag = 0;
	int pfd[2];
	if (pipe(pfd)) _exit(77);
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		close(pfd[0]);
		dup2(pfd[1], 1);
		close(pfd[1]);
		if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
		fn(arg);
		fflush(NULL);
		_exit(0);
	}
	close(pfd[1]);
	double t0 = wall();
	for (;;) {
		struct pollfd pf = {pfd[0], POLLIN, 0};
		double left = timeout - (wall() - t0);
		if (left <= 0) { e.hung = true; break; }
		if (poll(&pf, 1, (int)(left * 1000) + 1) > 0) {
			char b[4096];
			ssize_t m = read(pfd[0], b, sizeof b);
			if (m <= 0) break;
			if (e.out.size() < 1 << 20) e.out.append(b, m);
		}
	}
	close(pfd[0]);
	if (e.hung) kill(pid, SIGKILL);
	int ws = 0;
	waitpid(pid, &ws, 0);
	if (!e.hung) { if (WIFSIGNALED(ws)) { e.signaled = true; e.sig = WTERMSIG(ws); } else e.code = WEXITSTATUS(ws); }
	e.asan = *g_asan_flag != 0;
	return e;
}

struct Opt {
	std::string prop, out, replay_dir, replay, known;
	uint64_t seed, runs;
	double time;
	int workers;
	long one, batch;
	bool verbose, nomin;
	double run_timeout, min_time;
};
static Opt opt;
static const Harness *H;
#if __has_feature(address_sanitizer)
static const char *g_mode = "asan";
#else
static const char *g_mode = "opt";
#endif

static uint64_t run_seed(uint64_t idx) {
	uint64_t h = 1469598103934665603ull;
	for (char c : opt.prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
	return mix64(mix64(opt.seed ^ h) + idx);
}
static std::vector<std::string> split(const std::string &s, char d) {
	std::vector<std::string> r; std::stringstream ss(s); std::string x;
	while (std::getline(ss, x, d)) if (!x.empty()) r.push_back(x);
	return r;
}
static bool is_known(const std::string &cls) {
	for (auto &k : split(opt.known, ',')) if (k == cls) return true;
	return false;
}
struct Outcome { bool ok; std::string cls, detail; uint64_t hist; std::vector<uint64_t> rec; std::vector<std::string> trace; std::vector<std::string> known; };

static void reset_world() {
	set_entropy(NULL);
	g_default_entropy.configure(ENT_UNIFORM, 12345);
	double cov = g_clock.covered_s;
	g_clock = Clock();
	g_clock.covered_s = cov;
	g_alloc_fail_at = -1; g_alloc_count = 0; g_alloc_fill = 0; g_alloc_limit = 3ull << 30;
	g_libc_rand = 0; g_libc = Rng(0x5eed0001ull); g_read = ReadPlan();
}
static Outcome exec_run(Choices &ch, Stats &st, bool verbose) {
	reset_world();
	Run r(ch, st);
	r.verbose = verbose;
	ch.keep_labels = verbose;
	H->run(opt.prop, r);
	reset_world();
	Outcome o;
	o.ok = true; o.hist = r.hist; o.rec = ch.rec;
	for (auto &v : r.viol) {
		if (is_known(v.cls)) { o.known.push_back(v.cls + "\t" + v.detail); continue; }
		if (o.ok) { o.ok = false; o.cls = v.cls; o.detail = v.detail; }
	}
	o.trace = r.trace;
	return o;
}

static void devnull(bool keep_err) {
	int n = open("/dev/null", O_WRONLY);
	dup2(n, 1);
	if (!keep_err) dup2(n, 2);
	close(n);
}
static void wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) { if (errno == EINTR) continue; _exit(9); } c += k; n -= k; } }
static void wrs(int fd, const std::string &s) { uint32_t n = s.size(); wr(fd, &n, 4); wr(fd, s.data(), n); }


// One simulated run: a seed, or the explicit list of its choices.
struct Item { bool seeded; uint64_t seed; std::vector<uint64_t> ch; };
typedef std::vector<Item> Items;

// Execute runs one after another in a fresh forked child (a pristine process); the
// outcome is that of the last. Crashes and hangs become outcomes.
static Outcome isolated(const Items &items, bool verbose, std::string *errtxt = NULL, std::vector<std::vector<uint64_t>> *recs = NULL) {
	int pfd[2];
	if (pipe(pfd)) exit(4);
	static uint64_t *shm = (uint64_t *)mmap(NULL, REC_MAX * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	shm[0] = 0;
	std::string errs = g_root + "/err.XXXXXX";
	char *errf = &errs[0];
	int efd = mkstemp(errf);
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		close(pfd[0]);
		devnull(true);
		dup2(efd, 2);
		setpgid(0, 0);
		uint64_t h = 0;
		std::vector<std::vector<uint64_t>> rs;
		for (size_t k = 0; k < items.size(); ++k) {
			bool last = k + 1 == items.size();
			shm[0] = 0;
			if (last) g_rec_shm = shm;
			Choices ch(items[k].seed);
			if (!items[k].seeded) ch = Choices(items[k].ch);
			Stats st;
			Outcome o = exec_run(ch, st, verbose && last);
			h = mix64(h ^ o.hist);
			rs.push_back(o.rec);
			if (!last) continue;
			char ok = o.ok;
			wr(pfd[1], &ok, 1);
			wr(pfd[1], &h, 8);
			wrs(pfd[1], o.cls); wrs(pfd[1], o.detail);
			uint32_t nr = rs.size();
			wr(pfd[1], &nr, 4);
			for (auto &x : rs) {
				uint32_t n = x.size();
				wr(pfd[1], &n, 4);
				wr(pfd[1], x.data(), 8ull * n);
			}
			std::string t;
			for (auto &l : o.trace) t += l + "\n";
			wrs(pfd[1], t);
		}
		_exit(0);
	}
	close(pfd[1]);
	std::string buf;
	double t0 = wall();
	bool hung = false;
	for (;;) {
		struct pollfd pf = {pfd[0], POLLIN, 0};
		double left = opt.run_timeout - (wall() - t0);
		if (left <= 0) { hung = true; break; }
		int k = poll(&pf, 1, (int)(left * 1000) + 1);
		if (k > 0) {
			char b[65536];
			ssize_t m = read(pfd[0], b, sizeof b);
			if (m <= 0) break;
			buf.append(b, m);
		}
	}
	close(pfd[0]);
	if (hung) { kill(-pid, SIGKILL); kill(pid, SIGKILL); }
	int ws = 0;
	waitpid(pid, &ws, 0);
	if (errtxt) {
		std::ifstream f(errf);
		std::stringstream ss; ss << f.rdbuf();
		*errtxt = ss.str();
		if (errtxt->size() > 6000) *errtxt = errtxt->substr(0, 3000) + "\n...\n" + errtxt->substr(errtxt->size() - 3000);
	}
	close(efd); unlink(errf);
	Outcome o;
	o.ok = true; o.hist = 0;
	o.rec.assign(shm + 1, shm + 1 + shm[0]);
	if (hung) { o.ok = false; o.cls = "hang"; o.detail = "run did not finish within its wall-clock bound"; return o; }
	if (WIFSIGNALED(ws) || WEXITSTATUS(ws) != 0) {
		o.ok = false;
		o.cls = "crash:" + std::string(WIFSIGNALED(ws) ? strsignal(WTERMSIG(ws)) : "exit");
		for (char &c : o.cls) if (c == ' ') c = '_';
		o.detail = "the code under test ended the process";
		return o;
	}
	const char *p = buf.data();
	if (buf.size() < 17) { o.ok = false; o.cls = "crash:protocol"; return o; }
	o.ok = p[0]; p += 1;
	memcpy(&o.hist, p, 8); p += 8;
	auto rds = [&](std::string &s) { uint32_t n; memcpy(&n, p, 4); p += 4; s.assign(p, n); p += n; };
	rds(o.cls); rds(o.detail);
	uint32_t nr; memcpy(&nr, p, 4); p += 4;
	if (recs) recs->clear();
	for (uint32_t k = 0; k < nr; ++k) {
		uint32_t n; memcpy(&n, p, 4); p += 4;
		o.rec.resize(n);
		memcpy(o.rec.data(), p, 8ull * n); p += 8ull * n;
		if (recs) recs->push_back(o.rec);
	}
	std::string t; rds(t);
	o.trace = split(t, '\n');
	return o;
}

static bool smaller(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}
// shrink the choices of run `which`, keeping the class of violation
static void minimise(Items &it, size_t which, const std::string &cls, double t_end, long &tries) {
	bool last = which + 1 == it.size();
	auto test = [&](std::vector<uint64_t> c) -> bool {
		++tries;
		Items t = it;
		t[which].ch = c;
		Outcome o = isolated(t, false);
		if (o.ok || o.cls != cls) return false;
		if (last && !o.rec.empty() && o.rec.size() < c.size()) c.resize(o.rec.size());
		while (!c.empty() && c.back() == 0) c.pop_back();
		if (!smaller(c, it[which].ch)) return false;
		it[which].ch = c;
		return true;
	};
	std::vector<uint64_t> &cur = it[which].ch;
	bool progress = true;
	while (progress && wall() < t_end) {
		progress = false;
		for (size_t sz = std::max<size_t>(1, cur.size() / 2); sz >= 1; sz /= 2) {
			for (size_t i = 0; i < cur.size() && wall() < t_end;) {
				std::vector<uint64_t> c = cur;
				size_t e = std::min(c.size(), i + sz);
				c.erase(c.begin() + i, c.begin() + e);
				if (test(c)) { progress = true; continue; }
				c = cur;
				e = std::min(c.size(), i + sz);
				bool nz = false;
				for (size_t k = i; k < e; ++k) { nz |= c[k] != 0; c[k] = 0; }
				if (nz && test(c)) progress = true;
				i += sz;
			}
			if (sz == 1) break;
		}
		for (size_t i = 0; i < cur.size() && wall() < t_end; ++i) {
			uint64_t hi = cur[i], lo = 0; // binary search towards small values
			for (int k = 0; k < 12 && lo < hi && i < cur.size(); ++k) {
				uint64_t m = lo + (hi - lo) / 2;
				std::vector<uint64_t> c = cur;
				c[i] = m;
				if (m < cur[i] && test(c)) { progress = true; hi = m; } else lo = m + 1;
			}
		}
	}
}

struct Slot { pid_t pid; long batch; bool recheck; volatile long cur; volatile long bad; volatile double t_start; };

static void write_stats(const std::string &path, const Stats &st, uint64_t runs, const std::vector<std::string> &known, uint64_t bh) {
	FILE *f = fopen(path.c_str(), "w");
	fprintf(f, "runs %lu\n", runs);
	fprintf(f, "batch %lx\n", bh);
	fprintf(f, "simtime_us %lu\n", (unsigned long)(g_clock.covered_s * 1e6));
	for (auto &k : st.n) fprintf(f, "n %s %lu\n", k.first.c_str(), k.second);
	for (auto h : st.states) fprintf(f, "s %lx\n", h);
	for (auto h : st.histories) fprintf(f, "h %lx\n", h);
	for (auto &k : known) fprintf(f, "k %s\n", k.c_str());
	fclose(f);
}

// a batch of consecutive runs, each batch in a pristine process
static void batch_child(long b, Slot *slot, const std::string &statf) {
	setpgid(0, 0);
	devnull(false);
	Stats st;
	uint64_t runs = 0, bh = 0;
	std::set<std::string> known;
	for (uint64_t idx = (uint64_t)b * opt.batch; idx < std::min<uint64_t>(opt.runs, (b + 1ull) * opt.batch); ++idx) {
		slot->t_start = wall(); slot->cur = idx;
		Choices ch(run_seed(idx));
		Outcome o = exec_run(ch, st, false);
		++runs;
		bh = mix64(bh ^ o.hist);
		st.histories.insert(o.hist);
		for (auto &k : o.known) known.insert(k);
		if (!o.ok) { slot->bad = idx; break; }
	}
	write_stats(statf, st, runs, std::vector<std::string>(known.begin(), known.end()), bh);
	slot->cur = -2;
	_exit(0);
}

static std::string jesc(const std::string &s) {
	std::string r;
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if ((unsigned char)c < 32) r += ' ';
		else r += c;
	}
	return r;
}
static bool load_replay(const std::string &path, Items &v, std::string &cls, uint64_t &hist, bool &exact) {
	exact = true;
	std::ifstream f(path);
	std::string line, key;
	if (!std::getline(f, line) || line.find("LIBRA-SIM REPLAY") != 0) return false;
	size_t runs = 1;
	while (std::getline(f, line)) {
		std::stringstream ss(line);
		key.clear();
		ss >> key;
		if (key == "class") ss >> cls;
		else if (key == "property") { std::string p; ss >> p; opt.prop = p; }
		else if (key == "history") ss >> std::hex >> hist;
		else if (key == "known") ss >> opt.known;
		else if (key == "exact") { std::string p; ss >> p; exact = p != "no"; }
		else if (key == "runs") ss >> runs;
		else if (key == "choices") {
			size_t n; ss >> n;
			Item it; it.seeded = false; it.seed = 0; it.ch.resize(n);
			for (auto &x : it.ch) f >> std::hex >> x;
			std::getline(f, line);
			v.push_back(it);
			if (v.size() == runs) break;
		}
	}
	return !v.empty();
}

int sim_main(int argc, char **argv, const Harness &h) {
	H = &h;
	opt.seed = 1; opt.runs = 1000; opt.time = 60; opt.workers = 8; opt.one = -1; opt.verbose = false; opt.nomin = false; opt.run_timeout = 60; opt.batch = 64; opt.min_time = 30;
	opt.replay_dir = "/verif/replays";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--prop") opt.prop = val();
		else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--runs") opt.runs = strtoull(val().c_str(), 0, 10);
		else if (a == "--time") opt.time = atof(val().c_str());
		else if (a == "--workers") opt.workers = atoi(val().c_str());
		else if (a == "--out") opt.out = val();
		else if (a == "--replay-dir") opt.replay_dir = val();
		else if (a == "--replay") opt.replay = val();
		else if (a == "--one") opt.one = atol(val().c_str());
		else if (a == "--known") opt.known = val();
		else if (a == "--run-timeout") opt.run_timeout = atof(val().c_str());
		else if (a == "--batch") opt.batch = atol(val().c_str());
		else if (a == "--min-time") opt.min_time = atof(val().c_str());
		else if (a == "-v") opt.verbose = true;
		else if (a == "--no-minimise") opt.nomin = true;
		else if (a == "--once") { if (h.once) h.once(opt.prop, argc - i, argv + i); return 0; }
	}
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("LIBRA_SIM_REEXEC")) { // same addresses in every run
		setenv("LIBRA_SIM_REEXEC", "1", 1);
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	signal(SIGPIPE, SIG_IGN);
	make_root();
	atexit(drop_root);
	if (!opt.replay.empty() || opt.one >= 0) {
		Items v; std::string cls; uint64_t hist = 0;
		bool rep = !opt.replay.empty(), exact = true;
		if (rep && !load_replay(opt.replay, v, cls, hist, exact)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
		if (!rep) v.push_back(Item{true, run_seed(opt.one), {}});
		std::string err;
		Outcome o = isolated(v, true, &err);
		for (auto &l : o.trace) printf("  %s\n", l.c_str());
		if (opt.verbose && !err.empty()) printf("--- stderr of the run\n%s\n", err.c_str());
		printf("REPLAY class=%s history=%lx %s\n", o.ok ? "none" : o.cls.c_str(), o.hist, o.ok ? "" : o.detail.c_str());
		if (o.ok) return 0;
		if (rep && (o.cls != cls || (exact && o.hist != hist))) { printf("REPLAY-MISMATCH expected class=%s history=%lx\n", cls.c_str(), hist); return 3; }
		printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), rep ? opt.replay.c_str() : "-");
		return 1;
	}
	double t0 = wall();
	Slot *slots = (Slot *)mmap(NULL, sizeof(Slot) * opt.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string dir = g_root;
	fflush(NULL);
	struct Cand { long first, idx; std::string kind; };
	std::vector<Cand> cand;
	Stats all; uint64_t runs = 0; unsigned long simus = 0; std::set<std::string> known;
	std::map<long, uint64_t> bhist;
	long nb = (opt.runs + opt.batch - 1) / opt.batch, next = 0, live = 0;
	std::vector<long> redo;
	auto absorb = [&](const std::string &p, bool recheck, long batch) {
		std::ifstream f(p);
		std::string line;
		while (std::getline(f, line)) {
			std::stringstream ss(line); std::string k; ss >> k;
			if (k == "batch") {
				uint64_t x; ss >> std::hex >> x;
				if (recheck) { all.n["determinism.batches_rechecked"]++; if (bhist[batch] != x) { all.n["determinism.mismatches"]++; printf("WARNING: batch %ld took another course when repeated\n", batch); } }
				else if (batch % 16 == 0) { bhist[batch] = x; redo.push_back(batch); }
			}
			if (recheck) continue;
			if (k == "runs") { uint64_t x; ss >> x; runs += x; }
			else if (k == "simtime_us") { unsigned long x; ss >> x; simus += x; }
			else if (k == "n") { std::string a; uint64_t b; ss >> a >> b; all.n[a] += b; }
			else if (k == "s") { uint64_t x; ss >> std::hex >> x; all.states.insert(x); }
			else if (k == "h") { uint64_t x; ss >> std::hex >> x; all.histories.insert(x); }
			else if (k == "k") known.insert(line.substr(2));
		}
		unlink(p.c_str());
	};
	for (;;) {
		bool stop = !cand.empty() || wall() - t0 > opt.time;
		for (int w = 0; w < opt.workers && !stop; ++w) {
			if (slots[w].pid) continue;
			long b; bool re = false;
			if (!redo.empty()) { b = redo.back(); redo.pop_back(); re = true; }
			else if (next < nb) b = next++;
			else break;
			slots[w].batch = b; slots[w].recheck = re; slots[w].cur = -1; slots[w].bad = -1; slots[w].t_start = wall();
			pid_t p = fork();
			if (p == 0) batch_child(b, &slots[w], dir + "/s" + std::to_string(w));
			slots[w].pid = p;
			++live;
		}
		if (!live) break;
		int ws;
		pid_t p = waitpid(-1, &ws, WNOHANG);
		if (p <= 0) {
			for (int w = 0; w < opt.workers; ++w)
				if (slots[w].pid && slots[w].cur >= 0 && wall() - slots[w].t_start > opt.run_timeout) {
					slots[w].t_start = wall();
					kill(-slots[w].pid, SIGKILL);
					kill(slots[w].pid, SIGKILL);
				}
			usleep(500);
			continue;
		}
		for (int w = 0; w < opt.workers; ++w)
			if (slots[w].pid == p) {
				slots[w].pid = 0; --live;
				kill(-p, SIGKILL); // anything the batch left running
				long first = slots[w].batch * (long)opt.batch;
				bool crashed = WIFSIGNALED(ws) || WEXITSTATUS(ws);
				if (crashed) cand.push_back(Cand{first, slots[w].cur >= 0 ? slots[w].cur : first, "crash"});
				else if (slots[w].bad >= 0 && !slots[w].recheck) cand.push_back(Cand{first, slots[w].bad, "violation"});
				absorb(dir + "/s" + std::to_string(w), slots[w].recheck, slots[w].batch);
				if (!cand.empty()) break;
			}
		if (!cand.empty()) { // one finding is enough: stop the others
			for (int x = 0; x < opt.workers; ++x) if (slots[x].pid) {
				kill(-slots[x].pid, SIGKILL); kill(slots[x].pid, SIGKILL);
				waitpid(slots[x].pid, &ws, 0);
				if (slots[x].bad >= 0 && !slots[x].recheck) cand.push_back(Cand{slots[x].batch * (long)opt.batch, slots[x].bad, "violation"});
				slots[x].pid = 0; --live;
			}
			break;
		}
	}
	int rc = 0;
	std::string vcls, vdetail, vreplay;
	long mintries = 0; size_t len0 = 0, len1 = 0;
	if (!cand.empty()) {
		Cand c = cand[0];
		for (auto &x : cand) if (x.kind == "violation" && (c.kind != "violation" || x.idx < c.idx)) c = x;
		// alone in a pristine process, or else with the runs before it in its batch
		Items it(1, Item{true, run_seed(c.idx), {}});
		std::vector<std::vector<uint64_t>> recs;
		Outcome a = isolated(it, false, NULL, &recs);
		if (a.ok) {
			it.clear();
			for (long k = c.first; k <= c.idx; ++k) it.push_back(Item{true, run_seed(k), {}});
			a = isolated(it, false, NULL, &recs);
		}
		Outcome b = isolated(it, false);
		if (a.ok || b.ok || a.cls != b.cls) {
			printf("ERROR: run %ld (%s) did not reproduce exactly (ok=%d/%d class=%s/%s history=%lx/%lx): nothing reported\n", c.idx, c.kind.c_str(), a.ok, b.ok, a.cls.c_str(), b.cls.c_str(), a.hist, b.hist);
			rc = 3;
		} else {
			double t_end = wall() + (opt.nomin ? 0 : opt.min_time);
			// drop earlier runs that do not matter
			for (size_t sz = (it.size() - 1 + 1) / 2; it.size() > 1 && sz >= 1; sz /= 2) {
				for (size_t i = 0; i + 1 < it.size() && wall() < t_end;) {
					Items t = it;
					t.erase(t.begin() + i, t.begin() + std::min(i + sz, it.size() - 1));
					++mintries;
					Outcome o = isolated(t, false);
					if (!o.ok && o.cls == a.cls) it = t; else i += sz;
				}
				if (sz == 1) break;
			}
			Outcome o = isolated(it, false, NULL, &recs);
			if (recs.size() == it.size()) for (size_t k = 0; k < it.size(); ++k) { it[k].seeded = false; it[k].ch = recs[k]; }
			else if (it.size() == 1) { it[0].seeded = false; it[0].ch = o.rec; }
			else { // crash after earlier runs: get their choices one run short
				Items t(it.begin(), it.end() - 1);
				std::vector<std::vector<uint64_t>> r2;
				isolated(t, false, NULL, &r2);
				for (size_t k = 0; k < r2.size() && k + 1 < it.size(); ++k) { it[k].seeded = false; it[k].ch = r2[k]; }
				it.back().seeded = false; it.back().ch = o.rec;
			}
			Items full = it;
			for (auto &x : it) len0 += x.ch.size();
			if (!opt.nomin) for (size_t k = it.size(); k-- > 0;) minimise(it, k, a.cls, t_end, mintries);
			std::string err;
			Outcome fin = isolated(it, true, &err), fin2 = isolated(it, false);
			if (fin.ok || fin.cls != a.cls || fin2.hist != fin.hist || fin2.cls != fin.cls) { it = full; fin = isolated(it, true, &err); fin2 = isolated(it, false); }
			for (auto &x : it) len1 += x.ch.size();
			// a failing run whose course still varies (the code under test reads indeterminate memory) is
			// reported when its violation comes back every time; the file then says "exact no"
			bool exact = fin.hist == fin2.hist;
			if (!exact) for (int k = 0; k < 6 && fin.cls == fin2.cls && !fin2.ok; ++k) fin2 = isolated(it, false);
			if (fin.ok || fin2.ok || fin.cls != fin2.cls) {
				printf("ERROR: replay of run %ld does not reproduce; nothing reported\n", c.idx);
				rc = 3;
			} else {
				mkdir(opt.replay_dir.c_str(), 0755);
				vreplay = opt.replay_dir + "/" + opt.prop + "-" + h.stack + "-" + g_mode + "-seed" + std::to_string(opt.seed) + "-run" + std::to_string(c.idx) + ".replay";
				FILE *f = fopen(vreplay.c_str(), "w");
				if (!f) { perror(vreplay.c_str()); return 2; }
				fprintf(f, "LIBRA-SIM REPLAY v1\nproperty %s\nstack %s\nmode %s\nseed %lu run %ld\nclass %s\nexact %s\nhistory %lx\n", opt.prop.c_str(), h.stack, g_mode, opt.seed, c.idx, fin.cls.c_str(), exact ? "yes" : "no", fin.hist);
				if (!opt.known.empty()) fprintf(f, "known %s\n", opt.known.c_str());
				fprintf(f, "runs %zu\n", it.size());
				for (auto &x : it) {
					fprintf(f, "choices %zu\n", x.ch.size());
					for (size_t i = 0; i < x.ch.size(); ++i) fprintf(f, "%lx%c", x.ch[i], i % 16 == 15 ? '\n' : ' ');
					fprintf(f, "\n");
				}
				fprintf(f, "--- %s: %s\n--- minimised from %zu to %zu choices in %ld attempts\n--- schedule and fault trace\n", fin.cls.c_str(), fin.detail.c_str(), len0, len1, mintries);
				for (auto &l : fin.trace) fprintf(f, "%s\n", l.c_str());
				if (!err.empty()) fprintf(f, "--- stderr of the failing run\n%s\n", err.c_str());
				fclose(f);
				vcls = fin.cls; vdetail = fin.detail;
				printf("violation class=%s: %s\n", vcls.c_str(), vdetail.c_str());
				printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), vreplay.c_str());
				rc = 1;
			}
		}
	}
	double dt = wall() - t0;
	for (auto &k : known) printf("KNOWN %s\n", k.c_str());
	printf("%s stack=%s seed=%lu runs=%lu histories=%zu states=%zu wall=%.1fs rc=%d\n", opt.prop.c_str(), h.stack, opt.seed, runs, all.histories.size(), all.states.size(), dt, rc);
	if (!opt.out.empty()) {
		FILE *f = fopen(opt.out.c_str(), "w");
		fprintf(f, "{\"property\":\"%s\",\"stack\":\"%s\",\"seed\":%lu,\"runs\":%lu,\"requested\":%lu,\"wall_s\":%.3f,\"sim_time_s\":%.6f,\"distinct_histories\":%zu,\"distinct_states\":%zu,\"rc\":%d,", opt.prop.c_str(), h.stack, opt.seed, runs, opt.runs, dt, simus * 1e-6, all.histories.size(), all.states.size(), rc);
		fprintf(f, "\"violation_class\":\"%s\",\"violation_detail\":\"%s\",\"replay\":\"%s\",\"counters\":{", jesc(vcls).c_str(), jesc(vdetail).c_str(), jesc(vreplay).c_str());
		bool first = true;
		for (auto &k : all.n) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
		fprintf(f, "},\"known\":[");
		first = true;
		for (auto &k : known) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(k).c_str()); first = false; }
		fprintf(f, "]}\n");
		fclose(f);
	}
	return rc;
}
} // namespace sim

// ---- interposed sources of nondeterminism ----
// the system's random source
namespace std {
unsigned int random_device::_M_getval() { return sim::current_entropy()->next(); }
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
}
extern "C" ssize_t getrandom(void *p, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((char *)p)[i] = sim::current_entropy()->next(); return n; }
extern "C" int getentropy(void *p, size_t n) { getrandom(p, n, 0); return 0; }
// libc's generator: the session's stream, or (faithful) a stream fixed by its seed, 1 unless reseeded
extern "C" int rand(void) {
	if (sim::g_libc_rand) return sim::g_libc.next() >> 33;
	return sim::current_entropy()->next() & 0x7fffffff;
}
extern "C" long random(void) { return rand(); }
extern "C" void srand(unsigned s) {
	if (sim::g_libc_rand) { sim::g_libc = sim::Rng(0x5eed0000ull + s); return; }
	sim::Entropy *e = sim::current_entropy();
	e->configure(e->mode, 0x5eed0000ull + s); // reseeding restarts the stream, as libc does
}
extern "C" void srandom(unsigned s) { srand(s); }
static uint64_t vclock() {
	sim::Clock &c = sim::g_clock;
	uint64_t step = 1000;
	switch (c.mode) {
		case 0: step = 1000; break;
		case 1: step = 50; break;
		case 2: step = c.rng.below(16) ? 1000 : 3600ull * 1000000000ull * (1 + c.rng.below(48)); break;
		case 3: if (c.rng.below(4) == 0) { uint64_t back = c.rng.below(5000000000ull); c.now_ns = c.now_ns > back + 1 ? c.now_ns - back : 1; return c.now_ns; } step = 100000; break;
		case 4: step = 0; break;
	}
	c.now_ns += step;
	c.covered_s += step * 1e-9;
	return c.now_ns;
}
extern "C" int clock_gettime(clockid_t, struct timespec *t) {
	uint64_t n = vclock();
	t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull;
	return 0;
}
extern "C" time_t time(time_t *p) { time_t t = vclock() / 1000000000ull; if (p) *p = t; return t; }
extern "C" clock_t clock(void) noexcept { return (clock_t)(vclock() / 1000); }
static void *sim_alloc(size_t n) {
	long k = sim::g_alloc_count++;
	if (sim::g_alloc_fail_at >= 0 && k == sim::g_alloc_fail_at) { sim::g_alloc_fail_at = -1; throw std::bad_alloc(); }
	if (n > sim::g_alloc_limit) throw std::bad_alloc(); // the simulated machine's memory
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	if (sim::g_alloc_fill >= 0) memset(p, sim::g_alloc_fill, n);
	return p;
}
void *operator new(size_t n) { return sim_alloc(n); }
void *operator new[](size_t n) { return sim_alloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
extern "C" const char *__asan_default_options() { return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0"; }

// ---- simulated disk: reads of one file go through a fault plan ----

namespace sim { WritePlan g_write; }
namespace {
struct Cookie { size_t pos; sim::Rng rng; };
ssize_t ck_read(void *c, char *buf, size_t n) {
	Cookie *k = (Cookie *)c;
	sim::ReadPlan &p = sim::g_read;
	p.reads++;
	if (p.eio_at >= 0 && k->pos >= (size_t)p.eio_at) { errno = EIO; return -1; }
	size_t lim = p.data.size();
	if (p.eio_at >= 0 && (size_t)p.eio_at < lim) lim = p.eio_at;
	if (k->pos >= lim) { if (p.eio_at >= 0) { errno = EIO; return -1; } return 0; }
	size_t m = lim - k->pos;
	if (m > n) m = n;
	if (p.max_chunk && m > 1) { size_t q = 1 + k->rng.below(p.max_chunk); if (m > q) m = q; }
	memcpy(buf, p.data.data() + k->pos, m);
	k->pos += m;
	return m;
}
int ck_close(void *c) { delete (Cookie *)c; return 0; }
struct WCookie { std::string name; };
ssize_t ck_write(void *c, const char *buf, size_t n) {
	WCookie *k = (WCookie *)c;
	sim::WritePlan &p = sim::g_write;
	std::string &d = p.data[k->name];
	size_t m = n;
	if (k->name == p.name && p.fail_at >= 0 && d.size() + m > (size_t)p.fail_at) m = d.size() >= (size_t)p.fail_at ? 0 : p.fail_at - d.size();
	d.append(buf, m);
	if (m < n) { p.errors.insert(k->name); errno = p.err; return m ? (ssize_t)m : 0; }
	return m;
}
int ck_wclose(void *c) { delete (WCookie *)c; return 0; }
// C++ streams take the descriptor and read from that: they get a real one, with the nearest fault.
bool from_streams(void *caller) {
	Dl_info i;
	return dladdr(caller, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}
FILE *sim_fopen(const char *path, const char *mode, const char *real, void *caller) {
	sim::ReadPlan &p = sim::g_read;
	if (p.active && mode[0] == 'r' && path) {
		const char *b = strrchr(path, '/');
		if (p.name == (b ? b + 1 : path)) {
			if (p.missing) { errno = ENOENT; return NULL; }
			if (from_streams(caller)) {
				p.reads++;
				if (p.eio_at >= 0) return fdopen(open("/", O_RDONLY), "r"); // every read fails
				int fd = memfd_create("sim", 0);
				if (write(fd, p.data.data(), p.data.size()) != (ssize_t)p.data.size()) abort();
				lseek(fd, 0, SEEK_SET);
				return fdopen(fd, "r");
			}
			Cookie *k = new Cookie{0, sim::Rng(p.seed)};
			cookie_io_functions_t f;
			memset(&f, 0, sizeof f);
			f.read = ck_read; f.close = ck_close;
			return fopencookie(k, "r", f);
		}
	}
	if (sim::g_write.active && path && mode[0] == 'w') {
		const char *b = strrchr(path, '/');
		std::string n = b ? b + 1 : path;
		if (n == sim::g_write.name && sim::g_write.fail_open) { sim::g_write.errors.insert(n); errno = sim::g_write.err; return NULL; }
		if (from_streams(caller)) {
			FILE *(*fn)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, real);
			if (n == sim::g_write.name && sim::g_write.fail_at >= 0) { sim::g_write.errors.insert(n); path = "/dev/full"; }
			return fn(path, mode);
		}
		sim::g_write.data[n] = "";
		cookie_io_functions_t f;
		memset(&f, 0, sizeof f);
		f.write = ck_write; f.close = ck_wclose;
		return fopencookie(new WCookie{n}, "w", f);
	}
	FILE *(*fn)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, real);
	return fn(path, mode);
}
}
extern "C" FILE *fopen(const char *path, const char *mode) { return sim_fopen(path, mode, "fopen", __builtin_return_address(0)); }
extern "C" FILE *fopen64(const char *path, const char *mode) { return sim_fopen(path, mode, "fopen64", __builtin_return_address(0)); }
