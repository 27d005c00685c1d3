// Deterministic simulation core: seeded choices, virtual entropy and clock,
// statistics, worker processes, violation gating, minimisation, replay.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include "fp.h"

namespace sim {

inline uint64_t mix64(uint64_t z) {
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	ref::Fp fp() { mp_limb_t w[5]; for (int i = 0; i < 5; ++i) w[i] = next(); return ref::Fp::from_limbs(w, 5); }
};

// Every decision of a run goes through here. A run is the list of its choices:
// recorded when drawn from the seed, re-read when replayed (past the end: 0).
extern uint64_t *g_rec_shm; // [0]=count, survives a crash of the run
const uint64_t REC_MAX = 1 << 20;
struct Choices {
	void keep(uint64_t v) { rec.push_back(v); if (g_rec_shm && g_rec_shm[0] + 1 < REC_MAX) g_rec_shm[++g_rec_shm[0]] = v; }
	Rng rng;
	bool replaying;
	std::vector<uint64_t> in, rec;
	std::vector<std::string> labels;
	size_t pos;
	bool keep_labels;
	explicit Choices(uint64_t seed) : rng(seed), replaying(false), pos(0), keep_labels(false) {}
	explicit Choices(const std::vector<uint64_t> &v) : rng(0), replaying(true), in(v), pos(0), keep_labels(false) {}
	uint64_t pick(uint64_t n, const char *label = "") { // [0,n)
		uint64_t v;
		if (replaying) v = pos < in.size() ? (n ? in[pos] % n : 0) : 0;
		else v = rng.below(n);
		++pos;
		keep(v);
		if (keep_labels) labels.push_back(label);
		return v;
	}
	uint64_t raw(const char *label = "") { // 48-bit seed-like value
		uint64_t v;
		if (replaying) v = pos < in.size() ? in[pos] : 0;
		else v = rng.next() >> 16;
		++pos;
		keep(v);
		if (keep_labels) labels.push_back(label);
		return v;
	}
	bool chance(uint64_t num, uint64_t den, const char *label = "") { return pick(den, label) >= den - num; } // 0 = no
	uint64_t range(uint64_t lo, uint64_t hi, const char *label = "") { return lo + pick(hi - lo + 1, label); }
};

struct Violation {
	std::string cls;    // stable class key (what is compared when minimising/replaying)
	std::string detail; // human readable
};

struct Stats {
	std::map<std::string, uint64_t> n;      // counters (faults, probes, events)
	std::unordered_set<uint64_t> states;    // distinct abstract states
	std::unordered_set<uint64_t> histories; // distinct run histories
	void hit(const std::string &k, uint64_t c = 1) { n[k] += c; }
};

// Context of one simulated run.
struct Run {
	Choices &ch;
	Stats &st;
	std::vector<Violation> viol;
	std::vector<std::string> trace;
	bool verbose;
	uint64_t hist;
	double sim_time;
	Run(Choices &c, Stats &s) : ch(c), st(s), verbose(false), hist(0xcbf29ce484222325ull), sim_time(0) {}
	void note(uint64_t x) { hist = mix64(hist ^ x); }
	void note(const ref::Fp &x) { note(x.fold()); }
	void say(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void violate(const std::string &cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
	void fault(const char *kind) { st.hit(std::string("fault.") + kind); }
	void probe(const char *kind) { st.hit(std::string("probe.") + kind); }
	void state(uint64_t h) { st.states.insert(h); }
};

// --- virtual random source (libc rand) and clock ---
struct Entropy {
	int mode;
	Rng rng;
	uint64_t draws;
	uint32_t k;
	uint32_t cyc[8];
	long flip_at;      // perturb this draw (-1: none)
	uint32_t flip_mask;
	Entropy() : mode(0), rng(1), draws(0), k(1), flip_at(-1), flip_mask(0) {}
	void configure(int mode, uint64_t seed);
	uint32_t next();
	uint32_t raw_next();
};
enum { ENT_UNIFORM = 0, ENT_ZERO, ENT_MAX, ENT_SMALL, ENT_CONST, ENT_CYCLE, ENT_MIXED, ENT_ONEWORD, ENT_MODES };
extern const char *ent_name[];
Entropy *current_entropy();            // of the running session
void set_entropy(Entropy *);           // NULL: process-default
struct Clock {
	int mode; // 0 steady, 1 slow, 2 jumps forward, 3 goes back, 4 stuck
	uint64_t now_ns;
	Rng rng;
	double covered_s;
	Clock() : mode(0), now_ns(1000000000ull), rng(7), covered_s(0) {}
};
extern Clock g_clock;

typedef void (*RunFn)(const std::string &prop, Run &);
struct Harness {
	const char *stack;
	RunFn run;
	void (*once)(const std::string &prop, int argc, char **argv); // optional
};
int sim_main(int argc, char **argv, const Harness &h);

// allocation faults: fail the k-th operator new from now (-1: never)
extern long g_alloc_fail_at;
extern long g_alloc_count;
extern size_t g_alloc_limit;
extern int g_alloc_fill; // fill byte for fresh memory, -1: none
extern int g_libc_rand; // 1: rand() is libc's own generator, fixed by srand
extern Rng g_libc;
const std::string &scratch();                                        // this process's own scratch directory
void write_file(const std::string &path, const std::string &data);
// run fn in a forked child with stdout captured; the child's own verdict goes through `out`
struct ChildEnd { bool hung, signaled, asan; int sig, code; std::string out; };
ChildEnd in_child(void (*fn)(void *), void *arg, double timeout);
double wall();
// reads of the file with this base name deliver `data` under faults
struct ReadPlan {
	bool active, missing;
	std::string name, data;
	long eio_at;
	size_t max_chunk; // 0: whole reads
	uint64_t seed;
	int reads;
	ReadPlan() : active(false), missing(false), eio_at(-1), max_chunk(0), seed(1), reads(0) {}
};
extern ReadPlan g_read;
// files opened for writing are kept in memory, under faults
struct WritePlan {
	bool active;
	std::string name;  // the file the fault is for
	bool fail_open;
	long fail_at;      // bytes that fit (-1: all)
	int err;
	std::map<std::string, std::string> data;
	std::set<std::string> errors; // files a write to which failed
	WritePlan() : active(false), fail_open(false), fail_at(-1), err(28) {}
};
extern WritePlan g_write;
} // namespace sim
