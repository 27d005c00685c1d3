#include "threads.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <unordered_map>
#if __has_feature(address_sanitizer)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN 1
#else
#define ASAN 0
#endif

namespace sim {
// --- fibers ---
extern "C" void sim_swap(void **save_sp, void *load_sp);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_swap,.-sim_swap
)");
enum St { RUN, JOIN, MUTEX, COND, BARRIER, DONE, GONE };
struct Th {
	void *sp, *fake;
	char *stack; size_t size;
	const void *bottom;
	void *(*fn)(void *); void *arg, *ret;
	St st;
	int on;            // thread joined on
	void *obj;         // mutex, condition or barrier waited for
	bool timed, timed_out, detached;
	int64_t prio;
	int batch, idx;
	uint64_t n;        // accesses so far
};
const size_t STK = 256 << 10;
static const int MAXT = 256;
static char *g_pool = NULL;
static std::vector<char *> g_free;
static std::vector<Th> T;
static int cur = 0, live = 0;  // live: threads other than main not DONE
static bool active = false, recording = false;
static Schedule S;
static ThreadStats R;
static Rng rng(1);
static int64_t low = 0;
static long creates = 0;
static uint64_t since = 0;
static int batch = -1, batch_n = 0;
static std::vector<uint64_t> next_point; // per thread of the current batch: access number, or none
static std::vector<uint64_t> racy;       // code addresses of the recorded run
struct Acc { int t; bool w; void *pc; int rt; void *rpc; };
static std::unordered_map<uintptr_t, Acc> shadow;
static std::map<std::pair<void *, void *>, int> conf;
struct Mx { int owner, depth; };
static std::map<void *, Mx> mxs;
struct Bar { unsigned need, have; };
static std::map<void *, Bar> bars;
static bool inside = false;

static char *stack_new() {
	if (!g_pool) {
		g_pool = (char *)mmap(NULL, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		for (int i = MAXT - 1; i >= 0; --i) g_free.push_back(g_pool + STK * i);
	}
	if (g_free.empty()) return NULL;
	char *s = g_free.back(); g_free.pop_back();
#if ASAN
	__asan_unpoison_memory_region(s, STK);
#endif
	return s;
}
static void die(const char *what) { fprintf(stderr, "%s\n", what); abort(); }

static void land() { // first instructions after a switch
#if ASAN
	__sanitizer_finish_switch_fiber(T[cur].fake, NULL, NULL);
#endif
}
static void go(int to) {
	if (to == cur) return;
	int from = cur;
	R.switches++;
	R.order_hash = mix64(R.order_hash ^ ((uint64_t)T[from].batch << 40 ^ (uint64_t)T[from].idx << 32 ^ T[from].n ^ (uint64_t)T[to].idx << 56));
	since = 0;
	cur = to;
	inside = false;
#if ASAN
	__sanitizer_start_switch_fiber(T[from].st == DONE ? NULL : &T[from].fake, T[to].bottom, T[to].size);
#endif
	sim_swap(&T[from].sp, T[to].sp);
	land();
}
static int runnable() { // highest priority first
	int b = -1;
	for (int i = 0; i < (int)T.size(); ++i) if (T[i].st == RUN && (b < 0 || T[i].prio > T[b].prio)) b = i;
	return b;
}
static void block() { // the current thread cannot go on
	for (;;) {
		int n = runnable();
		if (n < 0) { // a timed wait may still end
			for (int i = 0; i < (int)T.size(); ++i) if (T[i].st == COND && T[i].timed) { T[i].st = RUN; T[i].timed_out = true; n = i; break; }
		}
		if (n < 0) die("DEADLOCK: every simulated thread is blocked");
		go(n);
		if (T[cur].st == RUN) return;
	}
}
static void demote() { T[cur].prio = --low; }
static void maybe_switch() { int n = runnable(); if (n != cur && n >= 0) go(n); }

static void entry() {
	land();
	inside = false;
	int me = cur;
	void *r = T[me].fn(T[me].arg);
	T[me].ret = r;
	T[me].st = DONE;
	--live;
	if (recording) { if ((int)R.len.size() <= T[me].batch) R.len.resize(T[me].batch + 1); auto &v = R.len[T[me].batch]; if ((int)v.size() <= T[me].idx) v.resize(T[me].idx + 1); v[T[me].idx] = T[me].n; }
	for (auto &t : T) if (t.st == JOIN && t.on == me) t.st = RUN;
	block();
	abort();
}
static void access(uintptr_t a, int n, bool w, void *pc) {
	if (!active || inside || !live) return;
	Th &t = T[cur];
	t.n++; R.accesses++; ++since;
	if (recording) {
		if (a >= (uintptr_t)g_pool && a < (uintptr_t)g_pool + STK * MAXT) return;
		if (cur == 0 && a >= (uintptr_t)__builtin_frame_address(0) && a < (uintptr_t)__builtin_frame_address(0) + (1 << 20)) return;
		inside = true;
		for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
			auto it = shadow.find(k);
			if (it == shadow.end()) { shadow[k] = Acc{cur, w, pc, w ? -1 : cur, pc}; continue; }
			Acc &x = it->second;
			if (x.w && x.t != cur) conf[std::make_pair(pc, x.pc)]++;
			if (w && x.rt >= 0 && x.rt != cur) conf[std::make_pair(pc, x.rpc)]++;
			if (w) { x.w = true; x.t = cur; x.pc = pc; } else { x.rt = cur; x.rpc = pc; if (!x.w) x.t = cur; }
		}
		inside = false;
		return;
	}
	bool sw = false;
	switch (S.mode) {
		case Schedule::POINTS: case Schedule::STALL:
			if (cur && t.idx < (int)next_point.size() && next_point[t.idx] == t.n) sw = true;
			break;
		case Schedule::RANDOM: sw = !(rng.next() & ((1ull << S.shift) - 1)); break;
		case Schedule::RACY: if (std::binary_search(racy.begin(), racy.end(), (uint64_t)pc)) sw = !(rng.next() & 3); break;
	}
	if (!sw && since > 3000000) { sw = true; R.forced++; }
	if (R.accesses > 400000000ull) die("LIVELOCK: no end after 400 million accesses");
	if (!sw) return;
	inside = true;
	demote();
	maybe_switch();
	inside = false;
}
static void new_batch() {
	++batch; batch_n = 0;
	R.batches = batch + 1;
	next_point.clear();
	shadow.clear();
	T[0].batch = batch; T[0].n = 0;
	if (S.order == 1) T[0].prio = --low;
	else T[0].prio = S.order == 2 ? (int64_t)(rng.next() >> 2) : INT64_MAX;
	for (auto &p : S.points) if (p.batch == batch) { if ((int)next_point.size() <= p.thread) next_point.resize(p.thread + 1, ~0ull); next_point[p.thread] = p.at; }
	if (S.mode == Schedule::STALL) {
		int v = rng.below(4);
		next_point.assign(v + 1, ~0ull);
		next_point[v] = 1 + (rng.next() & ((1ull << (1 + rng.below(S.shift + 1))) - 1));
	}
}
static int thread_new(void *(*fn)(void *), void *arg) {
	if (!live) { // reuse the slots of a finished batch
		bool pend = false;
		for (size_t i = 1; i < T.size(); ++i) if (T[i].st != GONE) pend = true;
		if (!pend) T.resize(1);
		new_batch();
	}
	char *st = stack_new();
	if (!st) return -1;
	Th t; memset(&t, 0, sizeof t);
	t.stack = st; t.size = STK; t.bottom = st;
	t.fn = fn; t.arg = arg; t.st = RUN; t.batch = batch; t.idx = batch_n++;
	switch (S.order) {
		case 2: t.prio = (int64_t)(rng.next() >> 2); break;
		default: t.prio = 1000000 - t.idx;
	}
	void **sp = (void **)(st + STK - 64);
	*--sp = NULL;
	*--sp = (void *)entry;
	for (int i = 0; i < 6; ++i) *--sp = NULL;
	t.sp = sp;
	int id = -1;
	for (size_t i = 1; i < T.size(); ++i) if (T[i].st == GONE) { T[i] = t; id = i; break; }
	if (id < 0) { T.push_back(t); id = T.size() - 1; }
	++live;
	R.threads++;
	return id;
}
static void reap(int id) { if (T[id].stack) { g_free.push_back(T[id].stack); T[id].stack = NULL; } T[id].st = GONE; }

void threads_begin(const Schedule &s, bool record) {
	S = s; rng = Rng(s.seed);
	recording = record;
	R = ThreadStats();
	R.batches = 0; R.threads = R.switches = R.accesses = R.forced = 0; R.order_hash = 1; R.open_end = 0;
	T.clear();
	Th m; memset(&m, 0, sizeof m);
	m.st = RUN; m.prio = INT64_MAX; m.batch = -1;
	static void *b = NULL; static size_t z;
	if (!b) { pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &b, &z); pthread_attr_destroy(&at); }
	m.bottom = b; m.size = z;
	T.push_back(m);
	T.reserve(MAXT + 1);
	cur = 0; live = 0; low = 0; creates = 0; since = 0; batch = -1; batch_n = 0;
	if (record) { conf.clear(); racy.clear(); }
	mxs.clear(); bars.clear(); shadow.clear(); next_point.clear();
	inside = false;
	active = true;
}
bool threads_active() { return active; }
void threads_main_stack(const void *bottom, size_t size) { if (!T.empty()) { T[0].bottom = bottom; T[0].size = size; } }
bool threads_live() { return live > 0; }
ThreadStats threads_end() {
	if (live) { // detached threads: let them finish
		R.open_end = live;
		T[0].st = RUN; T[0].prio = INT64_MIN;
		while (live) { int n = runnable(); if (n == 0) { n = -1; for (size_t i = 1; i < T.size(); ++i) if (T[i].st == RUN) n = i; } if (n <= 0) die("DEADLOCK: a detached thread never ends"); go(n); }
	}
	active = false;
	for (size_t i = 1; i < T.size(); ++i) if (T[i].st == DONE) reap(i);
	if (recording) {
		for (auto &c : conf) R.conflicts.push_back(c.first);
		for (auto &c : conf) { racy.push_back((uint64_t)c.first.first); racy.push_back((uint64_t)c.first.second); }
		std::sort(racy.begin(), racy.end());
		racy.erase(std::unique(racy.begin(), racy.end()), racy.end());
	}
	return R;
}
} // namespace sim

using namespace sim;
// --- accesses of the instrumented code ---
#define PC __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_load1(uint8_t *a) { access((uintptr_t)a, 1, false, PC); }
void __sanitizer_cov_load2(uint16_t *a) { access((uintptr_t)a, 2, false, PC); }
void __sanitizer_cov_load4(uint32_t *a) { access((uintptr_t)a, 4, false, PC); }
void __sanitizer_cov_load8(uint64_t *a) { access((uintptr_t)a, 8, false, PC); }
void __sanitizer_cov_load16(__uint128_t *a) { access((uintptr_t)a, 16, false, PC); }
void __sanitizer_cov_store1(uint8_t *a) { access((uintptr_t)a, 1, true, PC); }
void __sanitizer_cov_store2(uint16_t *a) { access((uintptr_t)a, 2, true, PC); }
void __sanitizer_cov_store4(uint32_t *a) { access((uintptr_t)a, 4, true, PC); }
void __sanitizer_cov_store8(uint64_t *a) { access((uintptr_t)a, 8, true, PC); }
void __sanitizer_cov_store16(__uint128_t *a) { access((uintptr_t)a, 16, true, PC); }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc() {}

// --- pthreads ---
#define REAL(name, ...) do { typedef decltype(&name) F; static F f = (F)dlsym(RTLD_NEXT, #name); return f(__VA_ARGS__); } while (0)
const uintptr_t TID = 0x51510000;
static int tid_of(pthread_t t) { uintptr_t v = (uintptr_t)t; return active && v > TID && v <= TID + MAXT && v - TID < T.size() ? (int)(v - TID) : -1; }

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	if (!active) REAL(pthread_create, t, a, fn, arg);
	if (S.fail_create == creates++) return EAGAIN;
	bool was = inside; inside = true;
	int id = thread_new(fn, arg);
	if (id < 0) { inside = was; return EAGAIN; }
	*t = (pthread_t)(TID + id);
	maybe_switch();
	inside = was;
	return 0;
}
int pthread_join(pthread_t t, void **ret) {
	if (!active) REAL(pthread_join, t, ret);
	int id = tid_of(t);
	if (id < 0 || T[id].st == GONE || T[id].detached) return ESRCH;
	if (id == cur) return EDEADLK;
	bool was = inside; inside = true;
	if (T[id].st != DONE) { T[cur].st = JOIN; T[cur].on = id; block(); }
	if (ret) *ret = T[id].ret;
	reap(id);
	inside = was;
	return 0;
}
int pthread_detach(pthread_t t) {
	if (!active) REAL(pthread_detach, t);
	int id = tid_of(t);
	if (id < 0) return ESRCH;
	T[id].detached = true;
	return 0;
}
static int lock_(void *m, bool block_) {
	Mx &x = mxs.insert(std::make_pair(m, Mx{-1, 0})).first->second;
	while (x.owner >= 0 && x.owner != cur) {
		if (!block_) return EBUSY;
		T[cur].st = MUTEX; T[cur].obj = m;
		block();
	}
	x.owner = cur; x.depth++;
	return 0;
}
static void unlock_(void *m) {
	Mx &x = mxs[m];
	if (--x.depth > 0) return;
	x.depth = 0; x.owner = -1;
	for (auto &t : T) if (t.st == MUTEX && t.obj == m) t.st = RUN;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!active || inside) { if (active) return 0; REAL(pthread_mutex_lock, m); }
	inside = true; demote(); maybe_switch(); inside = true; lock_(m, true); inside = false;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
	if (!active || inside) { if (active) return 0; REAL(pthread_mutex_trylock, m); }
	inside = true; int r = lock_(m, false); inside = false;
	return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	if (!active || inside) { if (active) return 0; REAL(pthread_mutex_unlock, m); }
	inside = true; unlock_(m); inside = false;
	return 0;
}
static int wait_(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
	inside = true;
	unlock_(m);
	T[cur].st = COND; T[cur].obj = c; T[cur].timed = timed; T[cur].timed_out = false;
	block(); inside = true;
	bool to = T[cur].timed_out;
	lock_(m, true);
	inside = false;
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active) REAL(pthread_cond_wait, c, m); return wait_(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!active) REAL(pthread_cond_timedwait, c, m, t); return wait_(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { if (!active) REAL(pthread_cond_clockwait, c, m, k, t); return wait_(c, m, true); }
int pthread_cond_signal(pthread_cond_t *c) {
	if (!active) REAL(pthread_cond_signal, c);
	std::vector<int> w;
	for (size_t i = 0; i < T.size(); ++i) if (T[i].st == COND && T[i].obj == c) w.push_back(i);
	if (!w.empty()) T[w[rng.below(w.size())]].st = RUN;
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!active) REAL(pthread_cond_broadcast, c);
	for (auto &t : T) if (t.st == COND && t.obj == c) t.st = RUN;
	return 0;
}
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *a, unsigned n) { if (!active) REAL(pthread_barrier_init, b, a, n); bars[b] = Bar{n, 0}; return 0; }
int pthread_barrier_destroy(pthread_barrier_t *b) { if (!active) REAL(pthread_barrier_destroy, b); bars.erase(b); return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) {
	if (!active) REAL(pthread_barrier_wait, b);
	Bar &x = bars[b];
	if (++x.have >= x.need) {
		x.have = 0;
		for (auto &t : T) if (t.st == BARRIER && t.obj == b) t.st = RUN;
		return PTHREAD_BARRIER_SERIAL_THREAD;
	}
	bool was = inside; inside = true;
	T[cur].st = BARRIER; T[cur].obj = b;
	block();
	inside = was;
	return 0;
}
static int yield_() { if (live) { inside = true; demote(); maybe_switch(); inside = false; } return 0; }
int sched_yield() { if (!active) REAL(sched_yield); return yield_(); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!active) REAL(nanosleep, a, b); return yield_(); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec *a, struct timespec *b) { if (!active) REAL(clock_nanosleep, k, fl, a, b); return yield_(); }
int usleep(useconds_t u) { if (!active) REAL(usleep, u); return yield_(); }
}
