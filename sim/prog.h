// The shipped programs themselves (their main), run in a child process with their
// provers replaced by simulated ones, or unchanged.
#pragma once
#include "adversary.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <signal.h>

namespace sim {
// sessions for the provers the program creates, in the order it first uses them
static std::vector<Session *> *g_prog_sessions = NULL;
static size_t g_prog_next = 0;
struct ProgProver : SimProver {
	ProgProver() {}
	void bind() {
		if (S) return;
		if (!g_prog_sessions || g_prog_next >= g_prog_sessions->size()) { static const char m[] = "simulator: program starts more sessions than expected\n"; if (write(2, m, sizeof m - 1)) {} _exit(78); }
		S = (*g_prog_sessions)[g_prog_next++];
	}
#if STACK == 3
	virtual void init_array(int n, int b) { bind(); SimProver::init_array(n, b); }
	virtual void get_circuit(const blocked_circuit &c) { bind(); SimProver::get_circuit(c); }
#else
	virtual void init_array(int n) { bind(); SimProver::init_array(n); }
	virtual void get_circuit(const layered_circuit &c) { bind(); SimProver::get_circuit(c); }
#endif
};
}
#define main libra_main
namespace prog_plain {
#include PROGRAM
}
#define prover sim::ProgProver
namespace prog_sim {
#include PROGRAM
}
#undef prover
#undef main

namespace sim {
inline int call_main(int (*f)(int, char **), int n, char **v) { return f(n, v); }
inline int call_main(int (*f)(), int, char **) { return f(); }
struct ProgArgs {
	std::string dir, path;
	int copies, logc;
	bool plain;
};
static void prog_child(void *a) {
	ProgArgs &p = *(ProgArgs *)a;
	if (chdir(p.dir.c_str())) _exit(79);
	char x0[] = "program";
	std::vector<char> x1(p.path.begin(), p.path.end()); x1.push_back(0);
	char x2[24], x3[24];
	snprintf(x2, sizeof x2, "%d", p.copies); snprintf(x3, sizeof x3, "%d", p.logc);
	char *argv[] = {x0, x1.data(), x2, x3, NULL};
	int rc;
#if STACK == 4
	threads_begin(Schedule(), false);
#endif
	try { rc = p.plain ? call_main(prog_plain::libra_main, 4, argv) : call_main(prog_sim::libra_main, 4, argv); }
	catch (int) { rc = 90; } // the simulator refused a request no honest run makes
	exit(rc);
}
struct ProgShared {
	int sessions;      // finished sessions seen
	int false_out;     // sessions whose outputs are false
	int ref_rejects;   // sessions the reference verifier rejects
	int mism;
	char what[200];
	uint64_t hist;
};
static ProgShared *g_prog_shared = NULL;
inline ProgShared &prog_shared() {
	if (!g_prog_shared) g_prog_shared = (ProgShared *)mmap(NULL, sizeof(ProgShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	return *g_prog_shared;
}
// called in the child when the program ends (also through exit)
static void prog_report() {
	ProgShared &p = *g_prog_shared;
	if (!g_prog_sessions) return;
	for (size_t k = 0; k < g_prog_next; ++k) {
		Session &s = *(*g_prog_sessions)[k];
		p.sessions++;
		RefVerdict rv = ref_verify(s.model, s.T);
		if (s.T.out != s.model.V[s.model.nl - 1]) p.false_out++;
		if (!rv.accept) p.ref_rejects++;
		if (!s.mism.empty() && !p.mism++) snprintf(p.what, sizeof p.what, "%s", s.mism[0].second.c_str());
		if (!s.bad_order.empty() && !p.mism++) snprintf(p.what, sizeof p.what, "%s", s.bad_order.c_str());
		p.hist = mix64(p.hist ^ s.hist);
	}
}
struct ProgRun { ProgArgs a; std::vector<Session *> *ss; };
static void prog_child_sessions(void *x) {
	ProgRun &r = *(ProgRun *)x;
	g_prog_sessions = r.ss; g_prog_next = 0;
	if (chdir(r.a.dir.c_str())) _exit(79);
	atexit(prog_report);
	char x0[] = "program";
	std::vector<char> x1(r.a.path.begin(), r.a.path.end()); x1.push_back(0);
	char x2[24], x3[24];
	snprintf(x2, sizeof x2, "%d", r.a.copies); snprintf(x3, sizeof x3, "%d", r.a.logc);
	char *argv[] = {x0, x1.data(), x2, x3, NULL};
	int rc;
#if STACK == 4
	threads_begin(Schedule(), false);
#endif
	try { rc = call_main(prog_sim::libra_main, 4, argv); }
	catch (int) { rc = 90; }
	exit(rc); // and on to the program's static destructors
}
inline bool says_pass(const std::string &o) { return o.find("Pass") != std::string::npos; }
inline bool says_fail(const std::string &o) { return o.find("Fail") != std::string::npos; }
// run the program over the given sessions; the circuit file is in place
inline ChildEnd run_program(std::vector<Session *> &ss, const std::string &dir, int copies, int logc, double timeout = 20) {
	memset(&prog_shared(), 0, sizeof(ProgShared));
	ProgRun r;
	r.a.dir = dir; r.a.path = dir + "/test_circuit.txt"; r.a.copies = copies; r.a.logc = logc; r.a.plain = false;
	r.ss = &ss;
	return in_child(prog_child_sessions, &r, timeout);
}
inline ChildEnd run_program_plain(const std::string &dir, int copies, int logc, double timeout = 20) {
	ProgArgs a;
	a.dir = dir; a.path = dir + "/test_circuit.txt"; a.copies = copies; a.logc = logc; a.plain = true;
	return in_child(prog_child, &a, timeout);
}
} // namespace sim
