// The multi-threaded prover under a simulated scheduler (C11).
#pragma once
#include "threads.h"

namespace sim {
static bool session_ok(Run &r, Session &s, int v, const char *how) {
	finish(r, s);
	if (!s.mism.empty()) { r.violate("message:" + s.mism[0].first, "%s: %s", how, s.mism[0].second.c_str()); return false; }
	if (v != V_ACCEPT) { r.violate(v == V_STOPPED ? "honest-run-derailed" : "honest-rejected", "%s: honest proof rejected", how); return false; }
	return true;
}
struct FailArg { Run *r; const Circuit *c; const std::string *text; Schedule sc; uint64_t es; int em; };
static void fail_child(void *x) {
	FailArg &a = *(FailArg *)x;
	Session s; setup(s, *a.r, *a.c);
	s.use_base = true; s.compare = true;
	Entropy e; e.configure(a.em, a.es);
	threads_begin(a.sc, false);
	int v = run_session(actors(), s, e, *a.text);
	threads_end();
	printf("verdict %d %d\n", v, (int)s.mism.size());
	fflush(stdout);
	_exit(0);
}
static void run_threads(Run &r) {
	GenOpt o(STACK_ID);
	o.big = 30;
	Circuit c = gen_circuit(r.ch, o);
	std::string text = c.text(r.ch.pick(4, "file layout"));
	Entropy e0;
	int em = r.ch.chance(1, 2, "entropy fault") ? (int)r.ch.pick(ENT_MODES, "entropy mode") : ENT_UNIFORM;
	uint64_t es = r.ch.raw("entropy seed");
	if (em != ENT_UNIFORM) r.fault((std::string("entropy.") + ent_name[em]).c_str());
	pick_world(r);
	r.say("%s", c.brief().c_str());
	ThreadStats base;
	{ // one thread after the other
		Session s; setup(s, r, c);
		s.use_base = true; s.compare = true;
		Entropy e; e.configure(em, es);
		threads_begin(Schedule(), true);
		int v = run_session(actors(), s, e, text);
		base = threads_end();
		r.st.hit("threads", base.threads); r.st.hit("accesses", base.accesses);
		if (!session_ok(r, s, v, "threads one after the other")) return;
	}
	if (!base.conflicts.empty()) r.probe("unordered_conflicting_accesses");
	int n = 1 + (int)r.ch.pick(3, "schedules");
	for (int k = 0; k < n; ++k) {
		Schedule sc;
		static const char *names[] = {"serial", "points", "random", "stall", "racy"};
		sc.mode = (int)r.ch.pick(5, "schedule kind");
		sc.order = (int)r.ch.pick(3, "thread order");
		if (sc.mode == Schedule::SERIAL && !sc.order) sc.order = 1;
		sc.seed = r.ch.raw("schedule seed");
		sc.shift = 1 + (int)r.ch.pick(12, "switch rate");
		if (base.batches && sc.mode == Schedule::POINTS) {
			int np = 1 + (int)r.ch.pick(4, "pauses");
			for (int i = 0; i < np; ++i) {
				Point p;
				p.batch = (int)r.ch.pick(base.batches, "pause batch");
				const std::vector<uint64_t> &l = base.len[p.batch];
				p.thread = (int)r.ch.pick(l.empty() ? 1 : l.size(), "pause thread");
				p.at = 1 + r.ch.pick(l.empty() || !l[p.thread] ? 1 : l[p.thread], "pause access");
				sc.points.push_back(p);
				r.fault("thread-paused");
			}
		}
		if (sc.mode == Schedule::STALL) r.fault("thread-stalled-in-every-batch");
		if (sc.mode == Schedule::RANDOM) r.fault("random-preemption");
		if (sc.mode == Schedule::RACY) r.fault("preemption-at-conflicts");
		if (sc.order) r.fault(sc.order == 1 ? "children-first" : "random-thread-order");
		r.say("schedule %s order %d seed %lx rate 2^-%d, %d pauses", names[sc.mode], sc.order, (unsigned long)sc.seed, sc.shift, (int)sc.points.size());
		for (auto &p : sc.points) r.say("  pause thread %d of batch %d before its access %lu", p.thread, p.batch, (unsigned long)p.at);
		if (r.ch.chance(1, 40, "thread creation fails")) {
			FailArg a = {&r, &c, &text, sc, es, em};
			a.sc.fail_create = (long)r.ch.pick(base.threads ? base.threads : 1, "which creation");
			r.fault("thread-creation-failed");
			ChildEnd ce = in_child(fail_child, &a, 20);
			int v = -1, m = 0;
			r.note((uint64_t)ce.code + ce.sig * 256);
			if (ce.hung) { r.violate("hung-after-failed-creation", "the program hangs after pthread_create failed"); return; }
			if (ce.asan) { r.violate("memory-error-after-failed-creation", "memory error after pthread_create failed"); return; }
			const char *p = strstr(ce.out.c_str(), "verdict ");
			if (p && sscanf(p, "verdict %d %d", &v, &m) == 2 && (v != V_ACCEPT || m)) { r.violate("wrong-after-failed-creation", "a thread could not be created and the run went on to verdict %d with %d wrong messages", v, m); return; }
			r.st.hit(p ? "creation_failure.survived" : "creation_failure.ended");
			continue;
		}
		Session s; setup(s, r, c);
		s.use_base = true; s.compare = true;
		Entropy e; e.configure(em, es);
		threads_begin(sc, false);
		int v = run_session(actors(), s, e, text);
		ThreadStats ts = threads_end();
		r.note(ts.order_hash);
		r.state(mix64(c.shape()) ^ ts.order_hash);
		r.st.hit("threads", ts.threads); r.st.hit("accesses", ts.accesses); r.st.hit("switches", ts.switches);
		if (ts.open_end) r.probe("threads_outlive_the_session");
		if (!session_ok(r, s, v, names[sc.mode])) return;
		r.st.hit("verdict.accept");
	}
}
} // namespace sim
