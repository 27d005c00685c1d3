// Simulated sessions of one prover/verifier pair of /repo.
#include "adversary.h"
#include <memory>

namespace sim {
static Actors *g_act = NULL;
static Actors &actors() { if (!g_act) g_act = new Actors(); return *g_act; }

static int pick_entropy(Run &r, Entropy &e) {
	int m = r.ch.chance(1, 2, "entropy fault") ? (int)r.ch.pick(ENT_MODES, "entropy mode") : ENT_UNIFORM;
	e.configure(m, r.ch.raw("entropy seed"));
	if (m != ENT_UNIFORM) r.fault((std::string("entropy.") + ent_name[m]).c_str());
	r.say("entropy %s", ent_name[m]);
	return m;
}
static void pick_world(Run &r) {
	static const int fills[] = {0, 0, 0xff, 0xa5, 0x01};
	g_clock.mode = r.ch.pick(5, "clock mode");
	g_clock.rng = Rng(r.ch.raw("clock seed"));
	if (g_clock.mode) { static const char *n[] = {"", "clock.slow", "clock.jump_forward", "clock.backwards", "clock.stuck"}; r.fault(n[g_clock.mode]); }
	g_alloc_fill = fills[r.ch.pick(5, "fresh memory")];
	if (g_alloc_fill > 0) r.fault("memory.dirty");
}
static void finish(Run &r, Session &s) {
	r.note(s.hist);
	if (!s.bad_order.empty()) r.note((uint64_t)77);
	r.st.hit("messages", s.msgs);
	r.st.hit("seam_calls", s.calls);
}
static uint64_t shape_state(const Circuit &c, uint64_t extra) { return mix64(c.shape() ^ mix64(extra)); }
} // namespace sim
#include "h_more.h"
namespace sim {

static void run_honest(const std::string &prop, Run &r) {
	bool verdict = prop != "C03", messages = prop != "C01";
	if (verdict && r.ch.chance(1, 40, "whole program")) { run_program_honest(r); return; }
	GenOpt o(STACK_ID);
	Circuit c = gen_circuit(r.ch, o);
	int style = r.ch.pick(4, "file layout");
	Entropy e;
	int em = pick_entropy(r, e);
	pick_world(r);
	r.say("%s", c.brief().c_str());
	Session s;
	setup(s, r, c);
	s.use_base = true;
	s.compare = messages;
	std::string text = c.text(style);
	if (STACK == 1 && r.ch.chance(1, 12, "circuit in a string")) s.text = &text;
	int v = run_session(actors(), s, e, text);
	finish(r, s);
	r.state(shape_state(c, em * 16 + g_clock.mode));
	if (messages && !s.mism.empty()) r.violate("message:" + s.mism[0].first, "%s", s.mism[0].second.c_str());
	if (verdict && v != V_ACCEPT) {
		RefVerdict rv = ref_verify(s.model, s.T);
		r.violate(v == V_STOPPED ? "honest-run-derailed" : "honest-rejected", "honest proof rejected (reference verifier: %s)", rv.accept ? "accepts the same messages" : rv.why.c_str());
	}
	r.st.hit(v == V_ACCEPT ? "verdict.accept" : "verdict.reject");
}

// --- soundness ---
struct Attack {
	std::string name;
	std::unique_ptr<Behaviour> b;
	bool lied;
	Model lm;
	Attack() : lied(false) {}
};
static bool make_attack(Run &r, const Circuit &c, const Model &m, const Known &K, const Known &prev, Attack &a) {
	Choices &ch = r.ch;
	std::vector<Check> cs = all_checks(m);
	// favour the rare kinds of check
	Check E;
	int pref = ch.pick(4, "check preference");
	if (pref == 0) {
		std::vector<Check> f;
		int kinds[] = {3, 4, 5, 0, 1, 2};
		int k = kinds[ch.pick(6, "check kind")];
		for (auto &x : cs) if (x.kind == k) f.push_back(x);
		E = f.empty() ? cs[ch.pick(cs.size(), "check")] : f[ch.pick(f.size(), "check")];
	} else if (pref == 1) { // last rounds, first and last layers
		std::vector<Check> f;
		for (auto &x : cs) if (x.kind <= 2 && x.j + 1 == (x.kind == 0 ? m.logc : m.bits[x.layer - 1])) f.push_back(x);
		for (auto &x : cs) if (x.kind <= 3 && (x.layer == 1 || x.layer == m.nl - 1)) f.push_back(x);
		E = f.empty() ? cs[ch.pick(cs.size(), "check")] : f[ch.pick(f.size(), "check")];
	} else E = cs[ch.pick(cs.size(), "check")];
	std::string en = check_name(E.kind);
	switch (ch.pick(10, "attack")) {
		case 0: case 1: case 2:
			a.b.reset(new LiePath(ch, m, &K, E)); a.name = "lie-until-" + en; break;
		case 3: case 4:
			if (E.kind == 5) { a.b.reset(new LiePath(ch, m, &K, E)); a.name = "lie-until-" + en; break; }
			a.b.reset(new OneViolation(ch, m, &K, E)); a.name = "violate-" + en; break;
		case 5:
			if (E.kind > 2) E = cs[0];
			a.b.reset(new Gambler(ch, m, &K, E, &prev)); a.name = std::string("bet-on-") + check_name(E.kind); break;
		case 6:
#if STACK == 1
			a.b.reset(new TwoFaced(ch, m, &K)); a.name = "two-faced-vu"; break;
#endif
		case 7:
			if (ch.chance(1, 5, "unreduced outputs")) { a.b.reset(new RawOutputs(ch, m)); a.name = "unreduced-outputs"; break; }
			a.b.reset(new WireFault(ch, wire_messages(m), &prev)); a.name = "wire-fault"; break;
		case 8: {
			Circuit o; std::string what;
			if (!mutate(ch, c, o, what)) return false;
			a.lied = true; a.lm = Model(o, STACK_ID); a.name = "other-circuit"; break;
		}
		default: {
			std::vector<Model::Flip> f;
			int n = 1 + ch.pick(2, "false wires");
			for (int i = 0; i < n; ++i) {
				Model::Flip x;
				x.layer = ch.pick(m.nl, "false layer");
				x.copy = ch.pick(1u << m.logc, "false copy");
				x.g = ch.pick(1u << m.bits[x.layer], "false gate");
				x.d = pattern(ch);
				f.push_back(x);
			}
			a.lied = true; a.lm = Model(c, STACK_ID, f); a.name = "false-wire"; break;
		}
	}
	r.st.hit("attack." + a.name);
	r.fault(a.name.c_str());
	return true;
}
static void run_sound(const std::string &prop, Run &r) {
	(void)prop;
	if (r.ch.chance(1, 25, "whole program")) { run_program_sound(r); return; }
	GenOpt o(STACK_ID);
	o.max_depth = 4; o.max_bits = 3; o.max_logc = 2;
	Circuit c = gen_circuit(r.ch, o);
	pick_world(r);
	r.say("%s", c.brief().c_str());
	Model truth(c, STACK_ID);
	uint64_t es = r.ch.raw("entropy seed");
	std::string text = c.text();
	Known K, prev;
	{
		Entropy e; e.configure(ENT_UNIFORM, es ^ 0x9999);
		Session s; setup(s, r, c);
		bool vb = r.verbose; r.verbose = false;
		run_session(actors(), s, e, text);
		prev.ok = s.bad_order.empty(); prev.T = s.T;
		Entropy e2; e2.configure(ENT_UNIFORM, es);
		Session t; setup(t, r, c);
		int v = run_session(actors(), t, e2, text);
		r.verbose = vb;
		K.ok = v == V_ACCEPT; K.T = t.T;
		r.note(t.hist);
		if (!K.ok) r.probe("rehearsal_rejected");
	}
	int n = 1 + r.ch.pick(4, "attacks");
	for (int i = 0; i < n; ++i) {
		Attack a;
		if (!make_attack(r, c, truth, K, prev, a)) continue;
		r.say("attack %s", a.name.c_str());
		Entropy e; e.configure(ENT_UNIFORM, es);
		Session s; setup(s, r, c);
		if (a.lied) { s.use_lied = true; s.lied = a.lm; }
		s.beh = a.b.get();
		// now and then the attacked messages come from the real prover
		if (!a.lied && a.name.find("two-faced") == std::string::npos && r.ch.chance(1, 4, "real prover under attack")) s.use_base = true;
		int v = run_session(actors(), s, e, text);
		finish(r, s);
		RefVerdict rv = ref_verify(truth, s.T);
		bool truthful = s.sent_out == truth.V[truth.nl - 1];
		r.state(shape_state(c, std::hash<std::string>()(a.name + rv.why) + v));
		r.st.hit(std::string("refverdict.") + (rv.accept ? "accept" : rv.why));
		r.say("verdict %d, reference %s %s, outputs %s", v, rv.accept ? "accepts" : "rejects", rv.why.c_str(), truthful ? "true" : "false");
		if (v == V_ACCEPT && !truthful) { r.violate("accepts-false-output", "attack %s: false outputs accepted (reference verifier: %s)", a.name.c_str(), rv.accept ? "accepts too" : rv.why.c_str()); return; }
		if (v == V_ACCEPT && !rv.accept) { r.violate("check-not-enforced:" + rv.why, "attack %s: accepted although the reference verifier rejects at %s", a.name.c_str(), rv.why.c_str()); return; }
		r.st.hit(v == V_ACCEPT ? "verdict.accept" : v == V_REJECT ? "verdict.reject" : "verdict.stopped");
	}
}

#if STACK == 4
} // namespace sim
#include "h_par.h"
namespace sim {
#endif
static void dispatch(const std::string &prop, Run &r) {
	static bool init = false;
	if (!init) { prime_field::init("16798108731015832284940804142231733909759579603404752749028378864165570215949", 10); init = true; }
	if (prop == "C01" || prop == "C03" || prop == "C05" || prop == "C07") run_honest(prop, r);
	else if (prop == "C02" || prop == "C06" || prop == "C08") run_sound(prop, r);
#if STACK == 4
	else if (prop == "C11") run_threads(r);
	else if (prop == "C18") run_sound(prop, r);
#endif
	else if (prop == "C15") run_hostile(r);
	else if (prop == "C04") run_challenges(r);
	else if (prop == "C09") run_files(r);
	else if (prop == "C10") run_isolation(r);
	else { fprintf(stderr, "unknown property\n"); exit(2); }
}
} // namespace sim
int main(int argc, char **argv) {
	sim::Harness h = {STACK_NAME, sim::dispatch, NULL};
	return sim::sim_main(argc, argv, h);
}
