// Adapter between the simulator and one prover/verifier pair of /repo.
// STACK: 1 linear (A), 2 traditional (B), 3 data-parallel (C).
#pragma once
#include "circ.h"
#if STACK == 1
#include "linear_gkr/verifier_fast_track.h"
#include "linear_gkr/prover_fast_track.h"
#define STACK_NAME "linear"
#define STACK_ID sim::SA
#elif STACK == 2
#include "traditional_gkr/verifier_traditional.h"
#include "traditional_gkr/prover_clogc.h"
#define STACK_NAME "traditional"
#define STACK_ID sim::SB
#elif STACK == 3
#include "traditional_gkr/verifier_bc_clogc.h"
#include "traditional_gkr/prover_bc_clogc.h"
#define STACK_NAME "dataparallel"
#define STACK_ID sim::SC
#elif STACK == 4
#include "linear_gkr/verifier_fast_para_track.h"
#include "linear_gkr/prover_fast_para_track.h"
#define STACK_NAME "parallel"
#define STACK_ID sim::SE
#include "threads.h"
#endif
#include "fe.h"
#include <functional>
#include <new>

namespace sim {

enum MsgKind { K_OUT, K_VRES, K_P0, K_P1, K_VU, K_P2, K_FIN };
inline const char *msg_name(int k) { static const char *n[] = {"outputs", "V_res", "phase0", "phase1", "v_u", "phase2", "claims"}; return n[k]; }

// What a (possibly cheating) prover sends. The default sends the honest message.
struct Session;
struct Behaviour {
	virtual ~Behaviour() {}
	virtual void outputs(Session &, Vec &) {}
	virtual Fp vres(Session &, const Fp &honest) { return honest; }
	virtual Poly round(Session &, int phase, int layer, int j, const Poly &honest, const Fp &claim) { (void)phase; (void)layer; (void)j; (void)claim; return honest; }
	// value announced for V(r_u) before phase 2; the phase-2 polynomials that follow are honest for `base`
	virtual void vu(Session &, int layer, const Fp &honest, const Fp &claim, Fp &announce, Fp &base) { (void)layer; (void)claim; announce = base = honest; }
	virtual void fin(Session &, int layer, const Fp &claim, Fp &vu, Fp &vv) { (void)layer; (void)claim; (void)vu; (void)vv; }
	virtual bool field_vu(Session &, int layer, int j, Fp &v) { (void)layer; (void)j; (void)v; return false; } // rewrite the public v_u field in round j
	virtual bool blk_val(Session &, int layer, const Fp &claim, Fp &v) { (void)layer; (void)claim; (void)v; return false; } // C: the public beta_blk_val field
	virtual bool raw(Session &, int kind, int idx, FE *v, int n) { (void)kind; (void)idx; (void)v; (void)n; return false; } // last word on the representation sent
};

class SimProver;
struct Chal { Fp v; int cn; std::string name; }; // a challenge and the message (number) it tests
struct Session {
	Run *run;
	const Circuit *circ;
	Model model;       // truth
	Model lied;        // what the simulated prover computes from
	bool use_lied;
	bool use_base;     // messages come from the real prover
	const std::string *text; // the circuit comes from this string instead of a file
	bool compare;      // compare the real prover's messages with the reference
	Behaviour *beh;
	Transcript T;
	RefProver rp, hp;  // rp: on the prover's own tables
	Fp claim;
	Poly last;
	int calls, msgs;   // seam calls, messages
	int cur_layer, cur_phase, cur_round;
	std::string bad_order;
	std::vector<std::pair<std::string, std::string>> mism; // message mismatches (C03)
	std::string early;               // a challenge visible before its message
	std::function<void(const char *)> on_call; // scheduler hook
	std::vector<Chal> chal;          // challenges of this session
	const std::vector<Chal> *watch;  // challenges it will get (from a rehearsal): none may show before its message
	int last_msg;
	bool claims_from_vres;
	bool record_vis;
	int max_calls;
	std::vector<uint64_t> shape;     // event kinds, for distinct-state counting
	Vec sent_out;                    // outputs as they arrive (any representation, taken modulo p)
	bool noncanon_out;
	uint64_t hist;                   // messages, challenges and verdict of this session
	Session() : run(NULL), circ(NULL), use_lied(false), use_base(false), text(NULL), compare(false), beh(NULL), calls(0), msgs(0), cur_layer(-1), cur_phase(-1), cur_round(-1), claims_from_vres(false), record_vis(false), max_calls(0), noncanon_out(false), watch(NULL), last_msg(0), hist(99) {}
	void h(uint64_t x) { hist = mix64(hist ^ x); }
	void h(const Fp &x) { h(x.fold()); }
	const Model &pm() const { return use_lied ? lied : model; }
	void expected_calls() { // fixed by the shape of the circuit
		int n = 4;
		for (int i = 1; i < model.nl; ++i) n += 5 + model.logc + 2 * model.bits[i - 1];
		max_calls = n + 2;
	}
	void mismatch(const char *what, int layer, int j, const char *how) {
		char b[160]; snprintf(b, sizeof b, "%s layer %d round %d: %s", what, layer, j, how);
		if (mism.size() < 8) mism.push_back(std::make_pair(std::string(what) + ":" + how, std::string(b)));
	}
	LayerT &cur() { return T.L.back(); }
};

static Behaviour g_honest;

// fields of the prover the verifier may read, where they exist
template <class T> inline auto put_vu(T *p, const FE &x, int) -> decltype(p->v_u = x, void()) { p->v_u = x; }
template <class T> inline void put_vu(T *, const FE &, long) {}
template <class T> inline auto put_blk(T *p, const FE &x, int) -> decltype(p->beta_blk_val = x, void()) { p->beta_blk_val = x; }
template <class T> inline void put_blk(T *, const FE &, long) {}
template <class T> inline auto zero_time(T *p, int) -> decltype(p->total_time = 0, void()) { p->total_time = 0; }
template <class T> inline void zero_time(T *, long) {}

class SimProver : public prover {
public:
	Session *S;
	std::vector<FE> outbuf;
	bool inited;
	SimProver() : S(NULL), inited(false) {}
	void enter(const char *nm) {
		S->calls++;
		S->h(S->calls);
		if (S->run && S->run->verbose && S->calls < 4000) S->run->say("call %s layer=%d", nm, S->cur_layer);
		if (S->watch) { // anything the prover could look at
			const char *b = (const char *)(const prover *)this, *e = b + sizeof(prover), *c0 = e, *c1 = e;
#if STACK == 1 || STACK == 4
			c0 = (const char *)circuit_value; c1 = c0 + sizeof circuit_value;
#endif
			for (const char *q = b; q + 32 <= e; q += 16) {
				if (q >= c0 && q < c1) { q = c1 - 16 + (16 - (uintptr_t)c1 % 16) % 16; continue; }
				match(nm, q);
			}
		}
		if (S->on_call) S->on_call(nm);
	}
	void match(const char *nm, const char *q) {
		mp_limb_t w[4];
		memcpy(w, q, 32);
		if (!(w[1] | w[2] | w[3])) return;
		for (auto &c : *S->watch) {
			if (c.cn <= S->msgs) continue;
			Fp o = Fp(1) - c.v;
			if (!memcmp(w, c.v.l, 32) || !memcmp(w, o.l, 32)) { if (S->early.empty()) S->early = c.name + " visible in " + nm; }
		}
	}
	void peek(const char *nm, const FE *x, int n) {
		if (!S->watch || !x) return;
		for (int k = 0; k < n; ++k) match(nm, (const char *)&x[k]);
	}
	void chal(const char *nm, int layer, int j, const Fp &v, int cn) {
		if (!S->record_vis) return;
		char b[60]; snprintf(b, sizeof b, "%s.%d.%d", nm, layer, j);
		S->chal.push_back(Chal{v, cn, b});
	}
	void order(bool ok, const char *what) { if (!ok && S->bad_order.empty()) S->bad_order = what; }
	Behaviour &B() { return S->beh ? *S->beh : g_honest; }
	FE send(int kind, int idx, const Fp &x) {
		FE r = fe_out(x);
		S->h(x);
		return r;
	}
	void cmp_fe(const char *what, int layer, int j, const FE &real, const Fp &want) {
		if (!S->compare) return;
		if (fe_in(real) != want) S->mismatch(what, layer, j, "value");
		else if (!fe_canonical(real)) S->mismatch(what, layer, j, "not reduced");
	}
	void q2p(const quadratic_poly &q, Poly &p) { p.resize(3); p[2] = fe_in(q.a); p[1] = fe_in(q.b); p[0] = fe_in(q.c); }

#if STACK == 3
	virtual void init_array(int n, int b) { if (S->use_base) prover::init_array(n, b); inited = true; }
	virtual void get_circuit(const blocked_circuit &c) { if (S->use_base) prover::get_circuit(c); }
#else
	virtual void init_array(int n) { if (S->use_base) prover::init_array(n); inited = true; }
	virtual void get_circuit(const layered_circuit &c) { if (S->use_base) prover::get_circuit(c); }
#endif
	virtual void proof_init() { enter("proof_init"); prover::proof_init(); }
	virtual void delete_self() { enter("delete_self"); if (S->use_base) prover::delete_self(); }

	virtual FE *evaluate() {
		enter("evaluate");
		S->msgs++;
		order(!S->T.has_out, "evaluate called twice");
		const Vec &hon = S->pm().V[S->pm().nl - 1];
		FE *r;
		if (S->use_base) {
			r = prover::evaluate();
			for (size_t k = 0; k < S->model.out_size(); ++k) {
				if (S->compare) cmp_fe("outputs", S->model.nl - 1, (int)k, r[k], hon[k]);
			}
			S->T.out = fe_vec(r, S->model.out_size());
			Vec o = S->T.out;
			B().outputs(*S, o);
			if (o != S->T.out) { for (size_t k = 0; k < o.size(); ++k) r[k] = fe_out(o[k]); S->T.out = o; }
		} else {
			S->T.out = hon;
			S->T.out.resize(S->model.out_size());
			B().outputs(*S, S->T.out);
#if STACK == 3
			r = new FE[S->T.out.size()]; // the verifier frees it
#else
			outbuf.assign(S->T.out.size(), FE());
			r = outbuf.data();
#endif
			for (size_t k = 0; k < S->T.out.size(); ++k) r[k] = fe_out(S->T.out[k]);
		}
		S->sent_out = S->T.out;
		if (B().raw(*S, K_OUT, 0, r, S->T.out.size())) S->sent_out = fe_vec(r, S->T.out.size());
		for (auto &x : S->T.out) S->h(x);
		S->T.has_out = true;
		if (S->run && S->run->verbose) { std::string o; for (size_t k = 0; k < S->T.out.size() && k < 16; ++k) o += " " + S->T.out[k].hex(); S->run->say("  -> outputs%s", o.c_str()); }
		S->cur_layer = S->model.nl; S->cur_phase = 9;
		return r;
	}
#if STACK == 3
	virtual FE V_res(const FE *omr0, const FE *r0, const FE *omrb, const FE *rb, const FE *out, int n, int nb, int sz) {
#else
	virtual FE V_res(const FE *omr0, const FE *r0, const FE *out, int n, int sz) {
#endif
		enter("V_res");
		S->msgs++;
		order(S->T.has_out && S->T.L.empty(), "V_res out of order");
		Vec a = fe_vec(r0, n), b;
		S->msgs--; peek("V_res", r0, n); peek("V_res", omr0, n); S->msgs++;
		for (int k = 0; k < n; ++k) chal("r0", S->model.nl - 1, k, a[k], 1);
#if STACK == 3
		b = fe_vec(rb, nb);
		for (int k = 0; k < nb; ++k) chal("rb0", S->model.nl - 1, k, b[k], 1);
		peek("V_res", rb, nb); peek("V_res", omrb, nb);
#endif
		Fp h = mle2(S->T.out, a, b);
		S->T.r0 = a; S->T.rb0 = b;
		FE ret;
		if (S->use_base) {
#if STACK == 3
			ret = prover::V_res(omr0, r0, omrb, rb, out, n, nb, sz);
#else
			ret = prover::V_res(omr0, r0, out, n, sz);
#endif
			cmp_fe("V_res", S->model.nl - 1, 0, ret, h);
		}
		Fp x = B().vres(*S, h);
		if (!S->use_base || x != h) ret = fe_out(x);
		S->T.has_vres = true; S->T.vres = x;
		S->h(x);
		B().raw(*S, K_VRES, 0, &ret, 1);
		if (S->run) S->run->say("  -> %s", x.hex().c_str());
		return ret;
	}
#if STACK == 3
	virtual void sumcheck_init(int layer_id, int blk, int bg, int bu, int bv, const FE &a, const FE &b, const FE *rb0, const FE *r0, const FE *r1, FE *orb0, FE *or0, FE *or1) {
#else
	virtual void sumcheck_init(int layer_id, int bg, int bu, int bv, const FE &a, const FE &b, const FE *r0, const FE *r1, FE *or0, FE *or1) {
#endif
		S->cur_layer = layer_id;
		enter("sumcheck_init");
		int want = S->model.nl - 1 - (int)S->T.L.size();
		order(layer_id == want && S->T.has_out && (S->T.L.empty() || S->cur().fin), "sumcheck_init out of order");
		if (layer_id < 1 || layer_id >= S->model.nl) { S->bad_order = "sumcheck_init for a layer that does not exist"; throw 1; }
		order(bg == S->model.bits[layer_id] && bu == S->model.bits[layer_id - 1] && bv == bu, "sumcheck_init with wrong sizes");
		if (S->T.L.size() > 100000) throw 1;
		LayerT t;
		t.layer = layer_id;
		t.alpha = fe_in(a); t.beta = fe_in(b);
		t.r0 = fe_vec(r0, S->model.bits[layer_id]); t.r1 = fe_vec(r1, S->model.bits[layer_id]);
#if STACK == 3
		order(blk == S->model.logc, "sumcheck_init with wrong block size");
		t.rb0 = fe_vec(rb0, S->model.logc);
		for (auto &x : t.rb0) S->h(x);
#endif
		if (S->T.L.empty()) {
			S->T.r0 = t.r0; S->T.rb0 = t.rb0;
			S->claim = (S->T.has_vres && S->claims_from_vres) ? S->T.vres : mle2(S->T.out, t.r0, t.rb0);
		} else S->claim = t.alpha * S->cur().vu + t.beta * S->cur().vv;
		if (!S->T.L.empty()) { chal("alpha", layer_id, 0, t.alpha, S->msgs); chal("beta", layer_id, 0, t.beta, S->msgs); }
		peek("sumcheck_init", r0, bg); peek("sumcheck_init", r1, bg); peek("sumcheck_init", or0, bg); peek("sumcheck_init", or1, bg);
		peek("sumcheck_init", &a, 1); peek("sumcheck_init", &b, 1);
#if STACK == 3
		peek("sumcheck_init", rb0, S->model.logc); peek("sumcheck_init", orb0, S->model.logc);
#endif
		S->h(t.alpha); S->h(t.beta);
		for (auto &x : t.r0) S->h(x);
		S->T.L.push_back(t);
		S->rp.start(&S->pm(), layer_id, t.alpha, t.beta, t.r0, t.r1, t.rb0);
		S->last.clear();
		S->cur_phase = -1;
		if (S->use_base)
#if STACK == 3
			prover::sumcheck_init(layer_id, blk, bg, bu, bv, a, b, rb0, r0, r1, orb0, or0, or1);
#else
			prover::sumcheck_init(layer_id, bg, bu, bv, a, b, r0, r1, or0, or1);
#endif
	}
	void learn(Vec &into, const char *nm, int j, const FE &prev) { // challenge of the previous round arrives
		Fp r = fe_in(prev);
		S->h(r);
		into.push_back(r);
		chal(nm, S->cur_layer, j, r, S->last_msg);
		S->claim = ref::peval(S->last, r);
	}
#if STACK == 3
	virtual void sumcheck_phase0_init() {
		enter("sumcheck_phase0_init");
		order(!S->T.L.empty() && S->cur_phase == -1, "phase0_init out of order");
		S->cur_phase = 0; S->cur_round = 0;
		if (S->use_base) prover::sumcheck_phase0_init();
	}
	virtual cubic_poly sumcheck_phase0_update(FE prev, int j) {
		enter("sumcheck_phase0_update");
		peek("sumcheck_phase0_update", &prev, 1);
		S->msgs++;
		order(S->cur_phase == 0 && j == (int)S->cur().p0.size() && j < S->model.logc, "phase0 round out of order");
		guard(S->cur_phase == 0 && (int)S->cur().p0.size() < S->model.logc);
		S->cur_round = j;
		if (j > 0) { learn(S->cur().rb, "rb", j - 1, prev); S->rp.bind0(S->cur().rb.back()); }
		Poly h = S->rp.poly0();
		cubic_poly ret;
		if (S->use_base) {
			ret = prover::sumcheck_phase0_update(prev, j);
			cmp_fe("phase0", S->cur_layer, j, ret.a, h[3]); cmp_fe("phase0", S->cur_layer, j, ret.b, h[2]);
			cmp_fe("phase0", S->cur_layer, j, ret.c, h[1]); cmp_fe("phase0", S->cur_layer, j, ret.d, h[0]);
			h[3] = fe_in(ret.a); h[2] = fe_in(ret.b); h[1] = fe_in(ret.c); h[0] = fe_in(ret.d);
		}
		Poly m = B().round(*S, 0, S->cur_layer, j, h, S->claim);
		m.resize(4);
		for (auto &x : m) S->h(x);
		FE z[4];
		if (!S->use_base || m != h) { for (int k = 0; k < 4; ++k) z[k] = fe_out(m[k]); ret = cubic_poly(z[3], z[2], z[1], z[0]); }
		else { z[0] = ret.d; z[1] = ret.c; z[2] = ret.b; z[3] = ret.a; }
		if (B().raw(*S, K_P0, j, z, 4)) ret = cubic_poly(z[3], z[2], z[1], z[0]);
		S->cur().p0.push_back(m); S->last = m; S->last_msg = S->msgs;
		sayp("phase0", j, m, m != h);
		return ret;
	}
	virtual void sumcheck_phase1_init(FE prev) {
		enter("sumcheck_phase1_init");
		peek("sumcheck_phase1_init", &prev, 1);
		order(S->cur_phase == 0 && (int)S->cur().p0.size() == S->model.logc, "phase1_init out of order");
		if (S->model.logc) { guard((int)S->cur().p0.size() == S->model.logc && S->rp.nb == 1); learn(S->cur().rb, "rb", S->model.logc - 1, prev); S->rp.bind0(S->cur().rb.back()); }
		S->cur_phase = 1;
		if (S->use_base) prover::sumcheck_phase1_init(prev);
	}
#else
	virtual void sumcheck_phase1_init() {
		enter("sumcheck_phase1_init");
		order(!S->T.L.empty() && S->cur_phase == -1, "phase1_init out of order");
		S->cur_phase = 1;
		if (S->use_base) prover::sumcheck_phase1_init();
	}
#endif
	void guard(bool ok) { if (!ok) { if (S->bad_order.empty()) S->bad_order = "request that no honest run makes"; throw 1; } }
	void sayp(const char *nm, int j, const Poly &m, bool lie) {
		if (!S->run || !S->run->verbose) return;
		std::string o;
		for (auto &x : m) o += " " + x.hex();
		S->run->say("  -> %s layer %d round %d:%s%s", nm, S->cur_layer, j, o.c_str(), lie ? "   (not the honest message)" : "");
	}
	quadratic_poly round12(int phase, FE prev, int j) {
		S->msgs++;
		LayerT &L = S->cur();
		std::vector<Poly> &ps = phase == 1 ? L.p1 : L.p2;
		order(S->cur_phase == phase && j == (int)ps.size() && j < S->model.bits[S->cur_layer - 1], "round out of order");
		guard(S->cur_phase == phase && (int)ps.size() < S->model.bits[S->cur_layer - 1]);
		S->cur_round = j;
		if (j > 0) { learn(phase == 1 ? L.ru : L.rv, phase == 1 ? "ru" : "rv", j - 1, prev); S->rp.bind(phase == 1 ? L.ru.back() : L.rv.back()); }
		Poly h = S->rp.poly();
		quadratic_poly ret;
		if (S->use_base) {
			ret = phase == 1 ? prover::sumcheck_phase1_update(prev, j) : prover::sumcheck_phase2_update(prev, j);
			const char *nm = phase == 1 ? "phase1" : "phase2";
			cmp_fe(nm, S->cur_layer, j, ret.a, h[2]); cmp_fe(nm, S->cur_layer, j, ret.b, h[1]); cmp_fe(nm, S->cur_layer, j, ret.c, h[0]);
			q2p(ret, h);
		}
		Poly m = B().round(*S, phase, S->cur_layer, j, h, S->claim);
		m.resize(3);
		for (auto &x : m) S->h(x);
		FE z[3];
		if (!S->use_base || m != h) { for (int k = 0; k < 3; ++k) z[k] = fe_out(m[k]); ret = quadratic_poly(z[2], z[1], z[0]); }
		else { z[0] = ret.c; z[1] = ret.b; z[2] = ret.a; }
		if (B().raw(*S, phase == 1 ? K_P1 : K_P2, j, z, 3)) ret = quadratic_poly(z[2], z[1], z[0]);
		ps.push_back(m); S->last = m; S->last_msg = S->msgs;
		sayp(phase == 1 ? "phase1" : "phase2", j, m, m != h);
#if STACK != 3
		if (phase == 2) { Fp f; if (B().field_vu(*S, S->cur_layer, j, f)) { this->v_u = fe_out(f); S->run->say("  v_u field rewritten to %s", f.hex().c_str()); } }
#endif
		return ret;
	}
	virtual quadratic_poly sumcheck_phase1_update(FE prev, int j) { enter("sumcheck_phase1_update"); peek("sumcheck_phase1_update", &prev, 1); guard(!S->T.L.empty()); return round12(1, prev, j); }
	void to_phase2(const FE &prev) {
		guard(!S->T.L.empty());
		LayerT &L = S->cur();
		int n = S->model.bits[S->cur_layer - 1];
		order(S->cur_phase == 1 && (int)L.p1.size() == n, "phase2_init out of order");
		guard(S->cur_phase == 1 && (int)L.p1.size() == n);
		learn(L.ru, "ru", n - 1, prev);
		S->rp.bind(L.ru.back());
		S->cur_phase = 2;
		Fp hv = S->rp.honest_vu(), ann = hv, base = hv;
		B().vu(*S, S->cur_layer, hv, S->claim, ann, base);
		L.vu_latch = ann;
		S->rp.phase2(L.ru, base);
		if (STACK == 1) { Fp d = S->rp.drv(L.ru); S->claim -= d * ann; drv = d; }
	}
	Fp drv;
#if STACK == 3
	virtual void sumcheck_phase2_init(FE prev) {
		enter("sumcheck_phase2_init");
		peek("sumcheck_phase2_init", &prev, 1);
		to_phase2(prev);
		if (S->use_base) prover::sumcheck_phase2_init(prev);
	}
#else
	virtual void sumcheck_phase2_init(FE prev, const FE *ru, const FE *oru) {
		enter("sumcheck_phase2_init");
		peek("sumcheck_phase2_init", &prev, 1);
		to_phase2(prev);
		Vec a = fe_vec(ru, S->model.bits[S->cur_layer - 1]);
		peek("sumcheck_phase2_init", ru, a.size()); peek("sumcheck_phase2_init", oru, a.size());
		if (S->use_base) {
			prover::sumcheck_phase2_init(prev, ru, oru);
			if (S->compare) cmp_fe("v_u", S->cur_layer, 0, this->v_u, S->cur().vu_latch);
			if (fe_in(this->v_u) != S->cur().vu_latch && S->beh) this->v_u = fe_out(S->cur().vu_latch);
			S->cur().vu_latch = fe_in(this->v_u);
		} else this->v_u = fe_out(S->cur().vu_latch);
		B().raw(*S, K_VU, 0, &this->v_u, 1);
		S->h(S->cur().vu_latch);
	}
#endif
	virtual quadratic_poly sumcheck_phase2_update(FE prev, int j) { enter("sumcheck_phase2_update"); peek("sumcheck_phase2_update", &prev, 1); guard(!S->T.L.empty()); return round12(2, prev, j); }
	virtual std::pair<FE, FE> sumcheck_finalize(FE prev) {
		enter("sumcheck_finalize");
		peek("sumcheck_finalize", &prev, 1);
		S->msgs++;
		guard(!S->T.L.empty());
		LayerT &L = S->cur();
		int n = S->model.bits[S->cur_layer - 1];
		order(S->cur_phase == 2 && (int)L.p2.size() == n && !L.fin, "finalize out of order");
		guard(S->cur_phase == 2 && (int)L.p2.size() == n);
		learn(L.rv, "rv", n - 1, prev);
		S->rp.bind(L.rv.back());
		S->cur_phase = 3;
		Fp vu = S->rp.vu, vv = S->rp.honest_vv();
		if (STACK == 1) vu = L.vu_latch;
		std::pair<FE, FE> ret;
		if (S->use_base) {
			ret = prover::sumcheck_finalize(prev);
			cmp_fe("claims.u", S->cur_layer, 0, ret.first, S->rp.vu);
			cmp_fe("claims.v", S->cur_layer, 0, ret.second, vv);
			if (!S->beh || fe_in(ret.first) == vu) vu = fe_in(ret.first);
			vv = fe_in(ret.second);
		}
		Fp u0 = vu, v0 = vv;
		B().fin(*S, S->cur_layer, S->claim, vu, vv);
		if (!S->use_base || u0 != vu || v0 != vv || S->beh) ret = std::make_pair(fe_out(vu), fe_out(vv));
		FE z[2] = {ret.first, ret.second};
		if (B().raw(*S, K_FIN, 0, z, 2)) ret = std::make_pair(z[0], z[1]);
		L.vu = vu; L.vv = vv; L.fin = true;
		S->h(vu); S->h(vv);
#if STACK == 3
		Fp bv;
		if (B().blk_val(*S, S->cur_layer, S->claim, bv)) put_blk((prover *)this, fe_out(bv), 0);
		else if (!S->use_base) put_blk((prover *)this, fe_out(S->rp.scale), 0);
#endif
		if (STACK == 1 && S->beh) { Fp f; if (B().field_vu(*S, S->cur_layer, n, f)) this->v_u = fe_out(f); }
		if (S->run && S->run->verbose) S->run->say("  -> claims layer %d: %s %s%s", S->cur_layer, vu.hex().c_str(), vv.hex().c_str(), (u0 != vu || v0 != vv) ? "   (not the honest message)" : "");
		return ret;
	}
};

// --- running one session against the real verifier ---

struct Actors { // storage for one prover and one verifier (the prover object is large)
	char *mem;
	SimProver *p;
	verifier *v;
	char *vmem;
	Actors() : p(NULL), v(NULL) { mem = (char *)aligned_alloc(64, (sizeof(SimProver) + 127) / 64 * 64); vmem = (char *)aligned_alloc(64, (sizeof(verifier) + 127) / 64 * 64); }
	~Actors() { free(mem); free(vmem); }
	Actors(const Actors &) = delete;
	void fresh() { p = new (mem) SimProver(); v = new (vmem) verifier(); }
};
enum { V_REJECT = 0, V_ACCEPT = 1, V_STOPPED = 2 };

template <class V> inline auto read_string(V *v, const char *t, int) -> decltype(v->read_circuit_from_string((char *)t), bool()) {
	std::vector<char> b(t, t + strlen(t) + 1);
	v->read_circuit_from_string(b.data());
	return true;
}
template <class V> inline bool read_string(V *, const char *, long) { return false; }
inline void load(Actors &a, Session &s, const std::string &path) {
	a.p->S = &s;
	zero_time((prover *)a.p, 0);
#if STACK == 3
	a.v->set_blocks(1 << s.circ->logc, s.circ->logc);
	a.v->get_prover(a.p);
	a.v->read_circuit(path.c_str(), 1 << s.circ->logc);
	if (!s.circ->in.empty())
		for (int b = 0; b < (1 << s.circ->logc); ++b)
			for (size_t g = 0; g < s.circ->L[0].size(); ++g)
				if (s.circ->L[0][g].ty == T_INPUT) a.v->C.blocks[b].circuit[0].gates[g].u = (int)s.circ->in[b][g];
#else
	a.v->get_prover(a.p);
#if STACK == 2
	FILE *f = fopen(path.c_str(), "r");
	a.v->read_circuit_from_FILE(f);
	if (f) fclose(f);
#else
	if (!s.text || !read_string(a.v, s.text->c_str(), 0)) a.v->read_circuit(path.c_str());
#endif
#endif
	a.p->get_circuit(a.v->C);
}
// Is the circuit in the verifier the one in the file (padded with dummies)?
inline bool ingested_ok(Actors &a, const Circuit &c, std::string &why) {
	auto layer_ok = [&](const layer &l, const std::vector<Gate> &g, int li, int kind) -> bool {
		int b = bits_for(g.size());
		if (l.bit_length != b) { why = "bit length of layer " + std::to_string(li); return false; }
		for (int k = 0; k < (1 << b); ++k) {
			const gate &x = l.gates[k];
			if (kind == 1) { if (x.ty != 4 || x.u != k) { why = "relay layer"; return false; } continue; }
			if (k >= (int)g.size()) { if (x.ty != 2) { why = "padding of layer " + std::to_string(li); return false; } continue; }
			const Gate &w = g[k];
			if (x.ty != w.ty || (w.ty != 2 && x.u != w.u) || (w.ty != 2 && w.ty != 3 && x.v != w.v)) { why = "gate " + std::to_string(k) + " of layer " + std::to_string(li); return false; }
		}
		return true;
	};
#if STACK == 3
	if (a.v->C.total_blocks != (1 << c.logc)) { why = "copies"; return false; }
	for (int b = 0; b < a.v->C.total_blocks; ++b) {
		if (a.v->C.blocks[b].total_depth != (int)c.L.size()) { why = "depth"; return false; }
		for (size_t i = 0; i < c.L.size(); ++i) if (!layer_ok(a.v->C.blocks[b].circuit[i], c.L[i], i, 0)) return false;
	}
#elif STACK == 1
	if (a.v->C.total_depth != (int)c.L.size() + 1) { why = "depth"; return false; }
	if (!layer_ok(a.v->C.circuit[0], c.L[0], 0, 0) || !layer_ok(a.v->C.circuit[1], c.L[0], 0, 1)) return false;
	for (size_t i = 1; i < c.L.size(); ++i) if (!layer_ok(a.v->C.circuit[i + 1], c.L[i], i, 0)) return false;
#else
	if (a.v->C.total_depth != (int)c.L.size()) { why = "depth"; return false; }
	for (size_t i = 0; i < c.L.size(); ++i) if (!layer_ok(a.v->C.circuit[i], c.L[i], i, 0)) return false;
#endif
	return true;
}
#if STACK == 4
struct Threads { // worker threads are simulated even where the schedule is not the point
	bool mine;
	Threads() : mine(!threads_active()) { if (mine) threads_begin(Schedule(), false); }
	~Threads() { if (mine) threads_end(); }
};
#else
struct Threads { ~Threads() {} };
#endif
inline int verify(Actors &a, Session &s) {
	int r;
	Threads th;
	try { r = a.v->verify() ? V_ACCEPT : V_REJECT; }
	catch (int) { r = V_STOPPED; } // the simulator refused a request no honest run makes
	s.h(1000 + r);
	return r;
}
inline void setup(Session &s, Run &r, const Circuit &c) {
	s.run = &r; s.circ = &c;
	s.model = Model(c, STACK_ID);
	s.expected_calls();
}
inline int run_session(Actors &a, Session &s, Entropy &e, const std::string &text) {
	std::string path = scratch() + "/circuit.txt";
	write_file(path, text);
	set_entropy(&e);
	a.fresh();
	load(a, s, path);
	int v = verify(a, s);
	set_entropy(NULL);
	return v;
}
} // namespace sim
