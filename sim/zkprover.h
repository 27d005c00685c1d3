// The zero-knowledge prover under the simulator: the real one, with a seam on every
// message on which a strategy can lie, and bookkeeping of how far the verifier's
// claim is from the truth (D) so that a lie passes every check before its target.
#pragma once
#include "zk.h"

namespace sim {
enum ZStage { Z_NONE, Z_P1, Z_P2, Z_C, Z_SEMI, Z_R1, Z_R2, Z_MASK, Z_IUV, Z_PZU, Z_PZV, Z_VULATE, Z_MSUM, Z_MSUMLATE, Z_RDIG, Z_MDIG, Z_FIN, Z_ANS, Z_ZU, Z_INDIG, Z_VRES, Z_RLATE, Z_CANCEL, Z_OUT, Z_STAGES };
static const char *zstage_name[] = {"none", "phase1-round", "phase2-round", "mask-round", "layer-end", "R-opening-u", "R-opening-v", "mask-opening", "own-Iuv", "own-preZu", "own-preZv", "two-faced-v_u", "mask-sum", "mask-sum-late", "R-commitment-late", "mask-commitment-late", "final", "input-opening", "own-Zu", "input-commitment-late", "own-V_res", "R-chosen-late", "cancelling-claims", "outputs-late"};
struct ZPlan {
	bool wrap, drop;     // answers as oversized numbers; the altered element is left out instead
	bool lie, kc;        // kc: choose the message at the target knowing the challenge of a rehearsal
	ZStage stage;
	int layer, round;    // target (layer 0: after the last layer)
	std::vector<ZModel::Flip> flips;
	uint64_t qseed;
	long tamper;         // alter this element (-1: none)
	Fp tdelta;
	int over;            // 0, or how the altered element is sent: the true value, not reduced
	int over_out;        // this output is sent that way
	ZPlan() : wrap(false), drop(false), lie(false), kc(false), stage(Z_NONE), layer(0), round(0), qseed(1), tamper(-1), tdelta(1), over(0), over_out(-1) {}
	std::string name() const { return tamper >= 0 ? "tamper" : !lie ? "honest" : std::string(kc ? "foreseen-" : wrap ? "oversized-" : "") + zstage_name[stage]; }
};
struct ZRec { // what a session showed
	std::map<std::string, Fp> chal;      // challenges by name
	std::map<std::string, Fp> D;         // discrepancy when a stage was reached
	std::vector<std::pair<std::string, uint64_t>> msgs; // every element sent, in order
	std::vector<std::pair<std::string, Fp>> el;         // field-valued elements
	std::vector<std::pair<std::string, std::string>> pts;       // group elements, their bytes
	std::vector<std::pair<std::string, Fp>> masks;      // the prover's mask coefficients, where it keeps them
};
struct ZSession {
	Run *run;
	const ZCirc *circ;
	ZModel M, F; // the true values; the values the prover pretends
	ZPlan plan;
	const ZRec *known;
	ZRec rec;
	uint64_t hist;
	long count;
	std::string tampered;
	bool gave_up, reached;
	// state of the lie
	int layer;
	Fp alpha, beta, D, du, dv, pdu, pdv, e, rho;
	Vec r0, r1, ru, rv;
	Poly q;
	Fp vu, vv, iuv;
	bool ran_target;
	Vec sent_out;
	ZSession() : run(NULL), circ(NULL), known(NULL), hist(1), count(0), gave_up(false), reached(false), layer(0), ran_target(false) {}
	void h(uint64_t x) { hist = mix64(hist ^ x); }
	void chal(const std::string &n, const Fp &x) { rec.chal[n] = x; h(x.fold()); }
	bool lying() const { return plan.lie && !ran_target && !gave_up; }
	bool at(ZStage s, int l, int rd = 0) const { return lying() && plan.stage == s && plan.layer == l && plan.round == rd; }
	// does the current layer end with an honest (unshifted) pair of claims, its lie carried into the mask round?
	bool c_here() const { return lying() && plan.layer == layer && plan.stage >= Z_C && plan.stage <= Z_MDIG && plan.stage != Z_MSUM && plan.stage != Z_MSUMLATE; }
	Fp known_chal(const std::string &n, bool &ok) const { ok = false; if (!known) return Fp(); auto i = known->chal.find(n); if (i == known->chal.end()) return Fp(); ok = true; return i->second; }
	std::string at_name(const char *s, int j = -1) const { return std::to_string(layer) + ":" + s + (j >= 0 ? ":" + std::to_string(j) : ""); }
	// q with q(0)+q(1)=D; foreseen: q(r)=0 as well
	Poly make_q(int deg, const std::string &id, bool foresee, const std::string &chname) {
		Poly p(deg + 1);
		if (foresee) { // the rehearsal's message, two of its coefficients altered so that the claim after the challenge is true
			bool ok; Fp r = known_chal(chname, ok);
			p = make_q(deg, id, false, "");
			Rng g(plan.qseed ^ 0x517);
			int i = g.below(deg + 1), j = (i + 1 + g.below(deg)) % (deg + 1);
			Fp wi(i ? 1 : 2), wj(j ? 1 : 2), ri(1), rj(1);
			for (int k = 0; k < i; ++k) ri *= r;
			for (int k = 0; k < j; ++k) rj *= r;
			// a*wi + b*wj = 0, a*ri + b*rj = -p(r)
			Fp det = wi * rj - wj * ri;
			if (!ok || det.zero()) { gave_up = true; return p; }
			Fp t = -ref::peval(p, r);
			p[i] += -(wj * t / det); p[j] += wi * t / det;
			return p;
		}
		Rng g(plan.qseed ^ std::hash<std::string>()(id));
		switch (g.below(4)) {
			case 0: p[0] = D / Fp(2); break;
			case 1: p[1] = D; break;
			case 2: p[deg] = D; break;
			default: {
				Fp s;
				for (int i = 2; i <= deg; ++i) { p[i] = g.fp(); s += p[i]; }
				p[0] = g.fp(); p[1] = D - s - p[0] - p[0];
			}
		}
		return p;
	}
};
template <class T> inline auto zf_get_rho(T *p, int) -> decltype(fe_in(p->rho)) { return fe_in(p->rho); }
template <class T> inline Fp zf_get_rho(T *, long) { return Fp(1); }
#define ZFIELD(n) \
	template <class T> inline auto zf_over_##n(T *p, int k, int) -> decltype(p->n = fe_out(fe_in(p->n)), bool()) { p->n = fe_unreduced(fe_in(p->n), k); return true; } \
	template <class T> inline bool zf_over_##n(T *, int, long) { return false; } \
	template <class T> inline auto zf_add_##n(T *p, const Fp &d, int) -> decltype(p->n = fe_out(fe_in(p->n) + d), bool()) { p->n = fe_out(fe_in(p->n) + d); return true; } \
	template <class T> inline bool zf_add_##n(T *, const Fp &, long) { return false; }
ZFIELD(maskpoly_sumc)
ZFIELD(v_u)
ZFIELD(Iuv)
ZFIELD(preZu)
ZFIELD(preZv)
ZFIELD(Zu)
// State of the prover's own code that some strategies reuse; without it the strategy fails and the run tells nothing.
#define ZREF(n, type, init) \
	template <class T> inline auto zr_##n(T *p, int) -> decltype((p->n)) { return p->n; } \
	template <class T> inline type &zr_##n(T *, long) { static type none = init; return none; } \
	template <class T> inline auto zh_##n(T *p, int) -> decltype(p->n, true) { return true; } \
	template <class T> inline bool zh_##n(T *, long) { return false; }
#define ZHAS(n) zh_##n((zk_prover *)this, 0)
#define ZR(n) zr_##n((zk_prover *)this, 0)
struct NoFE { FE x[8]; FE &operator[](int i) { return x[i]; } };
ZREF(maskR, NoFE, NoFE())
ZREF(preR, NoFE, NoFE())
ZREF(r_f_R, mpz_class, mpz_class())
ZREF(r_f_mask_poly, mpz_class, mpz_class())
ZREF(maskpoly_gmp, std::vector<mpz_class>, std::vector<mpz_class>(1 << 16))
ZREF(input_mpz, std::vector<mpz_class>, std::vector<mpz_class>(1))

static mpz_class to_mpz(const Fp &x) { mpz_class z; mpz_import(z.get_mpz_t(), 4, -1, 8, 0, 0, x.l); return z; }
static Fp from_mpz(const mpz_class &z0) {
	mpz_class z = z0, p = to_mpz(Fp() - Fp(1)) + 1;
	mpz_mod(z.get_mpz_t(), z.get_mpz_t(), p.get_mpz_t());
	Fp r; mpz_export(r.l, NULL, -1, 8, 0, 0, z.get_mpz_t());
	return r;
}
class ZProver : public zk_prover {
public:
	ZSession *S;
	ZProver() : S(NULL), nR(0) {}
	int nR;
	typedef std::vector<bn::Ec1> Pts;
	// --- elements on the wire ---
	bool hit(const std::string &n) { bool t = S->count++ == S->plan.tamper; if (t) { S->tampered = n; S->run->fault("element-altered"); } return t; }
	void el(FE &x, const std::string &n) { if (hit(n)) x = S->plan.over ? fe_unreduced(fe_in(x), S->plan.over) : fe_out(fe_in(x) + S->plan.tdelta); Fp f = fe_in(x); S->rec.msgs.push_back({n, f.fold()}); S->rec.el.push_back({n, f}); S->h(f.fold()); }
	void el(mpz_class &x, const std::string &n) { if (hit(n)) x = to_mpz(from_mpz(x) + S->plan.tdelta); Fp f = from_mpz(x); S->rec.msgs.push_back({n, f.fold()}); S->rec.el.push_back({n, f}); S->h(f.fold()); }
	void el(bn::Ec1 &x, const std::string &n) {
		if (hit(n)) { bn::Ec1 d; memcpy(d.v.l, S->plan.tdelta.l, 32); x = x + d; }
		uint64_t f = 7; for (int i = 0; i < 4; ++i) f = mix64(f ^ x.v.l[i]);
		S->rec.msgs.push_back({n, f}); S->h(f);
		S->rec.pts.push_back({n, std::string((const char *)x.v.l, 32)});
	}
	void els(Pts &v, const std::string &n) {
		if (S->plan.drop && S->plan.tamper >= S->count && S->plan.tamper < S->count + (long)v.size()) { v.pop_back(); S->tampered = n + "-missing"; S->run->fault("element-missing"); ++S->count; }
		for (size_t i = 0; i < v.size(); ++i) el(v[i], n + "[" + std::to_string(i) + "]");
	}
	// a false answer; oversized: the true one plus a multiple of p that 512-bit arithmetic takes for the false one
	void answer(mpz_class &ans, const Fp &d) {
		if (!S->plan.wrap) { ans = to_mpz(from_mpz(ans) + d); return; }
		mpz_class p = to_mpz(Fp() - Fp(1)) + 1, m = mpz_class(1) << 512, inv, k = to_mpz(from_mpz(ans) + d) - ans;
		mpz_invert(inv.get_mpz_t(), p.get_mpz_t(), m.get_mpz_t());
		k = k * inv; mpz_mod(k.get_mpz_t(), k.get_mpz_t(), m.get_mpz_t());
		ans += k * p;
	}
	std::string nm(const char *s) const { return S->at_name(s); }
	quadratic_poly add(quadratic_poly p, const Poly &q, const std::string &n) {
		if (q.size()) { p.a = fe_out(fe_in(p.a) + q[2]); p.b = fe_out(fe_in(p.b) + q[1]); p.c = fe_out(fe_in(p.c) + q[0]); }
		el(p.a, n + ".a"); el(p.b, n + ".b"); el(p.c, n + ".c");
		return p;
	}
	quintuple_poly add(quintuple_poly p, const Poly &q, const std::string &n) {
		if (q.size()) { FE *c[] = {&p.f, &p.e, &p.d, &p.c, &p.b, &p.a}; for (int i = 0; i < 6; ++i) *c[i] = fe_out(fe_in(*c[i]) + q[i]); }
		el(p.a, n + ".a"); el(p.b, n + ".b"); el(p.c, n + ".c"); el(p.d, n + ".d"); el(p.e, n + ".e"); el(p.f, n + ".f");
		return p;
	}
	// --- the seam ---
	virtual FE *evaluate() {
		FE *r = zk_prover::evaluate();
		for (size_t l = 0; S->plan.lie && l < S->F.V.size(); ++l) // the values of the pretended evaluation
			if (S->F.V[l] != S->M.V[l]) for (size_t g = 0; g < S->F.V[l].size(); ++g) circuit_value[l][g] = fe_out(S->F.V[l][g]);
		S->sent_out = fe_vec(r, 1 << S->M.bits[S->M.nl - 1]);
		for (auto &x : S->sent_out) S->h(x.fold());
		if (S->plan.over_out >= 0 && S->plan.over_out < (int)S->sent_out.size()) { r[S->plan.over_out] = fe_unreduced(S->sent_out[S->plan.over_out], S->plan.over); S->tampered = "output"; S->run->fault("element-not-reduced"); }
		return r;
	}
	virtual FE V_res(const FE *one_minus, const FE *r, const FE *out, int n, int m) {
		FE x = zk_prover::V_res(one_minus, r, out, n, m);
		if (S->plan.lie && S->plan.stage == Z_VRES) { x = fe_out(ref::mle(S->M.out(), fe_vec(r, n))); S->ran_target = true; S->reached = true; }
		return x;
	}
	virtual std::pair<Pts, Pts> keygen_and_commit(int n, double &t) {
		std::pair<Pts, Pts> r = zk_prover::keygen_and_commit(n, t);
		if (S->plan.lie && S->plan.stage == Z_INDIG && S->known) { // commit to the inputs shifted by what the end will need
			auto i = S->known->D.find("final");
			if (i == S->known->D.end()) S->gave_up = true;
			else {
				bn::Ec1 g; memset(g.v.l, 0, 32); g.v.l[0] = 1;
				mpz_class d = to_mpz(i->second);
				Pts &f = r.first;
				bn::Ec1 was = f[0];
				f[0] = f[0] + g * mie::Vuint(d.get_str().c_str());
				f[1] = scaled_a(f[1], was, f[0]);
				ZR(input_mpz)[0] = to_mpz(from_mpz(ZR(input_mpz)[0]) + i->second);
			}
		}
		els(r.first, "input-digest"); els(r.second, "input-digest2");
		return r;
	}
	// second half of a commitment: keeps the ratio of the honest pair
	static bn::Ec1 scaled_a(const bn::Ec1 &a, const bn::Ec1 &was, const bn::Ec1 &now) {
		Fp x, y, z; memcpy(x.l, a.v.l, 32); memcpy(y.l, was.v.l, 32); memcpy(z.l, now.v.l, 32);
		Fp k = x / y * z;
		bn::Ec1 r; memcpy(r.v.l, k.l, 32);
		return r;
	}
	virtual Pts sumcheck_init(int layer, int lg, int lu, int lv, const FE &a, const FE &b, const FE *R0, const FE *R1, FE *o0, FE *o1) {
		S->layer = layer;
		S->alpha = fe_in(a); S->beta = fe_in(b); S->r0 = fe_vec(R0, lg); S->r1 = fe_vec(R1, lg);
		S->chal(nm("alpha"), S->alpha); S->chal(nm("beta"), S->beta);
		for (int j = 0; j < lg; ++j) { S->chal(S->at_name("r0", j), S->r0[j]); S->chal(S->at_name("r1", j), S->r1[j]); }
		if (S->lying()) {
			S->D = S->alpha * S->du + S->beta * S->dv;
			if (layer == S->M.nl - 1) S->D = Fp();
			// false wires of this layer enter here
			for (auto &f : S->plan.flips) if (f.layer == layer) S->D += f.d * (S->alpha * ref::chi(f.g, S->r0, lg) + S->beta * ref::chi(f.g, S->r1, lg));
		}
		if (S->at(Z_OUT, layer)) { S->D = Fp(); S->ran_target = S->reached = true; }
		S->pdu = S->du; S->pdv = S->dv;
		S->du = S->dv = S->e = Fp(); S->ru.clear(); S->rv.clear(); S->q.clear(); nR = 0; c_bound = false;
		if (S->at(Z_RLATE, layer) && layer < S->M.nl - 1) { // the mask of the claims made in the layer above, chosen now that they are made
			Fp zu = zprod(S->r0), zv = zprod(S->r1), x = S->r0.back(), y = S->r1.back();
			if ((zu * zv * (x - y)).zero()) S->gave_up = true;
			else { // what the masks add to the claims: Z * (2*m0 + 2*m1*z + ...)
				Fp a = S->pdu / zu, b = S->pdv / zv, k1 = (a - b) / (Fp(2) * (x - y)), k0 = a / Fp(2) - k1 * x;
				ZR(maskR)[0] = fe_out(fe_in(ZR(maskR)[0]) + k0); ZR(maskR)[1] = fe_out(fe_in(ZR(maskR)[1]) + k1);
				S->D = Fp(); S->ran_target = S->reached = true;
			}
		}
		Pts d = zk_prover::sumcheck_init(layer, lg, lu, lv, a, b, R0, R1, o0, o1);
		if (ZHAS(maskR) && layer > 1) for (int j = 0; j < 6; ++j) S->rec.masks.push_back({nm("maskR") + std::to_string(j), fe_in(ZR(maskR)[j])});
		if (S->lying() && S->plan.stage == Z_RDIG && S->known && S->plan.kc) { // the opened R is shifted by k*(z - last coordinate of r1)
			int L = S->plan.layer;
			if (layer == L + 1) {
				std::string n = std::to_string(L);
				auto i = S->known->D.find(n + ":semi");
				bool ok = i != S->known->D.end();
				Fp al = need(n + ":alpha", ok), iu = need(n + ":iuv", ok), z1, z2, zu(1);
				for (int j = 0; j < S->M.bits[L]; ++j) { z1 = need(n + ":r0:" + std::to_string(j), ok); z2 = need(n + ":r1:" + std::to_string(j), ok); zu *= z1 * (Fp(1) - z1); }
				Fp w = al * zu * iu * (z1 - z2);
				if (!ok || w.zero() || d.size() != 2) S->gave_up = true;
				else {
					Fp k = i->second / w;
					rshift[0] = -(k * z2); rshift[1] = k;
					std::vector<mpz_class> c;
					for (int j = 0; j < 6; ++j) c.push_back(to_mpz(fe_in(ZR(maskR)[j]) + (j < 2 ? rshift[j] : Fp())));
					ZR(r_f_R) = vpdR::commit(d[0], d[1], c);
				}
			} else if (layer == L) for (int j = 0; j < 2; ++j) ZR(preR)[j] = fe_out(fe_in(ZR(preR)[j]) + rshift[j]);
		}
		els(d, nm("R-digest"));
		return d;
	}
	Fp rshift[2];
	Fp need(const std::string &n, bool &ok) { bool k; Fp x = S->known_chal(n, k); if (!k) ok = false; return x; }
	static Fp zprod(const Vec &r) { Fp z(1); for (auto &x : r) z *= x * (Fp(1) - x); return z; }
	virtual Pts generate_maskpoly_pre_rho(int len, int deg) {
		Pts d = zk_prover::generate_maskpoly_pre_rho(len, deg);
		if (ZHAS(maskpoly_gmp)) for (size_t j = 0; j < ZR(maskpoly_gmp).size(); ++j) S->rec.masks.push_back({nm("maskpoly") + std::to_string(j), from_mpz(ZR(maskpoly_gmp)[j])});
		if (S->at(Z_MDIG, S->layer) && S->known) { // mask polynomial with another constant term, everything else as before
			auto i = S->known->D.find(nm("semi")); auto r = S->known->chal.find(nm("rho"));
			if (i == S->known->D.end() || r == S->known->chal.end() || r->second.zero()) S->gave_up = true;
			else {
				ZR(maskpoly_gmp)[len * deg] = to_mpz(from_mpz(ZR(maskpoly_gmp)[len * deg]) + i->second / r->second);
				ZR(r_f_mask_poly) = vpd_test::commit(d[0], d[1], ZR(maskpoly_gmp));
			}
		}
		els(d, nm("mask-digest"));
		// the announced sum of the mask polynomial
		msum_off = Fp();
		bool late = false, over = false;
		if (S->at(Z_MSUM, S->layer)) {
			bool ok; Fp r = S->known_chal(nm("rho"), ok);
			if (!ok || r.zero()) S->gave_up = true; else { msum_off = -(S->D / r); S->D = Fp(); S->ran_target = S->reached = true; }
		} else if (S->at(Z_MSUMLATE, S->layer)) { late = true; }
		if (zf_add_maskpoly_sumc((zk_prover *)this, Fp(), 0) && hit(nm("mask-sum"))) { if (S->plan.over) over = true; else msum_off = S->plan.tdelta; }
		zf_add_maskpoly_sumc((zk_prover *)this, msum_off, 0);
		if (over) zf_over_maskpoly_sumc((zk_prover *)this, S->plan.over, 0);
		msum_late = late ? -S->D : msum_off;
		if (late) { S->ran_target = S->reached = true; }
		return d;
	}
	Fp msum_off, msum_late;
	virtual void generate_maskpoly_after_rho(int len, int deg) {
		zf_add_maskpoly_sumc((zk_prover *)this, -msum_off, 0);
		S->rho = zf_get_rho((zk_prover *)this, 0);
		S->chal(nm("rho"), S->rho);
		zk_prover::generate_maskpoly_after_rho(len, deg);
		zf_add_maskpoly_sumc((zk_prover *)this, msum_late, 0);
	}
	virtual void sumcheck_phase1_init() {
		zf_add_maskpoly_sumc((zk_prover *)this, -msum_late, 0);
		zk_prover::sumcheck_phase1_init();
	}
	void bind(const FE &pr, int j, Vec &r, const char *n) { // the challenge of round j-1 is known now
		if (j > 0) { Fp x = fe_in(pr); r.push_back(x); S->chal(S->at_name(n, j - 1), x); if (S->lying() && S->q.size()) S->D = ref::peval(S->q, x); }
	}
	Poly lie_round(ZStage st, int j, int deg, const char *chn) {
		if (!S->lying()) return Poly();
		if (S->plan.layer == S->layer && S->plan.stage == st && S->plan.round == j) {
			S->reached = true;
			Poly p;
			if (S->plan.kc) p = S->make_q(deg, S->at_name(chn, j), true, S->at_name(chn, j));
			S->ran_target = true; // honest from here on
			return p;
		}
		if (S->D.zero()) return S->q = Poly(deg + 1);
		return S->q = S->make_q(deg, S->at_name(chn, j), false, "");
	}
	virtual quadratic_poly sumcheck_phase1_update(FE pr, int j) { bind(pr, j, S->ru, "ru"); return add(zk_prover::sumcheck_phase1_update(pr, j), lie_round(Z_P1, j, 2, "ru"), S->at_name("p1", j)); }
	virtual quintuple_poly sumcheck_phase1_updatelastbit(FE pr, int j) { bind(pr, j, S->ru, "ru"); return add(zk_prover::sumcheck_phase1_updatelastbit(pr, j), lie_round(Z_P1, j, 5, "ru"), S->at_name("p1", j)); }
	virtual void sumcheck_phase2_init(FE pr, const FE *ru, const FE *o) {
		bind(pr, S->M.bits[S->layer - 1], S->ru, "ru");
		zk_prover::sumcheck_phase2_init(pr, ru, o);
		S->q.clear();
		S->vu = fe_in(v_u);
		unary = true;
		for (auto &t : S->M.T[S->layer]) if (!t.cv.zero() || !t.cuv.zero()) unary = false;
		if (S->lying() && !S->D.zero() && !S->c_here() && !(S->plan.layer == S->layer && S->plan.stage == Z_P2)) {
			ZPred p = zpredicate(S->M, S->layer, S->alpha, S->beta, S->r0, S->r1, S->ru, Vec());
			Fp a = S->layer == 1 ? p.drv : p.cu;
			if (unary) { if (a.zero()) S->gave_up = true; else { S->e = S->D / a; A0 = p.cu; } }
			else if (Rng(S->plan.qseed ^ S->layer).below(2)) S->e = Rng(S->plan.qseed ^ S->layer ^ 77).fp();
			if (S->layer == 1 && !S->gave_up) S->D = Fp();
		}
		zf_add_v_u((zk_prover *)this, S->e, 0);
		bool t = hit(nm("v_u"));
		if (t && S->plan.over) zf_over_v_u((zk_prover *)this, S->plan.over, 0);
		else if (t) { zf_add_v_u((zk_prover *)this, S->plan.tdelta, 0); S->e = S->plan.tdelta; }
		S->rec.el.push_back({nm("v_u"), S->vu + S->e});
		S->rec.msgs.push_back({nm("v_u"), (S->vu + S->e).fold()});
	}
	bool unary;
	Fp A0;
	Poly lie2(int j, int deg) {
		if (S->lying() && unary && S->layer > 1 && !S->e.zero()) { // the honest rounds for the shifted v_u
			Fp k = S->e * A0;
			for (int i = 0; i < j; ++i) k *= Fp(1) - S->rv[i];
			Poly p(deg + 1);
			p[0] = k; p[1] = -k;
			return S->q = p;
		}
		return lie_round(Z_P2, j, deg, "rv");
	}
	virtual quadratic_poly sumcheck_phase2_update(FE pr, int j) { bind(pr, j, S->rv, "rv"); return add(zk_prover::sumcheck_phase2_update(pr, j), lie2(j, 2), S->at_name("p2", j)); }
	virtual quintuple_poly sumcheck_phase2_updatelastbit(FE pr, int j) { bind(pr, j, S->rv, "rv"); return add(zk_prover::sumcheck_phase2_updatelastbit(pr, j), lie2(j, 5), S->at_name("p2", j)); }
	virtual std::pair<FE, FE> sumcheck_finalize(FE pr) {
		bind(pr, S->M.bits[S->layer - 1], S->rv, "rv");
		S->q.clear();
		std::pair<FE, FE> c = zk_prover::sumcheck_finalize(pr);
		S->vv = fe_in(c.second);
		S->iuv = Fp(1);
		for (auto &x : S->ru) S->iuv *= Fp(1) - x;
		for (auto &x : S->rv) S->iuv *= Fp(1) - x;
		S->chal(nm("iuv"), S->iuv);
		pred = zpredicate(S->M, S->layer, S->alpha, S->beta, S->r0, S->r1, S->ru, S->rv);
		Fp u = S->vu + S->e, v = S->vv;
		if (S->lying() && !S->c_here() && S->layer > 1) {
			if (unary) {
				S->D = Fp();
				// nothing of this layer depends on v_v: two false claims that cancel under a combination one could expect
				if (S->at(Z_CANCEL, S->layer) && !S->e.zero()) {
					bool ok = true;
					Fp al(1), be(1);
					std::string n = std::to_string(S->layer - 1);
					if (S->plan.kc) { al = need(n + ":alpha", ok); be = need(n + ":beta", ok); }
					else if (S->plan.qseed & 1) { al = S->alpha; be = S->beta; }
					if (!ok || be.zero()) S->gave_up = true;
					else { v = S->vv - S->e * al / be; S->du = u - S->vu; S->dv = v - S->vv; S->ran_target = S->reached = true; }
				}
			}
			else if (!S->D.zero() || !S->e.zero()) {
				Fp k = pred.cv + pred.cuv * u;
				if (k.zero()) S->gave_up = true;
				else { v = (pred.eval(S->vu, S->vv) + S->D - pred.c0 - pred.cu * u) / k; S->D = Fp(); }
			}
		}
		if (S->lying()) { S->du = u - S->vu; S->dv = v - S->vv; }
		c.first = fe_out(u); c.second = fe_out(v);
		if (S->tampered == nm("v_u")) c.first = S->plan.over ? fe_unreduced(S->vu, S->plan.over) : fe_out(S->vu + S->plan.tdelta);
		el(c.second, nm("v_v"));
		return c;
	}
	ZPred pred;
	virtual quadratic_poly sumcheck_finalround(FE pr, int cur, FE gv) {
		quadratic_poly p = zk_prover::sumcheck_finalround(pr, cur, gv);
		Poly q;
		if (S->c_here()) {
			if (S->plan.stage == Z_C) { S->reached = true; if (S->plan.kc) q = S->make_q(2, nm("rc"), true, nm("rc")); S->ran_target = true; }
			else if (S->plan.stage == Z_VULATE) {
				q = Poly(3); q[0] = S->D / Fp(2);
				if (pred.drv.zero()) S->gave_up = true;
				else { zf_add_v_u((zk_prover *)this, -(q[0] / pred.drv), 0); S->reached = S->ran_target = true; }
			} else q = S->q = S->make_q(2, nm("rc"), false, "");
		}
		return add(p, q, nm("pc"));
	}
	bool c_bound;
	void bind_c(const mpz_class &x) { // the challenge of the mask round
		c_bound = true;
		S->chal(nm("rc"), from_mpz(x));
		if (S->lying() && S->q.size()) S->D = ref::peval(S->q, from_mpz(x));
		S->q.clear();
		if (S->c_here()) { S->rec.D[nm("semi")] = S->D; if (S->plan.stage == Z_RDIG || S->plan.stage == Z_MDIG) { S->reached = true; if (S->plan.kc) S->ran_target = true; } }
	}
	virtual std::pair<Pts, Pts> prove_R(std::vector<mpz_class> R, mpz_class &ans) {
		std::pair<Pts, Pts> w = zk_prover::prove_R(R, ans);
		if (nR == 0) bind_c(R.back());
		ZStage st = nR ? Z_R2 : Z_R1;
		if (S->at(st, S->layer)) {
			Fp k = nR ? S->beta * zprod(S->r1) : S->alpha * zprod(S->r0);
			k *= S->iuv;
			if (S->layer == S->M.nl - 1) k = Fp();
			if (k.zero()) S->gave_up = true;
			else { answer(ans, S->D / k); S->ran_target = S->reached = true; }
		}
		std::string n = nm(nR ? "R2" : "R1");
		++nR;
		el(ans, n + ".ans"); els(w.first, n + ".w"); els(w.second, n + ".wa");
		return w;
	}
	virtual std::pair<Pts, Pts> prove_mask(std::vector<mpz_class> R, mpz_class &ans) {
		std::pair<Pts, Pts> w = zk_prover::prove_mask(R, ans);
		if (!c_bound) bind_c(R.back());
		if (S->at(Z_MASK, S->layer)) {
			if (S->rho.zero()) S->gave_up = true; else { answer(ans, S->D / S->rho); S->ran_target = S->reached = true; }
		}
		if (S->at(Z_SEMI, S->layer)) S->ran_target = S->reached = true;
		if (S->at(Z_IUV, S->layer) || S->at(Z_PZU, S->layer) || S->at(Z_PZV, S->layer)) {
			// R's openings, as the verifier will use them
			Fp ru = rval(S->r0), rv = rval(S->r1), zu = zprod(S->r0), zv = zprod(S->r1);
			if (S->layer == S->M.nl - 1) { zu = zv = Fp(); }
			Fp k = S->plan.stage == Z_IUV ? S->alpha * zu * ru + S->beta * zv * rv : S->plan.stage == Z_PZU ? S->alpha * S->iuv * ru : S->beta * S->iuv * rv;
			if (k.zero()) S->gave_up = true;
			else {
				Fp d = S->D / k;
				if (S->plan.stage == Z_IUV) zf_add_Iuv((zk_prover *)this, d, 0);
				else if (S->plan.stage == Z_PZU) zf_add_preZu((zk_prover *)this, d, 0);
				else zf_add_preZv((zk_prover *)this, d, 0);
				S->ran_target = S->reached = true;
			}
		}
		std::string n = nm("mask");
		el(ans, n + ".ans"); els(w.first, n + ".w"); els(w.second, n + ".wa");
		if (S->layer == 1) { // the lie that reaches the inputs
			if (S->lying()) {
				S->D = S->du;
				for (auto &f : S->plan.flips) if (f.layer == 0) S->D += f.d * ref::chi(f.g, S->ru, S->ru.size());
				S->rec.D["final"] = S->D;
			}
			if (S->at(Z_ZU, 0)) {
				Fp k = fe_in(ZR(maskR)[0]) + fe_in(ZR(maskR)[1]) * S->ru.back();
				if (k.zero()) S->gave_up = true; else { zf_add_Zu((zk_prover *)this, S->D / k, 0); S->ran_target = S->reached = true; }
			}
		}
		return w;
	}
	Fp rval(const Vec &r) {
		Fp c; auto i = S->rec.chal.find(nm("rc")); if (i != S->rec.chal.end()) c = i->second;
		Fp z = r.back(), a[6];
		for (int j = 0; j < 6; ++j) a[j] = fe_in(ZR(preR)[j]);
		return a[0] + a[1] * z + a[2] * z * z + a[3] * c + a[4] * c * c + a[5] * z * c;
	}
	virtual std::pair<Pts, Pts> prove_input(std::vector<mpz_class> R, mpz_class &ans, mpz_class Z) {
		std::pair<Pts, Pts> w = zk_prover::prove_input(R, ans, Z);
		for (size_t j = 0; j < R.size(); ++j) S->chal("in:" + std::to_string(j), from_mpz(R[j]));
		if (S->at(Z_ANS, 0)) { answer(ans, S->D); S->ran_target = S->reached = true; }
		if (S->at(Z_FIN, 0)) S->ran_target = S->reached = true;
		if (S->at(Z_INDIG, 0)) S->ran_target = S->reached = true;
		el(ans, "input.ans"); els(w.first, "input.w"); els(w.second, "input.wa");
		return w;
	}
};
} // namespace sim
