// Cheating provers.
#pragma once
#include "stack.h"

namespace sim {
struct Check { int layer, kind, j; }; // kind 0,1,2: rounds; 3: end of layer; 4: input check; 5: output claim
inline const char *check_name(int k) { static const char *n[] = {"phase0", "phase1", "phase2", "semifinal", "final", "output"}; return n[k]; }
inline std::vector<Check> all_checks(const Model &m) {
	std::vector<Check> c;
	for (int i = m.nl - 1; i >= 1; --i) {
		for (int j = 0; j < m.logc; ++j) c.push_back(Check{i, 0, j});
		for (int j = 0; j < m.bits[i - 1]; ++j) c.push_back(Check{i, 1, j});
		for (int j = 0; j < m.bits[i - 1]; ++j) c.push_back(Check{i, 2, j});
		c.push_back(Check{i, 3, 0});
	}
	c.push_back(Check{0, 4, 0});
	c.push_back(Check{m.nl, 5, 0});
	return c;
}
inline Fp pattern(Choices &ch) { // non-zero differences, from tiny to word-aligned
	switch (ch.pick(8, "delta kind")) {
		case 0: return Fp(1);
		case 1: return -Fp(1);
		case 2: { static const int ks[] = {31, 32, 63, 64, 95, 96, 127, 128, 160, 191, 192, 224, 252}; return Fp::pow2(ks[ch.pick(13, "delta bit")]); }
		case 3: { Fp x; x.l[2] = 1 + ch.pick(1u << 30, "delta hi"); x.l[3] = ch.pick(1u << 28, "delta hi"); return x; } // only above 128 bits
		case 4: { Fp x; x.l[0] = 1 + ch.raw("delta lo"); x.l[1] = ch.raw("delta lo"); return x; } // only below
		case 5: { Fp x; x.l[ch.pick(4, "delta word")] = 1 + ch.pick(1u << 28, "delta"); return x; }
		default: { Rng g(ch.raw("delta")); Fp x = g.fp(); return x.zero() ? Fp(1) : x; }
	}
}
inline Fp psum(const Poly &p) { return ref::peval(p, Fp(0)) + ref::peval(p, Fp(1)); }
static const Fp HALF = Fp(2).inv();

struct Known { // challenges of an identical session, from a rehearsal under the same random stream
	bool ok;
	Transcript T;
	Known() : ok(false) {}
	const LayerT *at(int nl, int layer) const { size_t k = nl - 1 - layer; return ok && k < T.L.size() ? &T.L[k] : NULL; }
	const Fp *chal(int nl, int layer, int phase, int j) const {
		const LayerT *l = at(nl, layer);
		if (!l) return NULL;
		const Vec &v = phase == 0 ? l->rb : phase == 1 ? l->ru : l->rv;
		return j < (int)v.size() ? &v[j] : NULL;
	}
};
// d with d(0)+d(1)=s
inline Poly carry(const Fp &s, int shape, Rng &g) {
	Poly d(3);
	switch (shape) {
		case 0: d[0] = s * HALF; break;
		case 1: d[1] = s; break;
		case 2: d[0] = s; d[1] = -s; break;
		case 3: d[2] = s; break;
		case 4: d[0] = s * HALF; d[2] = g.fp(); d[1] = -d[2]; break;
		default: d[1] = g.fp(); d[2] = g.fp(); d[0] = (s - d[1] - d[2]) * HALF; break;
	}
	return d;
}
// linear d with d(0)+d(1)=s, d(r)=t
inline bool steer(const Fp &s, const Fp &r, const Fp &t, Poly &d) {
	Fp den = Fp(1) - Fp(2) * r;
	if (den.zero()) return false;
	Fp a = (t - s * r) / den;
	d.assign(3, Fp());
	d[0] = a; d[1] = s - Fp(2) * a;
	return true;
}
inline Poly padd(const Poly &a, const Poly &b) { Poly r = a; if (r.size() < b.size()) r.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) r[i] += b[i]; return r; }

// False outputs, every check satisfied up to check E, honest from there on:
// accepted exactly when check E is not enforced.
struct LiePath : Behaviour {
	Check E;
	const Known *K;
	std::vector<std::pair<size_t, Fp>> lie;
	int shape, xopt, eopt, xform, carryabs;
	Fp delta, e;
	bool past, use_target, vres_honest;
	int blk; // C: also rewrite the block factor when exiting at the end of a layer
	bool solved;
	Rng g;
	int choseX;
	LiePath(Choices &ch, const Model &m, const Known *k, const Check &c) : E(c), K(k), past(false), solved(false), g(1), choseX(0) {
		int n = 1 + ch.pick(2, "false outputs");
		for (int i = 0; i < n; ++i) lie.push_back(std::make_pair((size_t)ch.pick(m.out_size(), "which output"), pattern(ch)));
		shape = ch.pick(6, "lie shape");
		xform = ch.pick(4, "form of the violating message");
		carryabs = ch.pick(8, "minimal messages"); if (carryabs > 2) carryabs = 0;
		xopt = ch.pick(2, "where to lie");
		eopt = ch.pick(3, "also lie about v_u");
		use_target = ch.pick(2, "steer difference") == 0;
		delta = pattern(ch);
		g = Rng(ch.raw("lie seed"));
		e = g.fp();
		vres_honest = ch.pick(2, "V_res truthful") == 0;
		blk = ch.pick(2, "block factor");
	}
	virtual void outputs(Session &s, Vec &o) {
		Vec t = o;
		for (auto &x : lie) o[x.first] += x.second;
		if (o == t) o[0] += Fp(1);
		(void)s;
	}
	virtual Fp vres(Session &s, const Fp &h) {
		if (E.kind != 5) return h;
		past = true;
		return vres_honest ? mle2(s.model.V[s.model.nl - 1], s.T.r0, s.T.rb0) : h;
	}
	bool is(int layer, int kind, int j) const { return E.layer == layer && E.kind == kind && E.j == j; }
	bool next_is_E(Session &s, int layer, int phase, int j) const {
		int n = phase == 0 ? s.model.logc : s.model.bits[layer - 1];
		if (j + 1 < n) return is(layer, phase, j + 1);
		if (phase == 0) return is(layer, 1, 0);
		if (phase == 1) return is(layer, 2, 0);
		return is(layer, 3, 0);
	}
	virtual Poly round(Session &s, int phase, int layer, int j, const Poly &h, const Fp &claim) {
		if (E.kind == 5) past = true;
		if (past) return h;
		if (is(layer, phase, j)) {
			past = true;
			const Fp *r = K ? K->chal(s.model.nl, layer, phase, j) : NULL;
			if (r && xform == 1) { Poly m(3); m[0] = ref::peval(h, *r); return m; }              // constant, right at the challenge
			if (r && xform == 2 && !r->zero()) { Poly m(3); m[1] = ref::peval(h, *r) / *r; return m; } // no constant term
			return h;
		}
		if (carryabs) { Poly m(3); if (carryabs == 1) m[0] = claim * HALF; else m[1] = claim; return m; }
		Fp need = claim - psum(h);
		if (need.zero()) return h;
		Poly d = carry(need, shape, g);
		if (use_target && next_is_E(s, layer, phase, j)) {
			const Fp *r = K->chal(s.model.nl, layer, phase, j);
			if (r) steer(need, *r, delta, d);
		}
		return padd(h, d);
	}
	virtual void vu(Session &s, int layer, const Fp &h, const Fp &claim, Fp &ann, Fp &base) {
		ann = base = h;
		choseX = 0;
		if (past || (E.layer == layer && (E.kind == 2 || E.kind == 3))) return;
		RefProver t = s.rp;
		const Vec &ru = s.cur().ru;
		Fp drv = t.drv(ru);
		t.phase2(ru, Fp(0)); Fp P = t.sum();
		t.phase2(ru, Fp(1)); Fp Q = t.sum() - P;
		bool vvless = true;
		for (auto &x : s.rp.M->T[layer]) if (x.cv || x.cuv) vvless = false;
		if ((xopt == 0 || vvless) && !(Q + drv).zero()) { choseX = 1; ann = base = (claim - P) / (Q + drv); return; }
		if (eopt == 1) { ann = h + e; base = h; }
		else if (eopt == 2) { ann = base = h + e; }
	}
	virtual void fin(Session &s, int layer, const Fp &claim, Fp &vu, Fp &vv) {
		if (past) return;
		if (is(layer, 3, 0)) { past = true; return; }
		if (choseX) return;
		LayerT &L = s.cur();
		Pred p = predicate(*s.rp.M, layer, L, L.ru, L.rv, L.rb);
		if (STACK != 1 && eopt) vu = L.vu_latch;
		Fp k = p.cv + p.cuv * vu;
		if (!k.zero()) { vv = (claim - p.c0 - p.cu * vu) / k; return; }
		k = p.cu + p.cuv * vv;
		if (STACK != 1 && !k.zero()) { vu = (claim - p.c0 - p.cv * vv) / k; return; }
		past = true; // cannot be carried further
	}
	virtual bool blk_val(Session &s, int layer, const Fp &claim, Fp &v) {
		if (!blk || !is(layer, 3, 0)) return false;
		LayerT &L = s.cur();
		Pred p = predicate(*s.rp.M, layer, L, L.ru, L.rv, L.rb);
		Fp f = p.eval(L.vu, L.vv);
		if (f.zero()) return false;
		v = s.rp.scale * claim / f;
		return true;
	}
};

// Honest except that exactly check E is violated, by a chosen difference; needs the rehearsal.
struct OneViolation : Behaviour {
	Check E;
	const Known *K;
	Fp delta, e1, e2, t;
	int quad, part, rel;
	OneViolation(Choices &ch, const Model &, const Known *k, const Check &c) : E(c), K(k) {
		delta = pattern(ch); e1 = pattern(ch); e2 = pattern(ch);
		quad = ch.pick(5, "form of the violating message");
		part = ch.pick(3, "which final claim");
		rel = part == 2 ? ch.pick(4, "final claims cancel") : 0;
		Rng g(ch.raw("seed")); t = g.fp();
	}
	virtual Poly round(Session &s, int phase, int layer, int j, const Poly &h, const Fp &claim) {
		int nl = s.model.nl, n = phase == 0 ? s.model.logc : s.model.bits[layer - 1];
		const Fp *r = K->chal(nl, layer, phase, j);
		if (!r) return h;
		if (E.layer == layer && E.kind == phase && E.j == j) {
			Poly d(3);
			if (quad == 2) { Poly m(3); m[0] = ref::peval(h, *r); return m; }
			if (quad == 3 && !r->zero()) { Poly m(3); m[1] = ref::peval(h, *r) / *r; return m; }
			if (quad == 4 && !r->zero()) { Poly m(3); m[2] = ref::peval(h, *r) / (*r * *r); return m; }
			if (!quad || quad >= 3) { if (steer(delta, *r, Fp(), d)) return padd(h, d); return h; }
			Fp k = *r * t + (Fp(1) - *r) * (Fp(1) - t);
			if (k.zero()) return h;
			k = delta / k;
			d[2] = k; d[1] = -(k * (*r + t)); d[0] = k * *r * t;
			return padd(h, d);
		}
		if (E.kind == 3 && E.layer == layer && phase == 2 && j == n - 1) {
			Poly d(3);
			if (steer(Fp(), *r, delta, d)) return padd(h, d);
			return h;
		}
		if (E.kind == 4 && layer == 1 && phase == 2) {
			if (STACK == 1) { // v_u off by e1: carry the difference, make it vanish at the last challenge
				Fp need = claim - psum(h);
				Poly d(3);
				if (j == n - 1) { if (!steer(need, *r, Fp(), d)) return h; } else d[0] = need * HALF;
				return padd(h, d);
			}
			if (j == n - 1) {
				relate(s);
				const LayerT *kl = K->at(nl, layer);
				LayerT L = s.cur();
				Pred p = predicate(s.model, layer, L, L.ru, kl->rv, L.rb);
				Poly d(3);
				if (steer(Fp(), *r, p.eval(kl->vu + du(), kl->vv + dv()) - p.eval(kl->vu, kl->vv), d)) return padd(h, d);
			}
		}
		return h;
	}
	Fp du() const { return part == 1 ? Fp() : e1; }
	Fp dv() const { return part == 0 ? Fp() : e2; }
	// errors that cancel under a combination the prover could foresee: 1:1, or the one already used
	void relate(Session &s) {
		LayerT &L = s.cur();
		if (rel == 1) e2 = -e1;
		else if (rel == 2 && !L.beta.zero()) e2 = -(e1 * L.alpha / L.beta);
		else if (rel == 3 && s.T.L.size() > 1 && !s.T.L[1].beta.zero()) e2 = -(e1 * s.T.L[1].alpha / s.T.L[1].beta);
		if (e2.zero()) e2 = Fp(1);
	}
	virtual void vu(Session &, int layer, const Fp &h, const Fp &, Fp &ann, Fp &base) {
		ann = base = h;
		if (STACK == 1 && E.kind == 4 && layer == 1) ann = h + e1;
	}
	virtual void fin(Session &, int layer, const Fp &, Fp &vu, Fp &vv) {
		if (STACK != 1 && E.kind == 4 && layer == 1) { vu += du(); vv += dv(); }
	}
};

// True outputs in a representation that is not the field element it stands for.
struct RawOutputs : Behaviour {
	size_t at; int limb; uint64_t bits;
	RawOutputs(Choices &ch, const Model &m) { at = ch.pick(m.out_size(), "which output"); limb = 4 + ch.pick(4, "which word"); bits = ch.pick(2, "one bit") ? 1ull << ch.pick(64, "bit") : 1 + ch.raw("bits") / 2; }
	virtual Fp vres(Session &s, const Fp &) { return mle2(s.model.V[s.model.nl - 1], s.T.r0, s.T.rb0); }
	virtual bool raw(Session &, int kind, int, FE *v, int n) {
		if (kind != K_OUT || at >= (size_t)n) return false;
		mp_limb_t w[8];
		fe_limbs(v[at], w);
		w[limb] = bits;
		v[at] = fe_raw(w);
		return true;
	}
};

// Lie until check E, then bet on the value of that round's challenge.
struct Gambler : LiePath {
	int guess;
	Fp gv;
	const Known *other; // an earlier session
	Gambler(Choices &ch, const Model &m, const Known *k, const Check &c, const Known *o) : LiePath(ch, m, k, c), other(o) { guess = ch.pick(10, "guess"); use_target = false; }
	virtual Poly round(Session &s, int phase, int layer, int j, const Poly &h, const Fp &claim) {
		if (past || !is(layer, phase, j)) return LiePath::round(s, phase, layer, j, h, claim);
		past = true;
		LayerT &L = s.cur();
		Fp r;
		const Vec &mine = phase == 0 ? L.rb : phase == 1 ? L.ru : L.rv;
		switch (guess) {
			case 0: r = Fp(0); break;
			case 1: r = Fp(1); break;
			case 2: r = mine.empty() ? Fp(2) : mine.back(); break;
			case 3: r = L.r0[j % L.r0.size()]; break;
			case 4: r = L.r1[j % L.r1.size()]; break;
			case 5: r = L.alpha; break;
			case 6: { const Fp *q = other ? other->chal(s.model.nl, layer, phase, j) : NULL; r = q ? *q : L.beta; break; } // what the previous session drew here
			case 7: r = phase == 2 && j < (int)L.ru.size() ? L.ru[j] : Fp(1) - L.r0[j % L.r0.size()]; break;
			case 8: r = s.T.L.size() > 1 ? (s.T.L[s.T.L.size() - 2].ru[0]) : -Fp(1); break;
			default: { const LayerT *o = other ? other->at(s.model.nl, layer) : NULL; r = o && !o->ru.empty() ? o->ru[0] : Fp(2); break; }
		}
		Poly d;
		if (!steer(claim - psum(h), r, Fp(), d)) return h;
		return padd(h, d);
	}
};

// Linear protocol: announce one v_u, finish with another.
struct TwoFaced : LiePath {
	int variant;
	Fp c, f, hv;
	TwoFaced(Choices &ch, const Model &m, const Known *k) : LiePath(ch, m, k, Check{-5, 0, 0}) { variant = ch.pick(3, "two-faced variant"); use_target = false; }
	virtual void vu(Session &s, int layer, const Fp &h, const Fp &claim, Fp &ann, Fp &base) {
		if (layer != 1) { LiePath::vu(s, layer, h, claim, ann, base); return; }
		hv = base = h;
		Fp drv = s.rp.drv(s.cur().ru);
		int n = s.model.bits[0];
		if (drv.zero()) { ann = h; return; }
		if (variant == 0) { c = claim - drv * h; f = (claim - c - c) / drv; }
		else { // constant halving polynomials
			Fp q(1); for (int i = 0; i < n; ++i) q *= HALF;
			f = (drv * h - claim * q) / (drv * (Fp(1) - q));
		}
		ann = f;
	}
	virtual Poly round(Session &s, int phase, int layer, int j, const Poly &h, const Fp &claim) {
		if (layer != 1 || phase != 2) return LiePath::round(s, phase, layer, j, h, claim);
		Poly d(3);
		if (variant == 0) { if (j == 0) d[0] = c; }
		else d[0] = claim * HALF;
		return d;
	}
	virtual bool field_vu(Session &s, int layer, int j, Fp &v) {
		if (layer != 1 || (variant == 0 && j < 1) || (variant == 1 && j < s.model.bits[0]) || variant == 2) return false;
		v = hv;
		return true;
	}
	virtual void fin(Session &s, int layer, const Fp &claim, Fp &vu, Fp &vv) {
		if (layer != 1) { LiePath::fin(s, layer, claim, vu, vv); return; }
		vu = hv;
	}
};

// Faults on the wire: one message altered, stale, duplicated, zeroed, or all from some point on.
struct WireFault : Behaviour {
	int at, op, comp, mode; // mode 0: one message, 1: from there on
	Fp d;
	const Known *other;
	int n;
	Poly prevp;
	Fp prevu, prevv;
	Rng g;
	WireFault(Choices &ch, int msgs, const Known *o) : other(o), n(0), g(1) {
		at = ch.pick(msgs, "which message");
		op = ch.pick(11, "wire fault");
		comp = ch.pick(4, "component");
		mode = ch.chance(1, 3, "persistent");
		d = pattern(ch);
		g = Rng(ch.raw("seed"));
	}
	bool hit() { int k = n++; return mode ? k >= at : k == at; }
	void mangle(Fp *v, int cnt, const Fp *old, int ocnt, const Fp *oth, int othn) {
		int c = comp % cnt;
		switch (op) {
			case 0: v[c] += d; break;
			case 1: v[c] = Fp(); break;
			case 2: for (int i = 0; i < cnt; ++i) v[i] = Fp(); break;
			case 3: v[c] = -v[c]; break;
			case 4: if (cnt > 1) std::swap(v[c], v[(c + 1) % cnt]); break;
			case 5: if (ocnt == cnt) for (int i = 0; i < cnt; ++i) v[i] = old[i]; break;
			case 6: if (othn == cnt) for (int i = 0; i < cnt; ++i) v[i] = oth[i]; else v[c] += d; break;
			case 7: for (int i = 0; i < cnt; ++i) v[i] = g.fp(); break;
			case 8: v[c] = Fp(1); break;
			case 9: { Fp k(1); for (int i = 0; i < cnt; ++i) v[i] += k; break; }
			default: if (cnt == 3) { v[0] += d; v[1] -= d + d; } else v[c] += d; break; // keeps p(0)+p(1)
		}
	}
	virtual void outputs(Session &, Vec &o) { if (hit()) mangle(o.data(), o.size(), NULL, 0, other && other->T.out.size() == o.size() ? other->T.out.data() : NULL, other ? other->T.out.size() : 0); }
	virtual Poly round(Session &s, int phase, int layer, int j, const Poly &h, const Fp &) {
		Poly m = h;
		if (hit()) {
			const LayerT *o = other ? other->at(s.model.nl, layer) : NULL;
			const std::vector<Poly> *ps = o ? (phase == 0 ? &o->p0 : phase == 1 ? &o->p1 : &o->p2) : NULL;
			const Poly *op = ps && j < (int)ps->size() ? &(*ps)[j] : NULL;
			mangle(m.data(), m.size(), prevp.data(), prevp.size(), op ? op->data() : NULL, op ? op->size() : 0);
		}
		prevp = h;
		return m;
	}
	virtual void vu(Session &, int layer, const Fp &h, const Fp &, Fp &ann, Fp &base) {
		ann = base = h;
		if (STACK == 1 && hit()) mangle(&ann, 1, &prevu, 1, NULL, 0);
		(void)layer;
	}
	virtual void fin(Session &s, int layer, const Fp &, Fp &vu, Fp &vv) {
		Fp z[2] = {vu, vv}, o[2] = {prevu, prevv}, q[2];
		if (hit()) {
			const LayerT *ol = other ? other->at(s.model.nl, layer) : NULL;
			if (ol) { q[0] = ol->vu; q[1] = ol->vv; }
			mangle(z, 2, o, 2, ol ? q : NULL, ol ? 2 : 0);
		}
		prevu = vu; prevv = vv;
		vu = z[0]; vv = z[1];
	}
};
inline int wire_messages(const Model &m) { int n = 1; for (int i = 1; i < m.nl; ++i) n += m.logc + 2 * m.bits[i - 1] + 1 + (m.st == SA); return n; }

// Another circuit: same shape, one gate or input different.
inline bool mutate(Choices &ch, const Circuit &c, Circuit &o, std::string &what) {
	o = c;
	int l = ch.pick(c.L.size(), "mutated layer");
	int g = ch.pick(c.L[l].size(), "mutated gate");
	Gate &x = o.L[l][g];
	if (l == 0) {
		if (!o.in.empty()) {
			int b = ch.pick(o.in.size(), "mutated copy");
			if (x.ty != T_INPUT) return false;
			o.in[b][g] = (o.in[b][g] + 1 + ch.pick(1000, "input change")) & 0x7fffffff;
			what = "input of copy " + std::to_string(b);
		} else if (o.logc && x.ty == T_INPUT) { // change one copy only
			o.in.assign(1 << o.logc, std::vector<long long>());
			for (auto &v : o.in) for (auto &q : o.L[0]) v.push_back(q.u);
			int b = ch.pick(o.in.size(), "mutated copy");
			o.in[b][g] = (o.in[b][g] + 1 + ch.pick(1000, "input change")) & 0x7fffffff;
			what = "input of copy " + std::to_string(b);
		} else if (x.ty == T_INPUT) { x.u = (x.u + 1 + ch.pick(1000, "input change")) & 0x7fffffff; what = "input"; }
		else { x = Gate(T_INPUT, 1 + ch.pick(5, "input"), 0); what = "dummy input"; }
		return true;
	}
	size_t m = c.L[l - 1].size();
	static const int lin[] = {T_ADD, T_MUL, T_DUMMY, T_SUM, T_NOT, T_MINUS, T_XOR, T_NAAB, T_RELAY};
	switch (ch.pick(3, "mutation")) {
		case 0: {
			int nt = STACK == 1 ? 9 : 3;
			int ty = lin[ch.pick(nt, "new type")];
			x.ty = ty;
			if (ty == T_NOT || ty == T_RELAY) x.v = 0;
			if (ty == T_SUM) { if (x.u > x.v) std::swap(x.u, x.v); if (x.v > (long long)m) x.v = m; }
			else { x.u %= (long long)m; x.v %= (long long)m; }
			what = "gate type";
			break;
		}
		case 1: if (x.ty == T_SUM) { if (x.u < x.v) x.v--; else if (x.v < (long long)m) x.v++; } else std::swap(x.u, x.v); if (x.ty == T_NOT || x.ty == T_RELAY) std::swap(x.u, x.v); what = "operands swapped"; break;
		default: if (x.ty == T_SUM) { if (x.u > 0) x.u--; } else x.u = (x.u + 1) % m; what = "left operand"; break;
	}
	return true;
}
} // namespace sim
