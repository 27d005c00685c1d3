// Circuits, their documented meaning, and the reference protocol (prover and
// verifier) written from the protocol definition, independent of /repo.
#pragma once
#include "core.h"

namespace sim {
using ref::Fp;
using ref::Poly;
typedef std::vector<Fp> Vec;

enum { T_ADD = 0, T_MUL = 1, T_DUMMY = 2, T_INPUT = 3, T_DRELAY = 4, T_SUM = 5, T_NOT = 6, T_MINUS = 7, T_XOR = 8, T_NAAB = 9, T_RELAY = 10 };
enum Stack { SA, SB, SC, SE }; // linear, traditional, data-parallel, multi-threaded linear

struct Gate {
	int ty;
	long long u, v;
	Gate(int t = 0, long long a = 0, long long b = 0) : ty(t), u(a), v(b) {}
};
struct Circuit {
	std::vector<std::vector<Gate>> L;
	int logc;                             // log2 of the number of copies (data-parallel)
	std::vector<std::vector<long long>> in; // data-parallel: own inputs of each copy (may be empty)
	Circuit() : logc(0) {}
	std::string text(int style = 0) const {
		static const char *sep[] = {" ", "\n", "\t", "  \n "};
		const char *s = sep[style & 3];
		std::string o = std::to_string(L.size()) + "\n";
		for (auto &l : L) {
			o += std::to_string(l.size());
			int g = 0;
			for (auto &x : l) o += s + std::to_string(x.ty) + " " + std::to_string(g++) + s + std::to_string(x.u) + " " + std::to_string(x.v);
			o += "\n";
		}
		return o;
	}
	std::string brief() const {
		std::string o = "layers";
		for (auto &l : L) {
			o += " |";
			int k = 0;
			for (auto &x : l) { if (++k > 40) { o += " ..."; break; } o += " " + std::to_string(x.ty) + ":" + std::to_string(x.u) + "," + std::to_string(x.v); }
		}
		if (logc) o += " copies=" + std::to_string(1 << logc);
		return o;
	}
	uint64_t shape() const {
		uint64_t h = L.size() * 31 + logc;
		for (auto &l : L) { h = mix64(h ^ l.size()); uint64_t t = 0; for (auto &x : l) t |= 1ull << x.ty; h = mix64(h ^ t); }
		return h;
	}
};
inline int bits_for(size_t n) { // protocol width: next power of two, at least 2
	int b = 1;
	while ((1ull << b) < n) ++b;
	return b;
}

struct GenOpt {
	Stack st;
	int max_depth, max_bits, max_logc;
	bool pow2, dummy_inputs, diff_inputs;
	int big; // one circuit in `big` is large (0: never)
	GenOpt(Stack s) : st(s), max_depth(6), max_bits(4), max_logc(3), pow2(false), dummy_inputs(true), diff_inputs(true), big(80) {}
};

inline long long gen_input(Choices &ch) {
	switch (ch.pick(6, "input kind")) {
		case 0: return 1;
		case 1: return 0;
		case 2: return ch.pick(5, "input");
		case 3: return 0x7fffffff - (long long)ch.pick(3, "input");
		case 4: return 1ll << ch.pick(31, "input");
		default: return ch.pick(0x80000000ull, "input");
	}
}
inline Circuit gen_circuit(Choices &ch, const GenOpt &o) {
	Circuit c;
	static const int lin_types[] = {T_ADD, T_MUL, T_DUMMY, T_SUM, T_NOT, T_MINUS, T_XOR, T_NAAB, T_RELAY};
	static const int trad_types[] = {T_ADD, T_MUL, T_DUMMY};
	const int *types = o.st == SA ? lin_types : trad_types;
	int nt = o.st == SA ? 9 : 3;
	bool big = o.big && ch.chance(1, o.big, "unusual size");
	// unusual sizes: 0 some wide layers, 1 one very wide layer, 2 very deep, 3 many copies
	int kind = big ? (int)ch.pick(8, "size kind") : -1;
	if (big) kind = kind < 3 ? 0 : kind < 4 ? 1 : kind < 6 ? 2 : o.st == SC ? 3 : 0;
	int d = 2 + (int)ch.pick(o.max_depth, "depth") - (ch.chance(1, 12, "single layer") ? 1 : 0);
	if (kind == 0) d = 2 + ch.pick(3, "depth");
	if (kind == 1) d = 2 + ch.pick(2, "depth");
	if (kind == 2) d = ch.pick(6, "how deep") ? 10 + ch.pick(60, "deep depth") : 70 + ch.pick(200, "deep depth");
	if (o.max_depth > 4 && !big && ch.chance(1, 40, "deep")) d = 10 + ch.pick(30, "deep depth");
	int wide_at = kind == 1 ? (int)ch.pick(d, "very wide layer") : -1;
	int profile = ch.pick(4, "gate profile"); // 0 mixed, 1 mixed with bias, 2 one type, 3 two types
	int pa = types[ch.pick(nt, "profile type")], pb = types[ch.pick(nt, "profile type")];
	int opnd = ch.pick(5, "operand profile"); // 0,1 random, 2 clustered, 3 identity, 4 last
	for (int l = 0; l < d; ++l) {
		size_t n;
		int maxb = kind == 0 ? (o.st == SC ? 6 : 7) : o.max_bits;
		if (d > 9) maxb = 2;
		if (l == wide_at) maxb = o.st == SC ? 9 : 11;
		int wk = ch.pick(6, "width kind");
		if (l == wide_at) n = (1ull << (maxb - 1)) + ch.pick((1ull << (maxb - 1)) + 1, "width");
		else if (wk == 0) n = 2;
		else if (wk == 1) n = 1;
		else if (wk == 2 && !o.pow2) n = 1 + ch.pick(1ull << maxb, "width");
		else n = 1ull << ch.pick(maxb + 1, "width bits");
		bool bulk = n > 40; // wide layers come from one choice
		Choices sub(bulk ? ch.raw("wide layer") : 0);
		Choices &q = bulk ? sub : ch;
		std::vector<Gate> G;
		if (l == 0) {
			for (size_t g = 0; g < n; ++g) {
				if (o.dummy_inputs && q.chance(1, 10, "dummy input")) G.push_back(Gate(T_DUMMY, q.pick(2, "dummy u") ? gen_input(q) : 0, q.pick(3, "dummy v")));
				else G.push_back(Gate(T_INPUT, gen_input(q), q.chance(1, 8, "input dummy value") ? q.pick(100, "v") : 0));
			}
		} else {
			size_t m = c.L[l - 1].size();
			for (size_t g = 0; g < n; ++g) {
				int ty;
				if (profile == 2) ty = pa;
				else if (profile == 3) ty = q.pick(2, "type") ? pb : pa;
				else if (profile == 1 && q.chance(2, 3, "bias")) ty = pa;
				else ty = types[q.pick(nt, "type")];
				long long u, v;
				switch (opnd) {
					case 2: u = q.pick(std::min<size_t>(m, 2), "u"); v = q.pick(std::min<size_t>(m, 2), "v"); break;
					case 3: u = g % m; v = (g + 1) % m; break;
					case 4: u = m - 1; v = q.pick(m, "v"); break;
					default: u = q.pick(m, "u"); v = q.pick(m, "v"); break;
				}
				if (ty != T_SUM && ty != T_NOT && ty != T_RELAY && ty != T_DUMMY && q.chance(1, 10, "u==v")) v = u;
				if (ty == T_SUM) { // range [u, v)
					if (u > v) std::swap(u, v);
					v += q.pick(2, "sum end");
					if (v > (long long)m) v = m;
					if (bulk && v - u > 12 && q.chance(31, 32, "short sum")) v = u + 12;
					else if (q.chance(1, bulk ? 200 : 6, "full sum")) { u = 0; v = m; }
				}
				if (ty == T_NOT || ty == T_RELAY) v = 0;
				if (ty == T_DUMMY && q.chance(1, 2, "plain dummy")) u = v = 0;
				G.push_back(Gate(ty, u, v));
			}
		}
		c.L.push_back(G);
	}
	if (o.st == SC) {
		c.logc = kind == 3 ? 4 + ch.pick(3, "log copies") : ch.pick(kind == 1 ? 2 : o.max_logc + 1, "log copies");
		if (o.diff_inputs && ch.chance(1, 2, "own inputs per copy")) {
			c.in.resize(1 << c.logc);
			for (auto &b : c.in) for (auto &g : c.L[0]) b.push_back(g.ty == T_INPUT ? gen_input(ch) : g.u);
		}
	}
	return c;
}

// One gate as the polynomial c0 + cu*Vu + cv*Vv + cuv*Vu*Vv placed at (g,u,v).
struct Term {
	int g, u, v, c0, cu, cv, cuv;
	bool direct;
};
struct Model {
	Stack st;
	int nl, logc;
	std::vector<int> bits;
	std::vector<std::vector<Term>> T;
	std::vector<Vec> V; // V[layer][copy << bits | g]
	static void expand(std::vector<Term> &t, int g, const Gate &x) {
		int u = x.u, v = x.v;
		switch (x.ty) {
			case T_ADD: t.push_back(Term{g, u, v, 0, 1, 1, 0, false}); break;
			case T_MUL: t.push_back(Term{g, u, v, 0, 0, 0, 1, false}); break;
			case T_SUM: for (int k = u; k < v; ++k) t.push_back(Term{g, k, 0, 0, 1, 0, 0, false}); break;
			case T_NOT: t.push_back(Term{g, u, 0, 1, -1, 0, 0, false}); break;
			case T_MINUS: t.push_back(Term{g, u, v, 0, 1, -1, 0, false}); break;
			case T_XOR: t.push_back(Term{g, u, v, 0, 1, 1, -2, false}); break;
			case T_NAAB: t.push_back(Term{g, u, v, 0, 0, 1, -1, false}); break;
			case T_RELAY: t.push_back(Term{g, u, 0, 0, 1, 0, 0, false}); break;
			case T_DRELAY: t.push_back(Term{g, u, 0, 0, 1, 0, 0, true}); break;
			default: break; // dummy: no value, no wires
		}
	}
	static Fp sc(int c, const Fp &x) { return c == 0 ? Fp() : c == 1 ? x : c == -1 ? -x : c == 2 ? x + x : c == -2 ? -(x + x) : Fp(); }
	static Fp term(const Term &t, const Fp &a, const Fp &b) {
		Fp r = sc(t.cu, a) + sc(t.cv, b);
		if (t.c0) r += Fp(1);
		if (t.cuv) r += sc(t.cuv, a * b);
		return r;
	}
	// documented gate meaning, written separately from the term form
	static Fp gate_value(const Gate &x, const Fp *p) {
		switch (x.ty) {
			case T_ADD: return p[x.u] + p[x.v];
			case T_MUL: return p[x.u] * p[x.v];
			case T_SUM: { Fp s; for (long long k = x.u; k < x.v; ++k) s += p[k]; return s; }
			case T_NOT: return Fp(1) - p[x.u];
			case T_MINUS: return p[x.u] - p[x.v];
			case T_XOR: return p[x.u] + p[x.v] - Fp(2) * p[x.u] * p[x.v];
			case T_NAAB: return (Fp(1) - p[x.u]) * p[x.v];
			case T_RELAY: case T_DRELAY: return p[x.u];
			default: return Fp();
		}
	}
	Model() : st(SA), nl(0), logc(0) {}
	// flips: optional (layer, copy, gate) wire whose value is shifted (cheating evaluation)
	struct Flip { int layer, copy, g; Fp d; };
	Model(const Circuit &c, Stack s, const std::vector<Flip> &flips = std::vector<Flip>()) : st(s), logc(s == SC ? c.logc : 0) {
		std::vector<std::vector<Gate>> L = c.L;
		if (s == SA) { // the linear protocol puts a direct-relay layer on the input
			std::vector<Gate> rel;
			for (size_t g = 0; g < (1ull << bits_for(L[0].size())); ++g) rel.push_back(Gate(T_DRELAY, g, 0));
			L.insert(L.begin() + 1, rel);
		}
		nl = L.size();
		int nc = 1 << logc;
		for (int l = 0; l < nl; ++l) {
			bits.push_back(bits_for(L[l].size()));
			std::vector<Term> t;
			Vec v((size_t)nc << bits[l]);
			for (size_t g = 0; g < L[l].size(); ++g) {
				if (l) expand(t, g, L[l][g]);
				for (int b = 0; b < nc; ++b) {
					Fp x;
					if (l == 0) {
						if (L[0][g].ty == T_INPUT) x = Fp((uint64_t)(c.in.empty() ? L[0][g].u : c.in[b][g]));
					} else x = gate_value(L[l][g], &V[l - 1][(size_t)b << bits[l - 1]]);
					v[((size_t)b << bits[l]) | g] = x;
				}
			}
			for (auto &f : flips) if (f.layer == l) v[((size_t)f.copy << bits[l]) | f.g] += f.d;
			T.push_back(t);
			V.push_back(v);
		}
	}
	size_t out_size() const { return V[nl - 1].size(); }
};

// mle over [copy bits | gate bits] with gate variables first
inline Fp mle2(const Vec &v, const Vec &rg, const Vec &rb) {
	Vec r = rg;
	r.insert(r.end(), rb.begin(), rb.end());
	return ref::mle(v, r);
}

// Honest messages of one layer of the protocol.
struct RefProver {
	const Model *M;
	int layer;
	Vec w, V, EQ, VB, Mt, At, Vt, ru;
	Fp scale, vu;
	int nb; // remaining block variables
	RefProver() : M(NULL), layer(0), nb(0) {}
	void start(const Model *m, int i, const Fp &alpha, const Fp &beta, const Vec &r0, const Vec &r1, const Vec &rb0) {
		M = m; layer = i;
		Vec a = ref::chi_table(r0, alpha), b = ref::chi_table(r1, beta);
		w.resize(a.size());
		for (size_t g = 0; g < a.size(); ++g) w[g] = a[g] + b[g];
		EQ = ref::chi_table(rb0);
		VB = M->V[i - 1];
		nb = M->logc;
		ru.clear();
		if (nb == 0) phase1();
	}
	Poly poly0() const {
		int bl = M->bits[layer - 1];
		size_t half = 1ull << (nb - 1), n = 1ull << bl;
		Fp y[4];
		Vec x(n);
		for (size_t b = 0; b < half; ++b)
			for (int k = 0; k < 4; ++k) {
				Fp K((uint64_t)k);
				Fp e = EQ[2 * b] + K * (EQ[2 * b + 1] - EQ[2 * b]);
				for (size_t u = 0; u < n; ++u) { const Fp &v0 = VB[(2 * b) << bl | u], &v1 = VB[(2 * b + 1) << bl | u]; x[u] = v0 + K * (v1 - v0); }
				Fp s;
				for (auto &t : M->T[layer]) s += w[t.g] * Model::term(t, x[t.u], x[t.v]);
				y[k] += e * s;
			}
		// interpolate through 0..3
		static const Fp i2 = Fp(2).inv(), i6 = Fp(6).inv();
		Fp d1 = y[1] - y[0], d2 = y[2] - y[1] - d1, d3 = (y[3] - y[2] - (y[2] - y[1])) - d2;
		// Newton: y0 + d1 x + d2 x(x-1)/2 + d3 x(x-1)(x-2)/6
		Fp a2 = d2 * i2, a3 = d3 * i6;
		Poly p(4);
		p[0] = y[0];
		p[1] = d1 - a2 + Fp(2) * a3;
		p[2] = a2 - Fp(3) * a3;
		p[3] = a3;
		return p;
	}
	void bind0(const Fp &r) {
		int bl = M->bits[layer - 1];
		size_t half = 1ull << (nb - 1), n = 1ull << bl;
		for (size_t b = 0; b < half; ++b) {
			EQ[b] = EQ[2 * b] + r * (EQ[2 * b + 1] - EQ[2 * b]);
			for (size_t u = 0; u < n; ++u) VB[b << bl | u] = VB[(2 * b) << bl | u] + r * (VB[(2 * b + 1) << bl | u] - VB[(2 * b) << bl | u]);
		}
		if (--nb == 0) phase1();
	}
	void phase1() {
		scale = EQ[0];
		size_t n = 1ull << M->bits[layer - 1];
		V.assign(VB.begin(), VB.begin() + n);
		Mt.assign(n, Fp()); At = Mt; Vt = V;
		for (auto &t : M->T[layer]) {
			Fp ww = w[t.g] * scale;
			Fp m = sc1(t.cu), a = sc1(t.c0);
			if (t.cuv) m += Model::sc(t.cuv, V[t.v]);
			if (t.cv) a += Model::sc(t.cv, V[t.v]);
			if (!m.zero()) Mt[t.u] += ww * m;
			if (!a.zero()) At[t.u] += ww * a;
		}
	}
	static Fp sc1(int c) { return Model::sc(c, Fp(1)); }
	Poly poly() const { // round polynomial of phase 1 or 2
		Poly p(3);
		for (size_t k = 0; k + 1 < Vt.size(); k += 2) {
			Fp dm = Mt[k + 1] - Mt[k], dv = Vt[k + 1] - Vt[k];
			p[2] += dm * dv;
			p[1] += dm * Vt[k] + Mt[k] * dv + At[k + 1] - At[k];
			p[0] += Mt[k] * Vt[k] + At[k];
		}
		return p;
	}
	void bind(const Fp &r) {
		size_t n = Vt.size() / 2;
		for (size_t k = 0; k < n; ++k) {
			Vt[k] = Vt[2 * k] + r * (Vt[2 * k + 1] - Vt[2 * k]);
			Mt[k] = Mt[2 * k] + r * (Mt[2 * k + 1] - Mt[2 * k]);
			At[k] = At[2 * k] + r * (At[2 * k + 1] - At[2 * k]);
		}
		Vt.resize(n); Mt.resize(n); At.resize(n);
	}
	// after all phase-1 variables are bound
	Fp honest_vu() const { return Vt[0]; }
	void phase2(const Vec &r_u, const Fp &use_vu) {
		ru = r_u;
		vu = use_vu;
		size_t n = 1ull << M->bits[layer - 1];
		Vec xu = ref::chi_table(ru);
		Mt.assign(n, Fp()); At = Mt; Vt = V;
		for (auto &t : M->T[layer]) {
			if (t.direct) continue; // carried by the verifier's own direct-relay term
			Fp ww = w[t.g] * xu[t.u] * scale;
			Fp m = sc1(t.cv), a = sc1(t.c0);
			if (t.cuv) m += Model::sc(t.cuv, vu);
			if (t.cu) a += Model::sc(t.cu, vu);
			if (!m.zero()) Mt[t.v] += ww * m;
			if (!a.zero()) At[t.v] += ww * a;
		}
	}
	Fp sum() const { Fp s; for (size_t k = 0; k < Vt.size(); ++k) s += Mt[k] * Vt[k] + At[k]; return s; }
	Fp honest_vv() const { return Vt[0]; }
	// direct-relay weight at r_u
	Fp drv(const Vec &r_u) const {
		Fp s;
		if (M->T[layer].empty() || !M->T[layer][0].direct) return s;
		Vec xu = ref::chi_table(r_u);
		for (auto &t : M->T[layer]) if (t.direct) s += w[t.g] * xu[t.u];
		return s;
	}
};

// What was said in one session, as seen on the seam.
struct LayerT {
	int layer;
	Fp alpha, beta;
	Vec r0, r1, rb0;
	std::vector<Poly> p0, p1, p2;
	Vec rb, ru, rv;      // revealed challenges
	Fp vu_latch;         // A: value of the v_u field when phase 2 starts
	Fp vu, vv;
	bool fin;
	LayerT() : layer(0), fin(false) {}
};
struct Transcript {
	Vec out;
	bool has_out, has_vres;
	Fp vres;
	Vec r0, rb0;
	std::vector<LayerT> L;
	Transcript() : has_out(false), has_vres(false) {}
};

// Coefficients of the end-of-layer predicate: C0 + Cu*vu + Cv*vv + Cuv*vu*vv (direct relays separate)
struct Pred { Fp c0, cu, cv, cuv, drv; Fp eval(const Fp &vu, const Fp &vv) const { return c0 + cu * vu + cv * vv + cuv * vu * vv; } };
inline Pred predicate(const Model &m, int layer, const LayerT &t, const Vec &ru, const Vec &rv, const Vec &rb) {
	Pred p;
	Vec a = ref::chi_table(t.r0, t.alpha), b = ref::chi_table(t.r1, t.beta), xu = ref::chi_table(ru), xv = ref::chi_table(rv);
	Fp s(1);
	for (int k = 0; k < m.logc; ++k) s *= t.rb0[k] * rb[k] + (Fp(1) - t.rb0[k]) * (Fp(1) - rb[k]);
	for (auto &x : m.T[layer]) {
		Fp w = (a[x.g] + b[x.g]) * xu[x.u];
		if (x.direct) { p.drv += w; continue; }
		w *= xv[x.v] * s;
		p.c0 += Model::sc(x.c0, w); p.cu += Model::sc(x.cu, w); p.cv += Model::sc(x.cv, w); p.cuv += Model::sc(x.cuv, w);
	}
	return p;
}

struct RefVerdict { bool accept, complete; std::string why; int fail_msgs; };
// Reference verifier over a transcript. The unrevealed last combination (B, C) is
// replaced by requiring both final claims to be right, which is what a random one does.
inline RefVerdict ref_verify(const Model &m, const Transcript &t) {
	RefVerdict v; v.accept = false; v.complete = false; v.fail_msgs = 0;
	char b[80];
	if (!t.has_out || t.out.size() != m.out_size()) { v.why = "no-output"; return v; }
	Fp claim;
	Vec r0 = t.r0, rb0 = t.rb0, r1;
	int msgs = 1;
	if (m.nl == 1) { v.accept = t.out == m.V[0]; v.complete = true; v.why = v.accept ? "" : "final"; return v; }
	if (t.L.empty()) { v.why = "incomplete"; return v; }
	claim = mle2(t.out, t.L[0].r0, t.L[0].rb0);
	for (size_t k = 0; k < t.L.size(); ++k) {
		const LayerT &l = t.L[k];
		int i = m.nl - 1 - (int)k;
		if (l.layer != i) { v.why = "layer-order"; return v; }
		if (k) claim = l.alpha * t.L[k - 1].vu + l.beta * t.L[k - 1].vv;
		auto rounds = [&](const std::vector<Poly> &ps, const Vec &rs, size_t want, const char *nm, const Fp &extra) -> bool {
			for (size_t j = 0; j < ps.size(); ++j) {
				++msgs;
				if (ref::peval(ps[j], Fp(0)) + ref::peval(ps[j], Fp(1)) + extra != claim) { snprintf(b, sizeof b, "%s", nm); v.why = b; v.fail_msgs = msgs; return false; }
				if (j >= rs.size()) { v.why = "incomplete"; return false; }
				claim = ref::peval(ps[j], rs[j]) + extra;
			}
			if (ps.size() < want) { v.why = "incomplete"; return false; }
			if (ps.size() > want) { v.why = "too-many-rounds"; return false; }
			return true;
		};
		if (!rounds(l.p0, l.rb, m.logc, "phase0", Fp())) return v;
		if (!rounds(l.p1, l.ru, m.bits[i - 1], "phase1", Fp())) return v;
		Fp extra;
		bool direct = !m.T[i].empty() && m.T[i][0].direct;
		Pred pr;
		if (direct) { pr = predicate(m, i, l, l.ru, l.ru, l.rb); extra = pr.drv * l.vu_latch; }
		if (!rounds(l.p2, l.rv, m.bits[i - 1], "phase2", extra)) return v;
		if (!l.fin) { v.why = "incomplete"; return v; }
		++msgs;
		if (m.st == SA && l.vu != l.vu_latch) { v.why = "vu-changed"; v.fail_msgs = msgs; return v; }
		pr = predicate(m, i, l, l.ru, l.rv, l.rb);
		if (claim != pr.eval(l.vu, l.vv) + pr.drv * l.vu) { v.why = "semifinal"; v.fail_msgs = msgs; return v; }
	}
	if ((int)t.L.size() != m.nl - 1) { v.why = "incomplete"; return v; }
	v.complete = true;
	const LayerT &l = t.L.back();
	if (l.vu != mle2(m.V[0], l.ru, l.rb)) { v.why = "final"; return v; }
	if (m.st != SA && l.vv != mle2(m.V[0], l.rv, l.rb)) { v.why = "final"; return v; }
	v.accept = true;
	return v;
}
} // namespace sim
