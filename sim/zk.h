// Adapter between the simulator and the zero-knowledge prover/verifier of /repo,
// with the statement (circuit, reference values, wiring coefficients) it proves.
#pragma once
#include "core.h"
#include "linear_gkr/zk_verifier.h"
#include "linear_gkr/zk_prover.h"
#include "fe.h"
#include <functional>
#include <new>

namespace sim {
using ref::Poly;
struct ZGate { int ty; long long u, v; };
struct ZMeta { int para, lb, lr; };
struct ZCirc {
	std::vector<std::vector<ZGate>> L; // layer 0: inputs
	std::vector<ZMeta> M;              // one per layer of the file
	std::string text(int style = 0) const {
		static const char *sep[] = {" ", "\n", "\t", "  \n "};
		const char *s = sep[style & 3];
		std::string o = std::to_string(L.size()) + "\n";
		for (auto &l : L) {
			o += std::to_string(l.size());
			int g = 0;
			for (auto &x : l) o += s + std::to_string(x.ty) + " " + std::to_string(g++) + s + std::to_string(x.u) + " " + std::to_string(x.v);
			o += "\n";
		}
		return o;
	}
	std::string meta() const {
		std::string o;
		for (auto &m : M) o += std::to_string(m.para) + " " + std::to_string(1 << m.lb) + " " + std::to_string(1 << m.lr) + " " + std::to_string(m.lb) + " " + std::to_string(m.lr) + "\n";
		return o;
	}
	std::string brief() const {
		std::string o = "layers";
		for (size_t i = 0; i < L.size(); ++i) {
			o += " |";
			if (M[i].para) o += "[" + std::to_string(1 << M[i].lr) + "x]";
			int k = 0;
			for (auto &x : L[i]) { if (++k > 40) { o += " ..."; break; } o += " " + std::to_string(x.ty) + ":" + std::to_string(x.u) + "," + std::to_string(x.v); }
		}
		return o;
	}
	uint64_t shape() const {
		uint64_t h = L.size() * 31;
		for (size_t i = 0; i < L.size(); ++i) { h = mix64(h ^ L[i].size() ^ (M[i].para << 20) ^ (M[i].lr << 22)); uint64_t t = 0; for (auto &x : L[i]) t |= 1ull << x.ty; h = mix64(h ^ t); }
		return h;
	}
};
inline int zbits(size_t n) { int b = 1; while ((1ull << b) < n) ++b; return b; }

// One wire of a gate: coefficient form c0 + cu*Vu + cv*Vv + cuv*Vu*Vv at (g,u,v).
struct ZTerm { int g, u, v; Fp c0, cu, cv, cuv; };
struct ZModel {
	int nl; // layers with the relay layer the protocol puts on the inputs
	std::vector<int> bits;
	std::vector<std::vector<ZTerm>> T;
	std::vector<Vec> V;
	static Fp value(const ZGate &x, const Vec &p) {
		switch (x.ty) {
			case 0: return p[x.u] + p[x.v];
			case 1: return p[x.u] * p[x.v];
			case 5: { Fp s; for (long long k = x.u; k < x.v; ++k) s += p[k]; return s; }
			case 6: return Fp(1) - p[x.u];
			case 7: return p[x.u] - p[x.v];
			case 8: return p[x.u] + p[x.v] - Fp(2) * p[x.u] * p[x.v];
			case 9: return (Fp(1) - p[x.u]) * p[x.v];
			case 4: case 10: return p[x.u];
			case 12: { Fp s, w(1); for (long long k = x.u; k <= x.v; ++k) { s += w * p[k]; w = w + w; } return s; }
			case 13: return p[x.u] * (Fp(1) - p[x.u]);
			default: return Fp();
		}
	}
	static void expand(std::vector<ZTerm> &t, int g, const ZGate &x) {
		int u = x.u, v = x.v;
		Fp z, o(1);
		switch (x.ty) {
			case 0: t.push_back({g, u, v, z, o, o, z}); break;
			case 1: t.push_back({g, u, v, z, z, z, o}); break;
			case 5: for (int k = u; k < v; ++k) t.push_back({g, k, 0, z, o, z, z}); break;
			case 6: t.push_back({g, u, 0, o, -o, z, z}); break;
			case 7: t.push_back({g, u, v, z, o, -o, z}); break;
			case 8: t.push_back({g, u, v, z, o, o, -Fp(2)}); break;
			case 9: t.push_back({g, u, v, z, z, o, -o}); break;
			case 4: case 10: t.push_back({g, u, 0, z, o, z, z}); break;
			case 12: { Fp w(1); for (int k = u; k <= v; ++k) { t.push_back({g, k, 0, z, w, z, z}); w = w + w; } break; }
			case 13: t.push_back({g, u, v, z, o, z, -o}); break;
			default: break;
		}
	}
	struct Flip { int layer, g; Fp d; };
	ZModel() : nl(0) {}
	explicit ZModel(const ZCirc &c, const std::vector<Flip> &flips = std::vector<Flip>()) {
		std::vector<std::vector<ZGate>> L = c.L;
		std::vector<ZGate> rel;
		for (long long g = 0; g < (1ll << zbits(L[0].size())); ++g) rel.push_back({4, g, 0});
		L.insert(L.begin() + 1, rel);
		nl = L.size();
		for (int l = 0; l < nl; ++l) {
			bits.push_back(zbits(L[l].size()));
			std::vector<ZTerm> t;
			Vec v(1ull << bits[l]);
			for (size_t g = 0; g < L[l].size(); ++g) {
				if (l) expand(t, g, L[l][g]);
				v[g] = l ? value(L[l][g], V[l - 1]) : L[0][g].ty == 3 ? Fp((uint64_t)L[0][g].u) : Fp();
			}
			for (auto &f : flips) if (f.layer == l) v[f.g] += f.d;
			T.push_back(t); V.push_back(v);
		}
	}
	const Vec &out() const { return V[nl - 1]; }
};
struct ZPred { Fp c0, cu, cv, cuv, drv; Fp eval(const Fp &u, const Fp &v) const { return c0 + cu * u + cv * v + cuv * u * v; } };
inline ZPred zpredicate(const ZModel &m, int layer, const Fp &alpha, const Fp &beta, const Vec &r0, const Vec &r1, const Vec &ru, const Vec &rv) {
	ZPred p;
	Vec a = ref::chi_table(r0, alpha), b = ref::chi_table(r1, beta), xu = ref::chi_table(ru), xv = rv.size() == ru.size() ? ref::chi_table(rv) : Vec(1ull << ru.size(), Fp(1));
	for (auto &x : m.T[layer]) {
		Fp w = (a[x.g] + b[x.g]) * xu[x.u];
		if (layer == 1) { p.drv += w; continue; }
		w *= xv[x.v];
		p.c0 += x.c0 * w; p.cu += x.cu * w; p.cv += x.cv * w; p.cuv += x.cuv * w;
	}
	return p;
}

inline long long zinput(Choices &ch) {
	switch (ch.pick(6, "input kind")) {
		case 0: return 1;
		case 1: return 0;
		case 2: return ch.pick(5, "input");
		case 3: return 0x7fffffff - (long long)ch.pick(3, "input");
		case 4: return 1ll << ch.pick(31, "input");
		default: return ch.pick(0x80000000ull, "input");
	}
}
struct ZGen { int max_depth, max_bits, deep; bool pow2, para, dummy, unary; ZGen() : max_depth(4), max_bits(3), deep(40), pow2(false), para(true), dummy(true), unary(false) {} };
inline ZGate zgate(Choices &ch, long long m, int pa, int profile, int opnd, size_t g) { // operands in [0,m)
	static const int types[] = {0, 1, 2, 5, 6, 7, 8, 9, 10, 12, 13};
	static const int one_sided[] = {5, 6, 10, 12};
	int ty = profile == 2 ? pa : profile == 9 ? one_sided[ch.pick(4, "type")] : types[ch.pick(11, "type")];
	auto op = [&]() -> long long {
		switch (opnd) { case 2: return ch.pick(m < 2 ? m : 2, "operand"); case 3: return g % m; case 4: return m - 1 - ch.pick(m < 2 ? m : 2, "operand"); default: return ch.pick(m, "operand"); }
	};
	long long u = op(), v = op();
	switch (ty) {
		case 2: return {2, 0, 0};
		case 5: if (ch.chance(1, 4, "whole sum")) { u = 0; v = m; } else { if (u > v) std::swap(u, v); ++v; } return {5, u, v};
		case 12: if (u > v) std::swap(u, v); if (m > 16 && ch.chance(1, 2, "longest sum")) { u = m > 63 ? ch.pick(m - 62, "from") : 0; v = m - 1; } if (v - u + 1 > 63) v = u + 62; return {12, u, v};
		case 13: return {13, u, u};
		case 6: case 10: return {ty, u, 0};
		default: return {ty, u, v};
	}
}
inline int zblock(Choices &ch) { return ch.chance(1, 6, "large blocks") ? 3 + (int)ch.pick(3, "block bits") : (int)ch.pick(3, "block bits"); }
inline ZCirc zgen(Choices &ch, const ZGen &o) {
	ZCirc c;
	static const int types[] = {0, 1, 5, 6, 7, 8, 9, 10, 12, 13};
	int d = 1 + ch.pick(o.max_depth, "depth");
	if (o.deep && ch.chance(1, o.deep, "deep")) d = 6 + ch.pick(20, "deep depth");
	bool wide = ch.chance(1, 45, "wide"), widest = wide && ch.chance(1, 6, "widest");
	int profile = o.unary ? 9 : (int)ch.pick(4, "gate profile"), pa = types[ch.pick(10, "profile type")], opnd = ch.pick(5, "operand profile");
	int para_from = o.para && d > 1 && ch.chance(2, 5, "repeated blocks") ? 1 + (int)ch.pick(d - 1, "first repeated layer") : d + 1;
	int para_to = para_from < d && ch.chance(1, 3, "repetition ends") ? para_from + 1 + (int)ch.pick(d - para_from, "last repeated layer") : d;
	int lr = 0, lb = 0;
	for (int l = 0; l < d; ++l) {
		if (l + 1 == para_from) { // the layer the repeated section reads
			lr = ch.chance(1, 8, "many copies") ? 3 + ch.pick(3, "copies") : ch.pick(3, "copies"); lb = zblock(ch);
			if (lr + lb == 0) lb = 1;
		} else if (l >= para_from && l < para_to) { lb = zblock(ch); if (lr + lb == 0) lb = 1; }
		int maxb = wide ? (widest ? 10 : 7) : d > 6 ? 2 : o.max_bits;
		size_t n;
		int wk = ch.pick(5, "width kind");
		if (wk == 0) n = 2; else if (wk == 1) n = 1; else if (wk == 2 && !o.pow2) n = 1 + ch.pick(1ull << maxb, "width"); else n = 1ull << ch.pick(maxb + 1, "width bits");
		bool blocks = l + 1 >= para_from && l < para_to;
		if (blocks) n = 1ull << (lr + lb);
		bool bulk = n > 40;
		Choices sub(bulk ? ch.raw("wide layer") : 0);
		Choices &q = bulk ? sub : ch;
		std::vector<ZGate> G;
		ZMeta m = {0, 0, 0};
		if (blocks) { m.lb = lb; m.lr = lr; }
		if (l == 0) {
			for (size_t g = 0; g < n; ++g) G.push_back(o.dummy && q.chance(1, 12, "dummy input") ? ZGate{2, q.pick(2, "dummy u") ? zinput(q) : 0, 0} : ZGate{3, zinput(q), 0});
		} else if (blocks && l >= para_from) { // one block, repeated
			m.para = 1;
			long long pb = 1ll << c.M[l - 1].lb;
			std::vector<ZGate> B;
			for (size_t g = 0; g < (1ull << lb); ++g) B.push_back(zgate(q, pb, pa, profile, opnd, g));
			for (int r = 0; r < (1 << lr); ++r)
				for (auto x : B) {
					if (x.ty != 2) { x.u += r * pb; if (x.ty != 6 && x.ty != 10) x.v += r * pb; }
					G.push_back(x);
				}
		} else {
			long long mm = c.L[l - 1].size();
			for (size_t g = 0; g < n; ++g) G.push_back(zgate(q, mm, pa, profile, opnd, g));
		}
		c.L.push_back(G); c.M.push_back(m);
	}
	return c;
}
} // namespace sim
