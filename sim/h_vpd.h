// C14: the three polynomial commitments (R masks, sum-check masks, inputs), driven
// directly: seeded sequences of commit, open and verify, with altered and foreign parts.
#pragma once
namespace input_vpd { bool check_commit(bn::Ec1, bn::Ec1, bn::Ec1, bn::Ec1); }
#include <random>
namespace vpd_test { extern gmp_randstate_t r_state; }
namespace sim {
struct VOpen { Vec r; Fp z, ans; std::vector<bn::Ec1> w, wa; };
struct VCommit {
	Vec c, m;                    // polynomial as given (inputs: evaluations), second polynomial
	std::vector<mpz_class> in, in2; // what the prover keeps
	mpz_class rf, rf2;
	bn::Ec1 d[4];
};
struct Vpd {
	int kind, n; // 0 R masks, 1 sum-check masks, 2 inputs
	static std::vector<mpz_class> mp(const Vec &v) { std::vector<mpz_class> r; for (auto &x : v) r.push_back(to_mpz(x)); return r; }
	int coeffs() const { return kind == 0 ? 6 : kind == 1 ? 2 * n + 7 : 1 << n; }
	Fp eval(const VCommit &k, const Vec &r, const Fp &z) const {
		const Vec &c = k.c;
		if (kind == 0) return c[0] + c[1] * r[0] + c[2] * r[0] * r[0] + c[3] * r[1] + c[4] * r[1] * r[1] + c[5] * r[0] * r[1];
		if (kind == 1) {
			Fp s = c[2 * n];
			for (int i = 0; i < n; ++i) {
				Fp x = r[i], x2 = x * x;
				s += c[2 * i] * x2 + c[2 * i + 1] * x;
				if (i == n / 2 - 1) s += c[2 * n + 1] * x2 * x2 * x + c[2 * n + 2] * x2 * x2 + c[2 * n + 3] * x2 * x;
				if (i == n - 2) s += c[2 * n + 4] * x2 * x2 * x + c[2 * n + 5] * x2 * x2 + c[2 * n + 6] * x2 * x;
			}
			return s;
		}
		return ref::mle(c, r) + z * (k.m[0] + k.m[1] * r[n - 1]);
	}
	void keygen() {
		if (kind == 0) { vpdR::environment_init(); vpdR::KeyGen(2); }
		else if (kind == 1) {
			// its environment_init seeds with rand(): as in the prover, the caller seeds it again
			vpd_test::environment_init();
			std::random_device source; mpz_class seed = 0;
			for (int i = 0; i < 8; ++i) seed = (seed << 32) + (unsigned long)source();
			gmp_randseed(vpd_test::r_state, seed.get_mpz_t());
			vpd_test::KeyGen(n);
		}
		else { input_vpd::environment_init(); input_vpd::KeyGen(n); }
	}
	void commit(VCommit &k) {
		k.in = mp(k.c);
		if (kind == 0) k.rf = vpdR::commit(k.d[0], k.d[1], k.in);
		else if (kind == 1) k.rf = vpd_test::commit(k.d[0], k.d[1], k.in);
		else { k.in.push_back(0); k.in2 = mp(k.m); auto p = input_vpd::commit(k.d[0], k.d[1], k.d[2], k.d[3], k.in, k.in2); k.rf = p.first; k.rf2 = p.second; }
	}
	bool check(const VCommit &k) { return kind == 0 ? vpdR::check_commit(k.d[0], k.d[1]) : kind == 1 ? vpd_test::check_commit(k.d[0], k.d[1]) : input_vpd::check_commit(k.d[0], k.d[1], k.d[2], k.d[3]); }
	VOpen open(VCommit &k, const Vec &r, const Fp &z) {
		VOpen o; o.r = r; o.z = z;
		mpz_class a;
		if (kind == 0) vpdR::prove(mp(r), a, k.in, o.w, o.wa, k.rf);
		else if (kind == 1) vpd_test::prove(mp(r), a, k.in, o.w, o.wa, k.rf);
		else input_vpd::prove(mp(r), a, k.in, k.in2, o.w, o.wa, k.rf, k.rf2, to_mpz(z));
		o.ans = from_mpz(a);
		return o;
	}
	bool verify(const VCommit &k, VOpen &o) {
		mpz_class a = to_mpz(o.ans);
		if (kind == 0) return vpdR::verify(mp(o.r), k.d[0], a, o.w, o.wa);
		if (kind == 1) return vpd_test::verify(mp(o.r), k.d[0], a, o.w, o.wa);
		return input_vpd::verify(mp(o.r), k.d[0], k.d[2], to_mpz(o.z), a, o.w, o.wa);
	}
};
static Fp vval(Choices &ch) {
	switch (ch.pick(6, "value kind")) {
		case 0: return Fp();
		case 1: return Fp(1);
		case 2: return -Fp(1);
		case 3: return Fp(ch.pick(1 << 20, "value"));
		default: return Rng(ch.raw("value")).fp();
	}
}
static Vec vvec(Choices &ch, int n, const char *what) {
	Vec v(n);
	int kind = ch.pick(4, what);
	if (kind == 3 || n > 24) { Rng g(ch.raw(what)); for (auto &x : v) x = kind == 2 && g.below(3) ? Fp() : g.fp(); }
	else if (kind == 2) { v[ch.pick(n, "only position")] = vval(ch); }
	else if (kind == 1) { Rng g(ch.raw(what)); for (auto &x : v) { uint64_t k = g.below(5); x = k == 0 ? Fp() : k == 1 ? Fp(1) : k == 2 ? -Fp(1) : k == 3 ? Fp(g.below(1000)) : g.fp(); } }
	else for (auto &x : v) x = vval(ch);
	return v;
}
static void bump(bn::Ec1 &x, const Fp &d) { bn::Ec1 e; memcpy(e.v.l, d.l, 32); x = x + e; }
static void run_vpd(Run &r) {
	static const char *kn[] = {"R-mask", "sumcheck-mask", "input"};
	Vpd V;
	V.kind = r.ch.pick(3, "scheme");
	bool large = V.kind && r.ch.chance(1, 20, "large");
	V.n = V.kind == 0 ? 2 : V.kind == 1 ? (large ? 15 : 3) + 2 * (int)r.ch.pick(6, "variables") : 1 + (int)(large ? 5 + r.ch.pick(7, "variables") : r.ch.pick(5, "variables"));
	bool hostile = r.ch.pick(3, "hostile");
	int em = hostile || r.ch.pick(2, "entropy") ? ENT_UNIFORM : (int)r.ch.pick(ENT_MODES, "entropy mode");
	Entropy e; e.configure(em, r.ch.raw("entropy seed"));
	zworld(r);
	set_entropy(&e);
	V.keygen();
	r.say("%s commitment, %d variables", kn[V.kind], V.n);
	int nc = 1 + r.ch.pick(3, "commitments");
	std::vector<VCommit> C(nc);
	std::vector<VOpen> O; std::vector<int> of;
	for (int i = 0; i < nc; ++i) {
		C[i].c = vvec(r.ch, V.coeffs(), "polynomial");
		if (V.kind == 2) C[i].m = vvec(r.ch, 2, "mask");
		V.commit(C[i]);
		for (int j = 0; j < 4; j += (V.kind == 2 ? 1 : 4)) r.note(C[i].d[j].v.l[0]);
		if (!V.check(C[i])) { r.violate(std::string("commitment-refused:") + kn[V.kind], "honest commitment %d refused", i); set_entropy(NULL); return; }
	}
	int ops = 1 + r.ch.pick(4, "openings");
	for (int i = 0; i < ops; ++i) {
		int k = r.ch.pick(nc, "which commitment");
		Vec pt = vvec(r.ch, V.n, "point");
		Fp z = V.kind == 2 ? vval(r.ch) : Fp();
		VOpen o = V.open(C[k], pt, z);
		r.note(o.ans);
		r.state(mix64(V.kind * 1000 + V.n * 10 + i) ^ em);
		Fp want = V.eval(C[k], pt, z);
		if (o.ans != want) { r.violate(std::string("wrong-answer:") + kn[V.kind], "opening of commitment %d answers %s, the polynomial is %s there", k, o.ans.hex().c_str(), want.hex().c_str()); set_entropy(NULL); return; }
		if (!V.verify(C[k], o)) { r.violate(std::string("honest-refused:") + kn[V.kind], "honest opening of commitment %d at point %d refused", k, i); set_entropy(NULL); return; }
		r.st.hit("verdict.accept");
		O.push_back(o); of.push_back(k);
	}
	if (hostile) {
		int tries = 2 + r.ch.pick(5, "attacks");
		for (int i = 0; i < tries; ++i) {
			int j = r.ch.pick(O.size(), "which opening");
			VOpen o = O[j];
			VCommit c = C[of[j]];
			Fp d = r.ch.pick(2, "delta") ? Rng(r.ch.raw("delta")).fp() : r.ch.pick(2, "delta") ? Fp(1) : -Fp(1);
			std::string what;
			switch (r.ch.pick(10, "attack")) {
				case 0: o.ans += d; what = "answer"; break;
				case 1: { int k = r.ch.pick(o.w.size(), "witness"); bump(o.w[k], d); what = "witness"; break; }
				case 2: { int k = r.ch.pick(o.wa.size(), "witness"); bump(o.wa[k], d); what = k + 1 == (int)o.wa.size() ? "last-shifted-witness" : "shifted-witness"; break; }
				case 3: { int k = r.ch.pick(o.r.size(), "coordinate"); o.r[k] += d; what = "point"; break; }
				case 4: { int k = r.ch.pick(V.kind == 2 ? 4 : 2, "digest"); bump(c.d[k], d); what = "digest" + std::to_string(k); break; }
				case 5: if (V.kind != 2) continue; o.z += d; what = "mask-factor"; break;
				case 6: { // open another polynomial, with all the prover knows
					VCommit f = C[of[j]];
					int k = r.ch.pick(f.in.size() - (V.kind == 2 ? 1 : 0), "coefficient");
					f.in[k] = to_mpz(from_mpz(f.in[k]) + d);
					o = V.open(f, o.r, o.z); what = "other-polynomial"; break;
				}
				case 7: { // the right opening of another point
					Vec p2 = o.r; p2[r.ch.pick(p2.size(), "coordinate")] += d;
					VOpen x = V.open(C[of[j]], p2, o.z); x.r = o.r; o = x; what = "opening-of-another-point"; break;
				}
				case 8: { // one witness left out
					bool sh = r.ch.pick(2, "which witnesses");
					std::vector<bn::Ec1> &w = sh ? o.wa : o.w;
					w.pop_back(); what = sh ? "shifted-witness-missing" : "witness-missing"; break;
				}
				default: { // the right opening of another commitment
					int k = r.ch.pick(C.size(), "other commitment");
					if (k == of[j]) continue;
					VOpen x = V.open(C[k], o.r, o.z);
					o = x; what = "opening-of-another-commitment"; break;
				}
			}
			bool ok = V.check(c) && V.verify(c, o);
			r.say("altered %s: %s", what.c_str(), ok ? "accepted" : "refused");
			r.fault(what.c_str());
			r.note(std::hash<std::string>()(what) ^ ok);
			if (ok) { r.violate(std::string("accepted:") + kn[V.kind] + ":" + what, "%s commitment: %s altered and still accepted", kn[V.kind], what.c_str()); }
		}
	}
	set_entropy(NULL);
}

// C19: commitments and openings show nothing: the same polynomial, committed to and opened
// again at the same point, gives unrelated group elements, and other keys in another process.
static void run_vpd_hiding(Run &r) {
	static const char *kn[] = {"R-mask", "sumcheck-mask", "input"};
	Vpd V;
	V.kind = r.ch.pick(3, "scheme");
	V.n = V.kind == 0 ? 2 : V.kind == 1 ? 3 + 2 * (int)r.ch.pick(4, "variables") : 1 + (int)r.ch.pick(5, "variables");
	uint64_t s1 = r.ch.raw("entropy seed"), s2 = r.ch.raw("entropy seed");
	if (s1 == s2) return;
	zworld(r);
	g_libc_rand = 1;
	r.say("%s commitment, %d variables", kn[V.kind], V.n);
	VCommit k; k.c = vvec(r.ch, V.coeffs(), "polynomial");
	if (V.kind == 2) k.m = vvec(r.ch, 2, "mask");
	Vec pt = vvec(r.ch, V.n, "point");
	Fp z = vval(r.ch);
	bool rekey = r.ch.pick(2, "another process");
	r.state(V.kind * 100 + V.n * 2 + rekey);
	std::vector<Fp> seen[2];
	Entropy e; e.configure(ENT_UNIFORM, s1);
	set_entropy(&e);
	srand(1);
	V.keygen();
	for (int i = 0; i < 2; ++i) {
		if (i && rekey) { e.configure(ENT_UNIFORM, s2); srand(1); V.keygen(); }
		VCommit c = k;
		V.commit(c);
		auto put = [&](const bn::Ec1 &x) { Fp f; memcpy(f.l, x.v.l, 32); seen[i].push_back(f); r.note(f); };
		for (int j = 0; j < (V.kind == 2 ? 4 : 2); ++j) put(c.d[j]);
		VOpen o = V.open(c, pt, z);
		for (auto &x : o.w) put(x);
		for (auto &x : o.wa) put(x);
	}
	set_entropy(NULL);
	for (size_t j = 0; j < seen[0].size(); ++j) {
		bool digest = j < (V.kind == 2 ? 4u : 2u);
		if (seen[0][j] == seen[1][j]) { r.violate(std::string(digest ? "same-commitment:" : "same-witness:") + kn[V.kind], "%s %zu is the same for two %scommitments to one polynomial", digest ? "digest" : "witness", j, rekey ? "separately keyed " : ""); return; }
		r.st.hit("elements compared");
	}
	// with one key, all that two openings of one polynomial at one point differ in is their blinding: each its own
	if (!rekey) {
		std::map<Fp, std::string, FpLess> used;
		size_t nd = V.kind == 2 ? 4 : 2, nw = (seen[0].size() - nd) / 2;
		for (size_t j = 0; j < nd + nw; ++j) {
			if (j < nd && j % 2) continue; // shifted digests
			Fp d = seen[0][j] - seen[1][j];
			std::string n = j < nd ? "digest " + std::to_string(j) : "witness " + std::to_string(j - nd);
			auto k = used.insert({d, n});
			if (!k.second) { r.violate(std::string("blinding-reused:") + kn[V.kind], "%s and %s are blinded by the same value", n.c_str(), k.first->second.c_str()); return; }
		}
	}
	r.st.hit("verdict.accept");
}
} // namespace sim
