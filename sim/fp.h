// Reference prime field, independent of the code under test (GMP limbs).
#pragma once
#include <gmp.h>
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>

namespace ref {

struct Fp {
	mp_limb_t l[4];
	static const mp_limb_t *P() {
		static mp_limb_t p[4];
		static bool init = false;
		if (!init) {
			mpz_t z;
			mpz_init_set_str(z, "16798108731015832284940804142231733909759579603404752749028378864165570215949", 10);
			memset(p, 0, sizeof p);
			mpz_export(p, NULL, -1, 8, 0, 0, z);
			mpz_clear(z);
			init = true;
		}
		return p;
	}
	Fp() { memset(l, 0, sizeof l); }
	Fp(uint64_t x) { l[0] = x; l[1] = l[2] = l[3] = 0; }
	bool operator==(const Fp &o) const { return !memcmp(l, o.l, sizeof l); }
	bool operator!=(const Fp &o) const { return memcmp(l, o.l, sizeof l) != 0; }
	bool operator<(const Fp &o) const { return mpn_cmp(l, o.l, 4) < 0; }
	bool zero() const { return !(l[0] | l[1] | l[2] | l[3]); }
	bool canonical() const { return mpn_cmp(l, P(), 4) < 0; }
	Fp operator+(const Fp &o) const {
		Fp r;
		mp_limb_t c = mpn_add_n(r.l, l, o.l, 4);
		if (c || mpn_cmp(r.l, P(), 4) >= 0) mpn_sub_n(r.l, r.l, P(), 4);
		return r;
	}
	Fp operator-(const Fp &o) const {
		Fp r;
		mp_limb_t b = mpn_sub_n(r.l, l, o.l, 4);
		if (b) mpn_add_n(r.l, r.l, P(), 4);
		return r;
	}
	Fp operator-() const { return Fp() - *this; }
	Fp operator*(const Fp &o) const {
		mp_limb_t t[8], q[5];
		Fp r;
		mpn_mul_n(t, l, o.l, 4);
		mpn_tdiv_qr(q, r.l, 0, t, 8, P(), 4);
		return r;
	}
	Fp &operator+=(const Fp &o) { *this = *this + o; return *this; }
	Fp &operator-=(const Fp &o) { *this = *this - o; return *this; }
	Fp &operator*=(const Fp &o) { *this = *this * o; return *this; }
	static Fp from_limbs(const mp_limb_t *w, int n) { // reduce any number of limbs
		Fp r;
		while (n > 0 && w[n - 1] == 0) --n;
		if (n < 4) { for (int i = 0; i < n; ++i) r.l[i] = w[i]; return r; }
		std::vector<mp_limb_t> q(n + 1);
		mpn_tdiv_qr(q.data(), r.l, 0, w, n, P(), 4);
		return r;
	}
	Fp inv() const {
		mpz_t a, p;
		mpz_init(a); mpz_init(p);
		mpz_import(a, 4, -1, 8, 0, 0, l);
		mpz_import(p, 4, -1, 8, 0, 0, P());
		Fp r;
		if (mpz_invert(a, a, p)) mpz_export(r.l, NULL, -1, 8, 0, 0, a);
		mpz_clear(a); mpz_clear(p);
		return r; // 0 if not invertible
	}
	Fp operator/(const Fp &o) const { return *this * o.inv(); }
	static Fp pow2(unsigned k) { Fp r(1), b(2); for (; k; k >>= 1, b = b * b) if (k & 1) r = r * b; return r; }
	std::string hex() const {
		char b[80];
		snprintf(b, sizeof b, "0x%016lx%016lx%016lx%016lx", l[3], l[2], l[1], l[0]);
		std::string s = b;
		size_t i = 2;
		while (i + 1 < s.size() && s[i] == '0') ++i;
		return "0x" + s.substr(i);
	}
	uint64_t fold() const { return l[0] * 0x9E3779B97F4A7C15ull ^ l[1] * 0xC2B2AE3D27D4EB4Full ^ l[2] * 0x165667B19E3779F9ull ^ l[3] * 0xD6E8FEB86659FD93ull; }
};

// eq/chi weight of index bits at point r (bit 0 first)
inline Fp chi(uint64_t idx, const std::vector<Fp> &r, size_t n) {
	Fp w(1);
	for (size_t k = 0; k < n; ++k) w = w * (((idx >> k) & 1) ? r[k] : Fp(1) - r[k]);
	return w;
}
inline std::vector<Fp> chi_table(const std::vector<Fp> &r, const Fp &scale = Fp(1)) {
	std::vector<Fp> t(1, scale);
	for (size_t k = 0; k < r.size(); ++k) {
		size_t m = t.size();
		t.resize(2 * m);
		for (size_t j = 0; j < m; ++j) { t[j + m] = t[j] * r[k]; t[j] = t[j] - t[j + m]; }
	}
	return t;
}
inline Fp mle(const std::vector<Fp> &v, const std::vector<Fp> &r) {
	std::vector<Fp> t = v;
	size_t n = t.size();
	for (size_t k = 0; k < r.size(); ++k) {
		n >>= 1;
		for (size_t j = 0; j < n; ++j) t[j] = t[2 * j] + r[k] * (t[2 * j + 1] - t[2 * j]);
	}
	return t[0];
}
typedef std::vector<Fp> Poly; // coefficients, lowest degree first
inline Fp peval(const Poly &p, const Fp &x) {
	Fp r;
	for (size_t i = p.size(); i-- > 0;) r = r * x + p[i];
	return r;
}
} // namespace ref
