#include "bn.h"
#include <gmp.h>
namespace bn {
namespace stub {
static const mp_limb_t *P() {
	static mp_limb_t p[4];
	static bool ok = false;
	if (!ok) {
		const char *d = "16798108731015832284940804142231733909759579603404752749028378864165570215949";
		mpz_t z; mpz_init_set_str(z, d, 10);
		for (int i = 0; i < 4; ++i) p[i] = mpz_getlimbn(z, i);
		mpz_clear(z);
		ok = true;
	}
	return p;
}
static void norm(uint64_t *l) { if (mpn_cmp((mp_limb_t *)l, P(), 4) >= 0) { mp_limb_t q[1], r[4]; mpn_tdiv_qr(q, r, 0, (mp_limb_t *)l, 4, P(), 4); memcpy(l, r, 32); } }
void add_slow(S &r, const S &x, const S &y) {
	S a = x, b = y;
	mp_limb_t t[5];
	norm(a.l); norm(b.l);
	t[4] = mpn_add_n(t, (const mp_limb_t *)a.l, (const mp_limb_t *)b.l, 4);
	if (t[4] || mpn_cmp(t, P(), 4) >= 0) { mpn_sub_n(t, t, P(), 4); }
	memcpy(r.l, t, 32);
	norm(r.l); // operands that were never set
}
void sub(S &r, const S &a, const S &b) {
	mp_limb_t t[4], x[4], y[4];
	memcpy(x, a.l, 32); memcpy(y, b.l, 32);
	norm((uint64_t *)x); norm((uint64_t *)y);
	if (mpn_sub_n(t, x, y, 4)) mpn_add_n(t, t, P(), 4);
	memcpy(r.l, t, 32);
}
void mul(S &r, const S &a, const S &b) {
	mp_limb_t t[8], q[5], m[4];
	mpn_mul_n(t, (const mp_limb_t *)a.l, (const mp_limb_t *)b.l, 4);
	mpn_tdiv_qr(q, m, 0, t, 8, P(), 4);
	memcpy(r.l, m, 32);
}
void set(S &r, long long x) {
	memset(r.l, 0, 32);
	r.l[0] = x < 0 ? -(unsigned long long)x : x;
	if (x < 0) { S z; memset(z.l, 0, 32); sub(r, z, r); }
}
}
const CurveParam CurveFp254BNb = {1};
void Param::init(const CurveParam &) {}
void opt_atePairing(Fp12 &f, const Ec2 &Q, const Ec1 &P) { stub::mul(f.v, Q.v, P.v); }
} // namespace bn
namespace mie {
Vuint::Vuint(int x) { assert(x >= 0); memset(l, 0, 32); l[0] = x; }
Vuint::Vuint(const std::string &s) { parse(s.c_str(), s.size()); }
Vuint::Vuint(const char *s) { parse(s, strlen(s)); }
void Vuint::parse(const char *s, size_t n) {
	if (!n) throw std::runtime_error("Vuint: empty");
	for (size_t i = 0; i < n; ++i) if (s[i] < '0' || s[i] > '9') throw std::runtime_error("Vuint: not a number"); // no sign, as in the library
	mpz_t z, p; mpz_init_set_str(z, s, 10); mpz_init(p);
	mpz_import(p, 4, -1, 8, 0, 0, bn::stub::P());
	mpz_mod(z, z, p);
	memset(l, 0, 32);
	for (int i = 0; i < 4; ++i) l[i] = mpz_getlimbn(z, i);
	mpz_clear(z); mpz_clear(p);
}
}
