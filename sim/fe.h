// Conversions between the repository's field elements and the reference field.
#pragma once
#include "fp.h"
#include "linear_gkr/prime_field.h"
namespace sim {
using ref::Fp;
typedef std::vector<Fp> Vec;
typedef prime_field::field_element FE;

// limbs of a repository field element; canonical iff < p
inline void fe_limbs(const FE &x, mp_limb_t w[8]) {
	w[0] = (uint64_t)x.value.lo; w[1] = (uint64_t)(x.value.lo >> 64);
	w[2] = (uint64_t)x.value.mid; w[3] = (uint64_t)(x.value.mid >> 64);
	w[4] = x.value.hi.lo; w[5] = x.value.hi.mid;
	w[6] = (uint64_t)x.value.hi.hi; w[7] = (uint64_t)(x.value.hi.hi >> 64);
}
inline bool fe_canonical(const FE &x) {
	mp_limb_t w[8]; fe_limbs(x, w);
	if (w[4] | w[5] | w[6] | w[7]) return false;
	return mpn_cmp(w, Fp::P(), 4) < 0;
}
inline Fp fe_in(const FE &x) { mp_limb_t w[8]; fe_limbs(x, w); return Fp::from_limbs(w, 8); }
inline FE fe_out(const Fp &x) {
	FE r;
	r.value.lo = (__uint128_t)x.l[0] | ((__uint128_t)x.l[1] << 64);
	r.value.mid = (__uint128_t)x.l[2] | ((__uint128_t)x.l[3] << 64);
	r.value.hi = prime_field::u256b((unsigned long long)0);
	return r;
}
inline FE fe_raw(const mp_limb_t w[8]) {
	FE r;
	r.value.lo = (__uint128_t)w[0] | ((__uint128_t)w[1] << 64);
	r.value.mid = (__uint128_t)w[2] | ((__uint128_t)w[3] << 64);
	r.value.hi.lo = w[4]; r.value.hi.mid = w[5];
	r.value.hi.hi = (__uint128_t)w[6] | ((__uint128_t)w[7] << 64);
	return r;
}
// the same value, not reduced: plus p, plus 2^i p, plus p^2
inline FE fe_unreduced(const Fp &x, int k) {
	mp_limb_t w[8] = {x.l[0], x.l[1], x.l[2], x.l[3]}, m[8] = {0};
	if (k == 1) mpn_copyi(m, Fp::P(), 4);
	else if (k == 2) { mpn_copyi(m + 2, Fp::P(), 4); mpn_lshift(m, m, 8, 7); }
	else mpn_sqr(m, Fp::P(), 4);
	mpn_add_n(w, w, m, 8);
	return fe_raw(w);
}
inline Vec fe_vec(const FE *p, int n) { Vec v(n); for (int i = 0; i < n; ++i) v[i] = fe_in(p[i]); return v; }
} // namespace sim
