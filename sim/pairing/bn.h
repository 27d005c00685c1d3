// Stand-in for the pairing library (herumi/ate-pairing), which is not present here.
// An ideal bilinear group of the same prime order: an element is its discrete
// logarithm, the pairing multiplies logarithms. Everything the protocol does with
// group elements (sums, scalar multiples, pairings, equality) is exact.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <stdexcept>
#include <string>
namespace mie {
class Vuint {
public:
	uint64_t l[4]; // modulo the group order
	Vuint(int x = 0);
	explicit Vuint(const std::string &s);
	explicit Vuint(const char *s);
	void parse(const char *s, size_t n);
};
}
namespace bn {
namespace stub {
struct S { uint64_t l[4]; };
static const uint64_t PL[4] = {0xa10000000000000dull, 0xff9f800000000010ull, 0xba344d8000000007ull, 0x2523648240000001ull};
void add_slow(S &r, const S &a, const S &b);
inline void add(S &r, const S &a, const S &b) {
	unsigned long long c, t0 = __builtin_addcll(a.l[0], b.l[0], 0, &c), t1 = __builtin_addcll(a.l[1], b.l[1], c, &c), t2 = __builtin_addcll(a.l[2], b.l[2], c, &c), t3 = __builtin_addcll(a.l[3], b.l[3], c, &c);
	if (__builtin_expect(a.l[3] > PL[3] || b.l[3] > PL[3] || c, 0)) { add_slow(r, a, b); return; }
	unsigned long long d, u0 = __builtin_subcll(t0, PL[0], 0, &d), u1 = __builtin_subcll(t1, PL[1], d, &d), u2 = __builtin_subcll(t2, PL[2], d, &d), u3 = __builtin_subcll(t3, PL[3], d, &d);
	if (d) { r.l[0] = t0; r.l[1] = t1; r.l[2] = t2; r.l[3] = t3; }
	else if (__builtin_expect(u3 >= PL[3], 0)) add_slow(r, a, b);
	else { r.l[0] = u0; r.l[1] = u1; r.l[2] = u2; r.l[3] = u3; }
}
void sub(S &r, const S &a, const S &b);
void mul(S &r, const S &a, const S &b);
void set(S &r, long long x);
}
struct CurveParam { int id; bool operator==(const CurveParam &o) const { return id == o.id; } bool operator!=(const CurveParam &o) const { return id != o.id; } };
extern const CurveParam CurveFp254BNb;
struct Param { static void init(const CurveParam &); };
struct Fp { Fp() {} Fp(const char *) {} Fp(const std::string &) {} Fp(int) {} };
struct Fp2 { Fp2() {} Fp2(const Fp &, const Fp &) {} };
template <int K> struct G {
	stub::S v;
	G() {} // like the library: not initialised
	G(const stub::S &s) : v(s) {}
	G operator+(const G &o) const { G r; stub::add(r.v, v, o.v); return r; }
	G operator-(const G &o) const { G r; stub::sub(r.v, v, o.v); return r; }
	G operator-() const { G r, z; stub::set(z.v, 0); stub::sub(r.v, z.v, v); return r; }
	G &operator+=(const G &o) { return *this = *this + o; }
	G &operator-=(const G &o) { return *this = *this - o; }
	G operator*(int n) const { G r; stub::S s; stub::set(s, n); stub::mul(r.v, v, s); return r; }
	G operator*(const mie::Vuint &n) const { G r; stub::S s; memcpy(s.l, n.l, 32); stub::mul(r.v, v, s); return r; }
	bool operator==(const G &o) const { stub::S d; stub::sub(d, v, o.v); return !(d.l[0] | d.l[1] | d.l[2] | d.l[3]); }
	bool operator!=(const G &o) const { return !(*this == o); }
	G &operator*=(int n) { return *this = *this * n; }
	G &operator*=(const mie::Vuint &n) { return *this = *this * n; }
	void clear() { stub::set(v, 0); }
	void normalize() const {}
	bool isValid() const { return true; }
	static void add(G &r, const G &a, const G &b) { r = a + b; }
	static void sub(G &r, const G &a, const G &b) { r = a - b; }
	static void neg(G &r, const G &a) { r = -a; }
	static void dbl(G &r, const G &a) { r = a + a; }
	bool isZero() const { G z; stub::set(z.v, 0); return *this == z; }
};
struct Ec1 : G<1> {
	Ec1() {}
	Ec1(const G<1> &g) : G<1>(g) {}
	Ec1(const Fp &, const Fp &) { stub::set(v, 1); } // the library's generator
	Ec1(const char *, const char *) { stub::set(v, 1); }
};
struct Ec2 : G<2> {
	Ec2() {}
	Ec2(const G<2> &g) : G<2>(g) {}
	Ec2(const Fp2 &, const Fp2 &) { stub::set(v, 1); }
};
struct Fp12 {
	stub::S v; // the logarithm to the base e(g1, g2)
	Fp12() {}
	Fp12(int one) { assert(one == 1); (void)one; stub::set(v, 0); }
	Fp12 &operator*=(const Fp12 &o) { stub::add(v, v, o.v); return *this; }
	Fp12 operator*(const Fp12 &o) const { Fp12 r = *this; return r *= o; }
	void inverse() { stub::S z; stub::set(z, 0); stub::sub(v, z, v); }
	Fp12 &operator/=(const Fp12 &o) { stub::sub(v, v, o.v); return *this; }
	Fp12 operator/(const Fp12 &o) const { Fp12 r = *this; return r /= o; }
	static void mul(Fp12 &r, const Fp12 &a, const Fp12 &b) { r = a * b; }
	static void square(Fp12 &r) { r *= Fp12(r); }
	bool operator==(const Fp12 &o) const { stub::S d; stub::sub(d, v, o.v); return !(d.l[0] | d.l[1] | d.l[2] | d.l[3]); }
	bool operator!=(const Fp12 &o) const { return !(*this == o); }
};
void opt_atePairing(Fp12 &f, const Ec2 &Q, const Ec1 &P);
} // namespace bn
