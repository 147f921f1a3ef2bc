#include "utype.h"
#include "contracts_float.h"
// the number a pattern denotes; the pattern that is a number truncated; there and back
#define FORMAT(name, Trait, HT, FB, EB, DEN) \
extern "C" void ob_un##name##__u(u64 a) \
{ \
	UT u = mku((a >> 9) & 3, (a >> 3) & 1, (i64)(a ^ 0x55), a ^ 0xaa); /* whatever was there before */ \
	UT &r = u.unpack_xfloati<Trait>((HT)a); \
	Num n = clip(s_unfloat<FB, EB, DEN>((u64)(HT)a)); \
	vp_assert(samecut(u, n), "number denoted"); \
	vp_assert(&r == &u, "returns itself"); \
	vp_assert(samecut(UT::make_floati<Trait>((HT)a), n), "made from the bits"); \
} \
extern "C" void ob_to##name##__seu(u64 s, u64 e, u64 f) \
{ \
	UT u = anycls(s, e, f); \
	vp_assert((isfloat<FB, EB, DEN>((u64)u.pack_xfloati<Trait>(), num(u))), "truncated number"); \
} \
extern "C" void ob_rt##name##__u(u64 a) \
{ \
	HT x = (HT)a; \
	/* the exponent fits the exponent type, the fraction the fraction type */ \
	Num n = s_unfloat<FB, EB, DEN>((u64)x); \
	vp_assume(n.cls != REG || (n.exp >= etlo && n.exp <= ethi && (W == 64 || (n.frac << (W & 63)) == 0))); \
	typedef Ieee<FB, EB> I; \
	vp_assume(DEN || ((u64)x & I::inf) != 0); \
	UT u; \
	HT y = u.unpack_xfloati<Trait>(x).pack_xfloati<Trait>(); \
	vp_assert(I::isnan((u64)x) ? I::isnan((u64)y) : y == x || (((u64)x | (u64)y) & ~I::sign) == 0, "there and back"); \
} \
extern "C" void ob_const##name() \
{ \
	typedef Ieee<FB, EB> I; \
	typedef Trait t; \
	vp_assert((u64)t::pinfinity_h == I::inf && (u64)t::ninfinity_h == (I::inf | I::sign) && I::isnan((u64)t::nan_h), "infinities and NaN"); \
	vp_assert((u64)t::one_h == (u64)I::bias << FB && (u64)t::two_h == (u64)(I::bias + 1) << FB, "one and two"); \
	vp_assert((u64)t::max_h == I::big && (u64)t::lowest_h == (I::big | I::sign) && (u64)t::min_h == (u64)1 << FB, "extremes"); \
	vp_assert(t::fraction_bits == FB && t::exponent_bits == EB && (u64)t::signbit == I::sign, "layout"); \
}
FORMAT(half, half_trait, uint16_t, 10, 5, true)
FORMAT(single, single_trait, uint32_t, 23, 8, true)
FORMAT(double, double_trait, uint64_t, 52, 11, true)
FORMAT(halfalt, half_traitalt, uint16_t, 7, 8, true)
FORMAT(bfloat, bfloat16_trait, uint16_t, 7, 8, false)
FORMAT(micro, microfloat_trait, uint8_t, 2, 5, true)

// the same through native numbers
template <class A, class B> static inline B bits(A a)
{
	B b;
	__builtin_memcpy(&b, &a, sizeof b);
	return b;
}
extern "C" void ob_native__u(u64 a)
{
	float x = bits<uint32_t, float>((uint32_t)a);
	double d = bits<u64, double>(a);
	Num n = clip(s_unfloat<23, 8, true>((uint32_t)a)), m = clip(s_unfloat<52, 11, true>(a));
	UT u;
	vp_assert(samecut(UT(x), n) && samecut(UT::make_float<single_trait>(x), n) && samecut(u.unpack_float(x), n) && samecut(UT(UT::single_tag(), (uint32_t)a), n), "from float");
	vp_assert(samecut(UT(d), m) && samecut(UT::make_float<double_trait>(d), m) && samecut(u.unpack_double(d), m), "from double");
}
extern "C" void ob_tonative__seu(u64 s, u64 e, u64 f)
{
	UT u = anycls(s, e, f);
	Num n = num(u);
	float x = u, x2 = u.pack_float<float>();
	double d = u, d2 = u.pack_float<double>();
	vp_assert((isfloat<23, 8, true>(bits<float, uint32_t>(x), n)) && (isfloat<23, 8, true>(bits<float, uint32_t>(x2), n)), "to float");
	vp_assert((isfloat<52, 11, true>(bits<double, u64>(d), n)) && (isfloat<52, 11, true>(bits<double, u64>(d2), n)), "to double");
}
