// Contracts of the conversions between unpacked numbers and IEEE formats or integers.
#pragma once
#include "ieee.h"
#include "contracts_unpacked.h"
constexpr i64 etlo = (i64)((u64)-1 << (sizeof(ET) * 8 - 1)), ethi = ~etlo;
// adding the bias must not overflow (narrow exponents are widened first)
constexpr i64 etroom = sizeof(ET) < sizeof(int) ? ethi : ethi - 2000;
// exponents outside the exponent type saturate
static inline Num clip(Num n)
{
	n.exp = n.exp < etlo ? etlo : n.exp > ethi ? ethi : n.exp;
	return n;
}
// classes, numbers with the fraction cut to the fraction type
static inline bool samecut(const UT &u, const Num &n)
{
	return (int)u.type == n.cls && (n.cls == NANC || u.negativeSign == n.neg) &&
	       (n.cls != REG || ((i64)u.exponent == n.exp && u.fraction == (FT)(n.frac >> (64 - W))));
}
static inline UT anycls(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	vp_assume(u.type != UT::Regular || ((i64)u.exponent <= etroom && (i64)u.exponent >= etlo));
	return u;
}
#ifndef VP_NOCONTRACTS
#define CT_FLOAT(name, Trait, HT, FB, EB) \
CT UT &ct_un##name(UT *self, HT bits) \
{ \
	*self = make(clip(s_unfloat<FB, EB, true>((u64)bits))); \
	return *self; \
} \
extern "C" void bind_un##name(UT *u, const HT *b) { u->unpack_xfloati<Trait>(*b); } \
extern "C" void bindct_un##name(UT *u, const HT *b) { ct_un##name(u, *b); } \
extern "C" void ob_ct_un##name##__u(u64 a) \
{ \
	UT u = mku((a >> 9) & 3, (a >> 3) & 1, (i64)a, a); \
	UT &r = u.unpack_xfloati<Trait>((HT)a); \
	vp_assert(samecut(u, clip(s_unfloat<FB, EB, true>((u64)(HT)a))), "number denoted"); \
	vp_assert(&r == &u, "returns itself"); \
} \
CT HT ct_to##name(const UT *u) \
{ \
	vp_assert((int)u->type >= 0 && (int)u->type <= 3 && (u->type != UT::Regular || (i64)u->exponent <= etroom), "class and exponent"); \
	if (u->type == UT::NaN) \
	{ \
		u64 x = vp_nondet64(); \
		vp_assume((u64)(HT)x == x && Ieee<FB, EB>::isnan(x)); \
		return (HT)x; \
	} \
	return (HT)s_tofloat<FB, EB, true>(num(*u)); \
} \
extern "C" void bind_to##name(HT *r, const UT *u) { *r = u->pack_xfloati<Trait>(); } \
extern "C" void bindct_to##name(HT *r, const UT *u) { *r = ct_to##name(u); } \
extern "C" void ob_ct_to##name##__seu(u64 s, u64 e, u64 f) \
{ \
	UT u = anycls(s, e, f); \
	u64 r = (u64)u.pack_xfloati<Trait>(); \
	vp_assert(u.type == UT::NaN ? Ieee<FB, EB>::isnan(r) : r == s_tofloat<FB, EB, true>(num(u)), "pattern"); \
}
CT_FLOAT(f32, single_trait, uint32_t, 23, 8)
CT_FLOAT(f64, double_trait, uint64_t, 52, 11)

typedef fixedtrait<int, sizeof(int) * 8, 0> inttrait;
CT UT &ct_unint(UT *self, int v)
{
	*self = make(s_unfixed32<0>(v));
	return *self;
}
extern "C" void bind_unint(UT *u, const int *b) { u->unpack_xfixed<inttrait>(*b); }
extern "C" void bindct_unint(UT *u, const int *b) { ct_unint(u, *b); }
extern "C" void ob_ct_unint__i(u64 a)
{
	UT u = mku((a >> 9) & 3, (a >> 3) & 1, (i64)a, a);
	UT &r = u.unpack_xfixed<inttrait>((int)a);
	vp_assert(samecut(u, s_unfixed32<0>((int)a)), "number denoted");
	vp_assert(&r == &u, "returns itself");
}
CT int ct_toint(const UT *u)
{
	vp_assert((int)u->type >= 0 && (int)u->type <= 3, "class");
	return (int)s_tofixed<32, 0>(num(*u));
}
extern "C" void bind_toint(int *r, const UT *u) { *r = u->pack_xfixed<inttrait>(); }
extern "C" void bindct_toint(int *r, const UT *u) { *r = ct_toint(u); }
extern "C" void ob_ct_toint__seu(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	vp_assert((i64)u.pack_xfixed<inttrait>() == s_tofixed<32, 0>(num(u)), "integer");
}
#endif
