// One unpacked type per translation unit: UT, ET, FT, W are defined before.
#pragma once
#include "vp.h"
#include "unpacked.h"
using namespace vp;
#ifndef VP_NATIVE
#define CT extern "C"
#else // contracts are only for the verifier
#define CT static inline
#endif
static inline Num num(const UT &u) { return Num{(int)u.type, u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - W)}; }
static inline UT mku(int t, bool neg, i64 e, u64 f)
{
	UT u;
	u.type = (UT::Type)t;
	u.negativeSign = neg;
	u.exponent = (ET)e;
	u.fraction = (FT)f;
	return u;
}
constexpr i64 emax() { return (i64)1 << (sizeof(ET) * 8 - 3); }
// what callers of the unpacked operations guarantee: a class, zero without sign, exponents away from overflow
static inline bool canon(const UT &u)
{
	return (int)u.type >= 0 && (int)u.type <= 3 && !(u.type == UT::Zero && u.negativeSign) &&
	       (u.type != UT::Regular || ((i64)u.exponent <= emax() && (i64)u.exponent >= -emax()));
}
// sums need less room than products
static inline bool canona(const UT &u)
{
	return (int)u.type >= 0 && (int)u.type <= 3 && !(u.type == UT::Zero && u.negativeSign) &&
	       (u.type != UT::Regular || ((i64)u.exponent < 2 * emax() && (i64)u.exponent > -2 * emax()));
}
static inline UT anya(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	vp_assume(canona(u));
	return u;
}
// arbitrary unpacked number (class and sign in s)
static inline UT anyu(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	vp_assume(canon(u));
	return u;
}
// the class, the sign where it has a meaning, exponent and fraction of regular numbers
static inline bool same(const UT &u, const Num &n)
{
	return (int)u.type == n.cls && (n.cls == NANC || u.negativeSign == n.neg) &&
	       (n.cls != REG || ((i64)u.exponent == n.exp && ((u64)u.fraction << (64 - W)) == n.frac));
}
