// What the bits of an IEEE binary format and of a fixed-point word denote, and
// how a number is written in them (truncating toward zero, clipping).
#pragma once
#include "vp.h"
namespace vp {

template <int FB, int EB> struct Ieee
{
	static constexpr u64 emask = ((u64)1 << EB) - 1, fmask = ((u64)1 << FB) - 1, sign = (u64)1 << (FB + EB);
	static constexpr i64 bias = ((i64)1 << (EB - 1)) - 1;
	static constexpr u64 inf = emask << FB, big = ((emask - 1) << FB) | fmask;
	static bool isnan(u64 b) { return ((b >> FB) & emask) == emask && (b & fmask) != 0; }
	static bool isinf(u64 b) { return (b & ~sign) == inf; }
};

// the exact number a pattern denotes (zeros lose their sign); without subnormals those patterns denote zero
template <int FB, int EB, bool DEN> Num s_unfloat(u64 bits)
{
	typedef Ieee<FB, EB> I;
	u64 e = (bits >> FB) & I::emask, f = bits & I::fmask;
	bool neg = (bits >> (FB + EB)) & 1;
	if (e == I::emask) return f == 0 ? Num{INF, neg, 0, 0} : Num{NANC, false, 0, 0};
	if (e != 0) return Num{REG, neg, (i64)e - I::bias, f << (64 - FB)};
	if (f == 0 || !DEN) return Num{ZERO, false, 0, 0};
	int k = __builtin_clzll(f);
	return Num{REG, neg, 1 - I::bias - FB + (63 - k), k == 63 ? 0 : f << (k + 1)};
}
// the pattern for a number that is not NaN; underflow to zero keeps the sign
template <int FB, int EB, bool DEN> u64 s_tofloat(const Num &n)
{
	typedef Ieee<FB, EB> I;
	u64 s = n.neg ? I::sign : 0;
	if (n.cls == INF) return s | I::inf;
	if (n.cls == ZERO) return 0;
	if (n.exp > I::bias) return s | I::big;
	if (n.exp >= 1 - I::bias) return s | (u64)(n.exp + I::bias) << FB | n.frac >> (64 - FB);
	if (!DEN) return 0;
	i64 t = n.exp - (1 - I::bias - FB);
	return s | (t < 0 ? 0 : ((u64)1 << 63 | n.frac >> 1) >> (63 - t));
}
// the pattern denotes n truncated (any NaN; a zero of either sign)
template <int FB, int EB, bool DEN> bool isfloat(u64 bits, const Num &n)
{
	typedef Ieee<FB, EB> I;
	if (n.cls == NANC) return I::isnan(bits);
	u64 x = s_tofloat<FB, EB, DEN>(n);
	return bits == x || ((bits & ~I::sign) == 0 && (x & ~I::sign) == 0);
}

// a word of TB bits of which QF are fraction bits
template <int QF> Num s_unfixed(i64 v)
{
	if (v == 0) return Num{ZERO, false, 0, 0};
	u64 m = v < 0 ? (u64)0 - (u64)v : (u64)v;
	int p = 63 - __builtin_clzll(m);
	return Num{REG, v < 0, (i64)p - QF, p == 0 ? 0 : m << (64 - p)};
}
template <int QF> Num s_unfixed32(int32_t v) // the same for at most 32 bits
{
	if (v == 0) return Num{ZERO, false, 0, 0};
	uint32_t m = v < 0 ? (uint32_t)0 - (uint32_t)v : (uint32_t)v;
	int p = 31 - __builtin_clz(m);
	return Num{REG, v < 0, (i64)p - QF, p == 0 ? 0 : (u64)(uint32_t)(m << (32 - p)) << 32};
}
template <int TB, int QF> i64 s_tofixed(const Num &n)
{
	if (n.cls != REG) return 0;
	if (n.exp >= TB - 1 - QF) return n.neg ? -(i64)((u64)1 << (TB - 2)) * 2 : (i64)(((u64)1 << (TB - 1)) - 1);
	if (n.exp < -QF) return 0;
	i64 t = n.exp + QF;
	u64 m = (u64)1 << t | (t == 0 ? 0 : n.frac >> (64 - t));
	return n.neg ? -(i64)m : (i64)m;
}
// the word denotes n truncated
} // namespace vp
