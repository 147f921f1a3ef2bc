// One posit type per translation unit: VT, VN, VES, VFT, VSPEC.
#pragma once
#include "vp.h"
#include "posit.h"
#define VP_LOWBITS 3
using namespace vp;
constexpr int N = VN, ES = VES, W = sizeof(VFT) * 8, SP = VSPEC;
static_assert((int)PositSpec::WithNan == 0 && (int)PositSpec::WithInf == 1 && (int)PositSpec::WithNanInf == 2, "");
typedef Posit<VT, VN, VES, VFT, (PositSpec)VSPEC> P;
typedef P::UnpackedT UT;
typedef decltype(UT::exponent) ET;
typedef VFT FT;
#include "unpacked_common.h"

static inline i64 pat(u64 a) { return (i64)(VT)a; }
static inline P mkp(i64 v) { return P(P::DeepInit(), (VT)v); }
static inline Num D(i64 v) { return dec<N, ES, SP>(v); }
static inline i64 E(const Num &n) { return enc<N, ES, SP>(n); }
// p is the encoding of n (that every result is a legal pattern is proved with C03)
static inline bool is(const P &p, const Num &n) { return p.v == (VT)E(n); }
// an arbitrary legal pattern
static inline i64 legalpat(u64 a)
{
	return (i64)(a << (64 - N)) >> (64 - N);
}
// a number given by sign, regime and what follows the regime; every number is one (ob_lemma_fields).  Meant for
// vp_split on the regime k.
static inline i64 fieldpat(u64 s, u64 ku, u64 rest)
{
	i64 k = (i64)ku;
	vp_assume(k >= -(N - 2) && k <= N - 2);
	u64 reg = k >= 0 ? ~shr64(~(u64)0, k + 1) : shr64((u64)1 << 63, -k);
	u64 low = shr64(~(u64)0, k >= 0 ? k + 2 : -k + 1);
	u64 mag = (reg | ((rest << (65 - N)) & low)) >> (65 - N);
	i64 v = s & 1 ? -(i64)mag : (i64)mag;
	vp_assume((isnum<N, SP>(v)));
	return v;
}
#define LEMMA_FIELDS \
extern "C" void ob_lemma_fields__p(u64 a) \
{ \
	i64 v = legalpat(a); \
	vp_assume((isnum<N, SP>(v))); \
	u64 mag = v < 0 ? (u64)0 - (u64)v : (u64)v; \
	Low l = dec_low<N, ES>(mag); \
	vp_assert(fieldpat(v < 0, (u64)l.regime, mag) == v, "sign, regime and rest make the number"); \
}
