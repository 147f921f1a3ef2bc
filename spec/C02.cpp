#include "contracts.h"
// every exponent is k*2^ES + e
static inline UT regu(u64 s, u64 k, u64 e, u64 f)
{
	vp_assume((i64)(ET)(k << ES) >> ES == (i64)k);
	return mku(REG, s & 1, (i64)((k << ES) | (e & (((u64)1 << ES) - 1))), f);
}
extern "C" void ob_pack__seeu(u64 s, u64 k, u64 e, u64 f)
{
	vp_split(k, -N, N);
	UT u = regu(s, k, e, f);
	i64 r = (i64)P(u).v;
	vp_assert(r == E(num(u)), "packed pattern");
	vp_assert(isnum<N, SP>(r) && (r < 0) == u.negativeSign, "a number of the same sign");
	vp_assert(r == (i64)pack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(u).v, "pack_posit");
}
extern "C" void ob_pack_special__seu(u64 s, u64 e, u64 f)
{
	vp_assume((s & 3) != 0);
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	i64 r = (i64)P(u).v, q = (i64)pack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(u).v;
	vp_assert(r == E(num(u)) && q == r, "packed pattern");
	vp_assert(legal<N>(r), "legal");
}
// fields of a number inside the range of the type
extern "C" void ob_pack_low__seeu(u64 s, u64 k, u64 e, u64 f)
{
	constexpr int H = 8 * sizeof(VT);
	vp_split(k, -N, N);
	i64 reg = (i64)k;
	vp_assume(reg >= -(N - 2) && reg <= N - (SP == WithNanInf ? 3 : 2));
	u64 ee = e & (((u64)1 << ES) - 1);
	Num n = {REG, (bool)(s & 1), reg * ((i64)1 << ES) + (i64)ee, f << (64 - H)};
	vp_assume(n.exp <= (maxexp<N, ES, SP>()));
	i64 r = (i64)P(P::UnpackedLow(n.neg, (VT)reg, (P::PT::POSIT_UTYPE)ee, (P::PT::POSIT_UTYPE)f)).v;
	vp_assert(r == E(n), "packed fields");
}
// what enc means: the largest magnitude not above the value, or the end of the range
static inline bool le(const Num &a, const Num &b) { return a.exp < b.exp || (a.exp == b.exp && a.frac <= b.frac); }
extern "C" void ob_lemma_floor__eeu(u64 k, u64 e, u64 f)
{
	vp_split(k, -N, N);
	vp_assume((i64)(k << (ES + 2)) >> (ES + 2) == (i64)k);
	Num n = {REG, false, (i64)((k << ES) | (e & (((u64)1 << ES) - 1))), f};
	u64 m = enc_mag<N, ES, SP>(n.exp, n.frac);
	vp_assert(m >= 1 && m <= (u64)maxpos<N, SP>(), "range");
	vp_assert(le(dec_mag<N, ES>(m, false), n) || m == 1, "not above the value");
	vp_assert(m == (u64)maxpos<N, SP>() || !le(dec_mag<N, ES>(m + 1, false), n), "the next one is above the value");
}
