// Decoding and encoding of the specification as uninterpreted functions with the facts callers need; used instead of
// their definitions in the first attempt at an obligation.  The facts are proved here (ob_ct_abs*).
#pragma once
#include "posit_common.h"
#ifndef VP_NOCONTRACTS
#define VP_STR_(x) #x
#define VP_STR(x) VP_STR_(x)
#define ABSF(f) "abs/" f "/" VP_STR(VN) "/" VP_STR(VES) "/" VP_STR(VSPEC)
constexpr int FBITS = N - 3 - ES <= 0 ? 0 : N - 3 - ES; // fraction bits after the shortest regime
constexpr u64 FMASK = FBITS == 0 ? 0 : ~(~(u64)0 >> FBITS);
static inline bool decfacts(const Low &l)
{
	return l.regime >= -(N - 2) && l.regime <= (SP == WithNanInf ? N - 3 : N - 2) && l.e < (u64)1 << ES && (l.frac & ~FMASK) == 0;
}
CT u64 ct_absenc(i64 exp, u64 frac)
{
	if (vp_isconst((u64)exp) && vp_isconst(frac)) return enc_mag_<N, ES, SP>(exp, frac);
	u64 m = vp_uf2(ABSF("enc"), (u64)exp, frac & FMASK);
	vp_assume(m >= 1 && m <= (u64)maxpos<N, SP>());
	return m;
}
CT Low ct_absdec(u64 mag)
{
	if (vp_isconst(mag)) return dec_low_<N, ES>(mag);
	Low l{(i64)vp_uf1(ABSF("reg"), mag), ES == 0 ? 0 : vp_uf1(ABSF("exp"), mag) & (((u64)1 << ES) - 1), vp_uf1(ABSF("frac"), mag) & FMASK};
	vp_assume(!(mag >= 1 && mag <= (u64)maxpos<N, SP>()) || decfacts(l));
	vp_assume(!(mag >= 1 && mag <= (u64)maxpos<N, SP>()) || vp_uf2(ABSF("enc"), (u64)(l.regime * ((i64)1 << ES) + (i64)l.e), l.frac) == mag);
	return l;
}
extern "C" void bind_absdec(Low *r, const u64 *m) { *r = dec_low<N, ES>(*m); }
extern "C" void bindct_absdec(Low *r, const u64 *m) { *r = ct_absdec(*m); }
extern "C" void bind_absenc(u64 *r, const i64 *e, const u64 *f) { *r = enc_mag<N, ES, SP>(*e, *f); }
extern "C" void bindct_absenc(u64 *r, const i64 *e, const u64 *f) { *r = ct_absenc(*e, *f); }
extern "C" void ob_ct_absdec__p(u64 a)
{
	u64 mag = (u64)legalpat(a);
	vp_assume(mag >= 1 && mag <= (u64)maxpos<N, SP>());
	Low l = dec_low_<N, ES>(mag);
	vp_assert(decfacts(l), "regime, exponent bits, fraction bits");
	vp_assert((enc_mag_<N, ES, SP>(l.regime * ((i64)1 << ES) + (i64)l.e, l.frac)) == mag, "encodes what was decoded");
}
extern "C" void ob_ct_absenc__eu(u64 e, u64 f)
{
	u64 m = enc_mag_<N, ES, SP>((i64)e, f);
	vp_assert(m >= 1 && m <= (u64)maxpos<N, SP>(), "magnitude range");
	vp_assert(m == (enc_mag_<N, ES, SP>((i64)e, f & FMASK)), "fraction bits used");
}
#endif
