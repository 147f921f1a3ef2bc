// Contracts of the functions posit operations are built from.  ct_X is what a
// caller may assume of X (executed in place of X), ob_ct_X proves that X's body
// meets it, bind_X names the function of the library that the contract is for.
#pragma once
#include "posit_common.h"
#include "contracts_unpacked.h"
#include "abstract.h"

static inline UT denote(i64 v)
{
	Num n = D(v);
	return mku(n.cls, n.neg, n.exp, n.frac >> (64 - W));
}

#ifndef VP_NOCONTRACTS
//---------------------------------------------------------------- decode
CT UT ct_unpack(const P &p)
{
	i64 v = (i64)p.v;
	vp_assert(legal<N>(v), "unpack: legal pattern");
	Num n = D(v);
	vp_assume(n.cls != REG || (n.exp >= minexp<N, ES, SP>() && n.exp <= (i64)(N - 2) << ES));
	return make(n);
}
extern "C" void bind_unpack(UT *r, const P *p) { *r = unpack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(*p); }
extern "C" void bindct_unpack(UT *r, const P *p) { *r = ct_unpack(*p); }
extern "C" void ob_ct_unpack__p(u64 a)
{
	i64 v = legalpat(a);
	UT u = unpack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(mkp(v));
	Num n = D(v);
	vp_assert((int)u.type == n.cls, "class");
	vp_assert(n.cls == NANC || u.negativeSign == n.neg, "sign");
	vp_assert(n.cls != REG || (i64)u.exponent == n.exp, "exponent");
	vp_assert(n.cls != REG || ((u64)u.fraction << (64 - W)) == n.frac, "fraction");
	vp_assert(n.cls != REG || (n.exp >= minexp<N, ES, SP>() && n.exp <= (i64)(N - 2) << ES), "exponent range");
}

//---------------------------------------------------------------- decode to regime, exponent bits, fraction
typedef P::UnpackedLow PL;
typedef P::PT::POSIT_UTYPE PU;
CT PL ct_ulow(const P *p)
{
	i64 v = (i64)p->v;
	vp_assert(legal<N>(v), "unpack_low: legal pattern");
	int cls = isnan_<N, SP>(v) ? NANC : isinf_<N, SP>(v) ? INF : v == 0 ? ZERO : REG;
	PL r((UT::Type)cls, cls == NANC ? (bool)(vp_nondet64() & 1) : v < 0);
	Low l = dec_low<N, ES>(v < 0 ? (u64)0 - (u64)v : (u64)v);
	vp_assume(cls != REG || (l.regime >= -(N - 2) && l.regime <= N - 2 && l.e < (u64)1 << ES));
	r.regime = cls == REG ? (VT)l.regime : (VT)vp_nondet64();
	r.exp = cls == REG ? (PU)l.e : (PU)vp_nondet64();
	r.fraction = cls == REG ? (PU)(l.frac >> (64 - sizeof(VT) * 8)) : (PU)vp_nondet64();
	return r;
}
extern "C" void bind_ulow(PL *r, const P *p) { *r = p->unpack_low(); }
extern "C" void bindct_ulow(PL *r, const P *p) { *r = ct_ulow(p); }
extern "C" void ob_ct_ulow__p(u64 a)
{
	i64 v = legalpat(a);
	P p = mkp(v);
	PL u = p.unpack_low();
	int cls = isnan_<N, SP>(v) ? NANC : isinf_<N, SP>(v) ? INF : v == 0 ? ZERO : REG;
	vp_assert((int)u.type == cls, "class");
	vp_assert(cls == NANC || u.negativeSign == (v < 0), "sign");
	if (cls != REG) return;
	Low l = dec_low<N, ES>(v < 0 ? (u64)0 - (u64)v : (u64)v);
	vp_assert((i64)u.regime == l.regime && l.regime >= -(N - 2) && l.regime <= N - 2, "regime");
	vp_assert((u64)u.exp == l.e && l.e < (u64)1 << ES, "exponent bits");
	vp_assert((u64)u.fraction << (64 - sizeof(VT) * 8) == l.frac, "fraction");
}

//---------------------------------------------------------------- encode
CT P ct_pack(const UT &u)
{
	vp_assert((int)u.type >= 0 && (int)u.type <= 3, "pack: class");
	i64 v = E(num(u));
	vp_assume(legal<N>(v));
	vp_assume(u.type != UT::Regular || ((isnum<N, SP>(v)) && (v < 0) == u.negativeSign));
	return mkp(v);
}
extern "C" void bind_pack(P *r, const UT *u) { *r = pack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(*u); }
extern "C" void bindct_pack(P *r, const UT *u) { *r = ct_pack(*u); }
// every exponent is k*2^ES + e
extern "C" void ob_ct_pack_regular__seeu(u64 s, u64 k, u64 e, u64 f)
{
	vp_split(k, -N, N);
	vp_assume((i64)(ET)(k << ES) >> ES == (i64)k);
	UT u = mku(REG, s & 1, (i64)((k << ES) | (e & (((u64)1 << ES) - 1))), f);
	i64 r = (i64)pack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(u).v;
	vp_assert(r == E(num(u)), "packed pattern");
	vp_assert(isnum<N, SP>(r) && (r < 0) == u.negativeSign, "legal");
}
extern "C" void ob_ct_pack_special__seu(u64 s, u64 e, u64 f)
{
	vp_assume((s & 3) != 0);
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	i64 r = (i64)pack_posit<VT, VN, VES, VFT, (PositSpec)VSPEC>(u).v;
	vp_assert(r == E(num(u)), "packed pattern");
	vp_assert(legal<N>(r), "legal");
}
#endif // VP_NOCONTRACTS
