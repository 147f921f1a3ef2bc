// Emulated IEEE formats: VEB exponent bits, VFB fraction bits in VHT, computing in VFFT; VDEN subnormals.
#include "vp.h"
#include "anyfloat.hpp"
typedef VHT HT;
constexpr int FB = VFB, EB = VEB;
constexpr bool DEN = VDEN;
typedef anyfloat_emu<EB, FB, VVT, HT, VFFT, DEN> A;
typedef A::UnpackedT UT;
typedef HT FT;
typedef int ET;
constexpr int W = sizeof(FT) * 8;
#include "contracts_float.h"
typedef Ieee<FB, EB> I;
constexpr int NF = sizeof(VFFT) == 4 ? 23 : 52, NE = sizeof(VFFT) == 4 ? 8 : 11;
typedef Ieee<NF, NE> NI;
#ifndef VP_NOCONTRACTS
#define OWN A::trait_t
CT UT &ct_unown(UT *self, HT bits)
{
	*self = make(s_unfloat<FB, EB, DEN>((u64)bits));
	return *self;
}
extern "C" void bind_unown(UT *u, const HT *b) { u->unpack_xfloati<A::trait_t>(*b); }
extern "C" void bindct_unown(UT *u, const HT *b) { ct_unown(u, *b); }
extern "C" void ob_ct_unown__u(u64 a)
{
	UT u = mku((a >> 9) & 3, (a >> 3) & 1, (i64)a, a);
	UT &r = u.unpack_xfloati<A::trait_t>((HT)a);
	vp_assert(samecut(u, s_unfloat<FB, EB, DEN>((u64)(HT)a)), "number denoted");
	vp_assert(&r == &u, "returns itself");
}
CT HT ct_toown(const UT *u)
{
	vp_assert((int)u->type >= 0 && (int)u->type <= 3 && (u->type != UT::Regular || (i64)u->exponent <= etroom), "class and exponent");
	if (u->type == UT::NaN)
	{
		u64 x = vp_nondet64();
		vp_assume((u64)(HT)x == x && I::isnan(x));
		return (HT)x;
	}
	return (HT)s_tofloat<FB, EB, DEN>(num(*u));
}
extern "C" void bind_toown(HT *r, const UT *u) { *r = u->pack_xfloati<A::trait_t>(); }
extern "C" void bindct_toown(HT *r, const UT *u) { *r = ct_toown(u); }
extern "C" void ob_ct_toown__seu(u64 s, u64 e, u64 f)
{
	UT u = anycls(s, e, f);
	u64 r = (u64)u.pack_xfloati<A::trait_t>();
	vp_assert(u.type == UT::NaN ? I::isnan(r) : r == s_tofloat<FB, EB, DEN>(num(u)), "pattern");
}
#endif
static inline A mk(u64 v) { return A(A::DeepInit(), (HT)v); }
template <class F, class B> static inline B word(F f)
{
	B b;
	__builtin_memcpy(&b, &f, sizeof b);
	return b;
}
typedef std::conditional<sizeof(VFFT) == 4, uint32_t, uint64_t>::type NW;
static inline u64 bits(VFFT x) { return word<VFFT, NW>(x); }
static inline Num U(u64 v) { return s_unfloat<FB, EB, DEN>((u64)(HT)v); }
static inline bool isn(u64 v) { return I::isnan((u64)(HT)v); }
// the native number of a pattern
static inline VFFT nat(u64 v)
{
	Num n = U(v);
	return word<NW, VFFT>((NW)(n.cls == NANC ? NI::inf | 1 : s_tofloat<NF, NE, true>(n)));
}
// a pattern is a native number truncated
static inline bool cut(const A &r, VFFT x) { return isfloat<FB, EB, DEN>((u64)r.v, s_unfloat<NF, NE, true>(bits(x))); }
//---------------------------------------------------------------- conversions
extern "C" void ob_tonative__u(u64 a)
{
	A p = mk(a);
	const A q = mk(a);
	Num n = U(a);
	union { uint32_t i; float f; } x, y;
	union { u64 i; double f; } d, e;
	x.f = (float)p;
	d.f = (double)p;
	y.f = (float)q;
	e.f = (double)q;
	vp_assert((isfloat<23, 8, true>(y.i, n)) && (NF > 23 || (isfloat<23, 8, true>(x.i, n))), "to float"); // a non-constant double goes through the native conversion
	vp_assert((isfloat<52, 11, true>(d.i, n)) && (isfloat<52, 11, true>(e.i, n)), "to double");
}
extern "C" void ob_toint__u(u64 a)
{
	const A q = mk(a);
	vp_assert((i64)(int)q == s_tofixed<32, 0>(U(a)), "to int");
}
static inline bool samevalue(const Num &a, const Num &b) { return a.cls == b.cls && (a.cls != REG || (a.neg == b.neg && a.exp == b.exp && a.frac == b.frac)) && (a.cls != INF || a.neg == b.neg); }
extern "C" void ob_lemma_exact__u(u64 a)
{
	vp_assume(!isn(a));
	vp_assert(samevalue(s_unfloat<NF, NE, true>(s_tofloat<NF, NE, true>(U(a))), U(a)), "every number of the format is native");
}
extern "C" void ob_rt__u(u64 a)
{
	A p = mk(a);
	const A q = mk(a);
	VFFT x = p;
	A r(x), s((double)q);
	u64 v = (u64)(HT)a;
	Num n = U(a);
	if (isn(a)) vp_assert(isn(r.v) && isn(s.v), "NaN there and back");
	else if (n.cls == ZERO) vp_assert(((u64)r.v & ~I::sign) == 0 && ((u64)s.v & ~I::sign) == 0, "zero there and back");
	else vp_assert((u64)r.v == v && (u64)s.v == v, "there and back");
}
extern "C" void ob_fromfloat__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	vp_assert((isfloat<FB, EB, DEN>(A(x.f).v, s_unfloat<23, 8, true>(x.i))), "from float");
}
extern "C" void ob_fromdouble__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert((isfloat<FB, EB, DEN>(A(x.f).v, s_unfloat<52, 11, true>(a))), "from double");
}
extern "C" void ob_fromint__i(u64 a) { vp_assert((isfloat<FB, EB, DEN>(A((int)a).v, s_unfixed32<0>((int)a))), "from int"); }
extern "C" void ob_unpack__u(u64 a)
{
	A p = mk(a);
	UT u = p.unpack(), t = p;
	vp_assert(same(u, U(a)) && same(t, U(a)), "unpack");
	A r(u);
	vp_assert(isn(a) ? isn(r.v) : U(a).cls == ZERO ? ((u64)r.v & ~I::sign) == 0 : (u64)r.v == (u64)(HT)a, "pack(unpack)");
}
//---------------------------------------------------------------- sign and order
extern "C" void ob_sign__u(u64 a)
{
	u64 v = (u64)(HT)a;
	A p = mk(a);
	vp_assert((u64)p.neg().v == (v ^ I::sign) && (u64)(-p).v == (v ^ I::sign), "negative");
	vp_assert((u64)p.abs().v == (v & ~I::sign), "abs");
	vp_assert(p.isnegative() == ((v & I::sign) != 0) && p.iszero() == (v == 0), "predicates");
}
static inline bool less(const Num &a, const Num &b) // neither is NaN
{
	int sa = a.cls == ZERO ? 0 : a.neg ? -1 : 1, sb = b.cls == ZERO ? 0 : b.neg ? -1 : 1;
	if (sa != sb || sa == 0) return sa < sb;
	bool big = a.cls == INF ? false : b.cls == INF ? true : a.exp != b.exp ? a.exp < b.exp : a.frac < b.frac;
	bool eq = a.cls == b.cls && (a.cls == INF || (a.exp == b.exp && a.frac == b.frac));
	return sa > 0 ? big : !big && !eq;
}
// the order of the numbers is that of the patterns read as sign and magnitude
static inline i64 key(u64 a)
{
	u64 v = (u64)(HT)a, m = v & ~I::sign;
	if (!DEN && (v & I::inf) == 0) return 0;
	return v & I::sign ? -(i64)m : (i64)m;
}
static inline void exact(u64 a) // where the native format is the format itself
{
	if (NF == FB) vp_lemma(isn(a) || U(a).cls == ZERO || bits(nat(a)) == (u64)(HT)a, "the native number is the pattern");
}
extern "C" void ob_lemma_order__uu(u64 a, u64 b)
{
	vp_assume(!isn(a) && !isn(b));
	Num x = U(a), y = U(b);
	vp_assert(less(x, y) == (key(a) < key(b)), "order of the numbers");
}
#define ORDER(name, op, c) \
extern "C" void ob_##name##__uu(u64 a, u64 b) \
{ \
	i64 k = key(a), l = key(b); \
	bool o = !isn(a) && !isn(b); \
	exact(a); \
	exact(b); \
	vp_assert((mk(a) op mk(b)) == (c), #op); \
}
ORDER(lt, <, o && k < l)
ORDER(gt, >, o && k > l)
ORDER(le, <=, o && k <= l)
ORDER(ge, >=, o && k >= l)
ORDER(eq, ==, o && k == l)
ORDER(ne, !=, !(o && k == l))
#if VDEN
extern "C" void ob_minmax__uu(u64 a, u64 b)
{
	A p = mk(a), q = mk(b);
	vp_assume(!isn(a) && !isn(b));
	exact(a);
	exact(b);
	A l = std::min(p, q), g = std::max(p, q);
	vp_assert((l.v == p.v || l.v == q.v) && key(a) >= key(l.v) && key(b) >= key(l.v), "min");
	vp_assert((g.v == p.v || g.v == q.v) && key(g.v) >= key(a) && key(g.v) >= key(b), "max");
	vp_assert((u64)std::abs(p).v == ((u64)(HT)a & ~I::sign), "abs");
}
#endif
//---------------------------------------------------------------- arithmetic
#define NN(r, x) vp_assert(isn(a) || isn(b) ? isn((r).v) : cut(r, x), #r)
extern "C" void ob_mul__uu(u64 a, u64 b) { NN(mk(a) * mk(b), nat(a) * nat(b)); }
extern "C" void ob_div__uu(u64 a, u64 b) { NN(mk(a) / mk(b), nat(a) / nat(b)); }
extern "C" void ob_mulassign__uu(u64 a, u64 b)
{
	A q = mk(a);
	A &l = (q *= mk(b));
	NN(q, nat(a) * nat(b));
	vp_assert(&l == &q, "itself");
}
static inline bool sum(const A &r, u64 a, u64 b)
{
	u64 v = (u64)(HT)a, w = (u64)(HT)b;
	if (v == 0) return (u64)r.v == w;
	if (w == 0) return (u64)r.v == v;
	return isn(a) || isn(b) ? isn(r.v) : cut(r, nat(a) + nat(b));
}
extern "C" void ob_add__uu(u64 a, u64 b) { vp_assert(sum(mk(a) + mk(b), a, b), "sum"); }
extern "C" void ob_addassign__uu(u64 a, u64 b)
{
	A q = mk(a);
	A &l = (q += mk(b));
	vp_assert(sum(q, a, b) && &l == &q, "compound sum");
}
extern "C" void ob_sub__uu(u64 a, u64 b) { vp_assert(sum(mk(a) - mk(b), a, b ^ I::sign), "difference"); }
extern "C" void ob_inv__u(u64 a)
{
	const A p = mk(a);
	vp_assert(isn(a) ? isn(p.inv().v) : cut(p.inv(), (VFFT)1 / nat(a)), "reciprocal");
}
extern "C" void ob_half__u(u64 a)
{
	const A p = mk(a);
	A r = p.half();
	vp_assert(isn(a) ? isn(r.v) : (isfloat<FB, EB, DEN>(r.v, s_unfloat<52, 11, true>(word<double, u64>(0.5 * (double)nat(a))))), "half");
}
extern "C" void ob_twice__u(u64 a)
{
	const A p = mk(a);
	A r = p.twice();
	vp_assert(isn(a) ? isn(r.v) : cut(r, 2 * nat(a)), "twice");
}
extern "C" void ob_constants()
{
	vp_assert((u64)A::zero().v == 0 && (u64)A::one().v == (u64)I::bias << FB && (u64)A::two().v == (u64)(I::bias + 1) << FB, "numbers");
	vp_assert((u64)A::inf().v == I::inf && (u64)A::pinf().v == I::inf && (u64)A::infinity().v == I::inf && (u64)A::ninf().v == (I::inf | I::sign) && isn(A::nan().v), "infinities and NaN");
	vp_assert((u64)A::max().v == I::big && (u64)A::lowest().v == (I::big | I::sign) && (u64)A::min().v == (u64)1 << FB, "extremes");
}
