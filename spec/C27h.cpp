// The portable half-precision route (no F16C): conversions and operations through float.
#include "vp.h"
#include "float16native32.hpp"
#ifdef __F16C__
#error
#endif
typedef Unpacked<uint32_t, int> UT;
typedef uint32_t FT;
typedef int ET;
constexpr int W = 32, FB = 10, EB = 5;
#include "contracts_float.h"
#ifndef VP_NOCONTRACTS
CT_FLOAT(half, half_trait, uint16_t, 10, 5)
#endif
typedef Ieee<FB, EB> I;
typedef float16n32 A;
static inline A mk(u64 v) { return A(false, (uint16_t)v); }
static inline uint32_t bits(float f)
{
	uint32_t b;
	__builtin_memcpy(&b, &f, sizeof b);
	return b;
}
static inline float word(uint32_t b)
{
	float f;
	__builtin_memcpy(&f, &b, sizeof f);
	return f;
}
static inline Num U(u64 v) { return s_unfloat<FB, EB, true>((u64)(uint16_t)v); }
static inline bool isn(u64 v) { return I::isnan((u64)(uint16_t)v); }
static inline float nat(u64 v)
{
	Num n = U(v);
	return word((uint32_t)(n.cls == NANC ? (Ieee<23, 8>::inf | 1) : s_tofloat<23, 8, true>(n)));
}
static inline bool cut(const A &r, float x) { return isfloat<FB, EB, true>((u64)r.raw(), s_unfloat<23, 8, true>(bits(x))); }
extern "C" void ob_tofloat__u(u64 a)
{
	vp_assert((isfloat<23, 8, true>(bits(float16nto32(float16n_t((uint16_t)a))), U(a))), "half to float");
	vp_assert((isfloat<23, 8, true>(bits((float)mk(a)), U(a))), "to float");
}
extern "C" void ob_todouble__u(u64 a)
{
	union { u64 i; double f; } d;
	d.f = (double)mk(a);
	vp_assert((isfloat<52, 11, true>(d.i, U(a))), "to double");
}
extern "C" void ob_fromfloat__f(u64 a)
{
	float x = word((uint32_t)a);
	Num n = s_unfloat<23, 8, true>((u64)(uint32_t)a);
	vp_assert((isfloat<FB, EB, true>((u64)float32to16n(x).what, n)), "float to half");
	vp_assert((isfloat<FB, EB, true>((u64)A(x).raw(), n)), "from float");
}
extern "C" void ob_rt__u(u64 a)
{
	u64 v = (u64)(uint16_t)a, r = (u64)A((float)mk(a)).raw();
	vp_assert(isn(a) ? isn(r) : r == v || ((r | v) & ~I::sign) == 0, "there and back");
	vp_assert((u64)mk(a).raw() == v && (u64)A((float16n_t)mk(a)).raw() == v, "bits");
}
extern "C" void ob_sign__u(u64 a)
{
	u64 v = (u64)(uint16_t)a;
	A p = mk(a);
	vp_assert((u64)p.neg().raw() == (v ^ I::sign) && (u64)(-p).raw() == (v ^ I::sign), "negative");
	vp_assert((u64)p.abs().raw() == (v & ~I::sign) && (u64)std::abs(p).raw() == (v & ~I::sign), "abs");
}
static inline bool less(const Num &a, const Num &b) // neither is NaN
{
	int sa = a.cls == ZERO ? 0 : a.neg ? -1 : 1, sb = b.cls == ZERO ? 0 : b.neg ? -1 : 1;
	if (sa != sb || sa == 0) return sa < sb;
	bool big = a.cls == INF ? false : b.cls == INF ? true : a.exp != b.exp ? a.exp < b.exp : a.frac < b.frac;
	bool eq = a.cls == b.cls && (a.cls == INF || (a.exp == b.exp && a.frac == b.frac));
	return sa > 0 ? big : !big && !eq;
}
extern "C" void ob_order__uu(u64 a, u64 b)
{
	A p = mk(a), q = mk(b);
	bool o = !isn(a) && !isn(b);
	bool lt = less(U(a), U(b)), gt = less(U(b), U(a));
	vp_assert((p < q) == (o && lt) && (p > q) == (o && gt), "order");
	vp_assert((p <= q) == (o && !gt) && (p >= q) == (o && !lt), "order or equal");
	vp_assert((p == q) == (o && !lt && !gt), "equality");
}
#define NN(r, x) vp_assert(isn(a) || isn(b) ? isn((r).raw()) : cut(r, x), #r)
extern "C" void ob_add__uu(u64 a, u64 b) { NN(mk(a) + mk(b), nat(a) + nat(b)); }
extern "C" void ob_sub__uu(u64 a, u64 b) { NN(mk(a) - mk(b), nat(a) - nat(b)); }
extern "C" void ob_mul__uu(u64 a, u64 b) { NN(mk(a) * mk(b), nat(a) * nat(b)); }
extern "C" void ob_div__uu(u64 a, u64 b) { NN(mk(a) / mk(b), nat(a) / nat(b)); }
extern "C" void ob_assign__uu(u64 a, u64 b)
{
	A p = mk(a), q = mk(a);
	A &l = (p += mk(b)), &m = (q *= mk(b));
	NN(p, nat(a) + nat(b));
	NN(q, nat(a) * nat(b));
	vp_assert(&l == &p && &m == &q, "itself");
}
#define N1(r, x) vp_assert(isn(a) ? isn((r).raw()) : cut(r, x), #r)
extern "C" void ob_unary__u(u64 a)
{
	A p = mk(a);
	N1(inv(p), 1.0f / nat(a));
	N1(half(p), nat(a) / 2.0f);
	N1(square(p), nat(a) * nat(a));
}
extern "C" void ob_muladd__uuu(u64 a, u64 b, u64 c)
{
	A r = mulAdd(mk(a), mk(b), mk(c));
	vp_assert(isn(a) || isn(b) || isn(c) ? isn(r.raw()) : cut(r, nat(a) * nat(b) + nat(c)), "multiply and add");
}
extern "C" void ob_constants()
{
	vp_assert(A::zero().raw() == 0 && A::one().raw() == 0x3c00 && A::two().raw() == 0x4000, "constants");
}
