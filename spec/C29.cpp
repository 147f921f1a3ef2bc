// The tabulated 8-bit float: operators return the table entry of their operands, entries are the truncated native result.
#include "vp.h"
#include "binary8.hpp"
#include "anyfloat.hpp"
#include "../src/binary8.cpp"
namespace binary8ns {
extern int8_t opadd[65536], opmul[65536], opdiv[65536], opinv[256], ophalf[256], opsquare[256];
extern uint32_t op2float[256];
}
constexpr int FB = BINARY8_MAN, EB = BINARY8_EXP;
typedef binary8tab B;
typedef Unpacked<uint8_t, int> UT;
typedef uint8_t FT;
typedef int ET;
constexpr int W = 8;
static_assert(EB == 5 && FB == 2, "");
#include "contracts_float.h"
typedef Ieee<FB, EB> I;
#ifndef VP_NOCONTRACTS
typedef any_floattrait<5, 2, int8_t, uint8_t> OwnTrait; // that of the generator's emulated float
CT_FLOAT(own, OwnTrait, uint8_t, 2, 5)
#endif
typedef Ieee<23, 8> NI;
static inline B mk(i64 v) { return B(B::DeepInit(), (int8_t)v); }
static inline u64 at(i64 v) { return (u64)v & 255; }
static inline u64 at2(i64 v, i64 w) { return at(v) * 256 + at(w); }
static inline Num U(i64 v) { return s_unfloat<FB, EB, true>(at(v)); }
static inline bool isn(i64 v) { return I::isnan(at(v)); }
static inline uint32_t fbits(float f)
{
	uint32_t b;
	__builtin_memcpy(&b, &f, sizeof b);
	return b;
}
static inline u64 dbits(double f)
{
	u64 b;
	__builtin_memcpy(&b, &f, sizeof b);
	return b;
}
static inline float word(uint32_t b)
{
	float f;
	__builtin_memcpy(&f, &b, sizeof f);
	return f;
}
static inline bool ok_float(i64 v, u64 r) { return isfloat<23, 8, true>(r, U(v)); }
#ifdef VP_NATIVE
// the native number a pattern denotes
static inline float nat(i64 v)
{
	Num n = U(v);
	return word((uint32_t)(n.cls == NANC ? NI::inf | 1 : s_tofloat<23, 8, true>(n)));
}
// the pattern is the native number truncated
static inline bool cut(i64 r, float x) { return r >= -128 && r <= 127 && isfloat<FB, EB, true>(at(r), s_unfloat<23, 8, true>(fbits(x))); }
static inline bool ok_add(i64 v, i64 w, i64 r) { return cut(r, nat(v) + nat(w)); }
static inline bool ok_mul(i64 v, i64 w, i64 r) { return cut(r, nat(v) * nat(w)); }
static inline bool ok_div(i64 v, i64 w, i64 r) { return cut(r, nat(v) / nat(w)); }
static inline bool ok_inv(i64 v, i64 r) { return cut(r, 1 / nat(v)); }
static inline bool ok_half(i64 v, i64 r) { return cut(r, nat(v) / 2); }
static inline bool ok_square(i64 v, i64 r) { return cut(r, nat(v) * nat(v)); }
#else
static inline bool ok_add(i64 v, i64 w, i64 r) { return vp_uf5("ok_add", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_mul(i64 v, i64 w, i64 r) { return vp_uf5("ok_mul", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_div(i64 v, i64 w, i64 r) { return vp_uf5("ok_div", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_inv(i64 v, i64 r) { return vp_uf5("ok_inv", (u64)v, (u64)r, 0, 0, 0) & 1; }
static inline bool ok_half(i64 v, i64 r) { return vp_uf5("ok_half", (u64)v, (u64)r, 0, 0, 0) & 1; }
static inline bool ok_square(i64 v, i64 r) { return vp_uf5("ok_square", (u64)v, (u64)r, 0, 0, 0) & 1; }
#endif
#define INV1(x) vp_assume(ok_##x(v, (i64)binary8ns::op##x[at(v)]))
#define INVF(v) vp_assume(ok_float(v, (u64)binary8ns::op2float[at(v)]))
#define INV2(x, v, w) vp_assume(ok_##x(v, w, (i64)binary8ns::op##x[at2(v, w)]))
#define V1 i64 v = (i64)(int8_t)a;
#define V2 i64 v = (i64)(int8_t)a, w = (i64)(int8_t)b;
//---------------------------------------------------------------- the entries
extern "C" void ob_ground_inv__p(u64 a) { V1 vp_assert(ok_inv(v, (i64)binary8ns::opinv[at(v)]), "reciprocal entry"); }
extern "C" void ob_ground_square__p(u64 a) { V1 vp_assert(ok_square(v, (i64)binary8ns::opsquare[at(v)]), "square entry"); }
extern "C" void ob_ground_half__p(u64 a) { V1 vp_assert(ok_half(v, (i64)binary8ns::ophalf[at(v)]), "half entry"); }
extern "C" void ob_ground_float__p(u64 a) { V1 vp_assert(ok_float(v, (u64)binary8ns::op2float[at(v)]), "float entry"); }
extern "C" void ob_ground_add__pp(u64 a, u64 b) { V2 vp_assert(ok_add(v, w, (i64)binary8ns::opadd[at2(v, w)]), "sum entry"); }
extern "C" void ob_ground_mul__pp(u64 a, u64 b) { V2 vp_assert(ok_mul(v, w, (i64)binary8ns::opmul[at2(v, w)]), "product entry"); }
extern "C" void ob_ground_div__pp(u64 a, u64 b) { V2 vp_assert(ok_div(v, w, (i64)binary8ns::opdiv[at2(v, w)]), "quotient entry"); }
//---------------------------------------------------------------- operations
extern "C" void ob_inv__p(u64 a)
{
	V1
	INV1(inv);
	vp_assert(ok_inv(v, (i64)mk(v).inv().v) && ok_inv(v, (i64)inv(mk(v)).v), "reciprocal");
}
extern "C" void ob_square__p(u64 a)
{
	V1
	INV1(square);
	vp_assert(ok_square(v, (i64)mk(v).square().v) && ok_square(v, (i64)square(mk(v)).v), "square");
}
extern "C" void ob_half__p(u64 a)
{
	V1
	INV1(half);
	vp_assert(ok_half(v, (i64)mk(v).half().v) && ok_half(v, (i64)half(mk(v)).v), "half");
}
extern "C" void ob_twice__p(u64 a)
{
	V1
	INV2(add, v, v);
	vp_assert(ok_add(v, v, (i64)mk(v).twice().v) && ok_add(v, v, (i64)twice(mk(v)).v), "twice");
}
extern "C" void ob_add__pp(u64 a, u64 b)
{
	V2
	INV2(add, v, w);
	B q = mk(v);
	B &l = (q += mk(w));
	vp_assert(ok_add(v, w, (i64)(mk(v) + mk(w)).v) && ok_add(v, w, (i64)q.v) && &l == &q, "sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	V2
	i64 n = (i64)(int8_t)(w ^ 128);
	INV2(add, v, n);
	vp_assert(ok_add(v, n, (i64)(mk(v) - mk(w)).v), "difference");
}
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	V2
	INV2(mul, v, w);
	B q = mk(v);
	B &l = (q *= mk(w));
	vp_assert(ok_mul(v, w, (i64)(mk(v) * mk(w)).v) && ok_mul(v, w, (i64)q.v) && &l == &q, "product");
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	V2
	INV2(div, v, w);
	vp_assert(ok_div(v, w, (i64)(mk(v) / mk(w)).v), "quotient");
}
//---------------------------------------------------------------- sign and order
extern "C" void ob_sign__p(u64 a)
{
	V1
	vp_assert(at((-mk(v)).v) == (at(v) ^ 128) && at(neg(mk(v)).v) == (at(v) ^ 128), "negative");
	vp_assert(at(std::abs(mk(v)).v) == (at(v) & 127), "abs");
	vp_assert(mk(v).is_negative() == (v < 0) && is_negative(mk(v)) == (v < 0), "sign");
}
static inline i64 key(i64 v) { return v < 0 ? -(i64)(at(v) & 127) : v; }
extern "C" void ob_order__pp(u64 a, u64 b)
{
	V2
	INVF(v);
	INVF(w);
	B p = mk(v), q = mk(w);
	bool o = !isn(v) && !isn(w);
	i64 k = key(v), l = key(w);
	vp_assert((p < q) == (o && k < l) && (p > q) == (o && k > l), "order");
	vp_assert((p <= q) == (o && k <= l) && (p >= q) == (o && k >= l), "order or equal");
	vp_assert((p == q) == (o && k == l) && (p != q) == !(o && k == l), "equality");
	B s = std::min(p, q), g = std::max(p, q);
	vp_assert((s.v == p.v || s.v == q.v) && (g.v == p.v || g.v == q.v), "min and max are operands");
	vp_assert(!o || (key(s.v) <= k && key(s.v) <= l && key(g.v) >= k && key(g.v) >= l), "min and max");
}
//---------------------------------------------------------------- conversions
extern "C" void ob_tofloat__p(u64 a)
{
	V1
	INVF(v);
	vp_assert(ok_float(v, (u64)fbits((float)mk(v))), "to float");
	vp_assert(dbits((double)mk(v)) == dbits((double)(float)mk(v)), "to double");
	vp_assert(U(v).cls == INF || isn(v) || (i64)(int)mk(v) == (i64)(int)(float)mk(v), "to int");
}
extern "C" void ob_fromint__i(u64 a) { vp_assert((isfloat<FB, EB, true>(at(B((int)a).v), s_unfixed32<0>((int)a))), "from int"); }
extern "C" void ob_fromfloat__f(u64 a) { vp_assert((isfloat<FB, EB, true>(at(B(word((uint32_t)a)).v), s_unfloat<23, 8, true>((u64)(uint32_t)a))), "from float"); }
extern "C" void ob_fromdouble__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert((isfloat<FB, EB, true>(at(B(x.f).v), s_unfloat<52, 11, true>(a))), "from double");
}
extern "C" void ob_rt__p(u64 a)
{
	V1
	INVF(v);
	B r((float)mk(v));
	vp_assert(isn(v) ? isn(r.v) : r.v == v || ((at(r.v) | at(v)) & 127) == 0, "there and back");
}
extern "C" void ob_constants()
{
	vp_assert(U(B::one().v).cls == REG && U(B::one().v).exp == 0 && U(B::one().v).frac == 0 && B::zero().v == 0 && B().v == 0, "one, zero");
	vp_assert(at(B::afterone().v) == at(B::one().v) + 1, "after one");
	vp_assert(at(B::max().v) == I::big && at(B::min().v) == (u64)1 << FB, "largest and smallest normal");
	vp_assert(std::numeric_limits<B>::max().v == B::max().v && std::numeric_limits<B>::min().v == B::min().v, "limits");
}
