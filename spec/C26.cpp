// Compiled with POSITMUL
#ifndef POSITMUL
#error
#endif
#include "contracts.h"
#include "contracts_float.h"
#define V2 i64 v = legalpat(a), w = legalpat(b);
#define V3 i64 v = legalpat(a), w = legalpat(b), z = legalpat(c);
#define V4 i64 v = legalpat(a), w = legalpat(b), z = legalpat(c), t = legalpat(d);
static inline u64 fbits(float f)
{
	union { uint32_t i; float f; } x;
	x.f = f;
	return x.i;
}
static inline u64 dbits(double f)
{
	union { u64 i; double f; } x;
	x.f = f;
	return x.i;
}
// the plain product: packed once from the unpacked product
static inline P plain(i64 v, i64 w) { return P(mkp(v).unpack() * mkp(w).unpack()); }
extern "C" void ob_product__pp(u64 a, u64 b)
{
	V2
	P r = mkp(v) * mkp(w);
	vp_assert(is(r, s_mul(denote(v), denote(w))), "product");
}
extern "C" void ob_product_forms__pp(u64 a, u64 b)
{
	V2
	P r = plain(v, w), q = mkp(v), s = mkp(v) * mkp(w);
	P &l = (q *= mkp(w));
	vp_assert(s.v == r.v && (mkp(v) * mkp(w)).asPosit().v == r.v, "deferred product");
	vp_assert(q.v == r.v && &l == &q, "compound product");
}
extern "C" void ob_unpacked__pp(u64 a, u64 b)
{
	V2
	UT u = mkp(v) * mkp(w), x = plain(v, w).unpack();
	vp_assert(u.type == x.type && (x.type == UT::NaN || u.negativeSign == x.negativeSign) && (x.type != UT::Regular || (u.exponent == x.exponent && u.fraction == x.fraction)), "unpacked");
}
// NaN has no particular pattern
static inline bool samef(u64 a, u64 b) { return a == b || (Ieee<23, 8>::isnan(a) && Ieee<23, 8>::isnan(b)); }
static inline bool samed(u64 a, u64 b) { return a == b || (Ieee<52, 11>::isnan(a) && Ieee<52, 11>::isnan(b)); }
extern "C" void ob_float__pp(u64 a, u64 b)
{
	V2
	vp_assert(samef(fbits((float)(mkp(v) * mkp(w))), fbits((float)plain(v, w))), "float");
}
extern "C" void ob_double__pp(u64 a, u64 b)
{
	V2
	vp_assert(samed(dbits((double)(mkp(v) * mkp(w))), dbits((double)plain(v, w))), "double");
}
extern "C" void ob_int__pp(u64 a, u64 b)
{
	V2
	vp_assert((int)(mkp(v) * mkp(w)) == (int)plain(v, w), "int");
}
extern "C" void ob_fma_right__ppp(u64 a, u64 b, u64 c)
{
	V3
	P f = fma(mkp(v), mkp(w), mkp(z));
	vp_assert((mkp(v) * mkp(w) + mkp(z)).v == f.v, "product plus posit");
}
extern "C" void ob_fma_left__ppp(u64 a, u64 b, u64 c)
{
	V3
	P f = fma(mkp(v), mkp(w), mkp(z));
	vp_assert((mkp(z) + mkp(v) * mkp(w)).v == f.v, "posit plus product");
}
extern "C" void ob_sum__pppp(u64 a, u64 b, u64 c, u64 d)
{
	V4
	P s = mkp(v) * mkp(w) + mkp(z) * mkp(t);
	P e = P(mkp(v).unpack() * mkp(w).unpack() + mkp(z).unpack() * mkp(t).unpack());
	vp_assert(s.v == e.v, "sum of products packed once");
}
extern "C" void ob_difference__pppp(u64 a, u64 b, u64 c, u64 d)
{
	V4
	P s = mkp(v) * mkp(w) - mkp(z) * mkp(t);
	P e = P(mkp(v).unpack() * mkp(w).unpack() + -(mkp(z).unpack() * mkp(t).unpack()));
	vp_assert(s.v == e.v, "difference of products packed once");
}
