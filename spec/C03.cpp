#include "contracts.h"
extern "C" void ob_roundtrip__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((i64)P(mkp(v).unpack()).v == v, "pack(unpack)");
}
extern "C" void ob_roundtrip_low__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((i64)P(mkp(v).unpack_low()).v == v, "pack_low(unpack_low)");
}
static inline bool ok(const P &p) { return legal<N>((i64)p.v); }
#define UN(name, ex) \
extern "C" void ob_legal_##name##__p(u64 a) \
{ \
	P p = mkp(legalpat(a)); \
	vp_assert(ok(ex), #name); \
}
UN(neg, p.neg())
UN(minus, -p)
UN(abs, p.abs())
UN(stdabs, std::abs(p))
UN(next, p.next())
UN(prev, p.prev())
UN(half, p.half())
UN(twice, p.twice())
UN(inv, p.inv())
UN(sigmoid, p.pseudosigmoid())
UN(softplus, p.pseudosoftplus())
#define BIN(name, ex) \
extern "C" void ob_legal_##name##__pp(u64 a, u64 b) \
{ \
	P p = mkp(legalpat(a)), q = mkp(legalpat(b)); \
	vp_assert(ok(ex), #name); \
}
BIN(add, p + q)
BIN(sub, p - q)
BIN(mul, p * q)
BIN(div, p / q)
BIN(addassign, p += q)
BIN(mulassign, p *= q)
BIN(divassign, p /= q)
BIN(min, std::min(p, q))
BIN(max, std::max(p, q))
extern "C" void ob_legal_fma__ppp(u64 a, u64 b, u64 c)
{
	vp_assert(ok(fma(mkp(legalpat(a)), mkp(legalpat(b)), mkp(legalpat(c)))), "fma");
}
extern "C" void ob_legal_float__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	vp_assert(ok(P(x.f)), "float");
}
extern "C" void ob_legal_double__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert(ok(P(x.f)), "double");
}
extern "C" void ob_legal_int__i(u64 a) { vp_assert(ok(P((int)a)), "int"); }
extern "C" void ob_legal_constants()
{
	vp_assert(ok(P()) && ok(P::zero()) && ok(P::one()) && ok(P::two()) && ok(P::mone()) && ok(P::onehalf()), "numbers");
	vp_assert(ok(P::max()) && ok(P::min()) && ok(P::lowest()) && ok(P::nan()) && ok(P::infinity()) && ok(P::pinf()) && ok(P::ninf()) && ok(P::inf()), "limits");
}
