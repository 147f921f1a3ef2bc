#include "contracts.h"
#include "contracts_float.h"
template <int FB, int EB> static inline bool conv(u64 bits, i64 v)
{
	Num n = D(v);
	if (n.cls == INF && SP == WithInf) return Ieee<FB, EB>::isinf(bits); // unsigned infinity
	return isfloat<FB, EB, true>(bits, n);
}
static inline u64 bits(float f)
{
	union { uint32_t i; float f; } x;
	x.f = f;
	return x.i;
}
static inline u64 bits(double f)
{
	union { u64 i; double f; } x;
	x.f = f;
	return x.i;
}
extern "C" void ob_tofloat__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((conv<23, 8>(bits((float)mkp(v)), v)), "to float");
}
extern "C" void ob_tofloatbits__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((conv<23, 8>(mkp(v).as_float_bin(), v)), "to float bits");
}
extern "C" void ob_todouble__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((conv<52, 11>(bits((double)mkp(v)), v)), "to double");
}
// every number of the type is a number of the format
template <int FB, int EB> constexpr bool fits() { return N - 3 - ES <= FB && (maxexp<N, ES, WithNan>()) <= Ieee<FB, EB>::bias && (minexp<N, ES, SP>()) >= 1 - Ieee<FB, EB>::bias; }
extern "C" void ob_float_exact__p(u64 a)
{
	if (!fits<23, 8>()) return;
	i64 v = legalpat(a);
	u64 b = bits((float)mkp(v));
	vp_assert(E(s_unfloat<23, 8, true>(b)) == v, "exact");
	vp_assert((i64)P((float)mkp(v)).v == v, "there and back");
}
extern "C" void ob_double_exact__p(u64 a)
{
	if (!fits<52, 11>()) return;
	i64 v = legalpat(a);
	u64 b = bits((double)mkp(v));
	vp_assert(E(s_unfloat<52, 11, true>(b)) == v, "exact");
	vp_assert((i64)P((double)mkp(v)).v == v, "there and back");
}
