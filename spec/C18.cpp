#include "contracts.h"
static inline bool val(const P &p, bool neg, i64 e)
{
	Num n = D((i64)p.v);
	return legal<N>((i64)p.v) && n.cls == REG && n.neg == neg && n.exp == e && n.frac == 0;
}
typedef std::numeric_limits<P> L;
extern "C" void ob_numbers()
{
	vp_assert(P::zero().v == 0 && P().v == 0, "zero");
	vp_assert(val(P::one(), false, 0), "one");
	vp_assert(val(P::mone(), true, 0), "minus one");
	// 2 and 1/2 are numbers of the type when the exponent bits are not cut off
	if (ES <= N - 3) vp_assert(val(P::two(), false, 1), "two");
	if (ES <= N - 3) vp_assert(val(P::onehalf(), false, -1), "one half");
}
extern "C" void ob_limits()
{
	vp_assert((i64)P::max().v == (maxpos<N, SP>()), "max");
	vp_assert((i64)P::min().v == 1, "min");
	vp_assert((i64)P::lowest().v == (lowest<N, SP>()), "lowest");
	vp_assert(L::max().v == P::max().v && L::min().v == P::min().v && L::lowest().v == P::lowest().v, "numeric limits");
	vp_assert(L::denorm_min().v == P::min().v, "denorm_min");
}
extern "C" void ob_extreme__p(u64 a) // every finite posit is between them, every positive one at least min
{
	i64 v = legalpat(a);
	vp_assume((isfin<N, SP>(v)));
	vp_assert(v <= (i64)P::max().v && v >= (i64)P::lowest().v && (v <= 0 || v >= (i64)P::min().v), "extremes");
	Num n = D(v);
	vp_assert(n.cls != REG || ((i64)L::max_exponent >= n.exp && (i64)L::min_exponent <= n.exp), "exponents");
	vp_assert(n.cls != REG || v != (maxpos<N, SP>()) || (i64)L::max_exponent == n.exp, "largest exponent");
	vp_assert(n.cls != REG || v != 1 || (i64)L::min_exponent == n.exp, "smallest exponent");
}
extern "C" void ob_specials()
{
	if (SP != WithInf) vp_assert((isnan_<N, SP>((i64)P::nan().v)) && P::nan().isNaN() && L::quiet_NaN().v == P::nan().v, "NaN");
	if (SP != WithNan)
	{
		vp_assert((isinf_<N, SP>((i64)P::inf().v)) && (isinf_<N, SP>((i64)P::pinf().v)) && (isinf_<N, SP>((i64)P::ninf().v)) && (isinf_<N, SP>((i64)P::infinity().v)), "infinities");
		vp_assert(P::inf().isinfinity() && P::ninf().isinfinity() && P::pinf().isinfinity() && P::infinity().isinfinity(), "predicate");
		vp_assert(L::infinity().v == P::infinity().v && P::pinf().v == P::inf().v && P::infinity().v == P::inf().v, "one positive infinity");
	}
	if (SP == WithNanInf) vp_assert(P::pinf().v > 0 && P::ninf().v < 0, "signs");
	vp_assert(L::has_infinity == (SP != WithNan) && L::has_quiet_NaN == (SP != WithInf), "which exist");
	vp_assert(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::radix == 2 && !L::has_signaling_NaN && !L::is_modulo, "facts");
}
extern "C" void ob_epsilon()
{
	// the posit after one is 1 + 2^-k with k = N-3-ES fraction bits (one, when there are none, is followed by 2^(2^j))
	P e = L::epsilon(), x = mkp(((i64)1 << (N - 2)) + 1), o = mkp((i64)1 << (N - 2));
	vp_assert(e.v == (x - o).v, "gap after one");
	if (N - 3 - ES > 0) vp_assert(val(e, false, -(N - 3 - ES)) || -(N - 3 - ES) < (minexp<N, ES, SP>()), "power of two");
}
