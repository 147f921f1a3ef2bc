#include "contracts.h"
static_assert(N > 3, "");
constexpr i64 ONE = (i64)1 << (N - 2);
static inline bool samevalue(const Num &a, const Num &b) { return a.cls == b.cls && (a.cls != REG || (a.neg == b.neg && a.exp == b.exp && a.frac == b.frac)); }
// v / 2^(N-2), exactly
static inline Num scaled(i64 v)
{
	if (v == 0) return Num{ZERO, false, 0, 0};
	u64 m = (u64)v;
	int p = 63 - __builtin_clzll(m);
	return Num{REG, false, (i64)p - (N - 2), p == 0 ? 0 : m << (64 - p)};
}
// patterns denoting numbers in [0,1]
static inline bool unit(i64 v)
{
	Num n = D(v);
	return n.cls == ZERO || (n.cls == REG && !n.neg && (n.exp < 0 || (n.exp == 0 && n.frac == 0)));
}
extern "C" void ob_unit__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert(mkp(v).isUnitRange() == unit(v), "in [0,1]");
}
// without exponent bits the patterns of [0,1] are the multiples of 2^-(N-2)
extern "C" void ob_lemma_linear__p(u64 a)
{
	i64 v = legalpat(a);
	if (ES != 0) return;
	vp_assume(v >= 0 && v <= ONE);
	vp_assert(unit(v) && samevalue(D(v), scaled(v)), "the number is pattern / 2^(N-2)");
}
extern "C" void ob_oneminus__p(u64 a)
{
	i64 v = legalpat(a);
	if (ES != 0) return;
	vp_assume(unit(v));
	P r = mkp(v).urOneMinus();
	// x = v / 2^(N-2), so 1 - x = (2^(N-2) - v) / 2^(N-2)
	vp_assert((i64)r.v >= 0 && (i64)r.v <= ONE && samevalue(D((i64)r.v), scaled(ONE - v)), "1 - x");
	vp_assert((i64)r.urOneMinus().v == v, "twice is the identity");
}
extern "C" void ob_deltaps__p(u64 a)
{
	i64 v = legalpat(a);
	if (ES != 0) return;
	vp_assume(v >= 0 && v <= ONE);
	P r = mkp(v).urDeltaPs();
	vp_assert(is(r, s_mul(denote(v), denote(ONE - v))), "x (1 - x)");
}
extern "C" void ob_sigmoid_range__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isfin<N, SP>(v)));
	P r = mkp(v).pseudosigmoid();
	vp_assert(unit((i64)r.v), "sigmoid in [0,1]");
}
extern "C" void ob_sigmoid_monotone__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isfin<N, SP>(v)) && (isfin<N, SP>(w)) && v <= w); // larger patterns are larger numbers: C08
	vp_assert((i64)mkp(v).pseudosigmoid().v <= (i64)mkp(w).pseudosigmoid().v, "sigmoid monotone");
}
extern "C" void ob_sigmoid_zero()
{
	if (ES != 0) return;
	vp_assert((i64)mkp(0).pseudosigmoid().v == E(Num{REG, false, -1, 0}), "one half at zero");
}
extern "C" void ob_softplus_range__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isfin<N, SP>(v)));
	i64 r = (i64)mkp(v).pseudosoftplus().v;
	vp_assert(r >= 0 && !(isnan_<N, SP>(r)) && ((isfin<N, SP>(r)) || v == (i64)P::max().v), "softplus non-negative");
}
extern "C" void ob_softplus_monotone__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isfin<N, SP>(v)) && (isfin<N, SP>(w)) && v <= w);
	vp_assert((i64)mkp(v).pseudosoftplus().v <= (i64)mkp(w).pseudosoftplus().v, "softplus monotone");
}
