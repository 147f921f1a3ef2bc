#include "contracts.h"
LEMMA_POW2
extern "C" void ob_inv__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	UT x = denote(v);
	vp_assert((x.fraction & 3) == 0, "the significand is whole in W bits, also halved");
	P r = mkp(v).inv();
	vp_assert(is(r, div_exact(oneu(), x)), "reciprocal");
}
extern "C" void ob_inv_tilde__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	const P p = mkp(v);
	vp_assert((~p).v == p.inv().v, "operator ~");
}
extern "C" void ob_inv_free__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	const P p = mkp(v);
	vp_assert(inv(p).v == p.inv().v, "inv()");
}
extern "C" void ob_inv_div__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	const P p = mkp(v), one = mkp((i64)1 << (N - 2));
	vp_assert(p.inv().v == (one / p).v, "one over x");
}
static inline void forms(i64 v, const Num &n)
{
	const P p = mkp(v), one = mkp((i64)1 << (N - 2));
	vp_assert(is(p.inv(), n), "reciprocal");
	vp_assert(is(~p, n), "operator ~");
	vp_assert(is(inv(p), n), "inv()");
	vp_assert(is(one / p, n), "one over x");
}
extern "C" void ob_inv_special()
{
	Num nan = {NANC, false, 0, 0}, inf = {INF, false, 0, 0}, zero = {ZERO, false, 0, 0};
	forms(0, inf);
	if (SP != WithInf) forms(top<N>(), nan);
	if (SP == WithInf) forms(top<N>(), zero);
	if (SP == WithNanInf) forms(~top<N>(), zero);
	if (SP == WithNanInf) forms(top<N>() + 1, zero);
}
// powers of two whose reciprocal is in range
extern "C" void ob_inv_pow2__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	Num n = D(v);
	vp_assume(n.frac == 0 && -n.exp <= (maxexp<N, ES, SP>()) && -n.exp >= (minexp<N, ES, SP>()));
	P r = mkp(v).inv();
	n.exp = -n.exp;
	vp_assert(is(r, n), "power of two");
}
