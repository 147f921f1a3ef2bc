#include "contracts.h"
// exact product of the denoted numbers, truncated
static inline Num product(const UT &x, const UT &y)
{
	vp_assert((x.fraction & 1) == 0 && (y.fraction & 1) == 0, "the significands are whole in W bits");
	return mul_exact(x, y);
}
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isnum<N, SP>(v)));
	vp_assume((isnum<N, SP>(w)));
	UT x = denote(v), y = denote(w);
	P r = mkp(v) * mkp(w);
	Num n = product(x, y);
	vp_assert(is(r, n), "product");
}
extern "C" void ob_mul_assign__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isnum<N, SP>(v)));
	vp_assume((isnum<N, SP>(w)));
	UT x = denote(v), y = denote(w);
	Num n = product(x, y);
	P q = mkp(v);
	P &l = (q *= mkp(w));
	vp_assert(is(q, n) && &l == &q, "compound product");
}
extern "C" void ob_mul_zero__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isfin<N, SP>(v)));
	vp_assert((mkp(v) * mkp(0)).v == 0 && (mkp(0) * mkp(v)).v == 0, "zero");
	P q = mkp(v), z = mkp(0);
	q *= mkp(0);
	z *= mkp(v);
	vp_assert(q.v == 0 && z.v == 0, "compound zero");
}
