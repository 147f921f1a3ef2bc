#include "contracts.h"
LEMMA_POW2
// exact quotient of the denoted numbers, truncated to W+1 significant bits
static inline Num quotient(const UT &x, const UT &y)
{
	vp_assert((x.fraction & 3) == 0 && (y.fraction & 3) == 0, "the significands are whole in W bits, also halved");
	// Bd <= A < 2 Bd: the quotient of A 2^W by Bd has its leading one at bit W
	FT A = sig(x), B = sig(y), Bd = A < B ? (FT)(B >> 1) : B;
	vp_assert(Bd <= A && (WT)A < (WT)2 * Bd, "one leading bit");
	return div_exact(x, y);
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isnum<N, SP>(v)));
	vp_assume((isnum<N, SP>(w)));
	UT x = denote(v), y = denote(w);
	P r = mkp(v) / mkp(w);
	Num n = quotient(x, y);
	vp_assert(is(r, n), "quotient");
}
extern "C" void ob_div_assign__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume((isnum<N, SP>(v)));
	vp_assume((isnum<N, SP>(w)));
	UT x = denote(v), y = denote(w);
	Num n = quotient(x, y);
	P q = mkp(v);
	P &l = (q /= mkp(w));
	vp_assert(is(q, n) && &l == &q, "compound quotient");
}
extern "C" void ob_div_zero__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isnum<N, SP>(v)));
	P z = mkp(0);
	vp_assert((z / mkp(v)).v == 0, "zero over a number");
	z /= mkp(v);
	vp_assert(z.v == 0, "compound zero");
}
extern "C" void ob_div_one__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume((isfin<N, SP>(v)));
	P one = mkp((i64)1 << (N - 2)), q = mkp(v);
	vp_assert((i64)(q / one).v == v, "over one");
	q /= one;
	vp_assert((i64)q.v == v, "compound over one");
}
