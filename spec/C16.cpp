#include "faithful.h"
LEMMA_FAITHFUL
#define NUMS \
	i64 v = legalpat(a), w = legalpat(b), z = legalpat(c); \
	vp_assume((isnum<N, SP>(v))); \
	vp_assume((isnum<N, SP>(w))); \
	vp_assume((isnum<N, SP>(z))); \
	UT x = denote(v), y = denote(w), t = denote(z);
// the product is never cut to posit precision: all but the two lowest of the W fraction bits are those of the exact one
extern "C" void ob_fma__ppp(u64 a, u64 b, u64 c)
{
	NUMS
	UT q = x * y;
	Num m = mul_exact(x, y);
	vp_assert(q.type == UT::Regular && q.negativeSign == m.neg && (i64)q.exponent == m.exp &&
	          lo2((u64)q.fraction, m.frac >> (64 - W)), "product");
	vp_assert(is(fma(mkp(v), mkp(w), mkp(z)), add_cut(q, t)), "packed sum of the product and the addend");
}
// significands as wide as a posit's, W >= 2N: the product has them all, with room for a faithful sum
extern "C" void ob_lemma_whole__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	if (W < 2 * N) return;
	UT x = mku(REG, s & 1, (i64)(int)e, (f & FMASK) >> (64 - W)), y = mku(REG, s2 & 1, (i64)(int)e2, (f2 & FMASK) >> (64 - W));
	WT p = (WT)sig(x) * (WT)sig(y);
	bool hi = (p >> (2 * W - 1)) & 1;
	vp_assert((p & (((WT)1 << (hi ? W - 1 : W - 2)) - 1)) == 0, "no bit of the product is lost");
	vp_assert((mul_exact_(x, y).frac & ~(~(u64)0 << (64 - W + 3))) == 0, "and three are to spare");
}
extern "C" void ob_fma_faithful__ppp(u64 a, u64 b, u64 c)
{
	NUMS
	if (W < 2 * N) return;
	Num m = mul_exact(x, y);
	vp_assert((x.fraction & ~(FT)(FMASK >> (64 - W))) == 0 && (y.fraction & ~(FT)(FMASK >> (64 - W))) == 0, "operands");
	vp_assume((m.frac & ~(~(u64)0 << (64 - W + 3))) == 0); // ob_lemma_whole
	UT q = mku(REG, m.neg, m.exp, m.frac >> (64 - W)); // the exact product
	faithful(fma(mkp(v), mkp(w), mkp(z)), q, t, "multiply-add");
}
extern "C" void ob_fma_zero_addend__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assert(fma(mkp(v), mkp(w), mkp(0)).v == (mkp(v) * mkp(w)).v, "zero addend");
}
extern "C" void ob_fma_zero_factor__pp(u64 a, u64 c)
{
	i64 v = legalpat(a), z = legalpat(c);
	vp_assume((isfin<N, SP>(v)));
	vp_assert((i64)fma(mkp(v), mkp(0), mkp(z)).v == z && (i64)fma(mkp(0), mkp(v), mkp(z)).v == z, "zero factor");
}
extern "C" void ob_fma_one__pp(u64 b, u64 c)
{
	i64 w = legalpat(b), z = legalpat(c);
	vp_assume(w != 0 && z != 0);
	const P one = mkp((i64)1 << (N - 2));
	vp_assert(fma(one, mkp(w), mkp(z)).v == (mkp(w) + mkp(z)).v, "one as the first factor");
	vp_assert(fma(mkp(w), one, mkp(z)).v == (mkp(w) + mkp(z)).v, "one as the second factor");
}
