#include "contracts.h"
#define OPS(cond) \
	i64 v = legalpat(a), w = legalpat(b); \
	vp_assume(cond); \
	UT x = denote(v), y = denote(w);
#define SPECIAL (!isnum<N, SP>(v) || !isnum<N, SP>(w))
#define NOTFIN (!isfin<N, SP>(v) || !isfin<N, SP>(w)) // sums with zero are in C11
extern "C" void ob_add__pp(u64 a, u64 b)
{
	OPS(NOTFIN)
	vp_assert(is(mkp(v) + mkp(w), add_special(x, y)), "sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	OPS(NOTFIN)
	// an unsigned infinity is its own negative
	if (!(SP == WithInf && w == top<N>())) y.negativeSign = !y.negativeSign;
	vp_assert(is(mkp(v) - mkp(w), add_special(x, y)), "difference");
}
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	OPS(SPECIAL)
	vp_assert(is(mkp(v) * mkp(w), mul_special(x, y)), "product");
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	OPS(SPECIAL)
	vp_assert(is(mkp(v) / mkp(w), div_special(x, y)), "quotient");
}
extern "C" void ob_fma__ppp(u64 a, u64 b, u64 c)
{
	i64 v = legalpat(a), w = legalpat(b), z = legalpat(c);
	vp_assume(!isfin<N, SP>(v) || !isfin<N, SP>(w) || !isfin<N, SP>(z)); // finite ones are in C16
	UT x = denote(v), y = denote(w), u = denote(z);
	P r = fma(mkp(v), mkp(w), mkp(z));
	bool reg = x.type == UT::Regular && y.type == UT::Regular;
	Num p = reg ? Num{REG, x.negativeSign != y.negativeSign, 0, 0} : mul_special(x, y);
	UT q = mku(p.cls, p.neg, 0, 0);
	vp_assert(is(r, add_special(q, u)), "multiply-add");
}
// division by zero apart, numbers give numbers
#define FIN(name, cond, ex) \
extern "C" void ob_finite_##name##__pp(u64 a, u64 b) \
{ \
	i64 v = legalpat(a), w = legalpat(b); \
	vp_assume((isfin<N, SP>(v)) && (isfin<N, SP>(w))); \
	vp_assume(cond); \
	vp_assert((isfin<N, SP>((i64)(ex).v)), #name); \
}
FIN(sum, true, mkp(v) + mkp(w))
FIN(difference, true, mkp(v) - mkp(w))
FIN(product, true, mkp(v) * mkp(w))
FIN(quotient, w != 0, mkp(v) / mkp(w))
extern "C" void ob_finite_fma__ppp(u64 a, u64 b, u64 c)
{
	i64 v = legalpat(a), w = legalpat(b), z = legalpat(c);
	vp_assume((isfin<N, SP>(v)) && (isfin<N, SP>(w)) && (isfin<N, SP>(z)));
	vp_assert((isfin<N, SP>((i64)fma(mkp(v), mkp(w), mkp(z)).v)), "multiply-add");
}
extern "C" void ob_predicates__p(u64 a)
{
	i64 v = legalpat(a);
	const P p = mkp(v);
	vp_assert(p.isNaN() == (isnan_<N, SP>(v)), "isNaN");
	vp_assert(p.isinfinity() == (isinf_<N, SP>(v)), "isinfinity");
	vp_assert(p.iszero() == (v == 0), "iszero");
	vp_assert(p.isone() == (v == (i64)1 << (N - 2)), "isone");
	vp_assert(p.isnegative() == (v < 0), "isnegative");
	vp_assert(p.hasNaN() == (SP != WithInf), "hasNaN");
}
