#include "contracts.h"
// order of the denoted values (neither is NaN)
static inline bool mlt(const Num &a, const Num &b) { return a.exp < b.exp || (a.exp == b.exp && a.frac < b.frac); }
static inline int rank(const Num &a) { return a.cls == INF ? (a.neg ? -2 : 2) : a.cls == ZERO ? 0 : a.neg ? -1 : 1; }
static inline bool lt(const Num &a, const Num &b)
{
	if (rank(a) != rank(b)) return rank(a) < rank(b);
	if (a.cls != REG) return false;
	return a.neg ? mlt(b, a) : mlt(a, b);
}
// patterns are ordered like the values they denote
extern "C" void ob_lemma_order__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume(!(isnan_<N, SP>(v)) && !(isnan_<N, SP>(w)));
	Num x = D(v), y = D(w);
	vp_assert((v < w) == lt(x, y), "order");
}
extern "C" void ob_compare__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	vp_assume(!(isnan_<N, SP>(v)) && !(isnan_<N, SP>(w)));
	const P x = mkp(v), y = mkp(w);
	vp_assert((x < y) == (v < w), "less");
	vp_assert((x <= y) == (v <= w), "less or equal");
	vp_assert((x > y) == (v > w), "greater");
	vp_assert((x >= y) == (v >= w), "greater or equal");
	vp_assert((x == y) == (v == w), "equal");
	vp_assert((x != y) == (v != w), "not equal");
}
extern "C" void ob_compare_nan__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	if (SP == WithInf) return;
	const P n = P::nan(), y = mkp(v);
	(void)w;
	vp_assert(!(n < y) && !(n <= y) && !(n > y) && !(n >= y) && !(n == y) && (n != y), "NaN on the left");
	vp_assert(!(y < n) && !(y <= n) && !(y > n) && !(y >= n) && !(y == n) && (y != n), "NaN on the right");
	vp_assert((isnan_<N, SP>((i64)n.v)), "the constant is NaN");
}
extern "C" void ob_minmax__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	P lo = std::min(mkp(v), mkp(w)), hi = std::max(mkp(v), mkp(w));
	vp_assert(((i64)lo.v == v || (i64)lo.v == w) && ((i64)hi.v == v || (i64)hi.v == w), "one of the operands");
	if (isnan_<N, SP>(v) || isnan_<N, SP>(w)) return;
	vp_assert((i64)lo.v <= v && (i64)lo.v <= w, "the smaller one");
	vp_assert((i64)hi.v >= v && (i64)hi.v >= w, "the larger one");
}
