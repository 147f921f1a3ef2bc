#include "faithful.h"
LEMMA_FAITHFUL
#define NUMS \
	i64 v = legalpat(a), w = legalpat(b); \
	vp_assume((isnum<N, SP>(v))); \
	vp_assume((isnum<N, SP>(w))); \
	UT x = denote(v), y = denote(w);
extern "C" void ob_add__pp(u64 a, u64 b)
{
	NUMS
	faithful(mkp(v) + mkp(w), x, y, "sum");
}
extern "C" void ob_addassign__pp(u64 a, u64 b)
{
	NUMS
	(void)x, (void)y;
	P q = mkp(v), s = mkp(v) + mkp(w);
	P &l = (q += mkp(w));
	vp_assert(q.v == s.v && &l == &q, "compound sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	P d = mkp(v) - mkp(w), s = mkp(v) + mkp(w == top<N>() ? w : -w);
	vp_assert(d.v == s.v, "difference is the sum with the negative");
}
extern "C" void ob_commutes__pp(u64 a, u64 b)
{
	i64 v = legalpat(a), w = legalpat(b);
	UT x = denote(v), y = denote(w);
	vp_assume(samesum(s_add(x, y), s_add(y, x))); // ob_lemma_sum_commutes
	P s = mkp(v) + mkp(w), t = mkp(w) + mkp(v);
	vp_assert(s.v == t.v, "commutes");
}
extern "C" void ob_add_zero__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((i64)(mkp(v) + mkp(0)).v == v && (i64)(mkp(0) + mkp(v)).v == v, "plus zero");
	vp_assert((i64)(mkp(v) - mkp(0)).v == v, "minus zero");
	vp_assert((i64)(mkp(0) - mkp(v)).v == (v == top<N>() ? v : -v), "zero minus");
	P q = mkp(v), z = mkp(0);
	q += mkp(0);
	z += mkp(v);
	vp_assert((i64)q.v == v && (i64)z.v == v, "compound zero");
}
static inline void subself(i64 v)
{
	vp_assume((isnum<N, SP>(v)));
	UT x = denote(v), y = x;
	y.negativeSign = !x.negativeSign;
	vp_assume(add_cut(x, y).cls == ZERO); // ob_lemma_sum_cancels
	vp_assert((mkp(v) - mkp(v)).v == 0, "x - x");
}
extern "C" void ob_sub_self_pos__p(u64 a)
{
	vp_assume(legalpat(a) > 0);
	subself(legalpat(a));
}
extern "C" void ob_sub_self_neg__p(u64 a)
{
	vp_assume(legalpat(a) < 0);
	subself(legalpat(a));
}
extern "C" void ob_sub_self_zero() { vp_assert((mkp(0) - mkp(0)).v == 0, "0 - 0"); }
