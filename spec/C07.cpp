#include "contracts.h"
static inline void neg_ok(const P &r, i64 v)
{
	Num n = D(v), m = D((i64)r.v);
	vp_assert(legal<N>((i64)r.v), "legal");
	vp_assert(m.cls == n.cls, "class");
	vp_assert(n.cls != REG || (m.exp == n.exp && m.frac == n.frac && m.neg != n.neg), "minus the value");
	vp_assert(!(n.cls == INF && SP == WithNanInf) || m.neg != n.neg, "the other infinity");
}
static inline void abs_ok(const P &r, i64 v)
{
	Num n = D(v), m = D((i64)r.v);
	vp_assert(legal<N>((i64)r.v), "legal");
	vp_assert(m.cls == n.cls, "class");
	vp_assert(n.cls != REG || (m.exp == n.exp && m.frac == n.frac && !m.neg), "magnitude");
	vp_assert(!(n.cls == INF && SP == WithNanInf) || !m.neg, "positive infinity");
}
extern "C" void ob_neg__p(u64 a)
{
	i64 v = legalpat(a);
	neg_ok(mkp(v).neg(), v);
}
extern "C" void ob_minus__p(u64 a)
{
	i64 v = legalpat(a);
	neg_ok(-mkp(v), v);
}
extern "C" void ob_free_neg__p(u64 a)
{
	i64 v = legalpat(a);
	neg_ok(neg(mkp(v)), v);
}
extern "C" void ob_involution__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((i64)mkp(v).neg().neg().v == v && (i64)(-(-mkp(v))).v == v, "twice is the identity");
}
extern "C" void ob_abs__p(u64 a)
{
	i64 v = legalpat(a);
	abs_ok(mkp(v).abs(), v);
}
extern "C" void ob_std_abs__p(u64 a)
{
	i64 v = legalpat(a);
	abs_ok(std::abs(mkp(v)), v);
}
