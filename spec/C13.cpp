#include "contracts.h"
extern "C" void ob_half__p(u64 a)
{
	i64 v = legalpat(a);
	Num n = D(v);
	P r = mkp(v).half();
	if (n.cls != REG)
	{
		vp_assert((i64)r.v == v, "unchanged");
		return;
	}
	n.exp--;
	vp_assert(is(r, n), "half");
	vp_assert((isnum<N, SP>((i64)r.v)) && (r.v < 0) == (v < 0), "stays a number of its sign");
}
extern "C" void ob_twice__p(u64 a)
{
	i64 v = legalpat(a);
	Num n = D(v);
	P r = mkp(v).twice();
	if (n.cls != REG)
	{
		vp_assert((i64)r.v == v, "unchanged");
		return;
	}
	n.exp++;
	vp_assert(is(r, n), "twice");
	vp_assert((isnum<N, SP>((i64)r.v)) && (r.v < 0) == (v < 0), "stays a number of its sign");
}
