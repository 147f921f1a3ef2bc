#include "contracts.h"
// patterns are ordered like values (C08) and finite patterns are consecutive, so the adjacent number is the adjacent pattern
extern "C" void ob_next__p(u64 a)
{
	i64 v = legalpat(a);
	i64 r = (i64)mkp(v).next().v;
	if (!isfin<N, SP>(v) || v == maxpos<N, SP>())
		vp_assert(r == v, "unchanged");
	else
		vp_assert(r == v + 1, "next");
}
extern "C" void ob_prev__p(u64 a)
{
	i64 v = legalpat(a);
	i64 r = (i64)mkp(v).prev().v;
	if (!isfin<N, SP>(v) || v == lowest<N, SP>())
		vp_assert(r == v, "unchanged");
	else
		vp_assert(r == v - 1, "prev");
}
extern "C" void ob_undo__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assume(v > lowest<N, SP>() && v < maxpos<N, SP>());
	vp_assert((i64)mkp(v).next().prev().v == v && (i64)mkp(v).prev().next().v == v, "undo");
}
