#include "contracts.h"
#include "contracts_float.h"
extern "C" void ob_fromint__i(u64 a) { vp_assert(is(P((int)a), s_unfixed32<0>((int)a)), "from int"); }
extern "C" void ob_toint__p(u64 a)
{
	i64 v = legalpat(a);
	vp_assert((i64)(int)mkp(v) == s_tofixed<32, 0>(D(v)), "to int");
}
// the way back from the pattern of i, and of what it denotes when that is i itself
extern "C" void ob_int_exact__i(u64 a)
{
	int r = (int)P((int)a);
	vp_assert((i64)r == s_tofixed<32, 0>(D(E(s_unfixed32<0>((int)a)))), "to int of from int");
}
extern "C" void ob_lemma_int__i(u64 a)
{
	vp_assert((s_tofixed<32, 0>(s_unfixed32<0>((int)a))) == (i64)(int)a, "a 32-bit integer is its own truncation");
}
