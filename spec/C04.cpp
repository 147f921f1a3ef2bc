#include "contracts.h"
#include "contracts_float.h"
extern "C" void ob_float__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	vp_assert(is(P(x.f), s_unfloat<23, 8, true>(x.i)), "from float");
}
extern "C" void ob_floatbits__f(u64 a)
{
	uint32_t b = (uint32_t)a;
	vp_assert(is(P(P::single_tag(), b), s_unfloat<23, 8, true>(b)), "from float bits");
}
extern "C" void ob_double__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert(is(P(x.f), s_unfloat<52, 11, true>(a)), "from double");
}
