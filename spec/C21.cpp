#include "utype.h"
#include "contracts_float.h"
// VQ signed words of TB bits, of which F are fraction bits
constexpr int TB = sizeof(VQ) * 8;
template <int F> using fx = fixedtrait<VQ, TB, F>;
// exponents outside the exponent type cannot be expressed
template <int F> static inline bool fits() { return TB - 1 - F <= ethi && -F >= etlo; }
template <int F> static void unpacks(u64 a)
{
	UT u = mku((a >> 9) & 3, (a >> 3) & 1, (i64)(a ^ 0x55), a ^ 0xaa); // whatever was there before
	UT &r = u.unpack_xfixed<fx<F>>((VQ)a);
	Num n = s_unfixed<F>((i64)(VQ)a);
	vp_assert(!fits<F>() || samecut(u, n), "number denoted");
	vp_assert(&r == &u, "returns itself");
	vp_assert(!fits<F>() || samecut(UT::make_fixed<fx<F>>((VQ)a), n), "made from the word");
}
template <int F> static void packs(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	vp_assert((i64)u.pack_xfixed<fx<F>>() == s_tofixed<TB, F>(num(u)), "truncated and clipped");
}
template <int F> static void thereback(u64 a)
{
	VQ x = (VQ)a;
	Num n = s_unfixed<F>((i64)x);
	vp_assume(n.cls != REG || W == 64 || (n.frac << (W & 63)) == 0);
	UT u;
	u.unpack_xfixed<fx<F>>(x);
	VQ y = u.pack_xfixed<fx<F>>();
	vp_assert(!fits<F>() || x == y, "there and back");
	vp_assert(!fits<F>() || (i64)y == s_tofixed<TB, F>(n), "denotes itself");
}
#define QFORMAT(F) \
extern "C" void ob_un##F##__i(u64 a) { unpacks<F>(a); } \
extern "C" void ob_to##F##__seu(u64 s, u64 e, u64 f) { packs<F>(s, e, f); } \
extern "C" void ob_rt##F##__i(u64 a) { thereback<F>(a); }
QFORMAT(0)
QFORMAT(1)
QFORMAT(4)
QFORMAT(7)
QFORMAT(8)
#if VQB >= 16
QFORMAT(15)
QFORMAT(16)
#endif
#if VQB >= 32
QFORMAT(24)
QFORMAT(31)
QFORMAT(32)
#endif
#if VQB >= 64
QFORMAT(47)
QFORMAT(63)
QFORMAT(64)
#endif
#if VQB == 32
extern "C" void ob_int__i(u64 a)
{
	UT u;
	Num n = s_unfixed<0>((i64)(int)a);
	vp_assert(samecut(UT((int)a), n) && samecut(u.unpack_int((int)a), n), "from int");
}
extern "C" void ob_toint__seu(u64 s, u64 e, u64 f)
{
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	int i = u;
	vp_assert((i64)i == s_tofixed<32, 0>(num(u)), "to int");
}
#endif
