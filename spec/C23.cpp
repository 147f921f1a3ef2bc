// Compiled with the undefined-behaviour traps on: every trap must be unreachable.  Nothing else is asserted; contracts
// are not used, so every body is looked at with the operands that can reach it.
#include "posit_common.h"
#include "ieee.h"
typedef P::UnpackedLow PL;
typedef P::PT::POSIT_UTYPE PU;
static volatile u64 vp_sink;
template <class T> static inline void use(T x) { vp_sink = (u64)x; }
static inline void use(const P &p) { vp_sink = (u64)p.v; }
static inline void use(const UT &u) { vp_sink = (u64)u.type; }
static inline P lp(u64 a) { return mkp(legalpat(a)); }
#define UN(name, ex) extern "C" void ob_##name##__p(u64 a) { P p = lp(a); use(ex); }
#define BIN(name, ex) extern "C" void ob_##name##__pp(u64 a, u64 b) { P p = lp(a), q = lp(b); use(ex); }
UN(unpack, p.unpack())
UN(unpack_low, p.unpack_low().regime)
UN(roundtrip, P(p.unpack()))
UN(roundtrip_low, P(p.unpack_low()))
UN(low2full, P::unpacked_low2full(p.unpack_low()))
UN(full2low, P::unpacked_full2low(p.unpack()).regime)
UN(neg, p.neg())
UN(minus, -p)
UN(negfree, neg(p))
UN(abs, p.abs())
UN(stdabs, std::abs(p))
UN(next, p.next())
UN(prev, p.prev())
UN(half, p.half())
UN(twice, p.twice())
UN(inv, p.inv())
UN(tilde, ~p)
UN(invfree, inv(p))
UN(sigmoid, p.pseudosigmoid())
UN(softplus, p.pseudosoftplus())
UN(oneminus, p.urOneMinus())
UN(deltaps, p.urDeltaPs())
UN(unit, p.isUnitRange())
UN(tofloatbits, p.as_float_bin())
UN(toint, (int)p)
BIN(add, p + q)
BIN(sub, p - q)
BIN(mul, p * q)
BIN(div, p / q)
BIN(addassign, p += q)
BIN(mulassign, p *= q)
BIN(divassign, p /= q)
BIN(less, (p < q) + (p <= q) + (p > q) + (p >= q) + (p == q) + (p != q))
BIN(min, std::min(p, q))
BIN(max, std::max(p, q))
extern "C" void ob_fma__ppp(u64 a, u64 b, u64 c) { use(fma(lp(a), lp(b), lp(c))); }
extern "C" void ob_tofloat__p(u64 a)
{
	union { uint32_t i; float f; } x;
	x.f = (float)lp(a);
	use(x.i);
}
extern "C" void ob_todouble__p(u64 a)
{
	union { u64 i; double f; } x;
	x.f = (double)lp(a);
	use(x.i);
}
extern "C" void ob_fromfloat__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	use(P(x.f));
}
extern "C" void ob_fromfloatbits__f(u64 a) { use(P(P::single_tag(), (uint32_t)a)); }
extern "C" void ob_fromdouble__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	use(P(x.f));
}
extern "C" void ob_fromint__i(u64 a) { use(P((int)a)); }
extern "C" void ob_limits()
{
	use(std::numeric_limits<P>::epsilon());
	use(std::numeric_limits<P>::max());
	use(std::numeric_limits<P>::min());
	use(std::numeric_limits<P>::lowest());
	use(std::numeric_limits<P>::infinity());
	use(std::numeric_limits<P>::quiet_NaN());
	use(std::numeric_limits<P>::denorm_min());
}
//---------------------------------------------------------------- unpacked numbers: any class and fraction
#define UUN(name, ex) extern "C" void ob_u##name##__seu(u64 s, u64 e, u64 f) { UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f); use(ex); }
// exponents away from the ends of their type
#define UAR(name, ex) extern "C" void ob_u##name##__seu(u64 s, u64 e, u64 f) { UT u = anya(s, e, f); use(ex); }
#define UBIN(name, ex) extern "C" void ob_u##name##__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2) { UT u = anyu(s, e, f), w = anyu(s2, e2, f2); use(ex); }
UUN(pack, P(u))
UUN(full2low, P::unpacked_full2low(u).regime)
UUN(minus, -u)
UUN(toint, (int)u)
typedef fixedtrait<int64_t, 64, 31> fx64;
typedef fixedtrait<int16_t, 16, 15> fx16;
typedef fixedtrait<int8_t, 8, 0> fx8;
UUN(tofx64, u.pack_xfixed<fx64>())
UUN(tofx16, u.pack_xfixed<fx16>())
UUN(tofx8, u.pack_xfixed<fx8>())
UAR(tof32, u.pack_xfloati<single_trait>())
UAR(tof64, u.pack_xfloati<double_trait>())
UAR(tof16, u.pack_xfloati<half_trait>())
UAR(inv, u.inv())
UBIN(add, u + w)
UBIN(sub, u - w)
UBIN(mul, u * w)
UBIN(div, u / w)
extern "C" void ob_unf16__u(u64 a) { UT u = mku(0, 0, 0, 0); use(u.unpack_xfloati<half_trait>((uint16_t)a)); }
extern "C" void ob_unfx64__u(u64 a) { UT u = mku(0, 0, 0, 0); use(u.unpack_xfixed<fx64>((int64_t)a)); }
extern "C" void ob_unfx16__u(u64 a) { UT u = mku(0, 0, 0, 0); use(u.unpack_xfixed<fx16>((int16_t)a)); }
extern "C" void ob_unfx8__u(u64 a) { UT u = mku(0, 0, 0, 0); use(u.unpack_xfixed<fx8>((int8_t)a)); }
// regime, exponent bits and fraction of a number in the format
extern "C" void ob_packlow__seu(u64 s, u64 e, u64 f)
{
	PL l((UT::Type)(s & 3), (s >> 2) & 1);
	l.regime = (VT)e;
	l.exp = (PU)((f >> 32) & (((u64)1 << ES) - 1));
	l.fraction = (PU)(f * 0x9e3779b97f4a7c15ull);
	vp_assume(l.regime >= -(N - 2) && l.regime <= N - 2);
	use(P(l));
	use(P::unpacked_low2full(l));
}
