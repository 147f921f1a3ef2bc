#include "contracts.h"
static inline void check(const UT &u, const Num &n)
{
	vp_assert((int)u.type == n.cls, "class");
	vp_assert(n.cls == NANC || u.negativeSign == n.neg, "sign");
	vp_assert(n.cls != REG || (i64)u.exponent == n.exp, "exponent");
	vp_assert(n.cls != REG || ((u64)u.fraction << (64 - W)) == n.frac, "fraction");
}
extern "C" void ob_unpack__p(u64 a)
{
	i64 v = legalpat(a);
	check(mkp(v).unpack(), D(v));
}
extern "C" void ob_convert__p(u64 a)
{
	i64 v = legalpat(a);
	UT u = mkp(v);
	check(u, D(v));
}
// regime, exponent and fraction fields, as they stand in the word
extern "C" void ob_unpack_low__p(u64 a)
{
	i64 v = legalpat(a);
	Num n = D(v);
	P::UnpackedLow q = mkp(v).unpack_low();
	vp_assert((int)q.type == n.cls, "class");
	vp_assert(n.cls == NANC || q.negativeSign == n.neg, "sign");
	vp_assert(n.cls != REG || ((i64)q.regime * ((i64)1 << ES) + (i64)q.exp == n.exp && (u64)q.exp < (u64)1 << ES), "regime and exponent");
	vp_assert(n.cls != REG || ((u64)q.fraction << (64 - 8 * sizeof(VT))) == n.frac, "fraction");
}
extern "C" void ob_analyze__p(u64 a)
{
	i64 v = legalpat(a);
	Num n = D(v);
	P p = mkp(v);
	P::info i = p.analyze();
	vp_assert(i.infinity == (n.cls == INF) && i.nan == (n.cls == NANC), "class");
	vp_assert(n.cls != REG || (i.sign == n.neg && (i64)i.exponent == n.exp), "sign and exponent");
	vp_assert(n.cls != REG || ((i64)i.k * ((i64)1 << ES) + i.exp == n.exp && i.exp >= 0 && i.exp < 1 << ES), "fields");
	vp_assert(n.cls != REG || ((u64)i.ifraction << (64 - W)) == n.frac, "fraction");
	vp_assert(n.cls != REG || (i.rs + i.es + i.fs + 1 == N && i.es >= 0 && i.es <= ES && i.fs >= 0), "field sizes");
}
extern "C" void ob_predicates__p(u64 a)
{
	i64 v = legalpat(a);
	Num n = D(v);
	P p = mkp(v);
	vp_assert(p.isNaN() == (n.cls == NANC), "isNaN");
	vp_assert(p.isinfinity() == (n.cls == INF), "isinfinity");
	vp_assert(p.iszero() == (n.cls == ZERO), "iszero");
	vp_assert(p.isone() == (n.cls == REG && !n.neg && n.exp == 0 && n.frac == 0), "isone");
	vp_assert(n.cls != REG || p.isnegative() == n.neg, "isnegative");
	vp_assert(p.hasNaN() == (SP != WithInf), "hasNaN");
}
