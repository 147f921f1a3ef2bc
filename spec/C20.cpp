#include "utype.h"
#include "contracts_unpacked.h"
// products, quotients, reciprocals and sums: the contracts (ob_ct_*) are the statement; what they say in numbers is below
static inline UT reg(u64 s, u64 e, u64 f) { return anyu((s & 1) << 2, e, f); }
static inline UT rega(u64 s, u64 e, u64 f) { return anya((s & 1) << 2, e, f); }
LEMMA_POW2

#if VW <= 16
// (2^W + fa)(2^W + fb) 2^(ea+eb-2W) cut to W fraction bits, the operands' lowest bit being zero
extern "C" void ob_fact_mul__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = reg(s, e, f & ~(u64)1), b = reg(s2, e2, f2 & ~(u64)1);
	Num n = mul_exact(a, b);
	u64 p = (((u64)1 << W) + a.fraction) * (((u64)1 << W) + b.fraction); // unit 2^(ea+eb-2W)
	u64 r = ((u64)1 << W) + (n.frac >> (64 - W));                         // unit 2^(n.exp-W)
	i64 k = n.exp - ((i64)a.exponent + (i64)b.exponent);
	vp_assert(k == 0 || k == 1, "exponent");
	vp_assert(p >> ((W + k) & 63) == r, "truncated product");
	vp_assert(n.neg == (a.negativeSign != b.negativeSign), "sign");
}
#endif
#if VW <= 8
extern "C" void ob_fact_div__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	// the divisor is halved when larger: two spare bits
	UT a = reg(s, e, f & ~(u64)1), b = reg(s2, e2, f2 & ~(u64)3);
	Num n = div_exact(a, b);
	u64 A = ((u64)1 << W) + a.fraction, B = ((u64)1 << W) + b.fraction;
	u64 r = ((u64)1 << W) + (n.frac >> (64 - W)); // unit 2^(n.exp-W)
	i64 k = ((i64)a.exponent - (i64)b.exponent) - n.exp;
	vp_assert(k == 0 || k == 1, "exponent");
	u64 t = A << ((W + k) & 63);
	vp_assert(r * B <= t && t < r * B + B, "truncated quotient");
	vp_assert(n.neg == (a.negativeSign != b.negativeSign), "sign");
}
#endif
#if VW <= VFACT
// the sum differs from the exact one by less than four units of the larger operand's fraction; never larger when the signs agree
extern "C" void ob_fact_add__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = rega(s, e, f & ~(u64)3), b = rega(s2, e2, f2 & ~(u64)3);
	vp_assume(a.exponent >= b.exponent);
	i64 d = (i64)a.exponent - (i64)b.exponent;
	Num n = add_cut(a, b);
	i128 A = ((i128)1 << W) + a.fraction, B = ((i128)1 << W) + b.fraction, U = (i128)1 << (2 * W); // unit 2^(ea-3W)
	A *= U;
	i128 lowB = d > 2 * W ? 0 : (B * U) >> (int)(d > 2 * W ? 0 : d), upB = d == 0 || d <= 2 * W && ((B * U) & (((i128)1 << (int)d) - 1)) == 0 ? lowB : lowB + 1;
	i64 k = n.exp - (i64)a.exponent + 2 * W;
	i128 R = n.cls == ZERO ? 0 : (((i128)1 << W) + (n.frac >> (64 - W))) << (int)(n.cls == ZERO ? 0 : k);
	vp_assert(n.cls == ZERO || (n.cls == REG && k >= 0 && k <= 2 * W + 1), "range");
	i128 eps = 4 * U;
	if (a.negativeSign == b.negativeSign)
		vp_assert(n.cls == REG && n.neg == a.negativeSign && R <= A + lowB && A + upB < R + eps, "truncated sum");
	else
	{
		i128 S = n.neg == a.negativeSign || n.cls == ZERO ? R : -R; // sign relative to a
		vp_assert(S <= A - lowB + eps && A - upB <= S + eps, "difference");
	}
}
#endif
extern "C" void ob_add_commutes__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya(s, e, f), b = anya(s2, e2, f2), x = a + b, y = b + a;
	vp_assert(x.type == y.type && (x.type != UT::Regular || (x.exponent == y.exponent && x.fraction == y.fraction)) &&
	          (x.type == UT::NaN || x.negativeSign == y.negativeSign), "sum commutes");
}
static inline bool sameu(const UT &x, const UT &y)
{
	return x.type == y.type && (x.type == UT::NaN || x.negativeSign == y.negativeSign) &&
	       (x.type != UT::Regular || (x.exponent == y.exponent && x.fraction == y.fraction));
}
// differences and compound forms in terms of the sum and the negative (both specified)
extern "C" void ob_sub__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya(s, e, f), b = anya(s2, e2, f2);
	vp_assert(sameu(a - b, a + (-b)), "difference is the sum with the negative");
	UT x = a, y = a;
	UT &x1 = x += b, &y1 = y -= b;
	vp_assert(sameu(x, a + b), "compound sum");
	vp_assert(sameu(y, a + (-b)), "compound difference");
	vp_assert(&x1 == &x && &y1 == &y, "returns itself");
}
// negation, equality, classes, constants
extern "C" void ob_neg__seu(u64 s, u64 e, u64 f)
{
	UT a = anyu(s, e, f), m = -a;
	vp_assert((int)m.type == (int)a.type, "same class");
	vp_assert((a.type != UT::Regular && a.type != UT::Infinity) || m.negativeSign == !a.negativeSign, "sign flipped");
	vp_assert(a.type != UT::Zero || !m.negativeSign, "zero has no sign");
	vp_assert(a.type != UT::Regular || (m.exponent == a.exponent && m.fraction == a.fraction), "magnitude kept");
	vp_assert(sameu(-m, a), "own inverse");
}
extern "C" void ob_equal__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya(s, e, f), b = anya(s2, e2, f2);
	bool eq = a.type != UT::NaN && b.type != UT::NaN && sameu(a, b);
	vp_assert((a == b) == eq, "equality");
	vp_assert((a != b) == !eq, "inequality");
	vp_assert((a == b) == (b == a), "symmetric");
}
extern "C" void ob_class__seu(u64 s, u64 e, u64 f)
{
	UT a = anyu(s, e, f);
	vp_assert(a.isRegular() == (a.type == UT::Regular) && a.isInfinity() == (a.type == UT::Infinity) && a.isNaN() == (a.type == UT::NaN) && a.isZero() == (a.type == UT::Zero), "classes");
	vp_assert(a.isPositive() == !a.negativeSign, "sign");
}
extern "C" void ob_const()
{
	vp_assert(same(UT::one(), num(oneu())), "one");
	vp_assert(same(UT::zero(), special(ZERO, false)), "zero");
	vp_assert(UT::nan().type == UT::NaN, "NaN");
	vp_assert(same(UT::infinity(), special(INF, false)) && same(UT::pinfinity(), special(INF, false)) && same(UT::ninfinity(), special(INF, true)), "infinities");
	UT u;
	vp_assert(u.type == UT::Regular && !u.negativeSign && u.exponent == 0 && u.fraction == 0, "default is one");
}
extern "C" void ob_normalized__seu(u64 s, u64 e, u64 f)
{
	UT a = rega(s, e, f);
	Num n = norm(a.negativeSign, (i64)a.exponent, a.fraction);
	n.exp = (ET)n.exp;
	vp_assert(same(a.normalized(), n), "normalised");
}
// identities users rely on
extern "C" void ob_units__seu(u64 s, u64 e, u64 f)
{
	UT a = anyu(s, e, f & ~(u64)3);
	if (a.type == UT::Regular || a.type == UT::Zero)
	{
		vp_assert(sameu(a + UT::zero(), a) && sameu(UT::zero() + a, a), "zero is neutral");
		vp_assert(sameu(a * UT::one(), a) && sameu(UT::one() * a, a), "one is neutral");
		vp_assert(sameu(a / UT::one(), a), "quotient by one");
	}
	if (a.type == UT::Regular) vp_assert((a - a).type == UT::Zero, "x - x");
}
