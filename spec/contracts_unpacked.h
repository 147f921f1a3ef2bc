// Contracts of the functions posit operations are built from.  ct_X is what a
// caller may assume of X (executed in place of X), ob_ct_X proves that X's body
// meets it, bind_X names the function of the library that the contract is for.
#pragma once
#include "unpacked_common.h"

// operands of products, quotients and reciprocals: where they come from posits the lowest fraction bits are zero
#ifndef VP_LOWBITS
#define VP_LOWBITS 0
#endif
static inline bool mulop(const UT &u) { return canon(u) && (u.type != UT::Regular || (u.fraction & (FT)VP_LOWBITS) == 0); }
static inline UT anym(u64 s, u64 e, u64 f) { return anyu(s, e, f & ~(u64)VP_LOWBITS); }
// fields without meaning are unknown
static inline UT make(const Num &n)
{
	UT u;
	u.type = (UT::Type)n.cls;
	u.negativeSign = n.cls == NANC ? (bool)(vp_nondet64() & 1) : n.neg;
	u.exponent = n.cls == REG ? (ET)n.exp : (ET)vp_nondet64();
	u.fraction = n.cls == REG ? (FT)(n.frac >> (64 - W)) : (FT)vp_nondet64();
	return u;
}

//---------------------------------------------------------------- unpacked arithmetic, spelled out
template <int B> struct wide {};
template <> struct wide<8> { typedef uint32_t t; };
template <> struct wide<16> { typedef uint32_t t; };
template <> struct wide<32> { typedef u64 t; };
template <> struct wide<64> { typedef u128 t; };
typedef wide<W>::t WT;
constexpr FT MSB = (FT)((FT)1 << (W - 1));

static inline FT sig(const UT &a) { return (FT)(MSB | (FT)(a.fraction >> 1)); } // 1.f in W bits, the lowest fraction bit is dropped
static inline Num regular(bool neg, i64 e, FT f) { return Num{REG, neg, e, (u64)f << (64 - W)}; }
static inline Num special(int cls, bool neg) { return Num{cls, neg, 0, 0}; }

// class and sign of a sum, product, quotient when an operand is not regular
static inline Num add_special(const UT &a, const UT &b)
{
	if (a.type == UT::NaN || b.type == UT::NaN) return special(NANC, false);
	if (a.type == UT::Infinity && b.type == UT::Infinity)
		return a.negativeSign == b.negativeSign ? special(INF, a.negativeSign) : special(NANC, false);
	if (a.type == UT::Infinity) return special(INF, a.negativeSign);
	if (b.type == UT::Infinity) return special(INF, b.negativeSign);
	if (a.type == UT::Zero) return num(b);
	return num(a);
}
static inline Num mul_special(const UT &a, const UT &b)
{
	if (a.type == UT::NaN || b.type == UT::NaN) return special(NANC, false);
	bool i = a.type == UT::Infinity || b.type == UT::Infinity, z = a.type == UT::Zero || b.type == UT::Zero;
	if (i && z) return special(NANC, false);
	if (i) return special(INF, a.negativeSign != b.negativeSign);
	return special(ZERO, false);
}
static inline Num div_special(const UT &a, const UT &b)
{
	if (a.type == UT::NaN || b.type == UT::NaN) return special(NANC, false);
	if (a.type == UT::Infinity && b.type == UT::Infinity) return special(NANC, false);
	if (a.type == UT::Zero && b.type == UT::Zero) return special(NANC, false);
	// an infinity or a number over zero is an infinity of its own sign (zero has none)
	if (a.type == UT::Infinity) return special(INF, b.type == UT::Zero ? a.negativeSign : a.negativeSign != b.negativeSign);
	if (b.type == UT::Zero) return special(INF, a.negativeSign);
	return special(ZERO, false);
}

// the exact product of the two W-bit significands, normalised, cut to W fraction bits
static inline Num mul_exact_(const UT &a, const UT &b)
{
	WT p = (WT)sig(a) * (WT)sig(b); // in [2^(2W-2), 2^2W)
	bool hi = (p >> (2 * W - 1)) & 1;
	FT f = (FT)(hi ? p >> (W - 1) : p >> (W - 2)); // the leading one falls off
	return regular(a.negativeSign != b.negativeSign, (i64)a.exponent + (i64)b.exponent + (hi ? 1 : 0), f);
}
static inline Num mul_exact(const UT &a, const UT &b) { return mul_exact_(a, b); }
static inline Num s_mul(const UT &a, const UT &b)
{
	return a.type == UT::Regular && b.type == UT::Regular ? mul_exact(a, b) : mul_special(a, b);
}
// floor(A 2^W / B), B halved when A < B so that the quotient has W+1 bits
static inline Num div_quot_(const UT &a, const UT &b)
{
	FT A = sig(a), B = sig(b);
	bool lt = A < B;
	FT Bd = lt ? (FT)(B >> 1) : B;
	WT q = ((WT)A << W) / Bd;
	return regular(a.negativeSign != b.negativeSign, (i64)a.exponent - (i64)b.exponent - (lt ? 1 : 0), (FT)q);
}
static inline Num div_quot(const UT &a, const UT &b) { return div_quot_(a, b); }
// the same, with the quotient by a power of two spelled out (ob_lemma_pow2)
static inline Num div_exact(const UT &a, const UT &b)
{
	if ((b.fraction >> 1) == 0)
		return regular(a.negativeSign != b.negativeSign, (i64)a.exponent - (i64)b.exponent, (FT)(sig(a) << 1));
	return div_quot(a, b);
}
static inline bool samenum(const Num &a, const Num &b) { return a.cls == b.cls && a.neg == b.neg && a.exp == b.exp && a.frac == b.frac; }
#define LEMMA_POW2 \
extern "C" void ob_lemma_pow2__seuse(u64 s, u64 e, u64 f, u64 s2, u64 e2) \
{ \
	UT a = anyu((s & 1) << 2, e, f), b = anyu((s2 & 1) << 2, e2, (s2 >> 1) & 1), c = b; \
	c.fraction = 0; \
	vp_assert(sig(b) == sig(c), "lowest bit"); \
	vp_assert(samenum(div_quot(a, c), div_exact(a, c)), "quotient by a power of two"); \
}
static inline Num s_div(const UT &a, const UT &b)
{
	return a.type == UT::Regular && b.type == UT::Regular ? div_exact(a, b) : div_special(a, b);
}
static inline UT oneu() { return mku(REG, false, 0, 0); }
static inline Num s_inv(const UT &a)
{
	if (a.type == UT::Regular) return div_exact(oneu(), a);
	if (a.type == UT::Infinity) return special(ZERO, false);
	if (a.type == UT::Zero) return special(INF, false);
	return special(NANC, false);
}
// position of the leading one from the left (0 is the top bit)
static inline int lead(FT x) { return x == 0 ? W : __builtin_clzll((u64)x) - (64 - W); }
// significands aligned to the larger exponent with the smaller one cut, added, normalised
struct Aligned
{
	FT a, b;
	i64 e; // weight of the top bit
};
static inline Aligned align_(const UT &a, const UT &b)
{
	FT A = (FT)((MSB >> 1) | (a.fraction >> 2)), B = (FT)((MSB >> 1) | (b.fraction >> 2));
	i64 d = (i64)a.exponent - (i64)b.exponent;
	Aligned r;
	r.a = d >= 0 ? A : -d < W ? (FT)(A >> -d) : (FT)0;
	r.b = d <= 0 ? B : d < W ? (FT)(B >> d) : (FT)0;
	r.e = (d >= 0 ? (i64)a.exponent : (i64)b.exponent) + 1;
	return r;
}
static inline Aligned align(const UT &a, const UT &b) { return align_(a, b); }
static inline Num norm_(bool neg, i64 e, FT f)
{
	if (f == 0) return special(ZERO, false);
	int k = lead(f);
	return regular(neg, e - k, k + 1 < W ? (FT)(f << (k + 1)) : (FT)0);
}
static inline Num norm(bool neg, i64 e, FT f) { return norm_(neg, e, f); }
static inline Num add_cut_(const UT &a, const UT &b)
{
	Aligned t = align(a, b);
	bool gt = t.a > t.b;
	FT f = a.negativeSign == b.negativeSign ? (FT)(t.a + t.b) : gt ? (FT)(t.a - t.b) : (FT)(t.b - t.a);
	return norm(a.negativeSign == b.negativeSign || gt ? a.negativeSign : b.negativeSign, t.e, f);
}
static inline Num add_cut(const UT &a, const UT &b) { return add_cut_(a, b); }
// no more than one binade above the larger operand, no less than its lowest bit
static inline bool addfacts(const Num &r, const UT &a, const UT &b)
{
	i64 m = (i64)(a.exponent > b.exponent ? a.exponent : b.exponent);
	return (r.cls == ZERO && !r.neg) || (r.cls == REG && r.exp <= m + 1 && r.exp >= m + 2 - W);
}
#ifndef VP_NOCONTRACTS
// normalisation as an uninterpreted function (see abstract.h)
CT Num ct_absnorm(bool neg, i64 e, FT f)
{
	u64 k = vp_uf1("lead", (u64)f), g = vp_uf1("norm", (u64)f);
	vp_assume(k < (u64)W);
	if (f == 0) return special(ZERO, false);
	return regular(neg, e - (i64)k, (FT)g);
}
extern "C" void bind_absnorm(Num *r, const bool *n, const i64 *e, const FT *f) { *r = norm(*n, *e, *f); }
extern "C" void bindct_absnorm(Num *r, const bool *n, const i64 *e, const FT *f) { *r = ct_absnorm(*n, *e, *f); }
// what is left of a number depends on f alone, the exponent is off by less than W
extern "C" void ob_ct_absnorm__seeu(u64 s, u64 e, u64 e2, u64 f)
{
	vp_assume((FT)f != 0);
	Num x = norm_(s & 1, (i64)e, (FT)f), y = norm_((s >> 1) & 1, (i64)e2, (FT)f);
	vp_assert(x.cls == REG && y.cls == REG && x.neg == (s & 1) && x.frac == y.frac && (u64)(e - x.exp) == (u64)(e2 - y.exp) && (u64)(e - x.exp) < (u64)W, "normalised");
}
// products and quotients: the fraction and the carry depend on the fractions alone
CT Num ct_absmul(const UT &a, const UT &b)
{
	u64 x = (u64)a.fraction >> 1, y = (u64)b.fraction >> 1;
	if (vp_isconst(x) || vp_isconst(y)) return mul_exact_(a, b);
	u64 lo = x < y ? x : y, hi = x < y ? y : x;
	return regular(a.negativeSign != b.negativeSign, (i64)a.exponent + (i64)b.exponent + (i64)(vp_uf2("mulc", lo, hi) & 1), (FT)vp_uf2("mulf", lo, hi));
}
extern "C" void bind_absmul(Num *r, const UT *a, const UT *b) { *r = mul_exact(*a, *b); }
extern "C" void bindct_absmul(Num *r, const UT *a, const UT *b) { *r = ct_absmul(*a, *b); }
extern "C" void ob_ct_absmul__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anyu((s & 1) << 2, e, f), b = anyu((s2 & 1) << 2, e2, f2);
	UT c = mku(REG, false, 0, a.fraction & ~(FT)1), d = mku(REG, false, 0, b.fraction & ~(FT)1);
	Num x = mul_exact_(a, b), y = mul_exact_(c, d), z = mul_exact_(d, c);
	vp_assert((u64)y.exp < 2 && x.frac == y.frac && x.exp == (i64)a.exponent + (i64)b.exponent + y.exp && x.neg == (a.negativeSign != b.negativeSign), "shape of a product");
	vp_assert(y.frac == z.frac && y.exp == z.exp, "product commutes");
}
CT Num ct_absdiv(const UT &a, const UT &b)
{
	u64 x = (u64)a.fraction >> 1, y = (u64)b.fraction >> 1;
	if (vp_isconst(y)) return div_quot_(a, b);
	return regular(a.negativeSign != b.negativeSign, (i64)a.exponent - (i64)b.exponent - (i64)(vp_uf2("divc", x, y) & 1), (FT)vp_uf2("divf", x, y));
}
extern "C" void bind_absdiv(Num *r, const UT *a, const UT *b) { *r = div_quot(*a, *b); }
extern "C" void bindct_absdiv(Num *r, const UT *a, const UT *b) { *r = ct_absdiv(*a, *b); }
extern "C" void ob_ct_absdiv__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anyu((s & 1) << 2, e, f), b = anyu((s2 & 1) << 2, e2, f2);
	UT c = mku(REG, false, 0, a.fraction & ~(FT)1), d = mku(REG, false, 0, b.fraction & ~(FT)1);
	Num x = div_quot_(a, b), y = div_quot_(c, d);
	vp_assert((u64)-y.exp < 2 && x.frac == y.frac && x.exp == (i64)a.exponent - (i64)b.exponent + y.exp && x.neg == (a.negativeSign != b.negativeSign), "shape of a quotient");
}
// alignment: what becomes of one operand depends on it, the other's exponent and which is which not
CT Aligned ct_absalign(const UT &a, const UT &b)
{
	Aligned r;
	r.a = (FT)vp_uf5("align", (u64)a.exponent, (u64)a.fraction, (u64)b.exponent, 0, 0);
	r.b = (FT)vp_uf5("align", (u64)b.exponent, (u64)b.fraction, (u64)a.exponent, 0, 0);
	r.e = (i64)(a.exponent >= b.exponent ? a.exponent : b.exponent) + 1;
	vp_assume(r.a <= (FT)(MSB - 1) && r.b <= (FT)(MSB - 1));
	return r;
}
extern "C" void bind_absalign(Aligned *r, const UT *a, const UT *b) { *r = align(*a, *b); }
extern "C" void bindct_absalign(Aligned *r, const UT *a, const UT *b) { *r = ct_absalign(*a, *b); }
extern "C" void ob_ct_absalign__euueu(u64 e, u64 f, u64 g, u64 e2, u64 f2)
{
	UT a = anya(0, e, f), b = anya(0, e2, f2), c = anya(0, e2, g);
	Aligned t = align_(a, b), u = align_(c, a);
	vp_assert(t.a == u.b && t.a <= (FT)(MSB - 1), "aligned operand");
	vp_assert(t.e == (i64)(a.exponent >= b.exponent ? a.exponent : b.exponent) + 1, "aligned exponent");
}
CT Num ct_absadd(const UT &a, const UT &b)
{
	u64 s = a.negativeSign * 2 + b.negativeSign;
	u64 c = vp_uf5("addcls", (u64)a.exponent, (u64)a.fraction, (u64)b.exponent, (u64)b.fraction, s);
	u64 e = vp_uf5("addexp", (u64)a.exponent, (u64)a.fraction, (u64)b.exponent, (u64)b.fraction, s);
	u64 f = vp_uf5("addfrac", (u64)a.exponent, (u64)a.fraction, (u64)b.exponent, (u64)b.fraction, s);
	Num r = c & 1 ? special(ZERO, false) : regular((c >> 1) & 1, (i64)e, (FT)f);
	vp_assume(addfacts(r, a, b));
	return r;
}
extern "C" void bind_absadd(Num *r, const UT *a, const UT *b) { *r = add_cut(*a, *b); }
extern "C" void bindct_absadd(Num *r, const UT *a, const UT *b) { *r = ct_absadd(*a, *b); }
extern "C" void ob_ct_absadd__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya((s & 1) << 2, e, f), b = anya((s2 & 1) << 2, e2, f2);
	vp_assert(addfacts(add_cut_(a, b), a, b), "range of a sum");
}
#endif
static inline Num s_add(const UT &a, const UT &b)
{
	return a.type == UT::Regular && b.type == UT::Regular ? add_cut(a, b) : add_special(a, b);
}

#ifndef VP_NOCONTRACTS
//---------------------------------------------------------------- leading zeros
CT int ct_clz(uint64_t x)
{
	vp_assert(x != 0, "leading zeros of zero");
	return __builtin_clzll(x);
}
extern "C" void bind_clz(int *r, const uint64_t *x) { *r = findbitleftmostC(*x); }
extern "C" void bindct_clz(int *r, const uint64_t *x) { *r = ct_clz(*x); }
extern "C" void ob_ct_clz__u(u64 x)
{
	vp_assume(x != 0);
	vp_assert(findbitleftmostC((uint64_t)x) == __builtin_clzll(x), "leading zeros");
}

//---------------------------------------------------------------- unpacked operators
// the two lowest fraction bits of a product may be lost (never gained)
static inline bool lo2(u64 got, u64 exact) { return (got >> 2) == (exact >> 2) && (got & 3) <= (exact & 3); }
static inline bool post_mul(const UT &r, const UT &a, const UT &b)
{
	Num n = s_mul(a, b);
	return (int)r.type == n.cls && (n.cls == NANC || r.negativeSign == n.neg) &&
	       (n.cls != REG || (r.exponent == (ET)n.exp && lo2((u64)r.fraction, n.frac >> (64 - W))));
}
CT UT ct_mul(const UT &a, const UT &b)
{
	vp_assert(mulop(a) && mulop(b), "product: operands");
	UT r = make(s_mul(a, b));
	FT lo = (FT)(vp_uf5("mullow", (u64)a.fraction, (u64)b.fraction, (u64)a.exponent, (u64)b.exponent, a.negativeSign * 2 + b.negativeSign) & 3);
	vp_assume(lo <= (r.fraction & 3));
	r.fraction = (FT)((r.fraction & ~(FT)3) | lo);
	return r;
}
extern "C" void bind_mul(UT *r, const UT *a, const UT *b) { *r = *a * *b; }
extern "C" void bindct_mul(UT *r, const UT *a, const UT *b) { *r = ct_mul(*a, *b); }
extern "C" void ob_ct_mul_regular__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anym((s & 1) << 2, e, f), b = anym((s2 & 1) << 2, e2, f2);
	vp_assert(post_mul(a * b, a, b), "unpacked product");
}
extern "C" void ob_ct_mul_special__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anym(s, e, f), b = anym(s2, e2, f2);
	vp_assume(a.type != UT::Regular || b.type != UT::Regular);
	vp_assert(post_mul(a * b, a, b), "unpacked product");
}
CT UT ct_div(const UT &a, const UT &b)
{
	vp_assert(mulop(a) && mulop(b), "quotient: operands");
	return make(s_div(a, b));
}
extern "C" void bind_div(UT *r, const UT *a, const UT *b) { *r = *a / *b; }
extern "C" void bindct_div(UT *r, const UT *a, const UT *b) { *r = ct_div(*a, *b); }
extern "C" void ob_ct_div_regular__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anym((s & 1) << 2, e, f), b = anym((s2 & 1) << 2, e2, f2);
	vp_assume((b.fraction >> 1) != 0);
	Num n = s_div(a, b);
	n.exp = (ET)n.exp;
	vp_assert(same(a / b, n), "unpacked quotient");
}
static inline void divpow2(const UT &a, const UT &b)
{
	Num n = s_div(a, b);
	n.exp = (ET)n.exp;
	vp_assert(same(a / b, n), "unpacked quotient by a power of two");
}
extern "C" void ob_ct_div_pow2__seuse(u64 s, u64 e, u64 f, u64 s2, u64 e2)
{
	UT a = anym((s & 1) << 2, e, f);
	divpow2(a, anym((s2 & 1) << 2, e2, 0));
	divpow2(a, anym((s2 & 1) << 2, e2, 1));
}
extern "C" void ob_ct_div_special__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anym(s, e, f), b = anym(s2, e2, f2);
	vp_assume(a.type != UT::Regular || b.type != UT::Regular);
	Num n = s_div(a, b);
	n.exp = (ET)n.exp;
	vp_assert(same(a / b, n), "unpacked quotient");
}
CT UT ct_inv(const UT *a)
{
	vp_assert(mulop(*a), "reciprocal: operand");
	return make(s_inv(*a));
}
extern "C" void bind_inv(UT *r, const UT *a) { *r = a->inv(); }
extern "C" void bindct_inv(UT *r, const UT *a) { *r = ct_inv(a); }
extern "C" void ob_ct_inv__seu(u64 s, u64 e, u64 f)
{
	UT a = anym(s, e, f);
	vp_assume(a.type != UT::Regular || (a.fraction >> 1) != 0);
	Num n = s_inv(a);
	n.exp = (ET)n.exp;
	vp_assert(same(a.inv(), n), "unpacked reciprocal");
}
static inline void invpow2(const UT &a)
{
	Num n = s_inv(a);
	n.exp = (ET)n.exp;
	vp_assert(same(a.inv(), n), "unpacked reciprocal of a power of two");
}
extern "C" void ob_ct_inv_pow2__se(u64 s, u64 e)
{
	invpow2(anym((s & 1) << 2, e, 0));
	invpow2(anym((s & 1) << 2, e, 1));
}
CT UT ct_add(UT a, UT b)
{
	vp_assert(canona(a) && canona(b), "sum: operands");
	return make(s_add(a, b));
}
extern "C" void bind_add(UT *r, const UT *a, const UT *b) { *r = *a + *b; }
extern "C" void bindct_add(UT *r, const UT *a, const UT *b) { *r = ct_add(*a, *b); }
extern "C" void ob_ct_add_regular__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya((s & 1) << 2, e, f), b = anya((s2 & 1) << 2, e2, f2);
	Num n = s_add(a, b);
	n.exp = (ET)n.exp;
	vp_assert(same(a + b, n), "unpacked sum");
}
extern "C" void ob_ct_add_special__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	UT a = anya(s, e, f), b = anya(s2, e2, f2);
	vp_assume(a.type != UT::Regular || b.type != UT::Regular);
	Num n = s_add(a, b);
	n.exp = (ET)n.exp;
	vp_assert(same(a + b, n), "unpacked sum");
}
#endif // VP_NOCONTRACTS
