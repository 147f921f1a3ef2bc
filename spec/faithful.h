// What a faithful sum is.  The operands are numbers whose three lowest fraction bits are zero.
#pragma once
#include "contracts.h"
// X = x + y exactly.  Significands are aligned on the grid 2^(top exponent - W + 2): G is the sum with the smaller
// operand cut to the grid, lost says that something was cut.
//  same signs:     X truncated to the grid is G, so truncating G to a posit truncates X
//  opposite signs: X truncated to the grid is G, or G - 1 when something was cut (then X is not on the grid, so no
//                  posit; cutting needs a distance of two binades, so G keeps W-2 leading bits and posits are on the grid)
// The result is the encoding of G (truncated), which is then one of the two posits around X: adjacent().
struct Grid
{
	bool lost, neg;
	i64 e;
	FT G;
};
static inline Grid grid(const UT &x, const UT &y)
{
	i64 d = (i64)x.exponent - (i64)y.exponent;
	bool xs = d < 0; // x is the smaller one
	i64 k = d < 0 ? -d : d;
	Aligned t = align(x, y);
	FT L = xs ? t.b : t.a, c = xs ? t.a : t.b, s = (FT)((MSB >> 1) | ((xs ? x : y).fraction >> 2));
	Grid g;
	g.lost = k >= W ? true : (FT)((FT)(s >> k) << k) != s;
	g.e = t.e;
	bool ln = (xs ? y : x).negativeSign, sn = (xs ? x : y).negativeSign;
	g.G = ln == sn ? (FT)(L + c) : L > c ? (FT)(L - c) : (FT)(c - L);
	g.neg = ln == sn || L > c ? ln : sn;
	return g;
}
static inline bool adjacent(i64 e, FT G)
{
	i64 c = E(norm(false, e, (FT)(G - 1))), d = E(norm(false, e, G));
	return d == c || d == c + 1;
}
static inline bool samesum(const Num &a, const Num &b) { return a.cls == b.cls && (a.cls != REG || (a.neg == b.neg && a.exp == b.exp && a.frac == b.frac)); }
static inline Num s_add_(const UT &a, const UT &b) { return a.type == UT::Regular && b.type == UT::Regular ? add_cut_(a, b) : add_special(a, b); }
static inline void lemma_grid(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2, bool le)
{
	UT x = anyu((s & 1) << 2, e, f), y = anyu((s2 & 1) << 2, e2, f2);
	vp_assume((x.fraction & 7) == 0 && (y.fraction & 7) == 0);
	vp_assume(((i64)x.exponent - (i64)y.exponent < 0) == le);
	Grid g = grid(x, y);
	vp_assert(samesum(add_cut_(x, y), norm(g.neg, g.e, g.G)), "the sum of the significands cut to the grid");
}
#define LEMMA_FAITHFUL \
/* every exponent is k 2^ES + j */ \
extern "C" void ob_lemma_adjacent__eeu(u64 k, u64 j, u64 f) \
{ \
	vp_split(k, -N, N); \
	i64 e = (i64)((k << ES) | (j & (((u64)1 << ES) - 1))); \
	FT G = (FT)f; \
	vp_assume((i64)(k << ES) >> ES == (i64)k && e > -emax() * 2 && e < emax() * 2 && G > (MSB >> 2) && G <= MSB); \
	vp_assert(adjacent(e, G), "neighbours on the grid are the same or neighbouring posits"); \
} \
extern "C" void ob_lemma_grid_le__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2) { lemma_grid(s, e, f, s2, e2, f2, true); } \
extern "C" void ob_lemma_grid_gt__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2) { lemma_grid(s, e, f, s2, e2, f2, false); } \
extern "C" void ob_lemma_cancel__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2) \
{ \
	UT x = anyu((s & 1) << 2, e, f), y = anyu((s2 & 1) << 2, e2, f2); \
	vp_assume((x.fraction & 7) == 0 && (y.fraction & 7) == 0); \
	Grid g = grid(x, y); \
	vp_assert(x.negativeSign == y.negativeSign || !g.lost || (g.G > (MSB >> 2) && g.G <= MSB), "no cancellation when something was cut"); \
	vp_assert(x.negativeSign != y.negativeSign || g.G >= (MSB >> 1), "no overflow"); \
} \
extern "C" void ob_lemma_sum_commutes__seuseu(u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2) \
{ \
	UT x = anyu(s, e, f), y = anyu(s2, e2, f2); \
	vp_assert(samesum(s_add_(x, y), s_add_(y, x)), "unpacked sum commutes"); \
} \
extern "C" void ob_lemma_sum_cancels__seu(u64 s, u64 e, u64 f) \
{ \
	UT x = anyu((s & 1) << 2, e, f), y = x; \
	y.negativeSign = !x.negativeSign; \
	vp_assert(add_cut_(x, y).cls == ZERO, "unpacked difference of equals"); \
}
// r is x + y correctly summed; with ob_lemma_grid and ob_lemma_adjacent it is faithful
static inline void faithful(const P &r, const UT &x, const UT &y, const char *what)
{
	vp_assert((x.fraction & 7) == 0 && (y.fraction & 7) == 0, "operands fit");
	vp_assert(is(r, add_cut(x, y)), what);
#ifdef VP_NATIVE // the consequence, spelled out (proved from the lemmas)
	Grid g = grid(x, y);
	i64 m = g.neg ? -(i64)r.v : (i64)r.v;
	if (x.negativeSign == y.negativeSign || !g.lost) vp_assert(m == E(norm(false, g.e, g.G)), what);
	else
	{
		i64 c = E(norm(false, g.e, (FT)(g.G - 1)));
		vp_assert(m == c || m == c + 1, what);
	}
#endif
}
