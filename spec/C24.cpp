// Posits that compute through a native type VFFT (float or double); VFT is the word of that type.
#include "contracts.h"
#include "contracts_float.h"
#include "positf.h"
typedef PositF<VT, VN, VES, VFFT, (PositSpec)VSPEC> F;
static_assert(sizeof(VFFT) == sizeof(VFT), "");
constexpr int FB = sizeof(VFFT) == 4 ? 23 : 52, EB = sizeof(VFFT) == 4 ? 8 : 11;
static inline F mkf(i64 v) { return F(F::DeepInit(), (VT)v); }
static inline i64 neg_(i64 v) { return v == top<N>() ? v : -v; }
static inline u64 bits(VFFT f)
{
	union { VFT i; VFFT f; } x;
	x.f = f;
	return x.i;
}
static inline VFFT word(u64 b)
{
	union { VFT i; VFFT f; } x;
	x.i = (VFT)b;
	return x.f;
}
#ifndef VP_NOCONTRACTS
CT F ct_pfpack(UT u)
{
	vp_assert((int)u.type >= 0 && (int)u.type <= 3, "pack: class");
	i64 v = E(num(u));
	vp_assume(legal<N>(v));
	return mkf(v);
}
extern "C" void bind_pfpack(F *r, const UT *u) { *r = F::pack_posit(*u); }
extern "C" void bindct_pfpack(F *r, const UT *u) { *r = ct_pfpack(*u); }
extern "C" void ob_ct_pfpack_regular__seeu(u64 s, u64 k, u64 e, u64 f)
{
	vp_split(k, -N, N);
	vp_assume((i64)(ET)(k << ES) >> ES == (i64)k);
	UT u = mku(REG, s & 1, (i64)((k << ES) | (e & (((u64)1 << ES) - 1))), f);
	i64 r = (i64)F::pack_posit(u).v;
	vp_assert(r == E(num(u)), "packed pattern");
	vp_assert(legal<N>(r), "legal");
}
extern "C" void ob_ct_pfpack_special__seu(u64 s, u64 e, u64 f)
{
	vp_assume((s & 3) != 0);
	UT u = mku(s & 3, (s >> 2) & 1, (i64)e, f);
	i64 r = (i64)F::pack_posit(u).v;
	vp_assert(r == E(num(u)), "packed pattern");
	vp_assert(legal<N>(r), "legal");
}
#endif
// the native number of a pattern: what it denotes, truncated when it does not fit
static inline VFFT nat(i64 v)
{
	Num n = D(v);
	return word(n.cls == NANC ? Ieee<FB, EB>::inf | 1 : s_tofloat<FB, EB, true>(n));
}
// a pattern is a native number truncated
static inline bool cut(const F &p, VFFT x) { return p.v == (VT)E(s_unfloat<FB, EB, true>(bits(x))); }
static inline bool isn(i64 v) { return SP != WithInf && v == top<N>(); }
#define V1 i64 v = legalpat(a);
#define V2 i64 v = legalpat(a), w = legalpat(b);
//---------------------------------------------------------------- conversions
extern "C" void ob_tofloat__p(u64 a)
{
	V1
	union { uint32_t i; float f; } x;
	x.f = (float)mkf(v);
	vp_assert((isfloat<23, 8, true>(x.i, D(v))), "to float");
}
extern "C" void ob_todouble__p(u64 a)
{
	V1
	union { u64 i; double f; } x;
	x.f = (double)mkf(v);
	vp_assert((isfloat<52, 11, true>(x.i, D(v))), "to double");
}
constexpr bool fits() { return N - 3 - ES <= FB && (maxexp<N, ES, WithNan>()) <= Ieee<FB, EB>::bias && (minexp<N, ES, SP>()) >= 1 - Ieee<FB, EB>::bias; }
extern "C" void ob_exact__p(u64 a)
{
	V1
	vp_assert(!fits() || (i64)F((VFFT)mkf(v)).v == v, "there and back");
	vp_assert(!fits() || E(s_unfloat<FB, EB, true>(bits(nat(v)))) == v, "every number of the type is native");
}
extern "C" void ob_fromfloat__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	vp_assert(F(x.f).v == (VT)E(s_unfloat<23, 8, true>(x.i)), "from float");
}
extern "C" void ob_fromdouble__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert(F(x.f).v == (VT)E(s_unfloat<52, 11, true>(a)), "from double");
}
extern "C" void ob_fromint__i(u64 a) { vp_assert(F((int)a).v == (VT)E(s_unfixed32<0>((int)a)), "from int"); }
extern "C" void ob_toint__p(u64 a)
{
	V1
	vp_assert((i64)(int)mkf(v) == s_tofixed<32, 0>(D(v)), "to int");
}
//---------------------------------------------------------------- arithmetic
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	V2
	F r = mkf(v) * mkf(w);
	vp_assert(isn(v) || isn(w) ? isn((i64)r.v) : cut(r, nat(v) * nat(w)), "product");
}
extern "C" void ob_mulassign__pp(u64 a, u64 b)
{
	V2
	F q = mkf(v);
	F &l = (q *= mkf(w));
	vp_assert((isn(v) || isn(w) ? isn((i64)q.v) : cut(q, nat(v) * nat(w))) && &l == &q, "compound product");
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	V2
	F r = mkf(v) / mkf(w);
	vp_assert(isn(v) || isn(w) ? isn((i64)r.v) : cut(r, nat(v) / nat(w)), "quotient");
}
static inline bool sum(const F &r, i64 v, i64 w)
{
	if (v == 0) return (i64)r.v == w;
	if (w == 0) return (i64)r.v == v;
	return isn(v) || isn(w) ? isn((i64)r.v) : cut(r, nat(v) + nat(w));
}
extern "C" void ob_add__pp(u64 a, u64 b)
{
	V2
	vp_assert(sum(mkf(v) + mkf(w), v, w), "sum");
}
extern "C" void ob_addassign__pp(u64 a, u64 b)
{
	V2
	F q = mkf(v);
	F &l = (q += mkf(w));
	vp_assert(sum(q, v, w) && &l == &q, "compound sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	V2
	vp_assert(sum(mkf(v) - mkf(w), v, neg_(w)), "difference");
}
extern "C" void ob_inv__p(u64 a)
{
	V1
	vp_assert(isn(v) ? isn((i64)mkf(v).inv().v) : cut(mkf(v).inv(), (VFFT)1 / nat(v)), "reciprocal");
}
extern "C" void ob_invop__p(u64 a)
{
	V1
	vp_assert(isn(v) ? isn((i64)(~mkf(v)).v) : cut(~mkf(v), (VFFT)1 / nat(v)), "operator ~");
}
extern "C" void ob_invfree__p(u64 a)
{
	V1
	vp_assert(isn(v) ? isn((i64)inv(mkf(v)).v) : cut(inv(mkf(v)), (VFFT)1 / nat(v)), "inv()");
}
// scaling is exact
extern "C" void ob_half__p(u64 a)
{
	V1
	Num n = D(v);
	n.exp--;
	vp_assert(!fits() || (i64)mkf(v).half().v == E(n), "half");
}
extern "C" void ob_twice__p(u64 a)
{
	V1
	Num n = D(v);
	n.exp++;
	vp_assert(!fits() || (i64)mkf(v).twice().v == E(n), "twice");
}
//---------------------------------------------------------------- the same patterns as the integer type
extern "C" void ob_unpack__p(u64 a)
{
	V1
	UT x = denote(v), u = mkf(v).unpack(), t = F::unpack_posit(mkf(v));
	Num n = D(v);
	vp_assert(same(u, n), "unpack");
	vp_assert((int)t.type == n.cls && (n.cls == NANC || t.negativeSign == n.neg) && (n.cls != REG || ((i64)t.exponent == n.exp && t.fraction == x.fraction)), "unpack_posit");
	vp_assert((i64)F(u).v == v, "pack(unpack)");
	vp_assert((i64)F(mkf(v).unpack_low()).v == v, "pack_low(unpack_low)");
}
extern "C" void ob_sign__p(u64 a)
{
	V1
	F p = mkf(v);
	vp_assert((i64)(-p).v == neg_(v) && (i64)p.neg().v == neg_(v) && (i64)neg(p).v == neg_(v), "negative");
	vp_assert((i64)p.abs().v == (v < 0 ? neg_(v) : v) && (i64)std::abs(p).v == (v < 0 ? neg_(v) : v), "abs");
	vp_assert((i64)p.next().v == (i64)mkp(v).next().v && (i64)p.prev().v == (i64)mkp(v).prev().v, "neighbours");
	vp_assert(p.isNaN() == (isnan_<N, SP>(v)) && p.isinfinity() == (isinf_<N, SP>(v)) && p.iszero() == (v == 0) && p.isone() == (v == (i64)1 << (N - 2)) && p.isnegative() == (v < 0), "predicates");
}
extern "C" void ob_order__pp(u64 a, u64 b)
{
	V2
	F p = mkf(v), q = mkf(w);
	bool o = !isn(v) && !isn(w);
	vp_assert((p < q) == (o && v < w) && (p > q) == (o && v > w) && (p <= q) == (o && v <= w) && (p >= q) == (o && v >= w), "order");
	vp_assert((p == q) == (o && v == w) && (p != q) == !(p == q), "equality");
	vp_assert(!o || ((i64)std::min(p, q).v == (v < w ? v : w) && (i64)std::max(p, q).v == (v > w ? v : w)), "min and max");
}
extern "C" void ob_constants()
{
	vp_assert(F::zero().v == P::zero().v && F::one().v == P::one().v && F::two().v == P::two().v && F::mone().v == P::mone().v && F::onehalf().v == P::onehalf().v, "numbers");
	vp_assert(F::max().v == P::max().v && F::min().v == P::min().v && F::lowest().v == P::lowest().v && F::nan().v == P::nan().v, "limits");
	vp_assert(F::inf().v == P::inf().v && F::pinf().v == P::pinf().v && F::ninf().v == P::ninf().v && F::infinity().v == P::infinity().v, "infinities");
}
