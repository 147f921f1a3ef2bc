// Tabulated posits: PC is the class, PNS its namespace, PBIN its binary operators are tabulated.
#include "faithful.h"
#include "contracts_float.h"
#define PX(x) PX_(x)
#define PX_(x) #x
#include PX(PHDR)
#include PX(PSRC)
// the tables' sizes (what the generator writes); an index outside is a failed obligation
#define VP_SZ (1 << VN)
namespace PNS {
#ifdef PBIN
extern VT opadd[VP_SZ * VP_SZ], opmul[VP_SZ * VP_SZ], opdiv[VP_SZ * VP_SZ], ophalf[VP_SZ];
#endif
extern VT opinv[VP_SZ], opsquare[VP_SZ];
extern uint32_t op2float[VP_SZ];
}
static_assert(sizeof(PC::FPT) == sizeof(P), "");
static inline P gen(PC p) { return mkp((i64)p.v); }
static inline PC mk(i64 v) { return PC(PC::DeepInit(), (VT)v); }
static inline i64 neg_(i64 v) { return v == top<N>() ? v : -v; }
static inline u64 at(i64 v) { return (u64)v & (VP_SZ - 1); }
static inline u64 at2(i64 v, i64 w) { return at(v) * VP_SZ + at(w); }
static inline u64 fbits(float f)
{
	union { uint32_t i; float f; } x;
	x.f = f;
	return x.i;
}
static inline u64 dbits(double f)
{
	union { u64 i; double f; } x;
	x.f = f;
	return x.i;
}
// What an entry must be.  The entries are checked one by one against these definitions (ob_ground_*: evaluated for every
// index, on the tables the generator of the current tree writes); the operators are proved to return the entry of their
// operands, whatever the definitions say (they are uninterpreted there).
#ifdef VP_NATIVE
static inline i64 e_mul(i64 v, i64 w) { return E(s_mul(denote(v), denote(w))); }
static inline i64 e_div(i64 v, i64 w) { return E(s_div(denote(v), denote(w))); }
static inline i128 fix(i64 v) // the number, in units of 2^-60
{
	Num n = D(v);
	i128 m = ((i128)1 << 60 | n.frac >> 4) * 1;
	m = n.exp >= 0 ? m << n.exp : m >> -n.exp;
	return n.neg ? -m : m;
}
static inline bool ok_add(i64 v, i64 w, i64 r)
{
	if (!isnum<N, SP>(v) || !isnum<N, SP>(w)) return r == E(add_special(denote(v), denote(w)));
	if (!legal<N>(r)) return false;
	// |v|,|w| < 2^60 and multiples of 2^-60 (static_assert below)
	i128 s = fix(v) + fix(w);
	if (s == 0) return r == 0;
	bool neg = s < 0;
	if (neg) s = -s, r = neg_(r);
	// c: largest posit not above s
	int k = 127;
	while (!((s >> k) & 1)) k--;
	u64 f = k == 0 ? 0 : (u64)(((u128)s << (128 - k)) >> 64);
	u64 lost = k <= 64 ? 0 : (u64)(s & (((i128)1 << (k - 64)) - 1));
	i64 c = (i64)enc_mag<N, ES, SP>(k - 60, f);
	(void)lost;
	if (r == c) return true;
	return fix(c) != s && r == c + 1 && r <= maxpos<N, SP>();
}
static_assert((maxexp<N, ES, SP>()) + 1 < 60 && (minexp<N, ES, SP>()) - N > -60, "");
static inline bool ok_mul(i64 v, i64 w, i64 r) { return r == e_mul(v, w); }
static inline bool ok_div(i64 v, i64 w, i64 r) { return r == e_div(v, w); }
static inline bool ok_inv(i64 v, i64 r) { return r == E(s_inv(denote(v))); }
static inline bool ok_half(i64 v, i64 r) { Num n = D(v); n.exp--; return r == E(n); }
static inline bool ok_square(i64 v, i64 r) { return r == e_mul(v, v); }
static inline bool ok_float(i64 v, u64 r) { return isfloat<23, 8, true>(r, D(v)); }
#else
static inline bool ok_add(i64 v, i64 w, i64 r) { return vp_uf5("ok_add", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_mul(i64 v, i64 w, i64 r) { return vp_uf5("ok_mul", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_div(i64 v, i64 w, i64 r) { return vp_uf5("ok_div", (u64)v, (u64)w, (u64)r, 0, 0) & 1; }
static inline bool ok_inv(i64 v, i64 r) { return vp_uf5("ok_inv", (u64)v, (u64)r, 0, 0, 0) & 1; }
static inline bool ok_half(i64 v, i64 r) { return vp_uf5("ok_half", (u64)v, (u64)r, 0, 0, 0) & 1; }
static inline bool ok_square(i64 v, i64 r) { return vp_uf5("ok_square", (u64)v, (u64)r, 0, 0, 0) & 1; }
static inline bool ok_float(i64 v, u64 r) { return vp_uf5("ok_float", (u64)v, r, 0, 0, 0) & 1; }
#endif
// the table invariant, where it is used
#define INV1(x) vp_assume(ok_##x(v, (i64)PNS::op##x[at(v)]))
#define INVF vp_assume(ok_float(v, (u64)PNS::op2float[at(v)]))
#define INV2(x, v, w) vp_assume(ok_##x(v, w, (i64)PNS::op##x[at2(v, w)]))
#define V1 i64 v = legalpat(a);
#define V2 i64 v = legalpat(a), w = legalpat(b);
//---------------------------------------------------------------- the entries
extern "C" void ob_ground_inv__p(u64 a) { V1 vp_assert(ok_inv(v, (i64)PNS::opinv[at(v)]), "reciprocal entry"); }
extern "C" void ob_ground_square__p(u64 a) { V1 vp_assert(ok_square(v, (i64)PNS::opsquare[at(v)]), "square entry"); }
extern "C" void ob_ground_float__p(u64 a) { V1 vp_assert(ok_float(v, (u64)PNS::op2float[at(v)]), "float entry"); }
#ifdef PBIN
extern "C" void ob_ground_half__p(u64 a) { V1 vp_assert(ok_half(v, (i64)PNS::ophalf[at(v)]), "half entry"); }
extern "C" void ob_ground_add__pp(u64 a, u64 b) { V2 vp_assert(ok_add(v, w, (i64)PNS::opadd[at2(v, w)]), "sum entry"); }
extern "C" void ob_ground_mul__pp(u64 a, u64 b) { V2 vp_assert(ok_mul(v, w, (i64)PNS::opmul[at2(v, w)]), "product entry"); }
extern "C" void ob_ground_div__pp(u64 a, u64 b) { V2 vp_assert(ok_div(v, w, (i64)PNS::opdiv[at2(v, w)]), "quotient entry"); }
#endif
//---------------------------------------------------------------- tabulated operations
extern "C" void ob_inv__p(u64 a)
{
	V1
	INV1(inv);
	vp_assert(ok_inv(v, (i64)mk(v).inv().v), "reciprocal");
	vp_assert(ok_inv(v, (i64)inv(mk(v)).v), "inv()");
}
extern "C" void ob_square__p(u64 a)
{
	V1
	INV1(square);
	vp_assert(ok_square(v, (i64)mk(v).square().v), "square");
	vp_assert(ok_square(v, (i64)square(mk(v)).v), "square()");
}
extern "C" void ob_tofloat__p(u64 a)
{
	V1
	INVF;
	vp_assert(ok_float(v, fbits((float)mk(v))), "to float");
	// widening is exact
	vp_assert(dbits((double)mk(v)) == dbits((double)(float)mk(v)), "to double");
}
#ifdef PBIN
extern "C" void ob_half__p(u64 a)
{
	V1
	INV1(half);
	vp_assert(ok_half(v, (i64)mk(v).half().v), "half");
	vp_assert(ok_half(v, (i64)half(mk(v)).v), "half()");
}
extern "C" void ob_add__pp(u64 a, u64 b)
{
	V2
	INV2(add, v, w);
	vp_assert(ok_add(v, w, (i64)(mk(v) + mk(w)).v), "sum");
	PC q = mk(v);
	PC &l = (q += mk(w));
	vp_assert(ok_add(v, w, (i64)q.v) && &l == &q, "compound sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	V2
	INV2(add, v, neg_(w));
	vp_assert(ok_add(v, neg_(w), (i64)(mk(v) - mk(w)).v), "difference");
}
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	V2
	INV2(mul, v, w);
	vp_assert(ok_mul(v, w, (i64)(mk(v) * mk(w)).v), "product");
	PC q = mk(v);
	PC &l = (q *= mk(w));
	vp_assert(ok_mul(v, w, (i64)q.v) && &l == &q, "compound product");
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	V2
	INV2(div, v, w);
	vp_assert(ok_div(v, w, (i64)(mk(v) / mk(w)).v), "quotient");
}
#else
//---------------------------------------------------------------- computed operations
LEMMA_POW2
LEMMA_FAITHFUL
extern "C" void ob_half__p(u64 a)
{
	V1
	UT x = denote(v), two = mku(REG, false, 1, 0);
	vp_assert(is(gen(mk(v).half()), s_div(x, two)), "half");
	vp_assert(half(mk(v)).v == mk(v).half().v, "half()");
}
#define NUMS V2 vp_assume((isnum<N, SP>(v))); vp_assume((isnum<N, SP>(w))); UT x = denote(v), y = denote(w);
#define SPECIALS V2 vp_assume(!(isnum<N, SP>(v)) || !(isnum<N, SP>(w))); UT x = denote(v), y = denote(w);
extern "C" void ob_add__pp(u64 a, u64 b)
{
	NUMS
	faithful(gen(mk(v) + mk(w)), x, y, "sum");
}
extern "C" void ob_add_special__pp(u64 a, u64 b)
{
	SPECIALS
	vp_assert(is(gen(mk(v) + mk(w)), add_special(x, y)), "sum");
}
extern "C" void ob_addassign__pp(u64 a, u64 b)
{
	V2
	PC q = mk(v), s = mk(v) + mk(w);
	PC &l = (q += mk(w));
	vp_assert(q.v == s.v && &l == &q, "compound sum");
}
extern "C" void ob_sub__pp(u64 a, u64 b)
{
	V2
	PC d = mk(v) - mk(w), s = mk(v) + mk(neg_(w));
	vp_assert(d.v == s.v, "difference is the sum with the negative");
}
extern "C" void ob_mul__pp(u64 a, u64 b)
{
	V2
	UT x = denote(v), y = denote(w);
	vp_assert(is(gen(mk(v) * mk(w)), s_mul(x, y)), "product");
	PC q = mk(v), s = mk(v) * mk(w);
	PC &l = (q *= mk(w));
	vp_assert(q.v == s.v && &l == &q, "compound product");
}
extern "C" void ob_div__pp(u64 a, u64 b)
{
	V2
	UT x = denote(v), y = denote(w);
	vp_assert(is(gen(mk(v) / mk(w)), s_div(x, y)), "quotient");
}
#endif
extern "C" void ob_twice__p(u64 a)
{
	V1
	UT x = denote(v), two = mku(REG, false, 1, 0);
	vp_assert(is(gen(mk(v).twice()), s_mul(x, two)), "twice");
	vp_assert(twice(mk(v)).v == mk(v).twice().v, "twice()");
}
extern "C" void ob_neg__p(u64 a)
{
	V1
	vp_assert((i64)(-mk(v)).v == neg_(v), "negative");
	vp_assert((i64)neg(mk(v)).v == neg_(v), "neg()");
	vp_assert((i64)std::abs(mk(v)).v == (v < 0 ? neg_(v) : v), "abs");
}
//---------------------------------------------------------------- conversions
extern "C" void ob_toint__p(u64 a)
{
	V1
	vp_assert((i64)(int)mk(v) == s_tofixed<32, 0>(D(v)), "to int");
}
extern "C" void ob_fromint__i(u64 a) { vp_assert(PC((int)a).v == (VT)E(s_unfixed32<0>((int)a)), "from int"); }
extern "C" void ob_fromfloat__f(u64 a)
{
	union { uint32_t i; float f; } x;
	x.i = (uint32_t)a;
	vp_assert(PC(x.f).v == (VT)E(s_unfloat<23, 8, true>(x.i)), "from float");
}
extern "C" void ob_fromdouble__d(u64 a)
{
	union { u64 i; double f; } x;
	x.i = a;
	vp_assert(PC(x.f).v == (VT)E(s_unfloat<52, 11, true>(a)), "from double");
}
extern "C" void ob_generic__p(u64 a)
{
	V1
	vp_assert((i64)mk(v).as_posit().v == v, "generic posit");
	P p = mk(v);
	vp_assert((i64)p.v == v, "conversion to the generic posit");
	vp_assert((i64)PC(mkp(v)).v == v, "from the generic posit");
	UT u = mk(v).unpack(), x = denote(v);
	vp_assert(u.type == x.type && (u.type == UT::NaN || u.negativeSign == x.negativeSign) && (u.type != UT::Regular || (u.exponent == x.exponent && u.fraction == x.fraction)), "unpacked");
	vp_assert((i64)PC(x).v == v, "from unpacked");
	vp_assert(mk(v).is_nan() == (v == top<N>()) && mk(v).is_negative() == (v < 0), "predicates");
}
extern "C" void ob_order__pp(u64 a, u64 b)
{
	V2
	vp_assume((isfin<N, SP>(v)) && (isfin<N, SP>(w)));
	const PC p = mk(v), q = mk(w);
	vp_assert((p < q) == (v < w) && (p > q) == (v > w) && (p <= q) == (v <= w) && (p >= q) == (v >= w) && (p == q) == (v == w) && (p != q) == (v != w), "order");
	vp_assert((i64)std::min(p, q).v == (v < w ? v : w) && (i64)std::max(p, q).v == (v > w ? v : w), "min and max");
}
extern "C" void ob_constants()
{
	vp_assert((i64)PC::max().v == maxpos<N, SP>() && (i64)PC::min().v == 1, "max, min");
	vp_assert((i64)PC::one().v == E(Num{REG, false, 0, 0}) && (i64)PC::onehalf().v == E(Num{REG, false, -1, 0}), "one, half");
	vp_assert((i64)PC::afterone().v == E(Num{REG, false, 0, 0}) + 1, "after one");
	vp_assert((i64)PC::nan().v == top<N>() && (i64)PC::pinfinity().v == top<N>() && (i64)PC::ninfinity().v == top<N>(), "NaN");
	vp_assert((i64)PC().v == 0, "zero");
#ifdef PBIN
	vp_assert((i64)PC::two().v == E(Num{REG, false, 1, 0}) && (i64)PC::zero().v == 0, "two");
#endif
}
