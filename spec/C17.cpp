#include "contracts.h"
// two sequences of legal patterns
static u64 LEN, SEED;
#ifdef VP_NATIVE
static i64 seq(u64 id, u64 pos)
{
	u64 x = (SEED * 2 + id) * 0x9E3779B97F4A7C15ull + pos * 0xD1B54A32D192ED03ull;
	x ^= x >> 31;
	x *= 0xBF58476D1CE4E5B9ull;
	x ^= x >> 29;
	x *= 0x94D049BB133111EBull;
	x ^= x >> 32;
	i64 v = legalpat(x);
	int k = (x >> 50) & 63;
	if ((SEED & 7) == 0 ? k < 3 : k == 0 && (SEED & 7) < 3) return k == 0 ? 0 : k == 1 ? top<N>() : maxpos<N, SP>();
	if ((SEED & 24) == 8) v >>= (x >> 58) % (N - 1); // small numbers
	if ((SEED & 24) == 16) return (v & ~(i64)(((u64)7 << (N - 4)))) ^ ((i64)4 << (N - 4)); // about one
	if (isfin<N, SP>(v) || (SEED & 3) == 1) return v;
	return v >> 1;
}
#else
static i64 seq(u64 id, u64 pos) { return legalpat(vp_uf2("seq", id, pos)); }
#endif
struct It
{
	u64 id;
	i64 pos;
	P operator*() const
	{
		vp_assert(pos >= 0 && (u64)pos < LEN, "only the first n elements are read");
		return mkp(seq(id, (u64)pos));
	}
	P operator[](i64 k) const { return *(*this + k); }
	It &operator++() { pos++; return *this; }
	It operator++(int) { It r = *this; pos++; return r; }
	It &operator--() { pos--; return *this; }
	It operator--(int) { It r = *this; pos--; return r; }
	It &operator+=(i64 k) { pos += k; return *this; }
	It operator+(i64 k) const { return It{id, pos + k}; }
	It operator-(i64 k) const { return It{id, pos - k}; }
	i64 operator-(const It &o) const { return pos - o.pos; }
	bool operator==(const It &o) const { return pos == o.pos; }
	bool operator!=(const It &o) const { return pos != o.pos; }
	bool operator<(const It &o) const { return pos < o.pos; }
};
#ifndef VP_NOCONTRACTS
static UT prod(u64 pos) { return mkp(seq(1, pos)).unpack() * mkp(seq(2, pos)).unpack(); }
// S(k) is the unpacked sum of the first k products; a sum of k numbers below 2^(M+1) is below k 2^(M+1)
constexpr i64 M = 2 * ((i64)(N - 2) << ES) + 1, L = 2 * minexp<N, ES, SP>() + 2 - W;
static bool bounded(const Num &x, u64 k)
{
	if (x.cls != REG) return true;
	return x.exp >= L && x.exp <= M + 32 &&
	       (x.exp <= M || (u128)(((u128)1 << W) | (x.frac >> (64 - W))) << ((x.exp - M) & 63) <= (u128)k << (W + 1));
}
static bool numeq(const Num &a, const Num &b)
{
	return a.cls == b.cls && (a.cls == NANC || a.neg == b.neg) && (a.cls != REG || (a.exp == b.exp && a.frac == b.frac));
}
#ifndef VP_NATIVE
static Num S(u64 k)
{
	u64 c = vp_uf1("S.class", k);
	Num n{(int)(c & 3), (c & 3) != ZERO && (c & 4) != 0, (i64)vp_uf1("S.exp", k), vp_uf1("S.frac", k) << (64 - W)};
	vp_assume(bounded(n, k)); // ob_lemma_bound, by induction on k
	return k == 0 ? special(ZERO, false) : n;
}
extern "C" u64 loop_size() { return sizeof(UT); }
extern "C" void loop_set(UT *a, u64 k) { *a = make(S(k)); }
extern "C" bool loop_is(const UT *a, u64 k) { return same(*a, S(k)); }
extern "C" bool loop_in(u64 k) { return k <= LEN; }
extern "C" void loop_step(u64 k) { vp_assume(numeq(S(k + 1), s_add(make(S(k)), prod(k)))); }
#else
static Num S(u64 k)
{
	UT r = mku(ZERO, false, 0, 0);
	for (u64 i = 0; i < k; i++)
	{
		Num n = s_add(r, prod(i));
		r = mku(n.cls, n.neg, n.exp, n.frac >> (64 - W));
	}
	return num(r);
}
static void loop_step(u64) {}
#endif
#endif
// the first step of the induction and every other
extern "C" void ob_lemma_bound__useuseu(u64 k, u64 s, u64 e, u64 f, u64 s2, u64 e2, u64 f2)
{
	vp_assume(k < (u64)1 << 31);
	UT x = mku(s & 3, (s >> 2) & 1, (i64)(ET)e, (FT)f), y = mku(s2 & 3, (s2 >> 2) & 1, (i64)(ET)e2, (FT)f2);
	vp_assume(!(x.type == UT::Zero && x.negativeSign) && !(y.type == UT::Zero && y.negativeSign));
	vp_assume(k == 0 ? x.type == UT::Zero : bounded(num(x), k));
	vp_assume(y.type != UT::Regular || ((i64)y.exponent <= M && (i64)y.exponent >= L - 2 + W));
	vp_assert(canona(x) && canona(y), "operands of sums have room");
	vp_assert(bounded(s_add(x, y), k + 1), "k+1 terms");
}
static inline P dotof(int n)
{
	It a{1, 0}, b{2, 0};
	return P::dot(a, b, n);
}
extern "C" void ob_dot__iu(u64 nu, u64 seed)
{
	int n = (int)nu;
#ifdef VP_NATIVE
	n = nu % 999 == 0 ? (int)(nu % 70001) : nu % 5 == 0 ? (int)(nu % 997) : (int)(nu % 12) - 2;
#endif
	LEN = n < 0 ? 0 : (u64)n;
	SEED = seed;
	loop_step(0);
	P r = dotof(n);
	vp_assert(n >= 1 ? is(r, S(LEN)) : r.v == 0, "the packed sum of the products");
}
// stands in for the above, for code whose loop the invariant does not fit
extern "C" void ob_dot_upto__iu(u64 nu, u64 seed)
{
	SEED = seed;
	LEN = 0;
	vp_assert(dotof(0).v == 0 && dotof(-1).v == 0, "nothing to add");
	UT s = mku(ZERO, false, 0, 0);
	for (int n = 1; n <= 2; n++)
	{
		LEN = n;
		s = make(s_add(s, prod(n - 1)));
		vp_assert(is(dotof(n), num(s)), "the packed sum of the products");
	}
}
extern "C" void ob_dot_one__pp(u64 a, u64 b)
{
	const P x[1] = {mkp(legalpat(a))}, y[1] = {mkp(legalpat(b))};
	vp_assert(P::dot(x, y, 1).v == (x[0] * y[0]).v, "one pair");
}
