// Specification vocabulary: what a posit pattern denotes and how a real number
// is encoded.  Written from the format's definition, independent of the code
// under verification; compiles natively (replay) and to verification conditions.
#pragma once
#include <cstdint>
#include <cstddef>

typedef uint64_t u64;
typedef int64_t i64;
typedef unsigned __int128 u128;
typedef __int128 i128;

extern "C" {
void vp_assume(bool);
void vp_assert(bool, const char *);
void vp_cover(bool, const char *);
u64 vp_nondet64();
u64 vp_uf1(const char *, u64);
u64 vp_uf2(const char *, u64, u64);
u64 vp_uf5(const char *, u64, u64, u64, u64, u64);
bool vp_isconst(u64); // the argument is a constant of the verification condition
void vp_split(u64, i64, i64); // prove separately for each value of the input in the range, and for the rest
}

static inline void vp_lemma(bool c, const char *l) // proved, then used
{
	vp_assert(c, l);
	vp_assume(c);
}

namespace vp {

enum Cls { REG = 0, INF = 1, NANC = 2, ZERO = 3 }; // same numbering as Unpacked::Type
enum Spec { WithNan = 0, WithInf = 1, WithNanInf = 2 };

struct Num
{
	int cls;
	bool neg;
	i64 exp;  // value is (-1)^neg * 2^exp * (1 + frac/2^64)
	u64 frac;
};

template <int N> constexpr i64 top() { return (i64)(~(u64)0 << (N - 1)); }          // 1000..0 sign extended
template <int N, int SPEC> constexpr i64 maxpos() { return ~top<N>() - (SPEC == WithNanInf ? 1 : 0); }
template <int N, int SPEC> constexpr i64 lowest() { return -maxpos<N, SPEC>(); }
template <int N> constexpr bool legal(i64 v) { return (i64)((u64)v << (64 - N)) >> (64 - N) == v; } // N-bit two's complement, sign extended
template <int N, int SPEC> constexpr bool isnan_(i64 v) { return SPEC != WithInf && v == top<N>(); }
template <int N, int SPEC> constexpr bool isinf_(i64 v)
{
	return SPEC == WithInf ? v == top<N>() : SPEC == WithNanInf ? (v == ~top<N>() || v == top<N>() + 1) : false;
}
template <int N, int SPEC> constexpr bool isfin(i64 v) { return legal<N>(v) && v <= maxpos<N, SPEC>() && v >= lowest<N, SPEC>(); }
template <int N, int SPEC> constexpr bool isnum(i64 v) { return isfin<N, SPEC>(v) && v != 0; }
template <int N, int ES, int SPEC> constexpr i64 maxexp() { return ((i64)(N - (SPEC == WithNanInf ? 3 : 2))) << ES; }
template <int N, int ES, int SPEC> constexpr i64 minexp() { return -(((i64)(N - 2)) << ES); }

inline u64 shr64(u64 x, i64 n) { return (u64)n > 63 ? 0 : x >> (n & 63); }
inline u64 shl64(u64 x, i64 n) { return (u64)n > 63 ? 0 : x << (n & 63); }

// number of bits equal to the first one, from the left, among the first n
inline int run(u64 x, int n)
{
	int k = 0;
	u64 first = x >> 63;
	bool on = true;
	for (int i = 0; i < n; i++)
	{
		on = on && ((x >> (63 - i)) & 1) == first;
		k = on ? i + 1 : k;
	}
	return k;
}

// magnitude bits (N-1 of them, right aligned, not zero) -> regime, exponent bits, fraction
struct Low
{
	i64 regime;
	u64 e, frac;
};
template <int N, int ES> Low dec_low_(u64 mag)
{
	u64 x = mag << (64 - (N - 1));
	int k = run(x, N - 1);
	i64 regime = (x >> 63) ? k - 1 : -k;
	// drop the regime and its terminator (there is none when it fills the word)
	u64 y = k >= N - 1 ? 0 : shl64(x, k) << 1;
	u64 e = ES == 0 ? 0 : y >> ((64 - ES) & 63);
	return Low{regime, e, y << ES};
}
template <int N, int ES> Low dec_low(u64 mag) { return dec_low_<N, ES>(mag); } // replaced by its facts (abstract.h)
template <int N, int ES> Num dec_mag(u64 mag, bool neg)
{
	Low l = dec_low<N, ES>(mag);
	return Num{REG, neg, l.regime * ((i64)1 << ES) + (i64)l.e, l.frac};
}

template <int N, int ES, int SPEC> Num dec(i64 v)
{
	if (isnan_<N, SPEC>(v)) return Num{NANC, false, 0, 0};
	if (isinf_<N, SPEC>(v)) return Num{INF, v < 0, 0, 0};
	if (v == 0) return Num{ZERO, false, 0, 0};
	return dec_mag<N, ES>(v < 0 ? (u64)0 - (u64)v : (u64)v, v < 0);
}

// largest posit magnitude not above 2^exp * (1 + frac/2^64), saturated to [minpos,maxpos]
template <int N, int ES, int SPEC> u64 enc_mag_(i64 exp, u64 frac)
{
	if (exp < minexp<N, ES, SPEC>()) return 1;
	if (exp > maxexp<N, ES, SPEC>()) return (u64)maxpos<N, SPEC>();
	i64 k = exp >> ES;
	u64 e = (u64)exp & (((u64)1 << ES) - 1);
	// the shortest regime takes two bits: at most N-3-ES fraction bits are kept
	frac = N - 3 - ES <= 0 ? 0 : frac & ~(~(u64)0 >> (N - 3 - ES));
	u64 ef = ES == 0 ? frac : (e << ((64 - ES) & 63)) | (frac >> ES);
	// regime: k >= 0: k+1 ones and a zero; k < 0: -k zeros and a one
	int len = k >= 0 ? (int)k + 2 : (int)-k + 1;
	u64 reg = k >= 0 ? ~shr64(~(u64)0 >> 1, k) : shr64((u64)1 << 63, -k);
	u64 body = reg | shr64(ef, len);
	u64 m = body >> (64 - (N - 1));
	return m > (u64)maxpos<N, SPEC>() ? (u64)maxpos<N, SPEC>() : m;
}

template <int N, int ES, int SPEC> u64 enc_mag(i64 exp, u64 frac) { return enc_mag_<N, ES, SPEC>(exp, frac); }
template <int N, int ES, int SPEC> i64 enc(const Num &x)
{
	if (x.cls == REG)
	{
		u64 m = enc_mag<N, ES, SPEC>(x.exp, x.frac);
		return x.neg ? -(i64)m : (i64)m;
	}
	if (x.cls == ZERO) return 0;
	if (x.cls == INF) return SPEC == WithNanInf ? (x.neg ? top<N>() + 1 : ~top<N>()) : top<N>();
	return top<N>(); // NaN, or the only infinity
}

} // namespace vp
