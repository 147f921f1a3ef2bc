// Bit helpers; VT is the unsigned word type.
#include "vp.h"
#include <limits>
#include <type_traits>
#include "typehelpers.hpp"
using namespace vp;
typedef VT T;
constexpr int W = sizeof(T) * 8;
static inline u64 low(i64 n) { return n <= 0 ? 0 : n >= 64 ? ~(u64)0 : ((u64)1 << n) - 1; }
// bit i of a word, written as what is left and right of it
static inline u64 field(u64 x, i64 off, i64 n) { return shr64(x, off) & low(n); }
// x with the n bits from off on replaced by those of y
static inline u64 with(u64 x, u64 y, i64 off, i64 n) { return (x & ~shl64(low(n), off)) | shl64(y & low(n), off); }
static inline bool place(i64 off, i64 n) { return off >= 0 && n >= 0 && off < W && off + n <= W; }

extern "C" void ob_mask__i(u64 n)
{
	vp_assume(n <= W);
	u64 m = (u64)bitmask<T>((unsigned)n);
	vp_assert(m == (low(n)), "exactly the n low bits");
}
extern "C" void ob_leftmost__u(u64 a)
{
	T x = (T)a;
	vp_assume(x != 0);
	int k = findbitleftmostC(x);
	vp_assert(k >= 0 && k < W && ((u64)x >> ((W - 1 - k) & 63)) == 1, "leading zeros");
}
extern "C" void ob_get__uii(u64 x, u64 off, u64 n)
{
	vp_assume(off < W && n <= W && place((i64)off, (i64)n));
	vp_assert((u64)(bitset_get<T>)((T)x, (int)off, (int)n) == field((T)x, off, n), "field read");
#ifdef __BMI__
	if (W == 16) vp_assert((u64)bitset_gethw((uint16_t)x, (int)off, (int)n) == field((T)x, off, n), "field read by the instruction");
	if (W == 32) vp_assert((u64)bitset_gethw((uint32_t)x, (int)off, (int)n) == field((T)x, off, n), "field read by the instruction");
#endif
}
extern "C" void ob_part__uuii(u64 x, u64 y, u64 off, u64 n)
{
	vp_assume(off < W && n <= W && place((i64)off, (i64)n));
	vp_assert((u64)(bitset_part<T, T>)((T)x, (T)y, (int)off, (int)n) == with((T)x, y, off, n), "field written");
	vp_assert((u64)(bitset_part<T, u64>)((T)x, y, (int)off, (int)n) == with((T)x, y, off, n), "field written from a wider word");
	vp_assert((u64)(bitset_part<T, uint8_t>)((T)x, (uint8_t)y, (int)off, (int)n) == with((T)x, (uint8_t)y, off, n), "field written from a narrower word");
	T z = bitset_part<T, T>((T)x, (T)y, (int)off, (int)n);
	vp_assert((u64)(bitset_get<T>)(z, (int)off, (int)n) == (y & low(n)), "reads what was written");
}
// compile-time positions: every field of narrow words, a spread of fields of wide ones
template <int O, int S, bool IN = (O < W && O + S <= W)> struct at
{
	static bool get(T) { return true; }
	static bool part(T, u64) { return true; }
	static bool left(T) { return true; }
};
template <int O, int S> struct at<O, S, true>
{
	static bool get(T x)
	{
#ifdef __BMI__
		bool hw = (u64)bitset_gethwT<O, S>(x) == field(x, O, S);
#else
		bool hw = true;
#endif
		return hw & (u64)(T)(bitset_get<T, O, S>(x)) == field(x, O, S) & (u64)(T)bitset_getT(x, O, S) == field(x, O, S);
	}
	static bool part(T x, u64 y)
	{
		return (u64)(T)(bitset_part<T, T, O, S>(x, (T)y)) == with(x, (T)y, O, S) && (u64)(T)(bitset_part<T, u64, O, S>(x, y)) == with(x, y, O, S);
	}
};
template <int O, int S, int STEP, bool END = (O + S > W || S > W)> struct row
{
	static bool get(T x) { return at<O, S>::get(x) & row<O, S + STEP, STEP>::get(x); }
	static bool part(T x, u64 y) { return at<O, S>::part(x, y) & row<O, S + STEP, STEP>::part(x, y); }
};
template <int O, int S, int STEP> struct row<O, S, STEP, true>
{
	static bool get(T) { return true; }
	static bool part(T, u64) { return true; }
};
template <int O, int STEP, bool END = (O >= W)> struct rows
{
	static bool get(T x) { return row<O, (O % STEP), STEP>::get(x) & at<O, W - O>::get(x) & rows<O + STEP, STEP>::get(x); }
	static bool part(T x, u64 y) { return row<O, (O % STEP), STEP>::part(x, y) & at<O, W - O>::part(x, y) & rows<O + STEP, STEP>::part(x, y); }
};
template <int O, int STEP> struct rows<O, STEP, true>
{
	static bool get(T) { return true; }
	static bool part(T, u64) { return true; }
};
#ifndef VSTEP
#define VSTEP 0
#endif
constexpr int STEP = VSTEP ? VSTEP : W <= 16 ? 1 : W == 32 ? 3 : 7;
extern "C" void ob_getT__u(u64 x) { vp_assert(rows<0, STEP>::get((T)x), "field read"); }
extern "C" void ob_partT__uu(u64 x, u64 y) { vp_assert(rows<0, STEP>::part((T)x, y), "field written"); }
template <int A, int B, bool ONE = A + 1 == B> struct lefts // widths A to B-1
{
	static bool ok(T x) { return lefts<A, (A + B) / 2>::ok(x) & lefts<(A + B) / 2, B>::ok(x); }
};
template <int S, int B> struct lefts<S, B, true>
{
	static bool ok(T x) { return (u64)bitset_leftmost_get_const<T, S>()(x) == (S == 0 ? 0 : (u64)x >> ((W - S) & 63)); }
};
extern "C" void ob_left__u(u64 x) { vp_assert(lefts<0, W + 1>::ok((T)x), "leftmost bits"); }

// absolute value of the signed word of the same width
typedef std::make_signed<T>::type S;
extern "C" void ob_abs__u(u64 a)
{
	S x = (S)a;
	vp_assume(x != (S)((u64)1 << (W - 1)));
	u64 m = (i64)x < 0 ? (u64)0 - (u64)(i64)x : (u64)(i64)x;
	vp_assert((u64)(i64)pabs<S>(x) == m, "without a branch");
	vp_assert((u64)(i64)pcabs<S>(x) == m, "with a branch");
}

// changes of width, aligned on the left: A bits wide to B bits wide in words AT, BT
template <int A, int B> static inline u64 realign(u64 x) { return A > B ? x >> ((A - B) & 63) : x << ((B - A) & 63); }
template <class BT, int A, int B> static inline bool casts(T x)
{
	T v = (T)(x & low(A));
	return (u64)cast_msb<T, A, BT, B>()(v) == realign<A, B>(v) & (u64)cast_right_to_left<T, A, BT, B>()(x) == realign<A, B>(v);
}
template <class BT> static inline bool caststo(T x)
{
	constexpr int V = sizeof(BT) * 8;
	return casts<BT, W, V>(x) & casts<BT, W - 1, V>(x) & casts<BT, W / 2, V>(x) & casts<BT, 1, V>(x) & casts<BT, W, V - 1>(x) & casts<BT, W, 1>(x) &
	       casts<BT, W - 3, V - 5>(x) & casts<BT, W / 2 + 1, V / 2>(x) & casts<BT, 5, 5>(x) & casts<BT, 3, 5>(x) & casts<BT, 7, 2>(x);
}
extern "C" void ob_cast__u(u64 x)
{
	vp_assert(caststo<uint8_t>((T)x), "to 8 bits");
	vp_assert(caststo<uint16_t>((T)x), "to 16 bits");
	vp_assert(caststo<uint32_t>((T)x), "to 32 bits");
	vp_assert(caststo<uint64_t>((T)x), "to 64 bits");
}

// double width
typedef nextinttype<T>::type DT;
extern "C" void ob_mul__uu(u64 a, u64 b)
{
	vp_assert(sizeof(DT) == 2 * sizeof(T), "twice the width");
	vp_assert((u128)(DT)nextintop<T>::extramul((T)a, (T)b) == (u128)(T)a * (u128)(T)b, "exact product");
}
static inline DT two(u64 hi, u64 lo) { return (DT)(((u128)(T)hi << W) | (T)lo); }
extern "C" void ob_div__uuu(u64 hi, u64 lo, u64 b)
{
	vp_assume((T)b != 0);
	DT a = two(hi, lo);
	vp_assert((DT)nextintop<T>::extradiv(a, (T)b) == (DT)(a / (DT)(T)b), "exact truncated quotient");
}
#if VS
typedef nextinttype<S>::type DS;
extern "C" void ob_smul__uu(u64 a, u64 b)
{
	vp_assert((i64)(DS)nextintop<S>::extramul((S)a, (S)b) == (i64)(S)a * (i64)(S)b, "exact signed product");
}
extern "C" void ob_sdiv__uu(u64 a, u64 b)
{
	vp_assume((S)b != 0 && !((DS)a == std::numeric_limits<DS>::min() && (S)b == -1));
	vp_assert((DS)nextintop<S>::extradiv((DS)a, (S)b) == (DS)((DS)a / (DS)(S)b), "exact truncated signed quotient");
}
#endif
// the least word of at least n bits
template <int A, int B, bool ONE = A + 1 == B> struct least
{
	static bool ok() { return least<A, (A + B) / 2>::ok() & least<(A + B) / 2, B>::ok(); }
};
template <int N, int B> struct least<N, B, true>
{
	static bool ok()
	{
		constexpr int b = sizeof(typename int_least_bits<N>::signed_type) * 8, u = sizeof(typename int_least_bits<N>::unsigned_type) * 8;
		return b == u && b >= N && (b == 8 || b / 2 < N);
	}
};
extern "C" void ob_least() { vp_assert((least<1, 129>::ok()), "least word that is wide enough"); }
