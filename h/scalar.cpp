// Scalar helper monitor: against wide-integer definitions, exhaustively for the
// small widths and at the boundaries of the wide ones.
#include "kv.h"
#include <algorithm>
#include <math.h>
#include <initializer_list>
#include "hal/platform_math.h"
typedef __int128 I; typedef unsigned __int128 U; typedef PlatformMath PM;

template<typename T> struct Lim { static constexpr bool sgn = T(-1) < T(0); static constexpr int bits = sizeof(T) * 8; static I lo() { return sgn ? -((I)1 << (bits - 1)) : 0; } static I hi() { return sgn ? ((I)1 << (bits - 1)) - 1 : ((I)1 << bits) - 1; } };
template<typename T> static const char * nm() { static char b[2][16]; snprintf(b[Lim<T>::sgn], 16, "%sint%d", Lim<T>::sgn ? "" : "u", Lim<T>::bits); return b[Lim<T>::sgn]; }
#define LL(x) ((long long)(x))

/// A value near some boundary
template<typename T> static T edge(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: return (T)R.next();
		case 1: return (T)(Lim<T>::hi() - (I)R.below(4));
		case 2: return (T)(Lim<T>::lo() + (I)R.below(4));
		case 3: return (T)(((I)1 << R.below(Lim<T>::bits)) + (I)R.range(-2, 2));
		case 4: return (T)R.range(-5, 5);
		default: return (T)(R.next() >> R.below(64));
	}
}
template<typename T> static void unary(T v)
{
	++kv::G.checks;
	if (!Lim<T>::sgn || (I)v > Lim<T>::lo()) { const T a = PM::abs(v); EXPECT((I)a == ((I)v < 0 ? -(I)v : (I)v), "abs", "abs(%lld) of %s is %lld", LL(v), nm<T>(), LL(a)); }
	if (v > 0) { int l = 0; for (U x = (U)(I)v; x > 1; x >>= 1) ++l; const T r = PM::log2(v); EXPECT((I)r == l, "log2", "log2(%llu) of %s is %lld instead of %d", (unsigned long long)v, nm<T>(), LL(r), l); }
}
template<typename T> static void aligns(T v, int sh)
{
	const I a = (I)1 << sh, q = ((I)v >= 0 ? (I)v / a : -((-(I)v + a - 1) / a)), down = q * a, up = down + a;
	if (down >= Lim<T>::lo()) { const T r = PM::align2Down(v, (sizet)a); EXPECT((I)r == down, "align-down", "align2Down(%lld, 2^%d) of %s is %lld", LL(v), sh, nm<T>(), LL(r)); }
	if (up <= Lim<T>::hi()) { const T r = PM::align2Up(v, (sizet)a); EXPECT((I)r == up, "align-up", "align2Up(%lld, 2^%d) of %s is %lld", LL(v), sh, nm<T>(), LL(r)); }
}
template<typename T> static void pairwise(T a, T b)
{
	EXPECT(PM::min(a, b) == (a < b ? a : b) && PM::max(a, b) == (a < b ? b : a), "min-max", "min or max of %lld and %lld (%s): %lld, %lld", LL(a), LL(b), nm<T>(), LL(PM::min(a, b)), LL(PM::max(a, b)));
}
template<typename T> static void lists(kv::Rng & R)
{
	T v[6]; for (T & x : v) x = R.chance(1, 3) ? (T)R.below(3) : edge<T>(R); T lo[7], hi[7]; lo[0] = hi[0] = v[0];
	for (int i = 1; i < 6; ++i) { lo[i] = v[i] < lo[i - 1] ? v[i] : lo[i - 1]; hi[i] = v[i] > hi[i - 1] ? v[i] : hi[i - 1]; }
	kv::T("min and max of %s %lld %lld %lld %lld %lld %lld", nm<T>(), LL(v[0]), LL(v[1]), LL(v[2]), LL(v[3]), LL(v[4]), LL(v[5]));
	EXPECT(PM::min(v[0], v[1]) == lo[1] && PM::min(v[0], v[1], v[2]) == lo[2] && PM::min(v[0], v[1], v[2], v[3]) == lo[3] && PM::min(v[0], v[1], v[2], v[3], v[4]) == lo[4] && PM::min(v[0], v[1], v[2], v[3], v[4], v[5]) == lo[5], "min", "minimum of several values");
	EXPECT(PM::max(v[0], v[1]) == hi[1] && PM::max(v[0], v[1], v[2]) == hi[2] && PM::max(v[0], v[1], v[2], v[3]) == hi[3] && PM::max(v[0], v[1], v[2], v[3], v[4]) == hi[4] && PM::max(v[0], v[1], v[2], v[3], v[4], v[5]) == hi[5], "max", "maximum of several values");
	COV("lists");
	// Operands of two types, where the result is exact in the first
	{
		const int32 a = (int32)R.next(); const int64 b = R.chance(1, 2) ? (int64)R.next() : (int64)(((uint64)R.below(8) << 32 | (uint32)a) + R.range(-3, 3)); const float64 f = (float64)R.range(-2147483648ll, 2147483647ll); const int16 h = (int16)R.next(); const uint8 u = (uint8)R.next();
		if (b > a || b == (int32)b) EXPECT(PM::min(a, b) == (b < a ? (int32)b : a), "min-max", "min of %d and %lld", a, LL(b)); if (b < a || b == (int32)b) EXPECT(PM::max(a, b) == (b > a ? (int32)b : a), "min-max", "max of %d and %lld", a, LL(b));
		EXPECT(PM::min(b, a) == (a < b ? a : b) && PM::max(b, a) == (a > b ? a : b), "min-max", "min or max of %lld and %d", LL(b), a);
		EXPECT(PM::min(f, a) == (a < f ? a : f) && PM::max(f, a) == (a > f ? a : f) && PM::min(a, f) == (f < a ? (int32)f : a) && PM::max(a, f) == (f > a ? (int32)f : a), "min-max", "min or max of %g and %d", f, a);
		EXPECT(PM::min(h, u) == (u < h ? u : h) && PM::max(h, u) == (u > h ? u : h), "min-max", "min or max of %d and %d", h, u); EXPECT(PM::max(b, a, h, u) == (int64)std::max<int64>(std::max<int64>(b, a), std::max<int64>(h, u)) && PM::min(b, a, h, u) == (int64)std::min<int64>(std::min<int64>(b, a), std::min<int64>(h, u)), "min-max", "min or max of several types"); COV("lists:mixed");
	}
}
template<typename T, typename E> static void power(T x, E y)
{
	if (y < 0) return; I r = 1; bool fits = true; for (E i = 0; i < y && fits; ++i) { fits = !__builtin_mul_overflow(r, (I)x, &r) && r >= Lim<T>::lo() && r <= Lim<T>::hi(); if (x == 0 || x == 1) break; if (x == (T)-1 && Lim<T>::sgn) { r = (y & 1) ? -1 : 1; break; } }
	if (y == 0) r = 1;
	if (!fits) return; COV("pow:representable");
	const T p = PM::pow(x, y); EXPECT((I)p == r, "pow", "pow(%lld, %lld) of %s is %lld", LL(x), LL(y), nm<T>(), LL(p));
}
template<typename T> static void powers(kv::Rng & R)
{
	for (int i = 0; i < 12; ++i) { const T x = R.chance(1, 2) ? (T)R.range(-12, 12) : edge<T>(R); const int y = (int)R.below(R.chance(1, 3) ? 70 : 8); power<T, int32>(x, y); power<T, uint64>(x, (uint64)y); power<T, uint8>(x, (uint8)y); }
}
template<typename T> static void wide(kv::Rng & R)
{
	const T v = edge<T>(R), u = edge<T>(R); kv::T("%s %lld %lld", nm<T>(), LL(v), LL(u)); unary(v); unary(u); pairwise(v, u); pairwise(u, v); pairwise(v, v);
	for (int sh = 0; sh < Lim<T>::bits - (Lim<T>::sgn ? 1 : 0); ++sh) { aligns(v, sh); aligns((T)(((I)u >> sh) * ((I)1 << sh)), sh); }
	lists<T>(R); powers<T>(R); kv::state(kv::mix((kv::u64)v)); kv::nontrivial();
}
static void wides(kv::Rng & R)
{
	switch (R.below(8)) { case 0: wide<int64>(R); break; case 1: wide<uint64>(R); break; case 2: wide<int32>(R); break; case 3: wide<uint32>(R); break; case 4: wide<int16>(R); break; case 5: wide<uint16>(R); break; case 6: wide<int8>(R); break; default: wide<uint8>(R); }
}
/// One slice of all values of the 8 and 16 bit types
template<typename T> static void slice(kv::Rng & R, kv::u64 part, kv::u64 parts)
{
	const I lo = Lim<T>::lo(), n = Lim<T>::hi() - lo + 1; kv::T("all %s, slice %llu", nm<T>(), (unsigned long long)part);
	for (I i = lo + n * part / parts; i < lo + n * (part + 1) / parts; ++i)
	{
		const T v = (T)i; unary(v); for (int sh = 0; sh < Lim<T>::bits - (Lim<T>::sgn ? 1 : 0); ++sh) aligns(v, sh);
		for (int q = 0; q < 8; ++q) pairwise(v, (T)(i + q - 4)); pairwise(v, (T)R.next()); for (int y = 0; y < 9; ++y) power<T, int32>(v, y);
	}
	kv::nontrivial(); COV("exhaustive-slice");
}
static void slices(kv::Rng & R)
{
	const kv::u64 c = kv::G.caseIdx % 512; kv::state(kv::mix(c)); slice<int16>(R, c, 512); slice<uint16>(R, c, 512); if (c < 2) { slice<int8>(R, c, 2); slice<uint8>(R, c, 2); }
}
static void reals(kv::Rng & R)
{
	const float32 x = (float32)((R.unit() - 0.5) * pow(10, (double)R.range(-5, 5))), y = (float32)((R.unit() - 0.5) * 10); const float64 d = (R.unit() - 0.5) * 1e9; const int e = (int)R.below(12); kv::T("reals %.9g %.9g %.17g %d", x, y, d, e);
	EXPECT(PM::abs(x) == fabsf(x) && PM::abs(d) == fabs(d) && PM::abs(-x) == fabsf(x) && PM::abs(0.f) == 0.f, "abs", "absolute value of %g or %g", x, d);
	EXPECT(PM::min(x, y) == fminf(x, y) && PM::max(x, y) == fmaxf(x, y) && PM::max(x, y, 1.f, -2.f) == fmaxf(fmaxf(x, y), 1.f) && PM::min(x, y, 1.f, -2.f) == fminf(fminf(x, y), -2.f), "min-max", "minimum or maximum of reals");
	double r = 1; for (int i = 0; i < e; ++i) r *= (double)y; const double p = PM::pow(y, e); EXPECT(fabs(p - r) <= 3e-6 * fabs(r) + 1e-37, "pow", "pow(%g, %d) is %g instead of %g", y, e, p, r); const double pd = PM::pow((double)y, e); EXPECT(fabs(pd - r) <= 1e-13 * fabs(r) + 1e-300, "pow", "pow(%g, %d) is %g instead of %g", y, e, pd, r);
	auto ok = [](float32 a, double b) { return (a != a && b != b) || fabs((double)a - b) <= 1e-6 * (fabs(b) + 1e-3); };
	EXPECT(ok(PM::sin(y), sin((double)y)) && ok(PM::cos(y), cos((double)y)) && ok(PM::sqrt(fabsf(x)), sqrt(fabs((double)x))) && ok(PM::atan(y), atan((double)y)), "function", "an elementary function of %g or %g", x, y);
	const float32 u = (float32)(R.unit() * 2 - 1); EXPECT(ok(PM::asin(u), asin((double)u)) && ok(PM::acos(u), acos((double)u)) && ok(PM::tan(u), tan((double)u)), "function", "an elementary function of %g", u);
	const float32 b = fabsf(y) + 0.1f; const double pw = pow((double)b, (double)u * 3); EXPECT(fabs(PM::pow(b, u * 3.f) - pw) <= 1e-5 * pw, "function", "pow(%g, %g)", b, u * 3.f);
	static_assert(PM::min(3, 1, 2) == 1 && PM::max(3, 1, 2) == 3 && PM::abs(-4) == 4 && PM::align2Up(7, 4) == 8, ""); COV("reals"); kv::nontrivial();
}
KV_MAIN({"wide", wides, false}, {"exhaustive", slices, false}, {"reals", reals, false})
