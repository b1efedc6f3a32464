// Vector and matrix monitors: every operator against its scalar definition.
#include "kv.h"
#include <math.h>
#include "math/math.h"
#include "math/mat4.h"

template<typename T> struct Num { static const char * name(); static constexpr bool real = false; };
template<> const char * Num<int32>::name() { return "int32"; } template<> const char * Num<uint32>::name() { return "uint32"; } template<> const char * Num<int64>::name() { return "int64"; } template<> const char * Num<uint64>::name() { return "uint64"; }
template<> struct Num<float32> { static const char * name() { return "float32"; } static constexpr bool real = true; };
template<> struct Num<float64> { static const char * name() { return "float64"; } static constexpr bool real = true; };

template<typename T> static T value(kv::Rng & R)
{
	if (Num<T>::real) switch (R.below(8)) { case 0: return (T)R.range(-3, 3); case 1: return (T)0; case 2: return (T)(R.unit() * 1e-3); case 3: return (T)((R.unit() - 0.5) * 1e6); case 4: return (T)-0.0; default: return (T)((R.unit() - 0.5) * 20); }
	if (sizeof(T) == 8 && R.chance(1, 2)) return (T)R.range(-(1ll << 30), 1ll << 30);
	switch (R.below(5)) { case 0: return (T)R.range(-3, 3); case 1: return (T)R.below(3); case 2: return (T)R.range(-15000, 15000); default: return (T)R.range(-100, 100); }
}
template<typename T> static bool same(T a, T b) { return a == b || (a != a && b != b); }
/// Sums may be associated in any order
template<typename T> static bool near(T a, T b, double scale) { return Num<T>::real ? fabs((double)a - (double)b) <= (sizeof(T) == 4 ? 1e-6 : 1e-14) * scale * 4 + (sizeof(T) == 4 ? 1e-37 : 1e-300) : a == b; }

template<template<typename> class V, int N, typename T> struct Ops
{
	using X = V<T>; typedef T Arr[N];
	static X mk(const T * v) { X x; for (int i = 0; i < N; ++i) x.array[i] = v[i]; return x; }
	static void eq(const X & x, const T * v, const char * w)
	{
		for (int i = 0; i < N; ++i) EXPECT(same(x.array[i], v[i]) && same(x[i], v[i]), w, "Vec%d<%s> %s: component %d is %.9g instead of %.9g", N, Num<T>::name(), w, i, (double)x[i], (double)v[i]);
	}
	static void run(kv::Rng & R)
	{
		Arr a, b, r, o; T s = value<T>(R), d = value<T>(R);
		for (int i = 0; i < N; ++i) { a[i] = value<T>(R); b[i] = R.chance(1, 3) ? a[i] : value<T>(R); }
		kv::T("Vec%d<%s> %.9g", N, Num<T>::name(), (double)s); for (int i = 0; i < N; ++i) kv::T(" %.9g %.9g", (double)a[i], (double)b[i]);
		X x = mk(a), y = mk(b); const X cx = mk(a), cy = mk(b);
		// element access and construction
		eq(x, a, "access"); for (int i = 0; i < N; ++i) { r[i] = s; o[i] = 0; } eq(X(s), r, "scalar constructor"); eq(X(), o, "default constructor");
		const T * comp[4]; names(cx, comp); for (int i = 0; i < N; ++i) EXPECT(same(*comp[i], a[i]), "component", "Vec%d<%s>: named component %d differs from the indexed one", N, Num<T>::name(), i);
		{ X z = cx; const int i = (int)R.below(N); z[i] = s; for (int q = 0; q < N; ++q) r[q] = q == i ? s : a[q]; eq(z, r, "write"); }
		// Integer products must not overflow: operands are small enough. Divisors are not zero for integers.
		#define BIN(op, w) do { \
			Arr bb; T ss = s; for (int i = 0; i < N; ++i) bb[i] = b[i]; \
			if ((#op)[0] == '/' && !Num<T>::real) { for (int i = 0; i < N; ++i) if (!bb[i]) bb[i] = (T)3; if (!ss) ss = (T)2; } \
			const X yy = mk(bb); \
			for (int i = 0; i < N; ++i) r[i] = a[i] op bb[i]; eq(cx op yy, r, w " vectors"); eq(cx, a, w " left operand"); eq(yy, bb, w " right operand"); \
			{ X z = cx; X & ref = (z op##= yy); eq(z, r, w " in place"); EXPECT(&ref == &z, "self", "in place " w " does not return itself"); eq(yy, bb, w " right operand"); } \
			for (int i = 0; i < N; ++i) r[i] = a[i] op ss; eq(cx op ss, r, w " scalar"); { X z = cx; X & ref = (z op##= ss); eq(z, r, w " scalar in place"); EXPECT(&ref == &z, "self", "in place " w " does not return itself"); } \
			for (int i = 0; i < N; ++i) r[i] = ss op bb[i]; eq(ss op yy, r, w " scalar on the left"); eq(yy, bb, w " right operand"); \
			{ Arr aa; for (int i = 0; i < N; ++i) aa[i] = bb[i]; X z = mk(aa); for (int i = 0; i < N; ++i) r[i] = aa[i] op aa[i]; z op##= z; eq(z, r, w " own vector"); } \
			{ X z = mk(bb); const int k = (int)R.below(N); const T f = bb[k]; for (int i = 0; i < N; ++i) r[i] = bb[i] op f; z op##= z[k]; eq(z, r, w " own component"); } \
		} while (0)
		BIN(+, "sum"); BIN(-, "difference"); BIN(*, "product"); BIN(/, "quotient"); COV("arithmetic");
		for (int i = 0; i < N; ++i) r[i] = (T)-a[i]; eq(-cx, r, "negation"); eq(cx, a, "negation operand");
		for (int i = 0; i < N; ++i) r[i] = a[i] + b[i]; eq(cy + cx, r, "commuted sum");
		// products
		T dot = 0, sq = 0; double m = 0, ms = 0; for (int i = 0; i < N; ++i) { dot += a[i] * b[i]; sq += a[i] * a[i]; m += fabs((double)a[i] * (double)b[i]); ms += (double)a[i] * (double)a[i]; }
		EXPECT(near(T(cx & cy), dot, m), "dot", "Vec%d<%s>: dot product is %.9g instead of %.9g", N, Num<T>::name(), (double)(cx & cy), (double)dot);
		EXPECT(near(cx.getSquaredSize(), sq, ms), "squared-size", "Vec%d<%s>: squared size is %.9g instead of %.9g", N, Num<T>::name(), (double)cx.getSquaredSize(), (double)sq);
		// comparison masks and operators
		for (int pass = 0; pass < 3; ++pass)
		{
			if (pass) for (int i = 0; i < N; ++i) b[i] = pass == 1 ? a[i] : (T)(a[i] + (T)R.below(2) + (T)(R.chance(1, 2) ? 0 : 1)); if (Num<T>::real && R.chance(1, 20)) { b[R.below(N)] = (T)NAN; COV("nan"); }
			const X u = mk(a), v = mk(b); int e = 0, n = 0, l = 0, g = 0, le = 0, ge = 0; const int full = (1 << N) - 1;
			for (int i = 0; i < N; ++i) { e |= (a[i] == b[i]) << i; n |= (a[i] != b[i]) << i; l |= (a[i] < b[i]) << i; g |= (a[i] > b[i]) << i; le |= (a[i] <= b[i]) << i; ge |= (a[i] >= b[i]) << i; }
			EXPECT(u.cmpeq(v) == e && u.cmpne(v) == n && u.cmplt(v) == l && u.cmpgt(v) == g && u.cmple(v) == le && u.cmpge(v) == ge, "mask", "Vec%d<%s>: a comparison mask is wrong (eq %x ne %x lt %x gt %x le %x ge %x)", N, Num<T>::name(), u.cmpeq(v), u.cmpne(v), u.cmplt(v), u.cmpgt(v), u.cmple(v), u.cmpge(v));
			EXPECT((u == v) == (e == full) && (u != v) == (n == full) && (u < v) == (l == full) && (u > v) == (g == full) && (u <= v) == (le == full) && (u >= v) == (ge == full), "comparison", "Vec%d<%s>: a comparison does not hold exactly if it holds for all components", N, Num<T>::name());
			kv::state(kv::mix(e | l << 4 | g << 8 | N << 12)); if (e == full) COV("compare:equal"); else if (l == full) COV("compare:less"); else COV("compare:mixed");
		}
		(void)d; kv::nontrivial(); conv(R, a);
	}
	static void names(const Vec2<T> & v, const T ** c) { c[0] = &v.x; c[1] = &v.y; EXPECT(&v.u == c[0] && &v.v == c[1], "component", "texture components"); }
	static void names(const Vec3<T> & v, const T ** c) { c[0] = &v.x; c[1] = &v.y; c[2] = &v.z; EXPECT(&v.r == c[0] && &v.g == c[1] && &v.b == c[2], "component", "color components"); }
	static void names(const Vec4<T> & v, const T ** c) { c[0] = &v.x; c[1] = &v.y; c[2] = &v.z; c[3] = &v.w; }
	template<typename U> static void cast(const X & x, const T * a) { V<U> u = x; for (int i = 0; i < N; ++i) EXPECT(u[i] == static_cast<U>(a[i]), "conversion", "Vec%d<%s> to %s: component %d", N, Num<T>::name(), Num<U>::name(), i); }
	static void conv(kv::Rng & R, const T * a)
	{
		T p[N]; for (int i = 0; i < N; ++i) p[i] = (T)(a[i] < 0 ? (T)(a[i] + (T)1000000) : a[i]); // representable in all targets
		for (int i = 0; i < N; ++i) if (!(p[i] >= 0 && p[i] < (T)2000000)) p[i] = (T)R.below(1000);
		const X x = mk(p); cast<int32>(x, p); cast<uint32>(x, p); cast<float32>(x, p); cast<float64>(x, p); COV("conversion");
		// Wide integers keep all their digits
		if constexpr (sizeof(T) == 8 && !Num<T>::real) { T q[N]; for (int i = 0; i < N; ++i) q[i] = (T)(R.next() >> 1 | 1); const X w = mk(q); cast<int64>(w, q); cast<uint64>(w, q); cast<float64>(w, q); if constexpr (N > 2) { Vec3<T> t(q[0], q[1], q[2]); Vec3<uint64> u = t; EXPECT(u.x == (uint64)q[0] && u.y == (uint64)q[1] && u.z == (uint64)q[2], "conversion", "wide integers"); } COV("conversion:wide"); }
	}
};

template<typename T> static void dims(kv::Rng & R)
{
	switch (R.below(4))
	{
		case 0: Ops<Vec2, 2, T>::run(R); break;
		case 1: Ops<Vec3, 3, T>::run(R); break;
		case 2: Ops<Vec4, 4, T>::run(R); break;
		default:
		{
			// constructors from components and other dimensions, cross products
			T a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = value<T>(R); b[i] = value<T>(R); } kv::T("mixed dimensions of %s: %.9g %.9g %.9g %.9g, %.9g %.9g %.9g %.9g", Num<T>::name(), (double)a[0], (double)a[1], (double)a[2], (double)a[3], (double)b[0], (double)b[1], (double)b[2], (double)b[3]);
			Vec2<T> v2(a[0], a[1]); Vec3<T> v3(a[0], a[1], a[2]); Vec4<T> v4(a[0], a[1], a[2], a[3]);
			Ops<Vec2, 2, T>::eq(v2, a, "constructor"); Ops<Vec3, 3, T>::eq(v3, a, "constructor"); Ops<Vec4, 4, T>::eq(v4, a, "constructor");
			Ops<Vec3, 3, T>::eq(Vec3<T>(v2, a[2]), a, "from Vec2"); Ops<Vec4, 4, T>::eq(Vec4<T>(v3, a[3]), a, "from Vec3"); T z[4] = {a[0], a[1], a[2], (T)0}; Ops<Vec4, 4, T>::eq(Vec4<T>(v3), z, "from Vec3"); Vec3<T> drop = v4; Ops<Vec3, 3, T>::eq(drop, a, "from Vec4");
			const Vec3<T> w3(b[0], b[1], b[2]), c3 = v3 ^ w3; double m[3]; T want[3];
			for (int i = 0; i < 3; ++i) { const int j = (i + 1) % 3, k = (i + 2) % 3; want[i] = (T)(a[j] * b[k] - a[k] * b[j]); m[i] = fabs((double)a[j] * (double)b[k]) + fabs((double)a[k] * (double)b[j]); EXPECT(near(c3[i], want[i], m[i]), "cross", "Vec3<%s>: component %d of the cross product is %.9g instead of %.9g", Num<T>::name(), i, (double)c3[i], (double)want[i]); }
			const Vec3<T> r3 = w3 ^ v3; for (int i = 0; i < 3; ++i) EXPECT(near((T)-r3[i], c3[i], m[i]), "cross", "the cross product does not change its sign with the order");
			if (Num<T>::real) { double s = 0, o1 = 0, o2 = 0; for (int i = 0; i < 3; ++i) { s += m[i] * (fabs((double)a[i]) + fabs((double)b[i])); o1 += (double)c3[i] * (double)a[i]; o2 += (double)c3[i] * (double)b[i]; } EXPECT(fabs(o1) <= 1e-5 * s + 1e-30 && fabs(o2) <= 1e-5 * s + 1e-30, "cross", "the cross product is not orthogonal to its factors"); }
			const Vec3<T> p2 = v2 ^ Vec2<T>(b[0], b[1]); EXPECT(p2.x == 0 && p2.y == 0 && near(p2.z, want[2], m[2]), "cross", "Vec2<%s>: cross product is (%g, %g, %g)", Num<T>::name(), (double)p2.x, (double)p2.y, (double)p2.z);
			COV("mixed-dimensions"); kv::nontrivial(); kv::state(kv::mix(99));
		}
	}
}
static void vectors(kv::Rng & R) { switch (R.below(5)) { case 0: dims<int32>(R); break; case 1: dims<uint32>(R); break; case 2: dims<float64>(R); break; case 3: dims<int64>(R); break; default: dims<float32>(R); } }

template<template<typename> class V, int N, typename T> static void norm(kv::Rng & R)
{
	const double tol = sizeof(T) == 4 ? 4e-6 : 1e-13; V<T> v; double l = 0, big = 0; const double scale = pow(10, (double)R.range(-6, 6)); const int zeros = (int)R.below(N);
	for (int i = 0; i < N; ++i) { v[i] = i < zeros && R.chance(1, 2) ? (T)0 : (T)((R.unit() - 0.5) * scale); } if (R.chance(1, 3)) { const T t = v[0]; v[0] = v[N - 1]; v[N - 1] = t; }
	for (int i = 0; i < N; ++i) { l += (double)v[i] * (double)v[i]; big += fabs((double)v[i]); } l = sqrt(l); if (!(l > 0)) { v[0] = (T)scale; l = (double)v[0]; }
	kv::T("normalise Vec%d<%s> of size %.9g", N, Num<T>::name(), l); const V<T> c = v;
	EXPECT(fabs((double)c.getSize() - l) <= tol * l, "size", "Vec%d<%s>: size %.12g instead of %.12g", N, Num<T>::name(), (double)c.getSize(), l);
	const V<T> n = c.getNormal(); V<T> w = c; V<T> & ref = w.normalize(); EXPECT(&ref == &w, "self", "normalize does not return itself");
	double ln = 0; for (int i = 0; i < N; ++i)
	{
		EXPECT(c[i] == v[i], "operand", "getNormal changed the vector"); ln += (double)n[i] * (double)n[i];
		EXPECT(fabs((double)n[i] - (double)v[i] / l) <= tol && fabs((double)w[i] - (double)v[i] / l) <= tol, "normal", "Vec%d<%s>: component %d of the normal is %.9g, %.9g instead of %.9g", N, Num<T>::name(), i, (double)n[i], (double)w[i], (double)v[i] / l);
	}
	EXPECT(fabs(sqrt(ln) - 1) <= tol, "normal", "Vec%d<%s>: the normal has size %.9g", N, Num<T>::name(), sqrt(ln)); (void)big;
	COV("normalise"); kv::nontrivial(); kv::state(kv::mix(N * 64 + (int)(log10(scale) + 8)));
}
static void normals(kv::Rng & R)
{
	switch (R.below(6)) { case 0: norm<Vec2, 2, float32>(R); break; case 1: norm<Vec3, 3, float32>(R); break; case 2: norm<Vec4, 4, float32>(R); break; case 3: norm<Vec2, 2, float64>(R); break; case 4: norm<Vec3, 3, float64>(R); break; default: norm<Vec4, 4, float64>(R); }
	Vec3<float32> v((float32)R.unit(), 0.f, 1e-9f); if (R.chance(1, 2)) v *= 1e-5f; const double s = (double)v.x * v.x + (double)v.z * v.z; if (fabs(s - 4 * FLT_EPSILON) > 1e-9) EXPECT(v.isNearlyZero() == (s < 4 * FLT_EPSILON), "nearly-zero", "isNearlyZero of a vector of squared size %g", s);
	// the shared constants
	const float32 z[3] = {0, 0, 0}, o[3] = {1, 1, 1}; for (int i = 0; i < 3; ++i) EXPECT(Vec3<float32>::zero[i] == z[i] && Vec3<float32>::unit[i] == o[i] && Vec3<float32>::right[i] == (i == 0) && Vec3<float32>::left[i] == -(i == 0) && Vec3<float32>::up[i] == (i == 1) && Vec3<float32>::down[i] == -(i == 1) && Vec3<float32>::forward[i] == (i == 2) && Vec3<float32>::backward[i] == -(i == 2), "constants", "a vector constant is wrong in component %d", i);
}

// ---- 4x4 matrix
/// Any value at all, the real ones that are not ordinary numbers included
template<typename T> static T anything(kv::Rng & R)
{
	if (Num<T>::real && R.chance(1, 4)) switch (R.below(6)) { case 0: return (T)NAN; case 1: return (T)INFINITY; case 2: return (T)-INFINITY; case 3: return (T)0.0; case 4: return (T)-0.0; default: return (T)(sizeof(T) == 4 ? 1e-44 : 4e-320); }
	if (!Num<T>::real && R.chance(1, 4)) return (T)R.next();
	return value<T>(R);
}
/// The same bits
template<typename T> static bool exact(T a, T b) { return !memcmp(&a, &b, sizeof(T)); }
template<typename T> static void matrix(kv::Rng & R)
{
	const bool odd = R.chance(1, 2); auto value = [odd](kv::Rng & r) { return odd ? anything<T>(r) : ::value<T>(r); }; if (odd) COV("matrix:special");
	T v[16]; for (int i = 0; i < 16; ++i) v[i] = value(R); kv::T("Mat4<%s>", Num<T>::name()); for (int i = 0; i < 16; ++i) kv::T(" %.9g", (double)v[i]);
	Mat4<T> m(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]), b((const T *)v); const T s = value(R); Mat4<T> f(s);
	auto check = [&](Mat4<T> & x, const T * w, const char * what)
	{
		const Mat4<T> & c = x; const T * nm[16] = {&c.a, &c.b, &c.c, &c.d, &c.e, &c.f, &c.g, &c.h, &c.i, &c.j, &c.k, &c.l, &c.m, &c.n, &c.o, &c.p};
		for (uint32 i = 0; i < 16; ++i)
		{
			EXPECT(exact(c(i), w[i]) && exact(x(i), w[i]) && exact(c[i / 4][i % 4], w[i]) && exact(x[i / 4][i % 4], w[i]) && exact(c(i / 4, i % 4), w[i]) && exact(x(i / 4, i % 4), w[i]) && exact((*c)[i], w[i]) && exact((*x)[i], w[i]) && exact(*nm[i], w[i]), "element", "Mat4<%s> %s: an accessor of element %u does not yield it", Num<T>::name(), what, i);
		}
	};
	T fill[16]; for (T & x : fill) x = s; check(m, v, "from elements"); check(b, v, "from a buffer"); check(f, fill, "from a scalar");
	uint16 own = 0; for (int i = 0; i < 16; ++i) if (v[i] == v[i]) own |= 1u << (15 - i); EXPECT((m == b) == (own == 0xffff) && (m != b) == (own != 0xffff) && m.cmp(b) == own && m.cmp(m) == own && (m == m) == (own == 0xffff), "equal", "two matrices of the same elements compare as %x instead of %x", m.cmp(b), own);
	auto other = [&](T x) -> T { if constexpr (Num<T>::real) return x == 0 && R.chance(1, 2) ? -x : x + (T)1; else return x ^ (T)1; };
	// any subset of differing elements shows in the mask
	T w[16]; uint16 mask = 0; const int many = (int)R.below(4); for (int i = 0; i < 16; ++i) { const bool diff = many == 0 ? false : many == 1 ? i == (int)(kv::mix(kv::G.traceHash) % 16) : many == 2 ? true : R.chance(1, 2); w[i] = diff ? other(v[i]) : v[i]; if (w[i] == v[i]) mask |= 1u << (15 - i); }
	Mat4<T> o((const T *)w); EXPECT(m.cmp(o) == mask && o.cmp(m) == mask, "mask", "comparison mask %x instead of %x", m.cmp(o), mask); EXPECT((m == o) == (mask == 0xffff) && (m != o) == (mask != 0xffff), "equal", "equality of matrices with %d different elements", 16 - __builtin_popcount(mask)); COV(mask == 0xffff ? "matrix:equal" : mask == 0 ? "matrix:all-different" : "matrix:partly-different");
	// writes reach one element
	for (int z = 0; z < 4; ++z) { const uint32 i = (uint32)R.below(16); const T x = value(R); kv::T("[%u] = %.9g", i, (double)x); w[i] = x; switch (R.below(4)) { case 0: o(i) = x; break; case 1: o[i / 4][i % 4] = x; break; case 2: o(i / 4, i % 4) = x; break; default: (*o)[i] = x; } check(o, w, "write"); }
	// transposition
	T t[16]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) t[j * 4 + i] = w[i * 4 + j];
	Mat4<T> c(o); Mat4<T> & ref = c.transpose(); EXPECT(&ref == &c, "self", "transpose does not return itself"); check(c, t, "transposed"); check(o, w, "copy of the transposed"); c.transpose(); check(c, w, "transposed twice"); COV("transpose");
	kv::nontrivial(); kv::state(kv::mix(mask));
}
static void matrices(kv::Rng & R) { switch (R.below(4)) { case 0: matrix<int32>(R); break; case 1: matrix<float64>(R); break; case 2: matrix<uint32>(R); break; default: matrix<float32>(R); } }
KV_MAIN({"vectors", vectors, true}, {"normals", normals, true}, {"matrices", matrices, true})
