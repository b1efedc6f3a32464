// SIMD monitor: every operation of the vector of four floats against the same
// operation on each component, with the bytes around every store watched.
#include "elems.h"
#include <math.h>
#include <limits>
#include "math/simd.h"

typedef Vector4<float32> V; typedef V::Type R4;

static bool same(float a, float b) { return (a != a && b != b) || !memcmp(&a, &b, sizeof(a)); }
static float pick(kv::Rng & R)
{
	typedef std::numeric_limits<float> L;
	switch (R.below(10))
	{
		case 0: return 0; case 1: return -0.f; case 2: return L::infinity(); case 3: return -L::infinity(); case 4: return L::quiet_NaN(); case 5: return L::max(); case 6: return L::denorm_min() * (float)R.range(1, 9);
		case 7: return (float)R.range(-9, 9); default: return (float)((R.unit() - 0.5) * (R.chance(1, 2) ? 10 : 1e12));
	}
}
/// Reads a vector without the library
static void peek(R4 v, float * o) { memcpy(o, &v, 16); }
template<typename Fn> static void expect(R4 v, const char * key, Fn && f)
{
	float o[4]; peek(v, o); for (int i = 0; i < 4; ++i) { const float w = f(i); EXPECT(same(o[i], w), key, "component %d is %.9g instead of %.9g", i, o[i], w); }
}
/// Calls a masked store with a mask known at run time only
template<int n> struct Masks { static void store(int m, float * p, R4 v) { if (m == n) V::template store<n>(p, v); else Masks<n - 1>::store(m, p, v); } };
template<> struct Masks<-1> { static void store(int, float *, R4) {} };

static void vectors(kv::Rng & R)
{
	kv::nontrivial(); float a[4], b[4]; for (int i = 0; i < 4; ++i) a[i] = pick(R), b[i] = R.chance(1, 5) ? a[i] : pick(R);
	kv::T("a %a %a %a %a", a[0], a[1], a[2], a[3]); kv::T("b %a %a %a %a", b[0], b[1], b[2], b[3]);
	alignas(16) float m[16]; for (int i = 0; i < 16; ++i) m[i] = (float)(1000 + i); const int off = (int)R.below(10); memcpy(m + off, a, 16);
	expect(V::loadu(m + off), "load", [&](int i) { return a[i]; }); { float * exact = (float *)malloc(16); memcpy(exact, b, 16); expect(V::loadu(exact), "load", [&](int i) { return b[i]; }); free(exact); COV("load:unaligned"); }
	{ alignas(16) float w[4]; memcpy(w, a, 16); expect(V::load((const float *)w), "load", [&](int i) { return a[i]; }); COV("load:aligned"); }
	const R4 x = V::load(a[0], a[1], a[2], a[3]), y = V::load(b[0], b[1], b[2], b[3]); expect(x, "load", [&](int i) { return a[i]; }); expect(y, "load", [&](int i) { return b[i]; }); COV("load:components");
	{ const float s = pick(R); expect(V::load(s), "load", [&](int) { return s; }); COV("load:scalar"); }
	expect(V::add(x, y), "add", [&](int i) { return a[i] + b[i]; }); expect(V::sub(x, y), "sub", [&](int i) { return a[i] - b[i]; }); expect(V::mul(x, y), "mul", [&](int i) { return a[i] * b[i]; }); expect(V::div(x, y), "div", [&](int i) { return a[i] / b[i]; });
	expect(V::add(x, x), "add", [&](int i) { return a[i] + a[i]; }); expect(V::div(y, y), "div", [&](int i) { return b[i] / b[i]; }); COV("arithmetic"); expect(x, "altered", [&](int i) { return a[i]; });
	for (int i = 0; i < 16; ++i) m[i] = (float)(1000 + i);
	V::store(m + off, x); for (int i = 0; i < 16; ++i) { const float w = i >= off && i < off + 4 ? a[i - off] : (float)(1000 + i); EXPECT(same(m[i], w), "store", "storing at %d leaves %.9g instead of %.9g at %d", off, m[i], w, i); }
	{ float * exact = (float *)malloc(16); V::store(exact, y); for (int i = 0; i < 4; ++i) EXPECT(same(exact[i], b[i]), "store", "stored component %d", i); free(exact); COV("store:unaligned"); }
	for (int i = 0; i < 16; ++i) m[i] = (float)(1000 + i);
	const int mask = (int)R.below(16), at = 4 * (int)R.below(4); Masks<15>::store(mask, m + at, y);
	for (int i = 0; i < 16; ++i) { const float w = i >= at && i < at + 4 && (mask >> (i - at) & 1) ? b[i - at] : (float)(1000 + i); EXPECT(same(m[i], w), "store-masked", "storing with mask %d at %d leaves %.9g instead of %.9g at %d", mask, at, m[i], w, i); }
	COVN("store:masked", 1); if (mask == 15) COV("store:full"); if (!mask) COV("store:none");
	{ alignas(16) float w[4] = {0, 0, 0, 0}; V::store<>(w, x); for (int i = 0; i < 4; ++i) EXPECT(same(w[i], a[i]), "store-masked", "stored component %d is %.9g instead of %.9g", i, w[i], a[i]); }
	// A chain: what is stored can be loaded again
	{ float w[4]; V::store(w, V::add(V::mul(x, V::load(2.f)), y)); const R4 z = V::loadu(w); expect(V::sub(z, y), "chain", [&](int i) { volatile float t = a[i] * 2.f; t = t + b[i]; return t - b[i]; }); }
	kv::state(kv::G.traceHash);
}

KV_MAIN({"vectors", vectors, true})
