// Rotation monitor: quaternions against rotations computed in double precision
// (Rodrigues' formula and rotation matrices), along chains of products.
#include "kv.h"
#include <math.h>
#include "math/math.h"

typedef double D;
struct W { D x, y, z; };
static W rot(D a, W k, W v) { const D c = cos(a), s = sin(a), d = k.x * v.x + k.y * v.y + k.z * v.z; return W{v.x * c + (k.y * v.z - k.z * v.y) * s + k.x * d * (1 - c), v.y * c + (k.z * v.x - k.x * v.z) * s + k.y * d * (1 - c), v.z * c + (k.x * v.y - k.y * v.x) * s + k.z * d * (1 - c)}; }
struct M { W c[3]; W operator*(W v) const { return W{c[0].x * v.x + c[1].x * v.y + c[2].x * v.z, c[0].y * v.x + c[1].y * v.y + c[2].y * v.z, c[0].z * v.x + c[1].z * v.y + c[2].z * v.z}; } M operator*(const M & o) const { return M{{*this * o.c[0], *this * o.c[1], *this * o.c[2]}}; } M t() const { return M{{{c[0].x, c[1].x, c[2].x}, {c[0].y, c[1].y, c[2].y}, {c[0].z, c[1].z, c[2].z}}}; } };
static M mat(D a, W k) { return M{{rot(a, k, W{1, 0, 0}), rot(a, k, W{0, 1, 0}), rot(a, k, W{0, 0, 1})}}; }
static D len(W v) { return sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }
static vec3 f(W v) { return vec3((float32)v.x, (float32)v.y, (float32)v.z); }
static W w(vec3 v) { return W{v.x, v.y, v.z}; }
static void close(vec3 a, W b, D tol, const char * key, const char * what)
{
	const D e = len(W{a.x - b.x, a.y - b.y, a.z - b.z});
	EXPECT(e <= tol, key, "%s gives (%.7g, %.7g, %.7g) instead of (%.7g, %.7g, %.7g)", what, (D)a.x, (D)a.y, (D)a.z, b.x, b.y, b.z);
}
static D size(const Quat & q) { return sqrt((D)q.x * q.x + (D)q.y * q.y + (D)q.z * q.z + (D)q.w * q.w); }
static W axis(kv::Rng & R)
{
	W k; do k = W{R.unit() * 2 - 1, R.unit() * 2 - 1, R.unit() * 2 - 1}; while (len(k) < 0.1);
	switch (R.below(5)) { case 0: { k = W{0, 0, 0}; D * c[] = {&k.x, &k.y, &k.z}; *c[R.below(3)] = R.chance(1, 2) ? 1 : -1; COV("axis:coordinate"); return k; } case 1: k.z = 0; break; default: break; }
	const D l = len(k); const vec3 r = f(W{k.x / l, k.y / l, k.z / l}); return w(r);
}
static D angle(kv::Rng & R)
{
	switch (R.below(6)) { case 0: COV("angle:quarter"); return (D)(float32)(R.range(-8, 8) * M_PI_4); case 1: COV("angle:small"); return (D)(float32)((R.unit() - 0.5) * pow(10, -(D)R.below(8))); case 2: COV("angle:zero"); return 0; case 3: return (D)(float32)((R.unit() - 0.5) * 40); default: return (D)(float32)((R.unit() - 0.5) * 2 * M_PI); }
}
/// The quaternion rotates all of these like the matrix does
static void rotates(kv::Rng & R, const Quat & q, const M & m, D tol, const char * what)
{
	for (int i = 0; i < 4; ++i)
	{
		const D s = i < 3 ? 1 : pow(10, (D)R.range(-3, 3)); W v = i == 0 ? W{1, 0, 0} : i == 1 ? W{0, 1, 0} : i == 2 ? W{0, 0, 1} : W{(R.unit() - 0.5) * s, (R.unit() - 0.5) * s, (R.unit() - 0.5) * s}; v = w(f(v));
		const vec3 r = q * f(v); const D l = len(v);
		close(r, m * v, tol * l + 1e-30, "rotation", what);
		EXPECT(fabs(len(w(r)) - l) <= tol * l, "length", "%s: a vector of length %.9g is rotated into one of %.9g", what, l, len(w(r)));
	}
	const M b{{w(q.getRight()), w(q.getUp()), w(q.getForward())}};
	for (int i = 0; i < 3; ++i) { const vec3 a = f(b.c[i]); close(a, m.c[i], tol, "direction", "direction vector"); }
	close(q.getLeft(), W{-m.c[0].x, -m.c[0].y, -m.c[0].z}, tol, "direction", "getLeft"); close(q.getDown(), W{-m.c[1].x, -m.c[1].y, -m.c[1].z}, tol, "direction", "getDown"); close(q.getBackward(), W{-m.c[2].x, -m.c[2].y, -m.c[2].z}, tol, "direction", "getBackward");
	const StaticArray<vec3, 3> ax = q.getAxes(); for (int i = 0; i < 3; ++i) close(ax[i], m.c[i], tol * 3, "axes", "getAxes");
	EXPECT(fabs(size(q) - 1) <= tol, "unit", "%s: the quaternion has size %.9g", what, size(q));
	// read back: the same rotation
	float32 a = NAN; vec3 k(NAN); q.getAngleAndAxis(a, k); const float32 a2 = q.getAngle();
	EXPECT(a == a && k.x == k.x && k.y == k.y && k.z == k.z && a2 == a2, "read-back", "%s: angle %g and axis (%g, %g, %g) read back from (%.9g, %.9g, %.9g, %.9g) are not numbers", what, a, k.x, k.y, k.z, q.x, q.y, q.z, q.w);
	EXPECT(fabs(a - a2) <= 1e-5, "read-back", "%s: getAngle gives %g, getAngleAndAxis gives %g", what, a2, a);
	const Quat back(a, k); for (int i = 0; i < 3; ++i) { const W v{(D)(i == 0), (D)(i == 1), (D)(i == 2)}; close(back * f(v), m * v, tol * 4 + 2e-3, "read-back", "rotation by the angle and axis read back"); }
	// the angle itself, away from where the cosine is flat
	const D sv = sqrt((D)q.x * q.x + (D)q.y * q.y + (D)q.z * q.z), want = 2 * atan2(sv, q.w);
	EXPECT(fabs(a - want) <= 2e-3 + tol * 4 / (sv + 1e-3), "angle", "%s: angle %.7g instead of %.7g", what, (D)a, want);
	if (sv > 0.05) { const D kl = len(w(k)); EXPECT(fabs(kl - 1) <= 1e-3 + tol * 8 / sv, "axis", "%s: the axis read back has length %.7g", what, kl); close(k, W{q.x / sv, q.y / sv, q.z / sv}, 1e-3 + tol * 8 / sv, "axis", "axis read back"); COV("axis-read-back"); }
}
static void rotations(kv::Rng & R)
{
	Quat q; M m = mat(0, W{1, 0, 0}); D tol = 2e-6; const int steps = 1 + (int)R.below(R.chance(1, 8) ? 200 : 12);
	rotates(R, q, m, tol, "the default quaternion");
	for (int i = 0; i < steps; ++i)
	{
		const D a = angle(R); const W k = axis(R); const D ea = 3e-6 + fabs(a) * 1e-7; const M n = mat(a, k); kv::T("rotation by %.9g about (%.7g, %.7g, %.7g)", a, k.x, k.y, k.z);
		Quat p((float32)a, f(k)); rotates(R, p, n, ea, "a rotation from angle and axis");
		{ const Quat v(f(W{k.x * a, k.y * a, k.z * a})); rotates(R, v, n, ea * 2, "a rotation from a rotation vector"); }
		const Quat inv = -p; rotates(R, inv, n.t(), ea, "an inverse");
		rotates(R, inv * p, mat(0, k), ea * 3, "a product with the inverse"); rotates(R, p * inv, mat(0, k), ea * 3, "a product with the inverse");
		const Quat old = q;
		switch (R.below(4))
		{
			case 0: kv::T("q = q * p"); q = q * p; m = m * n; COV("product:right"); break;
			case 1: kv::T("q = p * q"); q = p * q; m = n * m; COV("product:left"); break;
			case 2: kv::T("q = -p * q * p"); q = inv * q * p; m = n.t() * m * n; COV("product:conjugated"); tol += ea; break;
			default: kv::T("q = -q * p"); q = (-q) * p; m = m.t() * n; COV("product:inverse"); break;
		}
		tol += ea; (void)old;
		rotates(R, q, m, tol, "a product");
		kv::state(kv::mix((int)(q.x * 8) * 4096 + (int)(q.y * 8) * 64 + (int)(q.z * 8)));
	}
	if (steps > 1) kv::nontrivial(); COV("chain");
}
KV_MAIN({"rotations", rotations, true})
