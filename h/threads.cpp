// C21: threads on their own objects, and readers of shared ones
#include "kv.h"
#include <thread>
#include <atomic>
#include <vector>
#include <string>
#include <sched.h>
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tuple.h"
#include "templates/function.h"
#include "templates/optional.h"
#include "templates/name.h"
#include "algorithm/sort.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "math/vec3.h"
#include "math/quat.h"
#include "math/mat4.h"
#include "regex/regex.h"
typedef kv::u64 u64;

/// Digest of everything a thread observes
struct Digest { u64 h = 1; void add(u64 v) { h = kv::mix(h ^ v) + v; } void text(const char * s, size_t n) { u64 k = n; for (size_t i = 0; i < n; ++i) k = k * 131 + (unsigned char)s[i]; add(k); } void str(const String & s) { text(*s, s.getLength()); } };
static void pause(kv::Rng & R, bool noisy) { if (!noisy) return; switch (R.below(12)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < 200; ++i) ; break; default: break; } }

enum Kinds { KArray, KList, KTree, KMap, KSet, KString, KRegex, KPools, KSort, KFunction, KMath, NumKinds };
static const char * const kindNames[] = { "array", "list", "tree", "map", "set", "string", "regex", "pools", "sort", "function", "math" };
static const char * const patterns[] = { "(a|b)*abb", "[a-c]+\\d{2,3}", "(ab|c)+[^x]?", "\\b\\w+\\b( \\w+)*", "a{2,}b*", "((a?b)*c){1,3}", "[^\\d\\s]+", "x(y(z)?)?" };
static std::string phrase(kv::Rng & R, int n) { std::string s; for (int i = 0; i < n; ++i) s += "abcxyz 019"[R.below(10)]; return s; }
/// The shape of a printed automaton, without the ids of the states
static void shape(Digest & d, const String & s) { std::string o; const char * p = *s; for (size_t i = 0, n = s.getLength(); i < n; ++i) { o += p[i]; if (p[i] == '#') while (i + 1 < n && p[i + 1] >= '0' && p[i + 1] <= '9') ++i; } d.text(o.data(), o.size()); }

static u64 work(u64 seed, int kind, bool noisy)
{
	kv::Rng R(seed), Y(seed ^ (u64)pthread_self()); Digest d; const int steps = 10 + (int)R.below(30);
	switch (kind)
	{
		case KArray: { Array<int32> a; Array<String> b; for (int i = 0; i < steps; ++i) { pause(Y, noisy); switch (R.below(5)) { case 0: case 1: a.add((int32)R.below(1000)); b.add(String(phrase(R, 6).c_str())); break; case 2: if (a.getCount()) { a.removeAt(R.below(a.getCount())); b.removeAt(R.below(b.getCount())); } break; case 3: { Array<int32> c(a); Array<String> e(b); a = c; b = move(e); break; } default: a.insertAt(R.below(a.getCount() + 1), (int32)R.below(50)); b.insertAt(R.below(b.getCount() + 1), String("ins")); } for (int32 v : a) d.add(v); for (const String & s : b) d.str(s); if (R.chance(1, 2)) { d.str(a.toString()); d.str(b.toString()); } } break; }
		case KList: { List<String> l; for (int i = 0; i < steps; ++i) { pause(Y, noisy); String s(phrase(R, 4).c_str()); if (R.chance(2, 3)) { if (R.chance(1, 2)) l.pushBack(s); else l.pushFront(s); } else if (l.getLength()) { String out; l.popBack(out); d.str(out); } List<String> c(l); for (const String & x : c) d.str(x); if (R.chance(1, 2)) d.str(c.toString()); } break; }
		case KTree: { BinaryTree<int32> t; for (int i = 0; i < steps * 3; ++i) { pause(Y, noisy); const int32 v = (int32)R.below(40); if (R.chance(2, 3)) t.insert(v); else t.remove(v); d.add(t.getNumNodes()); } for (int32 v : t) d.add(v); break; }
		case KMap: { Map<String, int32> m; for (int i = 0; i < steps; ++i) { pause(Y, noisy); String k(phrase(R, 1).c_str()); if (R.chance(2, 3)) m[k] = i; else { int32 o = 0; d.add(m.pop(k, o)); d.add(o); } Map<String, int32> c(m); for (const auto & p : c) { d.str(p.first); d.add(p.second); } } break; }
		case KSet: { Set<int32> x, y; for (int i = 0; i < steps; ++i) { pause(Y, noisy); x.set((int32)R.below(30)); y.set((int32)R.below(30)); Set<int32> u = x + y, n = x * y, f = x - y; for (int32 v : u) d.add(v); for (int32 v : n) d.add(v); for (int32 v : f) d.add(v); d.add(x < y); d.add(n <= u); if (R.chance(1, 4)) x.remove((int32)R.below(30)); } break; }
		case KString: { String s; for (int i = 0; i < steps; ++i) { pause(Y, noisy); switch (R.below(9)) { case 0: s += phrase(R, 5).c_str(); break; case 1: s += (int32)R.below(100000); break; case 2: s += String::format("%d-%s-%llu", (int)R.below(99), phrase(R, 3).c_str(), (unsigned long long)R.next()); break; case 3: s.replaceAll("a", "bb"); break; case 4: s = s.toUpper(); break; case 5: if (s.getLength() > 4) s.splice(R.below(3), 1, "--"); break; case 6: s = String::format("%0*d|%s", 800 + (int)R.below(900), (int)R.below(99), "end"); break; case 7: s <<= (float64)R.below(1000) / 8; break; default: s = s.substr(s.getLength() / 2); } d.str(s); d.add((u64)s.findIndex("b")); for (sizet q : s.findAll("1")) d.add(q); } break; }
		case KRegex: { for (int i = 0; i < steps / 4 + 1; ++i) { pause(Y, noisy); Re::Regex re{String(patterns[R.below(8)])}; pause(Y, noisy); for (int k = 0; k < 6; ++k) { const std::string in = phrase(R, (int)R.below(8)); d.add(re.accept(in.c_str())); } shape(d, re.getAutomaton().toString()); const String free(patterns[R.below(8)]); for (int k = 0; k < 3; ++k) d.add(Re::accept(free, String(phrase(R, (int)R.below(8)).c_str()))); } break; }
		case KPools: { MallocPooled pool((uint32)(1 + R.below(20)), (sizet)32, (sizet)16); MallocBinned bin; struct B { byte * p; size_t n; MallocBase * m; byte f; }; std::vector<B> live; for (int i = 0; i < steps * 2; ++i) { pause(Y, noisy); if (R.chance(3, 5) || live.empty()) { B b; b.m = R.chance(1, 2) ? (MallocBase *)&pool : (MallocBase *)&bin; b.n = b.m == &pool ? 1 + R.below(32) : 1 + R.below(300); b.p = (byte *)b.m->alloc(b.n, 8); b.f = (byte)R.next(); if (b.p) { memset(b.p, b.f, b.n); live.push_back(b); } d.add(b.p != 0); } else { const size_t k = R.below(live.size()); B b = live[k]; live.erase(live.begin() + k); bool ok = true; for (size_t q = 0; q < b.n; ++q) ok &= b.p[q] == b.f; d.add(ok); b.m->free(b.p); } } for (B & b : live) b.m->free(b.p); break; }
		case KSort: { std::vector<int32> v(5 + R.below(60)), w; for (auto & x : v) x = (int32)R.below(40); w = v; pause(Y, noisy); Sort::quicksort(v.data(), v.data() + v.size(), [](int32 x, int32 y) { return x - y; }); for (int32 x : v) d.add(x); break; }
		case KFunction: { int calls = 0; String own("fn"); Function<int32(int32)> f([own, calls](int32 x) mutable -> int32 { return x * 2 + (int32)own.getLength() + ++calls; }); for (int i = 0; i < steps; ++i) { pause(Y, noisy); Function<int32(int32)> g(f); d.add(g((int32)R.below(100))); d.add(f((int32)R.below(100))); Optional<String> o; if (R.chance(1, 2)) o = String("value"); Optional<String> p(o); d.add(p.hasValue()); if (p) d.str(*p); } break; }
		default: { Vec3<float32> v(1, 2, 3); Quat q(0.3f, Vec3<float32>(0, 0, 1)); for (int i = 0; i < steps; ++i) { pause(Y, noisy); v = q * v + Vec3<float32>((float32)R.below(9), 1, -1) * 0.5f; uint32 b[3]; memcpy(b, &v.x, 12); for (uint32 z : b) d.add(z); } Mat4<int32> m((int32)1); for (uint32 i = 0; i < 16; ++i) m(i) = (int32)R.below(99); m.transpose(); for (uint32 i = 0; i < 16; ++i) d.add(m(i)); break; }
	}
	return d.h;
}
/// Starts the threads together
struct Gate { std::atomic<int> in{0}; int n; explicit Gate(int k) : n(k) {} void wait() { in.fetch_add(1); while (in.load() < n) sched_yield(); } };

static void independent(kv::Rng & R)
{
	const int n = 2 + (int)R.below(5); struct W { u64 seed; int kind; int rounds; std::vector<u64> got; }; std::vector<W> w(n); const bool same = R.chance(1, 2); const int kind = R.chance(1, 3) ? (int)KRegex : (int)R.below(NumKinds);
	for (auto & x : w) { x.seed = R.next(); x.kind = same ? kind : (int)R.below(NumKinds); x.rounds = 1 + (int)R.below(4); x.got.resize(x.rounds); kv::T("%s %llu x%d", kindNames[x.kind], (unsigned long long)x.seed, x.rounds); COVN(kindNames[x.kind], 1); }
	Gate g(n); std::vector<std::thread> t; std::atomic<int> active{0}; std::atomic<int> peak{0};
	for (int i = 0; i < n; ++i) t.emplace_back([&, i] { g.wait(); const int a = ++active; int p = peak.load(); while (p < a && !peak.compare_exchange_weak(p, a)) ; for (int r = 0; r < w[i].rounds; ++r) w[i].got[r] = work(w[i].seed + r, w[i].kind, true); --active; });
	for (auto & x : t) x.join();
	for (auto & x : w) for (int r = 0; r < x.rounds; ++r) { const u64 alone = work(x.seed + r, x.kind, false); EXPECT(alone == x.got[r], "different", "a thread working on its own %s saw other results than alone", kindNames[x.kind]); }
	if (peak.load() > 1) { kv::nontrivial(); COV("overlapping"); } COVN("threads", n); kv::state(peak.load() * 100 + n);
}
/// One shared, then constant, set of objects
struct Shared
{
	Array<int32> a; List<String> l; BinaryTree<int32> t; Map<String, int32> m; Set<int32> s, s2; String x; Re::Regex re; Quat q; Mat4<int32> mat; Tuple<int32, String> tup; Optional<String> opt; MallocPooled pool; Array<int32> sorted;
	Shared(kv::Rng & R) : re{String(patterns[R.below(8)])}, q(0.7f, Vec3<float32>(1, 0, 0)), mat((int32)R.below(5)), tup((int32)R.below(9), String("tuple")), opt(String("held")), pool(4, 64)
	{
		const int n = (int)R.below(40); for (int i = 0; i < n; ++i) { a.add((int32)R.below(100)); l.pushBack(String(phrase(R, 5).c_str())); t.insert((int32)R.below(60)); m[String(phrase(R, 2).c_str())] = i; s.set((int32)R.below(30)); s2.set((int32)R.below(30)); x += phrase(R, 6).c_str(); sorted.add(i); }
	}
};
static u64 readOnly(const Shared & o, u64 seed, bool noisy)
{
	kv::Rng R(seed), Y(seed ^ (u64)pthread_self()); Digest d; const int steps = 8 + (int)R.below(20);
	for (int i = 0; i < steps; ++i)
	{
		pause(Y, noisy);
		switch (R.below(13))
		{
			case 0: for (int32 v : o.a) d.add(v); d.add(o.a.getCount()); if (o.a.getCount()) d.add(o.a[R.below(o.a.getCount())]); { Array<int32> c(o.a); d.add(c.getCount()); } d.str(o.a.toString()); break;
			case 1: for (const String & s : o.l) d.str(s); d.add(o.l.getLength()); { List<String> c(o.l); d.add(c.getLength()); } d.str(o.l.toString()); break;
			case 2: for (int32 v : o.t) d.add(v); d.add(o.t.find((int32)R.below(60)) != o.t.end()); { BinaryTree<int32> c(o.t); d.add(c.getNumNodes()); } break;
			case 3: for (const auto & p : o.m) { d.str(p.first); d.add(p.second); } d.add(o.m.has(String(phrase(R, 2).c_str()))); { Map<String, int32> c(o.m); d.add(c.getCount()); } break;
			case 4: for (int32 v : o.s) d.add(v); d.add(o.s.get((int32)R.below(30))); d.add(o.s < o.s2); d.add(o.s == o.s2); d.add(o.s >= o.s2); break;
			case 5: { Set<int32> u = o.s + o.s2; for (int32 v : u) d.add(v); u = o.s * o.s2; for (int32 v : u) d.add(v); u = o.s - o.s2; for (int32 v : u) d.add(v); break; }
			case 6: d.str(o.x); d.add((u64)o.x.findIndex("a", R.below(20))); for (sizet q : o.x.findAll("b")) d.add(q); d.str(o.x.toUpper()); d.str(o.x.substr(o.x.getLength() > 8 ? 5 : o.x.getLength(), o.x.getLength() > 8 ? 3 : 0)); d.add(o.x.cmp("abc") < 0); d.str(o.x + 12); break;
			case 7: case 8: case 9: for (int k = 0; k < 4; ++k) { const std::string in = phrase(R, (int)R.below(8)); d.add(o.re.accept(in.c_str())); } if (R.chance(1, 3)) shape(d, o.re.getAutomaton().toString()); break;
			case 10: { const Vec3<float32> v = o.q * Vec3<float32>(1, (float32)R.below(9), 2); uint32 b[3]; memcpy(b, &v.x, 12); for (uint32 z : b) d.add(z); for (uint32 k = 0; k < 16; ++k) d.add(o.mat(k)); break; }
			case 11: d.add(o.tup.get<0>()); d.str(o.tup.get<1>()); d.add(o.opt.hasValue()); d.str(*o.opt); break;
			default: for (auto it = o.t.begin((int32)R.below(60)); it != o.t.end(); ++it) d.add(*it); d.add(o.a.getCount()); break;
		}
	}
	return d.h;
}
static void readers(kv::Rng & R)
{
	Shared o(R); const int n = 2 + (int)R.below(5); std::vector<u64> seed(n), got(n); for (auto & s : seed) s = R.next(); kv::T("%d readers of %llu items", n, (unsigned long long)o.a.getCount());
	Gate g(n); std::vector<std::thread> t; std::atomic<int> active{0}, peak{0};
	for (int i = 0; i < n; ++i) t.emplace_back([&, i] { g.wait(); const int a = ++active; int p = peak.load(); while (p < a && !peak.compare_exchange_weak(p, a)) ; got[i] = readOnly(o, seed[i], true); --active; });
	for (auto & x : t) x.join();
	for (int i = 0; i < n; ++i) EXPECT(readOnly(o, seed[i], false) == got[i], "different", "a reader of shared objects saw other values than alone");
	if (peak.load() > 1) { kv::nontrivial(); COV("overlapping-readers"); } COVN("readers", n); kv::T("%llu", (unsigned long long)seed[0]); kv::state(peak.load() * 100 + n);
}
KV_MAIN({"independent", independent, false}, {"readers", readers, false})
