// C30 text forms of containers, C31 costs counted in comparisons, element
// operations and allocations, C32 elements that must stay where they are.
#include "elems.h"
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <math.h>
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/map.h"
#include "containers/set.h"
#include "algorithm/sort.h"
typedef std::string S;

// ------------------------------------------------------------------ C30
struct Obj { int v; String toString() const { char b[32]; snprintf(b, sizeof(b), "<%d>", v); return String{(const char *)b}; } };
template<typename T> struct Item;
#define NUM(T, F, C) template<> struct Item<T> { static T mk(kv::Rng & R) { return (T)(R.chance(1, 3) ? R.below(9) : R.next() >> R.below(64)); } static S text(const T & v) { char b[64]; snprintf(b, sizeof(b), F, (C)v); return b; } };
NUM(int32, "%d", int) NUM(uint32, "%u", unsigned) NUM(int64, "%lld", long long) NUM(uint64, "%llu", unsigned long long)
template<> struct Item<float32> { static float32 mk(kv::Rng & R) { return (float32)((R.unit() - 0.5) * (double)(1ull << R.below(40))); } static S text(float32 v) { char b[128]; snprintf(b, sizeof(b), "%f", v); return b; } };
template<> struct Item<float64> { static float64 mk(kv::Rng & R) { return R.chance(1, 12) ? -1.7e308 : (R.unit() - 0.5) * (double)(1ull << R.below(60)); } static S text(float64 v) { char b[512]; snprintf(b, sizeof(b), "%f", v); return b; } };
template<> struct Item<char> { static char mk(kv::Rng & R) { return (char)R.range(1, 255); } static S text(char v) { return S(1, v); } };
template<> struct Item<Obj> { static Obj mk(kv::Rng & R) { return Obj{(int)R.below(100000)}; } static S text(const Obj & v) { return "<" + std::to_string(v.v) + ">"; } };
template<> struct Item<String> { static String mk(kv::Rng & R) { S s; for (int i = (int)R.size(R.chance(1, 20) ? 3000 : 20); i > 0; --i) s += (char)R.range(1, 127); return String{s.c_str(), s.size()}; } static S text(const String & v) { return S(*v, v.getLength()); } };
template<typename T> static S textOf(const std::vector<S> & v, bool list) { S o; if (v.empty()) return "[]"; o = list ? "[ " : "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? list ? "-> " : ", " : "") + v[i]; return o + (list ? " ]" : "]"); }
template<> struct Item<Array<int32>> { static Array<int32> mk(kv::Rng & R) { Array<int32> a; for (int i = (int)R.size(6); i > 0; --i) a.add(Item<int32>::mk(R)); return a; } static S text(const Array<int32> & a) { std::vector<S> v; for (uint64 i = 0; i < a.getCount(); ++i) v.push_back(Item<int32>::text(a[i])); return textOf<int32>(v, false); } };
template<> struct Item<List<String>> { static List<String> mk(kv::Rng & R) { List<String> a; for (int i = (int)R.size(5); i > 0; --i) a.pushBack(Item<String>::mk(R)); return a; } static S text(const List<String> & a) { std::vector<S> v; for (const auto & e : a) v.push_back(Item<String>::text(e)); return textOf<int32>(v, true); } };

static S brief(const S & s) { S o; for (unsigned char c : s.substr(0, 160)) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } } return o; }
static void is(const String & s, const S & want, const char * what)
{
	EXPECT(s.getLength() == want.size() && !::memcmp(*s, want.c_str(), want.size() + 1), "text", "%s gives \"%s\" (%llu characters), expected \"%s\" (%zu)", what, brief(S(*s, s.getLength())).c_str(), (unsigned long long)s.getLength(), brief(want).c_str(), want.size());
}
template<typename T> static void texts(kv::Rng & R)
{
	const int n = (int)R.size(R.chance(1, 10) ? 300 : 12); const bool list = R.chance(1, 2); std::vector<S> v; Array<T> a; List<T> l;
	for (int i = 0; i < n; ++i) { T e = Item<T>::mk(R); v.push_back(Item<T>::text(e)); if (list) l.pushBack(e); else a.add(e); }
	const S want = textOf<T>(v, list); kv::T("%s of %d: %s", list ? "list" : "array", n, brief(want).c_str()); if (n > 1) kv::nontrivial(); COV(list ? "text:list" : "text:array"); if (!n) COV("text:empty"); if (n == 1) COV("text:single"); kv::state(std::hash<S>()(want));
	const Array<T> & ca = a; const List<T> & cl = l;
	for (int i = 0; i < 2; ++i) is(list ? cl.toString() : ca.toString(), want, "toString");
	// As a part of other texts
	String s{"x"}; if (list) s += l; else s += a; is(s, "x" + want, "appending to a string"); if (list) s <<= l; else s <<= a; is(s, want, "printing into a string");
	if (!list && n) { Array<Array<T>> aa; aa.add(a); aa.add(Array<T>()); aa.add(a); is(aa.toString(), "[" + want + ", [], " + want + "]", "toString of nested arrays"); COV("text:nested"); }
	size_t i = 0; if (list) for (auto & e : l) { EXPECT(Item<T>::text(e) == v[i], "altered", "printing altered element %zu", i); ++i; } else for (auto & e : a) { EXPECT(Item<T>::text(e) == v[i], "altered", "printing altered element %zu", i); ++i; } EXPECT(i == v.size(), "altered", "printing altered the container");
}
struct ByText { int32 operator()(const String & a, const String & b) const { const int c = strcmp(*a, *b); return (c > 0) - (c < 0); } };
static void text(kv::Rng & R)
{
	switch (R.below(11))
	{
		case 0: texts<int32>(R); break; case 1: texts<uint32>(R); break; case 2: texts<int64>(R); break; case 3: texts<uint64>(R); break; case 4: texts<float32>(R); break; case 5: texts<float64>(R); break;
		case 6: texts<char>(R); break; case 7: texts<Obj>(R); break; case 8: texts<String>(R); break; case 9: texts<Array<int32>>(R); break; default: texts<List<String>>(R); break;
	}
}

// ------------------------------------------------------------------ C31
struct CountingMalloc : MallocBase
{
	MallocBase * inner; kv::u64 n = 0, bytes = 0; explicit CountingMalloc(MallocBase * m) : inner(m) {}
	virtual void * alloc(sizet s, sizet a) override { ++n; bytes += s; return inner->alloc(s, a); }
	virtual void * realloc(void * p, sizet s, sizet a) override { ++n; bytes += s; return inner->realloc(p, s, a); }
	virtual void free(void * p) override { inner->free(p); }
};
static CountingMalloc * CM; static kv::u64 cmps;
typedef kv::Tracked<> X;
/// Counted element without a registry, for very large containers
static kv::u64 lightOps;
struct Light { int v; Light(int x = 0) : v(x) { ++lightOps; } Light(const Light & o) : v(o.v) { ++lightOps; } Light & operator=(const Light & o) { v = o.v; ++lightOps; return *this; } ~Light() {} };
static int val(const Light & x) { return x.v; }
static int val(const X & x) { return x.get(); } static int val(int x) { return x; }
struct CountCmp { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { ++cmps; const int x = val(a), y = val(b); return (x > y) - (x < y); } };
/// Work done since the last question
struct Meter
{
	kv::u64 w, c, a; Meter() { start(); } void start() { w = kv::L.constructed + kv::L.assigns + lightOps; c = cmps; a = CM->n; }
	kv::u64 work() const { return kv::L.constructed + kv::L.assigns + lightOps - w; } kv::u64 compares() const { return cmps - c; } kv::u64 allocs() const { return CM->n - a; }
};
static double lg(double n) { return log2(n + 2); }
#define COST(what, n, got, bound) do { const double g_ = (double)(got), b_ = (double)(bound); COVN("measured", 1); EXPECT(g_ <= b_, "cost", "%s with %llu elements took %.0f, more than %.0f", what, (unsigned long long)(n), g_, b_); } while (0)

static void costArray(kv::Rng & R)
{
	const uint64 n = 200 + R.below(R.chance(1, 6) ? 8000 : 1500); kv::T("array of %llu", (unsigned long long)n); COV("cost:array"); Meter m; Array<X> a; const int how = (int)R.below(2);
	for (uint64 i = 0; i < n; ++i) if (how) a.add(X((int)i)); else a.insertLast(X((int)i));
	COST("appending one by one: element operations", n, m.work(), 10 * n + 64); COST("appending one by one: allocations", n, m.allocs(), 3 * lg(n) + 8);
	for (int i = 0; i < 12; ++i)
	{
		const uint64 c = a.getCount(), at = R.below(c + 1); m.start();
		switch (R.below(6))
		{
			case 0: a.insertAt(at, X(1)); COST("inserting one: element operations", c, m.work(), 5 * c + 32); COST("inserting one: allocations", c, m.allocs(), 2); break;
			case 1: a.insertAt(at, X(1), X(2), X(3), X(4)); COST("inserting four: element operations", c, m.work(), 6 * c + 64); COST("inserting four: allocations", c, m.allocs(), 2); break;
			case 2: a.removeAt(at < c ? at : c - 1); COST("removing one: element operations", c, m.work(), 3 * (c - at) + 16); COST("removing one: allocations", c, m.allocs(), 0); break;
			case 3: { const uint64 k = R.below(c - at + 1); if (at < c) a.removeAt(at, k); COST("removing a run: element operations", c, m.work(), 3 * (c - at) + 16); break; }
			case 4: if (c) { a.removeLast(); COST("removing the last: element operations", c, m.work(), 4); } break;
			default: if (c) { X o(0); a.popLast(o); COST("popping the last: element operations", c, m.work(), 8); } break;
		}
	}
	const uint64 c = a.getCount(); m.start(); { const Array<X> b(a); COST("copying: element operations", c, m.work(), c + 8); COST("copying: allocations", c, m.allocs(), 2); }
	m.start(); { Array<X> b(::move(a)); COST("moving: element operations", c, m.work(), 4); COST("moving: allocations", c, m.allocs(), 1); Array<X> d; const uint64 had = R.chance(1, 3) ? c : R.chance(1, 2) ? c + R.below(c + 8) : R.below(40); for (uint64 q = 0; q < had; ++q) d.add(X(1)); if (R.chance(1, 3)) d.empty(); m.start(); d = ::move(b); COST("move assignment: element operations", c, m.work(), 4); COST("move assignment: allocations", c, m.allocs(), 1); }
}
static void costList(kv::Rng & R)
{
	const uint64 n = 100 + R.below(2000); kv::T("list of %llu", (unsigned long long)n); COV("cost:list"); Meter m; List<X> l;
	for (uint64 i = 0; i < n; ++i) { m.start(); if (R.chance(1, 2)) l.pushBack(X((int)i)); else l.pushFront(X((int)i)); COST("pushing: element operations", i, m.work(), 6); COST("pushing: allocations", i, m.allocs(), 2); }
	for (int i = 0; i < 20; ++i) { m.start(); X o(0); const int k = (int)R.below(4); if (k == 0) l.popBack(o); else if (k == 1) l.popFront(o); else if (k == 2) { auto it = l.begin(); for (uint64 q = R.below(l.getLength()); q > 0; --q) ++it; l.remove(it); } else l.remove(l.getHead()); COST("removing: element operations", n, m.work(), 8); COST("removing: allocations", n, m.allocs(), 0); }
	const uint64 c = l.getLength(); m.start(); { List<X> b(l); COST("copying: element operations", c, m.work(), 2 * c + 8); }
	m.start(); { List<X> b(::move(l)); List<X> d; for (uint64 q = R.chance(1, 2) ? c : R.below(c + 9); q > 0; --q) d.pushBack(X(1)); m.start(); d = ::move(b); COST("moving: element operations", c, m.work(), 8); COST("moving: allocations", c, m.allocs(), 4); }
}
static int keyAt(int pattern, int i, int n, kv::Rng & R) { return pattern == 0 ? i : pattern == 1 ? n - i : pattern == 2 ? (i % 2 ? i : n * 2 - i) : pattern == 3 ? (int)((kv::u64)i * 2654435761u % 1000003) : (int)R.below(n * 4); }
static void costTree(kv::Rng & R)
{
	const int n = 200 + (int)R.below(R.chance(1, 6) ? 8000 : 1500), pattern = (int)R.below(5); kv::T("tree of %d, pattern %d", n, pattern); COV("cost:tree"); BinaryTree<X, CountCmp> t; Meter m; std::vector<int> keys; const bool unique = R.chance(1, 2);
	for (int i = 0; i < n; ++i) { const int k = keyAt(pattern, i, n, R); X x(k); m.start(); if (unique) t.insertUnique(x); else t.insert(x); COST("inserting: comparisons", i, m.compares(), 4 * lg(i) + 8); COST("inserting: element operations", i, m.work(), 6); COST("inserting: allocations", i, m.allocs(), 2); keys.push_back(k); }
	for (int i = 0; i < 60; ++i)
	{
		const int k = R.chance(2, 3) ? keys[R.below(keys.size())] : (int)R.range(-5, 1000100); const uint64 c = t.getNumNodes(); m.start(); auto it = t.find(k); COST("finding: comparisons", c, m.compares(), 4 * lg(c) + 8);
		m.start(); t.findNode(k); COST("finding a node: comparisons", c, m.compares(), 4 * lg(c) + 8);
		if (it != t.end() && R.chance(1, 2)) { m.start(); t.remove(it); COST("removing: comparisons", c, m.compares(), 4 * lg(c) + 8); COST("removing: element operations", c, m.work(), 8); COST("removing: allocations", c, m.allocs(), 0); }
	}
	const uint64 c = t.getNumNodes(); m.start(); uint64 v = 0; for (auto it = t.begin(); it != t.end(); ++it) ++v; COST("iterating: comparisons", c, m.compares(), 2 * lg(c) + 8); EXPECT(v == c, "count", "iteration visits %llu of %llu", (unsigned long long)v, (unsigned long long)c);
	m.start(); { const BinaryTree<X, CountCmp> b(t); COST("copying: element operations", c, m.work(), 2 * c + 8); COST("copying: comparisons", c, m.compares(), c * (4 * lg(c) + 8)); }
	m.start(); { BinaryTree<X, CountCmp> b(::move(t)); BinaryTree<X, CountCmp> d; for (uint64 q = R.chance(1, 3) ? c : R.below(40); q > 0; --q) d.insert(X((int)R.below(1000))); m.start(); d = ::move(b); COST("moving: element operations", c, m.work(), 4); COST("moving: allocations", c, m.allocs(), 1); COST("moving: comparisons", c, m.compares(), 4); }
}
static void costMap(kv::Rng & R)
{
	const int n = 200 + (int)R.below(2000), pattern = (int)R.below(5); kv::T("map of %d, pattern %d", n, pattern); COV("cost:map"); Map<int32, X, CountCmp> t; Meter m; std::vector<int> keys;
	for (int i = 0; i < n; ++i) { const int k = keyAt(pattern, i, n, R); X x(i); m.start(); if (R.chance(1, 2)) t[k] = x; else t.insert(k, x); COST("storing: comparisons", i, m.compares(), 5 * lg(i) + 10); COST("storing: element operations", i, m.work(), 12); keys.push_back(k); }
	for (int i = 0; i < 60; ++i)
	{
		const int k = R.chance(2, 3) ? keys[R.below(keys.size())] : (int)R.range(-5, 1000100); const uint64 c = t.getCount(); m.start(); t.has(k); COST("membership: comparisons", c, m.compares(), 4 * lg(c) + 8); m.start(); auto it = t.find(k); COST("finding: comparisons", c, m.compares(), 4 * lg(c) + 8);
		if (it != t.end()) { m.start(); val(t[k]); COST("reading: comparisons", c, m.compares(), 4 * lg(c) + 8); COST("reading: element operations", c, m.work(), 4); }
		m.start(); for (auto b = t.begin(k), e = t.end(k); b != e; ++b); COST("a key's range: comparisons", c, m.compares(), 10 * lg(c) + 20);
		if (R.chance(1, 2)) { m.start(); if (R.chance(1, 2)) t.remove(k); else { X o(0); t.pop(k, o); } COST("removing: comparisons", c, m.compares(), 10 * lg(c) + 20); COST("removing: element operations", c, m.work(), 12); }
	}
}
static void costSet(kv::Rng & R)
{
	const int n = 100 + (int)R.below(1500), q = (int)R.below(1500); kv::T("sets of %d and %d", n, q); COV("cost:set"); Set<int32, CountCmp> a, b; Meter m; const int range = R.chance(1, 2) ? 3000 : 300000;
	for (int i = 0; i < n; ++i) { const int k = (int)R.below(range); m.start(); a.set(k); COST("adding: comparisons", i, m.compares(), 5 * lg(i) + 10); m.start(); a.get(k); COST("membership: comparisons", i, m.compares(), 4 * lg(i) + 8); }
	for (int i = 0; i < q; ++i) b.set((int)R.below(range));
	for (int i = 0; i < 10; ++i) { const uint64 c = a.getSize(); m.start(); a.remove((int)R.below(range)); COST("removing: comparisons", c, m.compares(), 8 * lg(c) + 16); }
	const double c = a.getSize() + b.getSize() + 2, lin = 8 * c * (lg(c) + 2);
	m.start(); { const Set<int32, CountCmp> u = a + b, i = a * b, d = a - b; COST("set algebra: comparisons", c, m.compares(), 3 * lin); const Set<int32, CountCmp> u2(u); m.start(); COV(u == u2 ? "cost:equal" : "cost:different"); COST("comparing: comparisons", u.getSize(), m.compares(), lin); m.start(); (void)(a <= u); (void)(a < u); (void)(u >= b); COST("inclusion: comparisons", c, m.compares(), 3 * lin); }
	m.start(); a += b; a *= b; a -= b; COST("set algebra in place: comparisons", c, m.compares(), 3 * lin);
}
static void costSort(kv::Rng & R)
{
	const int n = 200 + (int)R.below(R.chance(1, 6) ? 20000 : 2500); kv::T("sorting %d", n); COV("cost:sort"); std::vector<int> a(n), ids(n); for (int i = 0; i < n; ++i) a[i] = ids[i] = i; for (int i = n; i > 1; --i) std::swap(a[i - 1], a[R.below(i)]); Meter m;
	if (R.chance(1, 2)) Sort::quicksort(a.data(), a.data() + n, CountCmp{}); else Sort::argquicksort(a.data(), a.data() + n, ids.data(), CountCmp{}); COST("sorting a shuffled sequence: comparisons", n, m.compares(), 12.0 * n * lg(n));
	for (int i = 0; i < n; ++i) EXPECT(a[i] == i, "sorted", "not sorted");
}
static void costString(kv::Rng & R)
{
	const uint64 n = 500 + R.below(20000); kv::T("string of %llu", (unsigned long long)n); COV("cost:string"); Meter m; kv::u64 b0 = CM->bytes; String s; const int how = (int)R.below(3); const String piece{"ab"};
	for (uint64 i = 0; i < n; ++i) { if (how == 0) s += 'x'; else if (how == 1) s += "yz"; else s += piece; }
	COST("appending: allocations", n, m.allocs(), 3 * lg(2 * n) + 16); COST("appending: bytes requested", n, CM->bytes - b0, 16 * n + 1024); EXPECT(s.getLength() == (how ? 2 * n : n), "length", "length %llu", (unsigned long long)s.getLength());
	m.start(); { const String c(s); COST("copying: allocations", n, m.allocs(), 2); } m.start(); b0 = CM->bytes; { String c(::move(s)), d{"x"}; d = ::move(c); COST("moving: bytes requested", n, CM->bytes - b0, 16 * n + 1024); }
}
/// The size of anything is known, not counted: a walk would exceed the CPU limit of the case
#define SIZES(q) do { volatile uint64 sink_ = 0; for (int i_ = 0; i_ < 100000; ++i_) sink_ = sink_ + (uint64)(q); COV("cost:size"); } while (0)
/// Hundreds of thousands of elements: a term that stays hidden at smaller sizes shows here
static double cpuNow() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void costHuge(kv::Rng & R)
{
	const int n = 150000 + (int)R.below(150000), kind = (int)R.below(7), pattern = (int)R.below(5); kv::T("huge %d of %d, pattern %d", kind, n, pattern); COV("cost:huge"); Meter m; kv::u64 b0 = CM->bytes;
	if (kind == 0) { Array<Light> a; for (int i = 0; i < n; ++i) a.add(Light(i)); COST("appending one by one: element operations", n, m.work(), 10.0 * n); COST("appending one by one: allocations", n, m.allocs(), 3 * lg(n) + 8); EXPECT(a[n - 1].v == n - 1, "count", "last of %d elements is %d", n, a[n - 1].v); m.start(); while (a.getCount() > (uint64)n / 2) a.removeLast(); COST("removing the last: element operations", n, m.work(), 2.0 * n); m.start(); const Array<Light> c(a); COST("copying: element operations", a.getCount(), m.work(), a.getCount() + 8); }
	else if (kind == 1) { String s; const bool one = R.chance(1, 2); for (int i = 0; i < n * 6; ++i) if (one) s += 'x'; else s += "yz"; COST("appending: allocations", n * 6, m.allocs(), 3 * lg(n * 12.0) + 16); COST("appending: bytes requested", n * 6, CM->bytes - b0, 96.0 * n + 1024); EXPECT(s.getLength() == (sizet)n * (one ? 6 : 12), "length", "length %llu", (unsigned long long)s.getLength()); }
	else if (kind == 2) { std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = i; for (int i = n; i > 1; --i) std::swap(a[i - 1], a[R.below(i)]); m.start(); Sort::quicksort(a.data(), a.data() + n, CountCmp{}); COST("sorting a shuffled sequence: comparisons", n, m.compares(), 12.0 * n * lg(n)); for (int i = 0; i < n; ++i) EXPECT(a[i] == i, "sorted", "not sorted"); }
	else if (kind == 3) { Map<int32, Light, CountCmp> t; for (int i = 0; i < n; ++i) t[keyAt(pattern, i, n, R)] = Light(i); COST("storing: comparisons", n, m.compares(), n * (5 * lg(n) + 10)); COST("storing: element operations", n, m.work(), 12.0 * n); m.start(); for (int i = 0; i < 1000; ++i) t.has((int)R.below(n)); COST("membership: comparisons", n, m.compares(), 1000 * (4 * lg(n) + 8)); SIZES(t.getCount() + t.getSize()); }
	else if (kind == 4) { Set<int32, CountCmp> a, b; for (int i = 0; i < n / 2; ++i) { a.set((int)R.below(n * 2)); b.set(keyAt(pattern, i, n, R)); } const double c = a.getSize() + b.getSize(), lin = 8 * c * (lg(c) + 2); m.start(); a += b; a -= b; COST("set algebra in place: comparisons", c, m.compares(), 3 * lin); a += b; SIZES(a.getSize() + a.getCount()); }
	else if (kind == 5) { List<Light> l; for (int i = 0; i < n; ++i) { if (i & 1) l.pushBack(Light(i)); else l.pushFront(Light(i)); } COST("pushing: element operations", n, m.work(), 6.0 * n); COST("pushing: allocations", n, m.allocs(), 2.0 * n); SIZES(l.getLength()); m.start(); Light o(0); for (int i = 0; i < n / 2; ++i) { const int how = i & 3; if (how == 0) l.popBack(o); else if (how == 1) l.popFront(o); else if (how == 2) l.removeBack(); else l.removeFront(); } COST("removing at the ends: element operations", n, m.work(), 4.0 * n); EXPECT(l.getLength() == (uint64)(n - n / 2), "count", "%llu left of %d", (unsigned long long)l.getLength(), n);
		// Steps from link to link cost no element operation: processor time, with three orders of magnitude to spare
		const int k = n / 10; std::vector<decltype(l.begin())> its; { auto it = l.begin(); for (int i = 0; i < n / 8; ++i) ++it; for (int i = 0; i < k; ++i, ++it, ++it) its.push_back(it); } for (int i = k; i > 1; --i) std::swap(its[i - 1], its[R.below(i)]);
		const bool byLink = R.chance(1, 2); std::vector<decltype(l.getHead())> links; if (byLink) { auto * q = l.getHead(); for (int i = 0; i < n / 8; ++i) q = q->next; for (int i = 0; i < k; ++i, q = q->next->next) links.push_back(q); }
		const double t0 = cpuNow(); for (int i = 0; i < k; ++i) if (byLink) l.remove(links[i]); else l.remove(its[i]);
		const double each = (cpuNow() - t0) / k; COV("cost:removals"); EXPECT(each < 40e-6, "cost", "removing one of %d elements takes %.1f us", n / 2, each * 1e6); EXPECT(l.getLength() == (uint64)(n - n / 2 - k), "count", "%llu left", (unsigned long long)l.getLength());
		const double t1 = cpuNow(); for (int i = 0; i < 20000; ++i) { l.pushBack(Light(i)); l.pushFront(Light(i)); if (i & 1) { l.popBack(o); l.removeFront(); } } const double push = (cpuNow() - t1) / 20000; EXPECT(push < 40e-6, "cost", "pushing to and popping from a list of %d takes %.1f us", n / 2, push * 1e6); }
	else { BinaryTree<Light, CountCmp> t; const bool unique = R.chance(1, 2); for (int i = 0; i < n; ++i) { const Light x(keyAt(pattern, i, n, R)); if (unique) t.insertUnique(x); else t.insert(x); } COST("inserting: comparisons", n, m.compares(), n * (4 * lg(n) + 8)); COST("inserting: element operations", n, m.work(), 8.0 * n); m.start(); const int k = (int)t.getNumNodes() / 2; for (int i = 0; i < k; ++i) { auto it = t.begin(); t.remove(it); } COST("removing: comparisons", n, m.compares(), 4.0 * n); m.start(); uint64 v = 0; for (auto it = t.begin(); it != t.end(); ++it) ++v; EXPECT(v == t.getNumNodes(), "count", "iteration visits %llu of %llu", (unsigned long long)v, (unsigned long long)t.getNumNodes()); SIZES(t.getNumNodes() + t.getCount()); }
}
/// Room asked for is there, and taking an element out copies none
static void costTakes(kv::Rng & R)
{
	const uint64 n = R.below(300), room = R.chance(1, 3) ? R.below(4) : R.below(400); kv::T("array of %llu with room for %llu more", (unsigned long long)n, (unsigned long long)room); Meter m;
	{
		std::vector<X> src; for (uint64 i = 0; i < n + 1; ++i) src.emplace_back((int)i); const bool fresh = R.chance(1, 3); const uint64 c0 = fresh ? 0 : n; COV("cost:room");
		if (c0 + room)
		{
			Array<X> a = fresh ? Array<X>(room) : Array<X>(src.data(), n, room); const X * at = *a; m.start();
			for (uint64 i = 0; i < room; ) { const uint64 c = a.getCount(), left = room - i; if (left >= 3 && R.chance(1, 4)) { if (R.chance(1, 2)) a.insertLast(X(1), X(2), X(3)); else a.insertAt(R.below(c + 1), X(1), X(2), X(3)); i += 3; } else { if (R.chance(1, 12)) a.insertAt(R.below(c + 1), X(4)); else a.add(X(5)); ++i; } }
			COST("filling the room asked for: allocations", room, m.allocs(), 0); EXPECT(*a == at && a.getCount() == c0 + room, "cost", "filling the room asked for moved the array");
			m.start(); a.empty(); for (uint64 i = 0; i < c0 + room; ++i) a.add(X(6)); COST("filling an emptied array: allocations", c0 + room, m.allocs(), 0);
		}
	}
	{
		Array<X> a; List<X> l; Map<int32, X, CountCmp> p; Set<X, CountCmp> s; const int k = 1 + (int)R.below(60); for (int i = 0; i < k; ++i) { a.add(X(i)); l.pushBack(X(i)); p[i] = X(i); s.set(X(i)); } X o(-1); COV("cost:takes");
		for (int i = 0; i < k; ++i)
		{
			const int what = (int)R.below(7); kv::T("take %d of %d", what, k - i); const kv::u64 c = kv::L.copies + kv::L.copyAssigns; const int at = (int)R.below(k);
			switch (what) { case 0: a.popFirst(o); break; case 1: a.popLast(o); break; case 2: a.popAt(R.below(a.getCount()), o); break; case 3: l.popFront(o); break; case 4: l.popBack(o); break; case 5: p.pop(at, o); break; default: s.remove(at, o); break; }
			const kv::u64 d = kv::L.copies + kv::L.copyAssigns - c; COST("taking an element out: copies", k - i, d, 0); o.get();
		}
	}
}
static void cost(kv::Rng & R)
{
	CountingMalloc counting(gMalloc); MallocBase * saved = gMalloc; CM = &counting; gMalloc = &counting; kv::nontrivial();
	if (R.chance(1, 40)) costHuge(R); else switch (R.below(8)) { case 0: costArray(R); break; case 7: costTakes(R); break; case 1: costList(R); break; case 2: costTree(R); break; case 3: costMap(R); break; case 4: costSet(R); break; case 5: costSort(R); break; default: costString(R); break; }
	gMalloc = saved; kv::expectNoLive("after the measurement"); kv::state(kv::G.traceHash);
}

// ------------------------------------------------------------------ C32
template<typename T> struct Key { static int of(const T & x) { return Elem<T>::val(x); } };
template<typename T> static void stableList(kv::Rng & R)
{
	using E = Elem<T>; kv::T("list of %s", E::name()); COV("stable:list"); List<T> * l = new List<T>(), other; std::map<const void *, int> at; int id = 0; const int steps = 20 + (int)R.below(80);
	auto verify = [&](const char * op) { size_t c = 0; for (auto & e : *l) { auto f = at.find(&e); EXPECT(f != at.end() && E::val(e) == f->second, "moved", "%s moved an element of a list", op); ++c; } EXPECT(c == at.size(), "lost", "%s: %zu of %zu elements left in place", op, c, at.size()); };
	for (int i = 0; i < steps; ++i)
	{
		const char * op = "";
		switch (R.below(8))
		{
			case 0: case 1: { T & x = l->pushBack(E::mk(++id)); at[&x] = id; op = "pushBack"; break; }
			case 2: case 3: { T & x = l->pushFront(E::mk(++id)); at[&x] = id; op = "pushFront"; break; }
			case 4: if (l->getLength()) { at.erase(&l->getHead()->data); if (R.chance(1, 2)) l->removeFront(); else { T o = E::mk(0); l->popFront(o); } op = "removeFront"; } break;
			case 5: if (l->getLength()) { at.erase(&l->getTail()->data); if (R.chance(1, 2)) l->removeBack(); else { T o = E::mk(0); l->popBack(o); } op = "removeBack"; } break;
			case 6: if (l->getLength()) { auto it = l->begin(); for (uint64 q = R.below(l->getLength()); q > 0; --q) ++it; at.erase(&*it); l->remove(it); op = "remove"; } break;
			default: if (R.chance(1, 2)) { List<T> * n = new List<T>(::move(*l)); delete l; l = n; op = "move construction"; } else { List<T> n; const uint64 had = l->getLength(), fill = R.chance(1, 2) ? had : R.below(had + 4); for (uint64 q = 0; q < fill; ++q) n.pushBack(E::mk(1)); if (fill == had && had) COV("stable:moved-equal"); n = ::move(*l); for (uint64 q = R.chance(1, 2) ? had : R.below(had + 4); q > 0; --q) l->pushFront(E::mk(2)); *l = ::move(n); op = "move assignment"; } COV("stable:moved"); break;
		}
		kv::T("%s", op); verify(op); if (at.size() > 4) kv::nontrivial();
	}
	kv::state(kv::G.traceHash); delete l;
}
template<typename T> struct LessOf { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { const int x = k(a), y = k(b); return (x > y) - (x < y); } static int k(int v) { return v; } static int k(const T & v) { return Elem<T>::val(v); } };
template<> struct LessOf<int32> { int32 operator()(int32 a, int32 b) const { return (a > b) - (a < b); } };
template<typename T> static void stableTree(kv::Rng & R)
{
	using E = Elem<T>; typedef BinaryTree<T, LessOf<T>> TreeT; kv::T("tree of %s", E::name()); COV("stable:tree"); TreeT * t = new TreeT(); std::map<const void *, int> at; const int n = 20 + (int)R.below(R.chance(1, 10) ? 600 : 100), pattern = (int)R.below(5);
	for (int i = 0; i < n; ++i)
	{
		const int k = keyAt(pattern, i, n, R); kv::T("%d", k); const size_t c = t->getNumNodes(); if (R.chance(1, 4)) t->insertUnique(E::mk(k)); else t->insert(E::mk(k)); size_t fresh = 0, seen = 0;
		if (R.chance(1, 12)) { TreeT * m = new TreeT(::move(*t)); delete t; t = m; COV("stable:moved"); } else if (R.chance(1, 12)) { TreeT m; m.insert(E::mk(3)); m = ::move(*t); *t = ::move(m); COV("stable:moved"); }
		for (auto & e : *t) { auto f = at.find(&e); if (f == at.end()) { ++fresh; EXPECT(E::val(e) == k, "moved", "inserting %d moved element %d of a tree", k, E::val(e)); at[&e] = k; } else EXPECT(f->second == E::val(e), "moved", "inserting %d put element %d where %d was", k, E::val(e), f->second); ++seen; }
		EXPECT(fresh == t->getNumNodes() - c && seen == at.size(), "moved", "inserting %d left %zu of %zu elements in place", k, seen - fresh, c); if (c > 6) kv::nontrivial();
	}
	kv::state(kv::G.traceHash); delete t;
}
static void stableMap(kv::Rng & R)
{
	kv::T("map"); COV("stable:map"); typedef Map<int32, X> MapT; MapT t; std::map<int, const X *> at; const int n = 20 + (int)R.below(120), pattern = (int)R.below(5);
	for (int i = 0; i < n; ++i)
	{
		const int k = keyAt(pattern, i, n, R); kv::T("%d", k); X & x = R.chance(1, 2) ? (t[k] = X(k * 2)) : t.insert(k, X(k * 2)); auto f = at.find(k); if (f != at.end()) EXPECT(f->second == &x, "moved", "storing [%d] again moved the value", k); at[k] = &x;
		for (auto & e : at) EXPECT(e.second->get() == e.first * 2, "moved", "a reference to [%d] shows another value after storing [%d]", e.first, k); for (auto & e : t) EXPECT(at.at(e.first) == &e.second, "moved", "the value of [%d] was moved by storing [%d]", e.first, k); if (i > 6) kv::nontrivial();
	}
	kv::state(kv::G.traceHash);
}
static void stable(kv::Rng & R)
{
	switch (R.below(7)) { case 0: stableList<int32>(R); break; case 1: stableList<X>(R); break; case 2: stableList<String>(R); break; case 3: stableTree<int32>(R); break; case 4: stableTree<X>(R); break; case 5: stableTree<String>(R); break; default: stableMap(R); break; }
	kv::expectNoLive("at the end");
}
KV_MAIN({"text", text, true}, {"cost", cost, true}, {"stable", stable, true})
