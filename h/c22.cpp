// Sorting monitor: elements carry identities; the range is embedded between
// guards, iterators and comparators check every access.
#include "elems.h"
#include <vector>
#include <algorithm>
#include "algorithm/sort.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "templates/functional.h"

struct Item { int32 key, id; };
static bool operator<(const Item & a, const Item & b) { return a.key < b.key; }
static bool operator>(const Item & a, const Item & b) { return a.key > b.key; }

/// Codes of values: key * 4096 + identity
template<typename T> struct V { static T mk(int c) { return Elem<T>::mk(c); } static int code(const T & x) { return Elem<T>::val(x); } };
template<> struct V<Item> { static Item mk(int c) { return Item{c / 4096, c % 4096}; } static int code(const Item & x) { return x.key * 4096 + x.id; } };

/// Order on the codes, chosen per case
struct Order
{
	int kind; const void * lo, * hi; size_t stride; kv::u64 n = 0;
	int key(int code) const { int k = code / 4096; return kind == 2 ? k % 3 : kind == 3 ? 0 : k; }
	int cmp(int a, int b) const { const int x = key(a), y = key(b); return kind == 1 ? (x < y) - (x > y) : kind == 4 ? (x - y) * 1000 : kind == 5 ? (x > y ? 2147483647 : x < y ? -2147483647 - 1 : 0) : (x > y) - (x < y); }
};
static Order * O;
template<typename T> struct Cmp
{
	int32 operator()(const T & a, const T & b) const { if (++O->n > 40000000) kv::fail("nontermination", "sorting does not end"); return O->cmp(V<T>::code(a), V<T>::code(b)); }
};
/// Compare with a pivot that is a plain code
template<typename T> struct PivotCmp { int32 operator()(const T & a, int b) const { return O->cmp(V<T>::code(a), b); } };

/// Forward iterator that checks each access against the range
template<typename T> struct CheckIt
{
	T * p, * lo, * hi;
	T & operator*() const { EXPECT(p >= lo && p < hi, "out-of-range", "element %lld of a range of %lld is accessed", (long long)(p - lo), (long long)(hi - lo)); return *p; }
	CheckIt & operator++() { EXPECT(p < hi, "out-of-range", "an iterator moves beyond the end of the range"); ++p; return *this; }
	CheckIt operator++(int) { CheckIt o = *this; ++*this; return o; }
	bool operator==(const CheckIt & o) const { return p == o.p; }
	bool operator!=(const CheckIt & o) const { return p != o.p; }
};

static std::vector<int> pattern(kv::Rng & R, int n)
{
	std::vector<int> k(n); const int shape = (int)R.below(9), m = 1 + (int)R.below(n + 1);
	for (int i = 0; i < n; ++i) switch (shape)
	{
		case 0: k[i] = i; break;
		case 1: k[i] = n - i; break;
		case 2: k[i] = 5; break;
		case 3: k[i] = (int)R.below(3); break;
		case 4: k[i] = i < n / 2 ? i : n - i; break;
		case 5: k[i] = i % m; break;
		case 6: k[i] = i; break;
		case 7: k[i] = (int)R.below(m); break;
		default: k[i] = (int)R.below(100000); break;
	}
	if (shape == 6 && n > 1) for (int z = 1 + (int)R.below(3); z > 0; --z) std::swap(k[R.below(n)], k[R.below(n)]);
	static const char * const names[] = {"shape:sorted", "shape:reversed", "shape:equal", "shape:few", "shape:organ", "shape:saw", "shape:nearly-sorted", "shape:duplicates", "shape:random"};
	COV(names[shape]);
	for (int i = 0; i < n; ++i) k[i] = k[i] * 4096 + (i & 4095);
	kv::T("%d elements, %s", n, names[shape]); kv::u64 h = 0; for (int c : k) h = kv::mix(h ^ c); kv::T("values %llx", (unsigned long long)h);
	if (n <= 40) for (int c : k) kv::T(" %d", c / 4096);
	return k;
}

static void isPermutation(std::vector<int> a, std::vector<int> b, const char * what)
{
	std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	EXPECT(a == b, "not-a-permutation", "%s changed the multiset of elements", what);
}
static void isOrdered(const std::vector<int> & a, const char * what) { for (size_t i = 1; i < a.size(); ++i) EXPECT(O->cmp(a[i - 1], a[i]) <= 0, "not-ordered", "%s: elements %zu and %zu (keys %d, %d) are out of order", what, i - 1, i, a[i - 1] / 4096, a[i] / 4096); }

/// A buffer with guards around the range
template<typename T> struct Buf
{
	Array<T> a; size_t pre, n; std::vector<int> guard;
	Buf(kv::Rng & R, const std::vector<int> & k) : pre(R.below(4)), n(k.size())
	{
		const size_t post = 1 + R.below(4);
		for (size_t i = 0; i < pre; ++i) { guard.push_back((int)R.below(2000) * 4096); a.add(V<T>::mk(guard.back())); }
		for (int c : k) a.add(V<T>::mk(c));
		for (size_t i = 0; i < post; ++i) { guard.push_back((int)R.below(2000) * 4096); a.add(V<T>::mk(guard.back())); }
	}
	T * b() { return *a + pre; }
	T * e() { return b() + n; }
	std::vector<int> codes() { std::vector<int> r; for (T * p = b(); p != e(); ++p) r.push_back(V<T>::code(*p)); return r; }
	void check(const char * what) { size_t g = 0; for (size_t i = 0; i < a.getCount(); ++i) if (i < pre || i >= pre + n) { EXPECT(V<T>::code(a[i]) == guard[g], "outside-range", "%s changed an element outside of the range", what); ++g; } }
};

template<typename T> static void sortAll(kv::Rng & R)
{
	const int n = (int)R.size(R.chance(1, 12) ? (kv::G.thorough ? 1500 : 500) : 60);
	Order o; o.kind = (int)R.below(6); O = &o; COV(o.kind == 0 ? "order:ascending" : o.kind == 1 ? "order:descending" : o.kind == 2 ? "order:weak" : o.kind == 3 ? "order:all-equal" : "order:large-results");
	const int how = (int)R.below(9); static const char * const hows[] = {"sort:pointer", "sort:checked-iterator", "sort:list", "sort:tree", "argsort:pointers", "argsort:mixed", "partition:value", "partition:list", "sort:whole-array"};
	kv::T("%s order %d", hows[how], o.kind); COV(hows[how]);
	std::vector<int> k = pattern(R, n); const char * w = hows[how];
	if (n > 2) kv::nontrivial();
	kv::state(kv::mix(kv::G.traceHash));
	{
		Buf<T> b(R, k); Cmp<T> cmp;
		switch (how)
		{
			case 0: { if (R.chance(1, 2)) Sort::quicksort(b.b(), b.e(), cmp); else Sort::quicksort(b.b(), b.e(), [](const T & x, const T & y) { return Cmp<T>{}(x, y); }); auto r = b.codes(); isPermutation(r, k, w); isOrdered(r, w); break; }
			case 1: { CheckIt<T> x{b.b(), b.b(), b.e()}, y{b.e(), b.b(), b.e()}; Sort::quicksort(x, y, cmp); auto r = b.codes(); isPermutation(r, k, w); isOrdered(r, w); break; }
			case 2:
			{
				List<T> l; for (int c : k) l.pushBack(V<T>::mk(c)); std::vector<const void *> links; for (auto * q = l.getHead(); q; q = q->next) links.push_back(q);
				// Sort a sub-range of the list
				const int f = (int)R.below(n + 1), t = f + (int)R.below(n - f + 1); auto x = l.begin(); for (int i = 0; i < f; ++i) ++x; auto y = x; for (int i = f; i < t; ++i) ++y; if (R.chance(1, 2)) { x = l.begin(); y = l.end(); }
				const bool whole = y == l.end() && x == l.begin(); kv::T("links %d to %d%s", f, t, whole ? " (whole)" : "");
				Sort::quicksort(x, y, cmp);
				std::vector<int> r; size_t i = 0; for (auto * q = l.getHead(); q; q = q->next, ++i) { EXPECT(i < links.size() && links[i] == q, "links", "sorting moved the links of the list"); r.push_back(V<T>::code(q->data)); }
				EXPECT(i == links.size() && l.getLength() == (uint64)n, "links", "sorting changed the length of the list");
				isPermutation(r, k, w);
				if (whole) isOrdered(r, w);
				else { for (int q = 0; q < n; ++q) if (q < f || q >= t) EXPECT(r[q] == k[q], "outside-range", "an element outside of the range was changed"); std::vector<int> s(r.begin() + f, r.begin() + t); isOrdered(s, w); }
				break;
			}
			case 3:
			{
				BinaryTree<T, NullCompare> t; for (int c : k) t.insert(V<T>::mk(c)); std::vector<int> before; for (auto & e : t) before.push_back(V<T>::code(e)); isPermutation(before, k, "insertion");
				Sort::quicksort(t.begin(), t.end(), cmp);
				std::vector<int> r; for (auto & e : t) r.push_back(V<T>::code(e));
				isPermutation(r, k, w); isOrdered(r, w); break;
			}
			case 4: case 5:
			{
				std::vector<int> ids(n); for (int i = 0; i < n; ++i) ids[i] = i;
				// Companion i belongs to element i
				if (how == 4)
				{
					Buf<int32> args(R, ids); Sort::argquicksort(b.b(), b.e(), args.b(), cmp); auto r = b.codes(), a = args.codes();
					args.check(w); for (int i = 0; i < n; ++i) EXPECT(a[i] >= 0 && a[i] < n && k[a[i]] == r[i], "arguments", "%s: element %d came from elsewhere than its companion %d", w, i, a[i]); isPermutation(a, ids, w); isPermutation(r, k, w); isOrdered(r, w);
				}
				else
				{
					List<String> args; for (int i : ids) args.pushBack(Elem<String>::mk(i)); CheckIt<T> x{b.b(), b.b(), b.e()}, y{b.e(), b.b(), b.e()}; Sort::argquicksort(x, y, args.begin(), cmp);
					auto r = b.codes(); std::vector<int> a; for (auto & s : args) a.push_back(Elem<String>::val(s));
					EXPECT((int)a.size() == n, "arguments", "the companion sequence changed its length"); for (int i = 0; i < n; ++i) EXPECT(a[i] >= 0 && a[i] < n && k[a[i]] == r[i], "arguments", "%s: element %d came from elsewhere than its companion %d", w, i, a[i]); isPermutation(a, ids, w); isPermutation(r, k, w); isOrdered(r, w);
				}
				break;
			}
			case 6: case 7:
			{
				const int pivot = n && R.chance(3, 4) ? k[R.below(n)] : R.chance(1, 2) ? -4096 : 200000 * 4096; kv::T("pivot %d", pivot / 4096); std::vector<int> r; int at = 0;
				if (how == 6) { CheckIt<T> x{b.b(), b.b(), b.e()}, y{b.e(), b.b(), b.e()}; if (R.chance(1, 2)) { auto it = Sort::partition(x, y, pivot, PivotCmp<T>{}); at = (int)(it.p - b.b()); } else { T * it = Sort::partition(b.b(), b.e(), V<T>::mk(pivot), cmp); at = (int)(it - b.b()); } r = b.codes(); }
				else { List<T> l; for (int c : k) l.pushBack(V<T>::mk(c)); auto it = Sort::partition(l.begin(), l.end(), pivot, PivotCmp<T>{}); for (auto q = l.begin(); q != it; ++q) ++at; for (auto & e : l) r.push_back(V<T>::code(e)); }
				isPermutation(r, k, w); int less = 0; for (int c : k) less += o.cmp(c, pivot) < 0;
				EXPECT(at == less, "boundary", "partition returned %d, but %d elements are smaller than the pivot", at, less);
				for (int i = 0; i < n; ++i) EXPECT((o.cmp(r[i], pivot) < 0) == (i < at), "partition", "element %d (key %d) is on the wrong side of the boundary %d", i, r[i] / 4096, at);
				if (less && less < n) COV("partition:split"); break;
			}
			default: { Array<T> a(b.a); T * x = *a; Sort::quicksort(x, x + a.getCount(), cmp); std::vector<int> r, s; for (uint64 i = 0; i < a.getCount(); ++i) { r.push_back(V<T>::code(a[i])); s.push_back(V<T>::code(b.a[i])); } isPermutation(r, s, w); isOrdered(r, w); break; }
		}
		b.check(w);
	}
	kv::expectNoLive("after sorting");
}
static void sorting(kv::Rng & R) { switch (R.below(5)) { case 0: sortAll<int32>(R); break; case 1: sortAll<Item>(R); break; case 2: sortAll<String>(R); break; case 3: sortAll<kv::Tracked<>>(R); break; default: sortAll<PodDef>(R); } }

/// Natural order of plain values under the library's own comparison
static void natural(kv::Rng & R)
{
	const int n = (int)R.size(200); std::vector<int> k = pattern(R, n); if (n > 2) kv::nontrivial();
	std::vector<int> v(k); for (int & x : v) if (R.chance(1, 4)) x = -x; if (n && R.chance(1, 3)) v[R.below(n)] = R.chance(1, 2) ? 2147483647 : (int)0x80000000;
	std::vector<int> s(v); std::sort(s.begin(), s.end());
	std::vector<int32> a(v.begin(), v.end()); Sort::quicksort(a.data(), a.data() + n, ThreeWayCompare{}); EXPECT(a == s, "natural", "sorting integers with ThreeWayCompare differs from the sorted sequence");
	std::vector<float32> f(v.begin(), v.end()), fs(f); std::sort(fs.begin(), fs.end()); List<float32> l; for (float32 x : f) l.pushBack(x); Sort::quicksort(l.begin(), l.end(), ThreeWayCompare{}); int i = 0; for (float32 x : l) { EXPECT(x == fs[i], "natural", "sorting floats with ThreeWayCompare differs at %d", i); ++i; } COV("natural");
}
/// Tens of thousands of elements
static void huge(kv::Rng & R)
{
	const int n = 60000 + (int)R.below(15000), span = R.chance(1, 3) ? 3000 : 2000000000; std::vector<int32> a(n), s, ids(n); for (int32 & x : a) x = (int32)R.below(span) - span / 2;
	const int lo = (int)R.below(5), hi = n - (int)R.below(5); const bool down = R.chance(1, 2); kv::T("%d of %d elements, span %d, %s", hi - lo, n, span, down ? "descending" : "ascending"); for (int i = 0; i < 3; ++i) kv::T("%d", a[i]); kv::nontrivial(); COV("huge"); kv::state(kv::mix(n) ^ (kv::u64)a[0]);
	s = a; if (down) std::sort(s.begin() + lo, s.begin() + hi, [](int x, int y) { return x > y; }); else std::sort(s.begin() + lo, s.begin() + hi); const std::vector<int32> a0 = a; for (int i = 0; i < n; ++i) ids[i] = i;
	auto cmp = [down](const int32 & x, const int32 & y) -> int32 { return down ? (x < y) - (x > y) : (x > y) - (x < y); };
	switch (R.below(3))
	{
		case 0: Sort::quicksort(a.data() + lo, a.data() + hi, cmp); EXPECT(a == s, "huge", "sorting %d elements differs from the sorted sequence", hi - lo); break;
		case 1: { Sort::argquicksort(a.data() + lo, a.data() + hi, ids.data() + lo, cmp); EXPECT(a == s, "huge", "argument-sorting %d elements differs from the sorted sequence", hi - lo); for (int i = 0; i < n; ++i) EXPECT(a0[ids[i]] == a[i], "arguments", "element %d did not come with its companion", i); std::sort(ids.begin(), ids.end()); for (int i = 0; i < n; ++i) EXPECT(ids[i] == i, "not-a-permutation", "companions lost"); break; }
		default: { List<int32> l; for (int i = lo; i < hi; ++i) l.pushBack(a[i]); Sort::quicksort(l.begin(), l.end(), cmp); int i = lo; for (int32 x : l) { EXPECT(x == s[i], "huge", "sorting a list of %d elements differs at %d", hi - lo, i); ++i; } EXPECT(i == hi, "links", "sorting changed the length of the list"); }
	}
}
/// Ranges that split badly must not use up the stack of the calling thread
static void deep(kv::Rng & R)
{
	const int n = 6000 + (int)R.below(3000), shape = (int)R.below(6); const bool args = R.chance(1, 2); std::vector<int32> a(n), ids(n); const int cut = 1 + (int)R.below(n - 2);
	static const char * const names[] = {"sorted", "reversed", "constant", "few values", "two sorted halves", "sorted with one exception"};
	for (int i = 0; i < n; ++i) { ids[i] = i; a[i] = shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? 7 : shape == 3 ? i / 1000 : shape == 4 ? (i < cut ? i * 2 : (i - cut) * 2 + 1) : i; } if (shape == 5) a[cut] = (int)R.below(n);
	kv::T("%s %d %s elements", args ? "argument-sort" : "sort", n, names[shape]); COV("deep"); kv::nontrivial(); kv::state(kv::mix(shape * 2 + args));
	const std::vector<int32> a0 = a; std::vector<int32> s = a; std::sort(s.begin(), s.end());
	const char * base = (const char *)__builtin_frame_address(0), * low = base;
	auto cmp = [&low](const int32 & x, const int32 & y) -> int32 { const char * at = (const char *)__builtin_frame_address(0); if (at < low) low = at; return (x > y) - (x < y); };
	if (args) { Sort::argquicksort(a.data(), a.data() + n, ids.data(), cmp); for (int i = 0; i < n; ++i) EXPECT(a0[ids[i]] == a[i], "arguments", "element %d did not come with its companion", i); }
	else if (R.chance(1, 2)) Sort::quicksort(a.data(), a.data() + n, cmp);
	else { List<int32> l; for (int32 x : a) l.pushBack(x); Sort::quicksort(l.begin(), l.end(), cmp); int i = 0; for (int32 x : l) a[i++] = x; }
	EXPECT(a == s, "huge", "sorting %d elements differs from the sorted sequence", n);
	EXPECT((size_t)(base - low) < 192 * 1024, "stack", "sorting %d %s elements used %llu bytes of the stack", n, names[shape], (unsigned long long)(base - low));
}
KV_MAIN({"deep", deep, false}, {"huge", huge, true}, {"sorting", sorting, true}, {"natural", natural, true})
