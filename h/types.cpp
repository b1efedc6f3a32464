// Comparison and type-query monitor: the default comparison against the operators of
// the language for all pairs of arithmetic types and for objects, and the type queries
// and value-category helpers against those of the standard library.
#include "elems.h"
#include <math.h>
#include <algorithm>
#include <limits>
#include <set>
#include <type_traits>
#include <vector>
#include "templates/functional.h"
#include "templates/types.h"
#include "templates/enable_if.h"
#include "templates/utility.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/set.h"
#include "containers/map.h"
#include "containers/tree.h"
#include "containers/tuple.h"
#include "algorithm/sort.h"

typedef kv::Tracked<> TR;

// ------------------------------------------------------------------ C33
template<typename T> static T pick(kv::Rng & R)
{
	typedef std::numeric_limits<T> L;
	if constexpr (std::is_same<T, bool>::value) return R.chance(1, 2);
	else if constexpr (std::is_floating_point<T>::value) switch (R.below(12))
	{
		case 0: return 0; case 1: return -(T)0; case 2: return L::infinity(); case 3: return -L::infinity(); case 4: return L::quiet_NaN();
		case 5: return L::denorm_min() * (T)R.range(-3, 3); case 6: return L::max() * (R.chance(1, 2) ? 1 : -1); case 7: return (T)1 + L::epsilon() * (T)R.range(-2, 2); case 8: return (T)R.range(-5, 5);
		case 9: return (T)((R.unit() - 0.5) * 1e-6); case 10: return (T)((R.unit() - 0.5) * 2); default: return (T)((R.unit() - 0.5) * 1e18);
	}
	else switch (R.below(7))
	{
		case 0: return (T)R.next(); case 1: return (T)(L::max() - (T)R.below(3)); case 2: return (T)(L::min() + (T)R.below(3)); case 3: return (T)R.range(-3, 3); case 4: return (T)((kv::u64)1 << R.below(sizeof(T) * 8)); case 5: return (T)(R.next() >> R.below(64)); default: return (T)-(T)R.below(300);
	}
}
template<typename A, typename B> static int sign(const A & a, const B & b) { return a > b ? 1 : a < b ? -1 : 0; }
template<typename A, typename B> static void pairOf(kv::Rng & R)
{
	A a = pick<A>(R); B b = R.chance(1, 3) ? (B)pick<B>(R) : (B)pick<B>(R); if constexpr (std::is_same<A, B>::value) if (R.chance(1, 4)) b = a;
	const A ca = a; const B cb = b; const int want = sign(a, b); ThreeWayCompare c; const ThreeWayCompare cc{}; ++kv::G.checks;
	const int32 r[] = {c(a, b), cc(ca, cb), ThreeWayCompare{}((A)a, (B)b), cc(a, cb), cc(ca, (B)b), cc((A)a, b), cc((const A *)&a, (const B *)&b), cc(&ca, &cb)};
	for (size_t i = 0; i < sizeof(r) / sizeof(*r); ++i) EXPECT(r[i] == want, "order", "comparing values of types of %d and %d bytes (%g, %g) yields %d instead of %d in form %d", (int)sizeof(A), (int)sizeof(B), (double)a, (double)b, r[i], want, (int)i);
	EXPECT(!memcmp(&a, &ca, sizeof(A) > 10 ? 10 : sizeof(A)) && !memcmp(&b, &cb, sizeof(B) > 10 ? 10 : sizeof(B)), "altered", "an argument was altered");
	EXPECT(NullCompare{}(a, b) == 0 && NullCompare{}(ca, (B)b) == 0 && NullCompare{}(&a, &b) == 0 && NullCompare{}(&ca, &cb) == 0 && NullCompare{}((const A *)0, (const B *)0) == 0 && NullCompare{}(&ca, (const B *)0) == 0 && NullCompare{}((const A *)0, &cb) == 0, "null", "the null comparison is not 0");
	if constexpr (std::is_same<A, B>::value) { const A d = pick<A>(R); const bool nan = a != a || b != b || d != d; if (!nan) { EXPECT(c(b, a) == -c(a, b) && c(a, a) == 0, "antisymmetry", "not antisymmetric"); if (c(a, b) <= 0 && c(b, d) <= 0) EXPECT(c(a, d) <= 0, "transitivity", "not transitive"); COV(want == 0 ? "compare:equal" : "compare:different"); } else COV("compare:unordered"); }
	kv::state(kv::mix(sizeof(A) * 64 + sizeof(B)) + want + 1);
}
template<typename A, typename... Bs> static void row(kv::Rng & R) { (pairOf<A, Bs>(R), ...); }
template<typename... As> static void table(kv::Rng & R) { (row<As, As...>(R), ...); }

/// Has nothing but < and >, counts copies, and orders in an unusual way
struct Odd
{
	int v; static int copies;
	explicit Odd(int x) : v(x) {} Odd(const Odd & o) : v(o.v) { ++copies; } Odd & operator=(const Odd & o) { v = o.v; ++copies; return *this; }
	bool operator<(const Odd & o) const { return v % 100 > o.v % 100; } bool operator>(const Odd & o) const { return v % 100 < o.v % 100; }
	bool operator<(int o) const { return v % 100 > o; } bool operator>(int o) const { return v % 100 < o; }
	Odd * operator&() const = delete;
};
int Odd::copies = 0;
/// Neither below nor above anything: always equivalent
struct Vague { int v; bool operator<(const Vague &) const { return false; } bool operator>(const Vague &) const { return false; } };

static void objects(kv::Rng & R)
{
	const ThreeWayCompare c{};
	{ const Odd a((int)R.below(1000)), b((int)R.below(1000)); const int n = Odd::copies, w = a.v % 100 < b.v % 100 ? 1 : a.v % 100 > b.v % 100 ? -1 : 0; EXPECT(c(a, b) == w && c(b, a) == -w, "order", "objects with operators of their own: %d", c(a, b)); EXPECT(Odd::copies == n, "copied", "comparing copies its arguments"); const int k = (int)R.below(100), wk = a.v % 100 < k ? 1 : a.v % 100 > k ? -1 : 0; EXPECT(c(a, k) == wk, "order", "object against a number: %d", c(a, k)); COV("compare:object"); }
	{ const Vague a{1}, b{2}; EXPECT(c(a, b) == 0 && c(&a, &b) == 0, "order", "equivalent objects"); }
	{
		std::string s, t; const int n = (int)R.below(8); for (int i = 0; i < n; ++i) s += (char)('a' + R.below(2)); for (int i = (int)R.below(8); i > 0; --i) t += (char)('a' + R.below(2)); if (R.chance(1, 4)) t = s;
		const String a(s.c_str()), b(t.c_str()); const int w = s < t ? -1 : s > t; EXPECT(c(a, b) == w && c(String{a}, b) == w && c(a, t.c_str()) == w && c(&a, &b) == w, "order", "\"%s\" against \"%s\": %d", s.c_str(), t.c_str(), c(a, b)); COV("compare:string");
	}
	{
		// Tracked objects in an array: reached through pointers to constants, at any distance
		std::vector<int32> v(2 + R.below(30)); for (auto & x : v) x = (int32)R.below(10);
		const int32 * p = &v[R.below(v.size())], * q = &v[R.below(v.size())]; EXPECT(c(p, q) == sign(*p, *q) && c((const int32 * const &)p, (const int32 * const &)q) == sign(*p, *q), "pointers", "comparing pointers to constants %d and %d yields %d", *p, *q, c(p, q)); COV("compare:pointer");
		const int64 l = R.range(-3, 12); EXPECT(c(p, &l) == sign((int64)*p, l), "pointers", "pointers to constants of different types");
		// Containers and sorts of pointers to constants
		Set<const int32 *> s; BinaryTree<const int32 *> t; Map<const int32 *, int32> m; std::multiset<int32> rt; std::set<int32> rs;
		std::vector<const int32 *> order; for (auto & x : v) { s.set((const int32 *)&x); t.insert((const int32 *)&x); m[(const int32 *)&x] = x; rt.insert(x); rs.insert(x); order.push_back(&x); }
		size_t i = 0; auto e = rs.begin(); for (auto x : s) { EXPECT(e != rs.end() && *x == *e, "pointers", "item %llu of a set of pointers", (unsigned long long)i); ++e; ++i; } EXPECT(e == rs.end() && s.getCount() == rs.size() && m.getCount() == rs.size(), "pointers", "size of a set or map of pointers");
		auto f = rt.begin(); for (auto x : t) { EXPECT(f != rt.end() && *x == *f, "pointers", "order of a tree of pointers"); ++f; } EXPECT(f == rt.end(), "pointers", "size of a tree of pointers");
		e = rs.begin(); for (auto & x : m) { EXPECT(e != rs.end() && *x.first == *e && x.second == *e, "pointers", "pair of a map of pointers"); ++e; }
		Sort::quicksort(order.data(), order.data() + order.size(), ThreeWayCompare{}); f = rt.begin(); for (auto x : order) { EXPECT(*x == *f, "pointers", "sorting pointers"); ++f; }
		for (int k = 0; k < 10; ++k) { const int32 probe = k; const int32 * pp = &probe; EXPECT(s.get(pp) == (rs.count(k) > 0) && m.has(pp) == (rs.count(k) > 0), "pointers", "membership in a set of pointers"); }
	}
	{
		// Sorting by the default comparison, each element type
		std::vector<int64> v(R.below(40)); for (auto & x : v) x = pick<int64>(R); std::vector<int64> w = v; std::sort(w.begin(), w.end()); Sort::quicksort(v.data(), v.data() + v.size(), ThreeWayCompare{}); EXPECT(v == w, "order", "sorting by the default comparison");
		std::vector<float64> d(R.below(40)); for (auto & x : d) do x = pick<float64>(R); while (x != x); std::vector<float64> y = d; std::sort(y.begin(), y.end()); Sort::quicksort(d.data(), d.data() + d.size(), ThreeWayCompare{}); EXPECT(d == y, "order", "sorting numbers by the default comparison");
		Set<uint64> s; std::set<uint64> rs; for (int i = 0; i < 20; ++i) { const uint64 x = pick<uint64>(R); s.set(x); rs.insert(x); } auto e = rs.begin(); for (auto x : s) { EXPECT(e != rs.end() && x == *e, "order", "order of a set"); ++e; } EXPECT(e == rs.end(), "order", "size of a set");
		Set<float32> fs; std::set<float32> fr; for (int i = 0; i < 20; ++i) { float32 x; do x = pick<float32>(R); while (x != x); fs.set(x); fr.insert(x); } auto g = fr.begin(); for (auto x : fs) { EXPECT(g != fr.end() && x == *g, "order", "order of a set of numbers"); ++g; } EXPECT(g == fr.end(), "order", "size of a set of numbers");
	}
}
static void compare(kv::Rng & R)
{
	kv::T("seed %llu", (unsigned long long)R.next()); kv::nontrivial();
	table<bool, char, int8, uint8, int16, uint16, int32, uint32, int64, uint64, float32, float64>(R);
	for (int i = 0; i < 6; ++i) objects(R); kv::expectNoLive("after comparing");
}

// ------------------------------------------------------------------ C34
struct Base0 {}; struct Derived0 : Base0 {}; struct Further : Derived0 {}; struct Owner { int * p; Owner(); Owner(const Owner &); ~Owner(); Owner & operator=(const Owner &); }; union Un { int a; float b; }; enum En { E0 }; enum class Ec : unsigned char { X };
struct DtorOnly { ~DtorOnly(); }; struct CtorOnly { CtorOnly(); int a; }; struct CopyCtor { CopyCtor() = default; CopyCtor(const CopyCtor &); CopyCtor & operator=(const CopyCtor &) = default; }; struct AssignOnly { AssignOnly() = default; AssignOnly(const AssignOnly &) = default; AssignOnly & operator=(const AssignOnly &); };
struct MoveOnly { int * p; MoveOnly(); MoveOnly(MoveOnly &&); MoveOnly & operator=(MoveOnly &&); ~MoveOnly(); }; struct Fixed { int a; Fixed(const Fixed &) = delete; Fixed & operator=(const Fixed &) = delete; }; struct Stuck { const int a; Stuck(const Stuck &) = default; }; struct OnlyMoves { int a; OnlyMoves(OnlyMoves &&) = default; OnlyMoves & operator=(OnlyMoves &&) = default; }; struct NoAssign { int a; NoAssign & operator=(const NoAssign &) = delete; NoAssign(const NoAssign &) = default; }; struct HasMoveOnly { MoveOnly m; int a; };
typedef int Fn(int, float); typedef void Fv(); class Priv : private Base0 {};
template<typename T> static const char * tn() { return __PRETTY_FUNCTION__; }
#define QQ(q, want) do { ++kv::G.checks; EXPECT((bool)(q) == (bool)(want), "query", "%s is %d: %s", #q, (int)(q), tn<T>()); } while (0)
#define SAME(...) do { ++kv::G.checks; const bool ok_ = std::is_same<__VA_ARGS__>::value; EXPECT(ok_, "transform", "%s does not hold: %s", #__VA_ARGS__, tn<T>()); } while (0)
/// Queries of a type without qualifiers of its own
template<typename T> static void queries()
{
	QQ(IsPointer<T>::value, std::is_pointer<T>::value); QQ(IsReference<T>::value, std::is_reference<T>::value); QQ(IsArray<T>::value, std::is_array<T>::value); QQ(IsVoid<T>::value, std::is_void<T>::value);
	QQ((IsSameType<T, T>::value), true); QQ((IsSameType<T, const volatile T>::value), (std::is_same<T, const volatile T>::value)); QQ((IsSameType<TypeIdentity<T>, T>::value), false); QQ((IsSameType<T, void>::value), (std::is_void<T>::value)); QQ((IsSameType<T, int32>::value), (std::is_same<T, int>::value));
	QQ(IsCFunction<T>::value, std::is_function<T>::value); SAME(typename TypeIdentity<T>::Type, T); SAME(typename AddPointer<T>::Type, typename std::add_pointer<T>::type);
	QQ(IsVolatile<T>::value, std::is_volatile<T>::value); QQ(IsVolatile<volatile T>::value, std::is_volatile<volatile T>::value); QQ(IsVolatile<const volatile T>::value, std::is_volatile<const volatile T>::value); QQ(IsVolatile<const T>::value, std::is_volatile<const T>::value);
	SAME(typename RemoveReference<T>::Type, typename std::remove_reference<T>::type); SAME(typename RemovePointer<T>::Type, typename std::remove_pointer<T>::type);
	SAME(typename RemoveConst<T>::Type, T); SAME(typename RemoveConst<const T>::Type, typename std::remove_const<const T>::type); SAME(typename RemoveVolatile<volatile T>::Type, typename std::remove_volatile<volatile T>::type); SAME(typename RemoveVolatile<const volatile T>::Type, typename std::remove_volatile<const volatile T>::type); SAME(typename RemoveConst<const volatile T>::Type, typename std::remove_const<const volatile T>::type);
	SAME(typename RemoveArray<T>::Type, typename std::remove_extent<T>::type);
	SAME(typename ChooseType<true, T, int>::Type, T); SAME(typename ChooseType<false, int, T>::Type, T); SAME(typename EnableIf<true, T>::Type, T); SAME(EnableIfT<true, T>, T); SAME(EnableIfT<true>, void);
}
template<typename T> static void objectQueries()
{
	queries<T>(); queries<T &>(); queries<T &&>(); queries<T *>(); queries<T **>(); queries<const T *>(); queries<const T &>(); queries<T *&>(); queries<T[3]>(); queries<T[]>(); queries<T[2][5]>(); queries<T (&)[4]>();
	QQ(IsIntegral<T>::value, std::is_integral<T>::value);
	QQ(IsTrivial<T>::value, std::is_trivial<T>::value); QQ(IsPOD<T>::value, std::is_pod<T>::value);
	QQ(IsTriviallyDestructible<T>::value, std::is_trivially_destructible<T>::value); QQ(IsTriviallyCopyable<T>::value, std::is_trivially_copy_constructible<T>::value); QQ(IsTriviallyAssignable<T>::value, std::is_trivially_copy_assignable<T>::value); QQ(IsTriviallyConstructible<T>::value, std::is_trivially_default_constructible<T>::value);
	SAME(typename RemoveConstVolatile<const T>::Type, T); SAME(typename RemoveConstVolatile<volatile T>::Type, T); SAME(typename RemoveConstVolatile<const volatile T>::Type, T); SAME(typename RemoveConstVolatile<T>::Type, T); SAME(typename RemoveConstVolatile<const T *>::Type, const T *);
	if constexpr (!std::is_pointer<T>::value) { SAME(typename RemoveAllPointers<T>::Type, T); SAME(typename RemoveAllPointers<T *>::Type, T); SAME(typename RemoveAllPointers<T ***>::Type, T); SAME(typename RemoveAllPointers<const T **>::Type, const T); }
	SAME(typename RemovePointer<T * const>::Type, T); SAME(typename RemovePointer<T * volatile>::Type, T); SAME(typename RemovePointer<T * const volatile>::Type, T); SAME(typename RemovePointer<const T **>::Type, const T *);
	SAME(typename NakedType<T>::Type, T); SAME(typename NakedType<T &>::Type, T); SAME(typename NakedType<T &&>::Type, T); SAME(typename NakedType<const T &>::Type, T); SAME(typename NakedType<const T>::Type, T); SAME(typename NakedType<T *>::Type, T *); SAME(typename NakedType<const T * const &>::Type, const T *);
	SAME(typename DecayType<T>::Type, T); SAME(typename DecayType<T &>::Type, T); SAME(typename DecayType<const T &>::Type, T); SAME(typename DecayType<T &&>::Type, T); SAME(typename DecayType<const volatile T>::Type, T); SAME(typename DecayType<T *&>::Type, T *); SAME(typename DecayType<const T * const>::Type, const T *);
	QQ((IsPointerOf<T *, T>::value), true); QQ((IsPointerOf<const T *, T>::value), true); QQ((IsPointerOf<volatile T *, T>::value), true); QQ((IsPointerOf<const volatile T *, T>::value), true); QQ((IsPointerOf<T, T>::value), false); QQ((IsPointerOf<T **, T>::value), false); QQ((IsPointerOf<void *, T>::value), false); QQ((IsVoidPointer<T *>::value), false); QQ((IsVoidPointer<void *>::value), true); QQ((IsVoidPointer<const void *>::value), true); QQ((IsVoidPointer<void **>::value), false);
	COV("query:type");
}
template<typename A, typename B> static void bases() { typedef A T; QQ((IsBaseOf<A, B>::value), (std::is_base_of<A, B>::value)); }
static int cat(int &) { return 0; } static int cat(const int &) { return 1; } static int cat(int &&) { return 2; } static int cat(const int &&) { return 3; }
template<typename T> static int pass(T && t) { return cat(forward<T>(t)); }
template<typename T> static T * addressOf(T && t) { return &t; } template<typename T> static T * addressOf(T & t) { return &t; }

static void queriesSuite(kv::Rng & R)
{
	kv::T("all types"); kv::nontrivial();
	objectQueries<bool>(); objectQueries<char>(); objectQueries<wchar_t>(); objectQueries<int8>(); objectQueries<uint8>(); objectQueries<int16>(); objectQueries<uint16>(); objectQueries<int32>(); objectQueries<uint32>(); objectQueries<int64>(); objectQueries<uint64>(); objectQueries<float32>(); objectQueries<float64>(); objectQueries<long double>();
	objectQueries<En>(); objectQueries<Ec>(); objectQueries<Un>(); objectQueries<Base0>(); objectQueries<Derived0>(); objectQueries<Owner>(); objectQueries<CtorOnly>(); objectQueries<CopyCtor>(); objectQueries<AssignOnly>(); objectQueries<MoveOnly>(); objectQueries<Fixed>(); objectQueries<Stuck>(); objectQueries<OnlyMoves>(); objectQueries<NoAssign>(); objectQueries<HasMoveOnly>(); objectQueries<void *>(); objectQueries<const char *>(); objectQueries<Fn *>(); objectQueries<int Base0::*>(); objectQueries<PodDef>(); objectQueries<Pod3>(); objectQueries<String>(); objectQueries<Array<int32>>(); objectQueries<TR>();
	{ typedef Fn T; QQ(IsCFunction<Fn>::value, true); QQ(IsCFunction<Fv>::value, true); QQ(IsCFunction<Fn *>::value, false); QQ(IsCFunction<Fn &>::value, false); QQ(IsPointer<Fn *>::value, true); QQ(IsPointer<Fn>::value, false); SAME(DecayType<Fn>::Type, Fn *); SAME(DecayType<Fn &>::Type, Fn *); SAME(DecayType<Fn *>::Type, Fn *); SAME(AddPointer<Fn>::Type, Fn *); SAME(RemovePointer<Fn *>::Type, Fn); QQ(IsVoid<void>::value, true); QQ(IsPointer<void *>::value, true); SAME(AddPointer<void>::Type, void *); QQ(IsIntegral<void>::value, false); }
	bases<Base0, Base0>(); bases<Base0, Derived0>(); bases<Derived0, Base0>(); bases<Base0, Further>(); bases<Derived0, Further>(); bases<Base0, Priv>(); bases<Base0, Un>(); bases<int, int>(); bases<Base0, int>(); bases<Owner, Base0>();
	EXPECT(sizeof(int8) == 1 && sizeof(uint8) == 1 && sizeof(int16) == 2 && sizeof(uint16) == 2 && sizeof(int32) == 4 && sizeof(uint32) == 4 && sizeof(int64) == 8 && sizeof(uint64) == 8 && sizeof(byte) == 1 && sizeof(ubyte) == 1 && sizeof(intp) == sizeof(void *) && sizeof(uintp) == sizeof(void *) && sizeof(sizet) == sizeof(size_t) && sizeof(float32) == 4 && sizeof(float64) == 8 && sizeof(char8) == 1 && sizeof(char16) == 2 && sizeof(char32) == 4, "width", "a fixed-width type has another width");
	EXPECT((int8)-1 < 0 && (int16)-1 < 0 && (int32)-1 < 0 && (int64)-1 < 0 && (intp)-1 < 0 && (uint8)-1 > 0 && (uint16)-1 > 0 && (uint32)-1 > 0 && (uint64)-1 > 0 && (uintp)-1 > 0 && (sizet)-1 > 0 && (ubyte)-1 > 0 && (char8)-1 > 0 && (char16)-1 > 0 && (char32)-1 > 0, "width", "a type has another signedness");
	kv::state(1); (void)R;
}
/// An object that records how it was obtained
struct Way { static int copies; int how; int v; Way(int x) : how(0), v(x) {} Way(const Way & o) : how(1), v(o.v) { ++copies; } Way(Way && o) : how(2), v(o.v) { o.v = -1; } Way & operator=(const Way & o) { ++copies; how = 3; v = o.v; return *this; } Way & operator=(Way && o) { how = 4; v = o.v; if (&o != this) o.v = -1; return *this; } };
int Way::copies = 0;
/// Can only be moved
struct Only { int v; explicit Only(int x) : v(x) {} Only(const Only &) = delete; Only & operator=(const Only &) = delete; Only(Only && o) : v(o.v) { o.v = -1; } Only & operator=(Only && o) { v = o.v; if (&o != this) o.v = -1; return *this; } };
template<typename T, typename A> static T build(A && a) { return T(forward<A>(a)); }
template<typename T> static void swaps(kv::Rng & R)
{
	typedef Elem<T> E; kv::T("swap %s", E::name()); const int n = 2 + (int)R.below(6); std::vector<int> r; std::vector<T> v; v.reserve(n); for (int i = 0; i < n; ++i) { const int x = (int)R.below(1000); r.push_back(x); v.push_back(E::mk(x)); }
	for (int i = 0; i < 12; ++i) { const int a = (int)R.below(n); int b = (int)R.below(n); if (a == b) b = (b + 1) % n; ::swap(v[a], v[b]); std::swap(r[a], r[b]); for (int q = 0; q < n; ++q) EXPECT(E::val(v[q]) == r[q], "swap", "after swapping %d and %d element %d is %d instead of %d", a, b, q, E::val(v[q]), r[q]); }
	kv::state(kv::G.traceHash); COV("swap");
}
static void values(kv::Rng & R)
{
	kv::nontrivial(); swaps<int32>(R); swaps<uint64>(R); swaps<PodDef>(R); swaps<Pod3>(R); swaps<CopyOnly>(R); swaps<TR>(R); swaps<String>(R); swaps<kv::Tracked<3, 32>>(R);
	{ int x = (int)R.below(100); const int y = 5; EXPECT(cat(move(x)) == 2 && cat(move(y)) == 3 && cat(move(7)) == 2 && &x == addressOf(move(x)) && &y == addressOf(move(y)), "move", "move does not yield a temporary for the same object"); EXPECT(pass(x) == 0 && pass(y) == 1 && pass(move(x)) == 2 && pass(move(y)) == 3 && pass(3) == 2, "forward", "forwarding changes the value category: %d %d %d %d %d", pass(x), pass(y), pass(move(x)), pass(move(y)), pass(3)); EXPECT(&forward<int &>(x) == &x && &forward<const int &>(y) == &y && addressOf(forward<int>(x)) == &x, "forward", "forwarding yields another object"); COV("move"); }
	{ Way a(1), b(2); Way c(move(a)); EXPECT(c.how == 2 && c.v == 1 && a.v == -1, "move", "constructing from a moved object"); Way d((Way(c))); EXPECT(d.v == 1 && c.v == 1, "move", "copy"); b = move(c); EXPECT(b.how == 4 && b.v == 1, "move", "assigning a moved object"); const Way k(9); Way l(move(k)); EXPECT(l.how == 1 && l.v == 9 && k.v == 9, "move", "moving a constant copies it"); Way p(5), q(6); const int before = Way::copies; ::swap(p, q); EXPECT(p.v == 6 && q.v == 5, "swap", "swap of movable objects yields %d %d", p.v, q.v); EXPECT(Way::copies == before, "copied", "swapping movable objects copied one of them");
		Way && z = forward<Way>((Way &&)p); EXPECT(&z == &p && p.v == 6, "forward", "forwarding a temporary yields another object"); const Way && y = forward<const Way>((const Way &&)q); EXPECT(&y == &q, "forward", "forwarding a constant temporary yields another object"); EXPECT(Way::copies == before, "copied", "forwarding copied the object");
		EXPECT(build<Way>(move(p)).v == 6 && p.v == -1 && Way::copies == before, "forward", "forwarding a temporary into a constructor does not move it"); EXPECT(build<Way>(q).v == 5 && q.v == 5 && Way::copies == before + 1, "forward", "forwarding an object into a constructor does not copy it once");
		Only m(3), n(4); ::swap(m, n); EXPECT(m.v == 4 && n.v == 3, "swap", "swap of objects that can only be moved"); Only o = build<Only>(move(m)); EXPECT(o.v == 4 && m.v == -1, "forward", "an object that can only be moved"); m = move(o); EXPECT(m.v == 4 && o.v == -1, "move", "an object that can only be moved"); }
	{ int a[1] = {1}, b[1] = {2}; int * pa = a, * pb = b; ::swap(pa, pb); EXPECT(pa == b && pb == a && a[0] == 1, "swap", "swap of pointers"); ::swap(*pa, *pb); EXPECT(a[0] == 2 && b[0] == 1, "swap", "swap through pointers"); }
	{
		// Owning containers: contents travel, buffers are neither shared nor lost
		Array<TR> a, b; const int n = (int)R.below(20), m = (int)R.below(20); for (int i = 0; i < n; ++i) a.add(TR(i)); for (int i = 0; i < m; ++i) b.add(TR(100 + i)); ::swap(a, b); EXPECT(a.getCount() == (uint64)m && b.getCount() == (uint64)n, "swap", "swapped arrays of %d and %d have %llu and %llu", n, m, (unsigned long long)a.getCount(), (unsigned long long)b.getCount()); for (int i = 0; i < n; ++i) EXPECT(b[i].get() == i, "swap", "swapped array"); for (int i = 0; i < m; ++i) EXPECT(a[i].get() == 100 + i, "swap", "swapped array"); a.add(TR(7)); b.add(TR(8)); EXPECT(a[m].get() == 7 && b[n].get() == 8, "swap", "adding after a swap");
		List<TR> l, k; for (int i = 0; i < n; ++i) l.pushBack(TR(i)); ::swap(l, k); EXPECT(k.getLength() == (uint64)n && l.getLength() == 0, "swap", "swapped lists"); int i = 0; for (auto & e : k) { EXPECT(e.get() == i, "swap", "swapped list"); ++i; }
		Map<int32, TR> x, y; for (int j = 0; j < n; ++j) x[j] = TR(j * 2); y[5] = TR(1); ::swap(x, y); EXPECT(x.getCount() == 1 && y.getCount() == (uint64)n, "swap", "swapped maps"); for (int j = 0; j < n; ++j) EXPECT(y[j].get() == j * 2, "swap", "swapped map");
		Set<int32> s, t; for (int j = 0; j < m; ++j) s.set(j); ::swap(s, t); EXPECT(t.getSize() == (uint64)m && s.getSize() == 0, "swap", "swapped sets"); String u{"left"}, v{"the right one"}; ::swap(u, v); EXPECT(u == "the right one" && v == "left", "swap", "swapped strings");
	}
	kv::expectNoLive("after swapping");
}

KV_MAIN({"compare", compare, true}, {"queries", queriesSuite, false}, {"values", values, true})
