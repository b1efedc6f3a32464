// Aggregate monitor: tuples, pairs, static arrays and names against plain
// reference values, with lifetime-tracked components.
#include "elems.h"
#include <string>
#include <vector>
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
#include "templates/name.h"
#include "templates/functional.h"
#include "templates/type_info.h"

typedef kv::Tracked<> TR; typedef kv::Tracked<3, 32> TA;
static void eqs(const String & s, const std::string & r, const char * what) { EXPECT(s.getLength() == r.size() && std::string(*s, s.getLength()) == r, "text", "%s: \"%s\" instead of \"%s\"", what, *s, r.c_str()); }
static String S(const std::string & s) { return String{s.c_str()}; }
static std::string text(kv::Rng & R) { std::string s; for (kv::u64 n = R.below(40); n > 0; --n) s += (char)('a' + R.below(26)); return s; }

// ---- tuple: <int32, String, TR, float64, int32, int8, TA, int64*>
typedef Tuple<int32, String, TR, float64, int32, int8, TA, int64 *> T8;
struct M8 { int32 a; std::string s; int t; float64 d; int32 b; int8 c; int u; int64 * p; };
static M8 m8(kv::Rng & R) { static int64 cells[16]; M8 m; m.a = (int32)R.next(); m.s = text(R); m.t = (int)R.below(1000); m.d = R.unit() * 1e6; m.b = (int32)R.next(); m.c = (int8)R.next(); m.u = (int)R.below(1000); m.p = &cells[R.below(16)]; return m; }
static void check8(T8 & t, const M8 & m, const char * w)
{
	const T8 & c = t;
	#define IDX(i, want) EXPECT(t.get<i>() == (want) && c.get<i>() == (want) && &t.get<i>() == &c.get<i>(), "tuple-index", "%s: item %d of a tuple is not the value it was given", w, i);
	IDX(0, m.a) eqs(t.get<1>(), m.s, w); eqs(c.get<1>(), m.s, w); EXPECT(t.get<2>().get() == m.t && c.get<2>().get() == m.t, "tuple-index", "%s: item 2", w); IDX(3, m.d) IDX(4, m.b) IDX(5, m.c) EXPECT(t.get<6>().get() == m.u && c.get<6>().get() == m.u, "tuple-index", "%s: item 6", w); IDX(7, m.p)
	#define TYP(X, i) EXPECT(&t.get<X>() == &t.get<i>() && &c.get<X>() == &c.get<i>(), "tuple-type", "%s: access by type does not yield the first item of that type (%d)", w, i);
	TYP(int32, 0) TYP(String, 1) TYP(TR, 2) TYP(float64, 3) TYP(int8, 5) TYP(TA, 6) TYP(int64 *, 7)
	EXPECT(c.getCount() == 8 && c.getLength() == 8 && c.getSize() == 8, "tuple-count", "%s: a tuple of 8 items reports %llu", w, (unsigned long long)c.getCount());
	EXPECT((void *)&t.get<0>() != (void *)&t.get<4>(), "tuple-index", "two items share their storage");
}
// A tuple of any number of items, each of which is its own and keeps the value it was given
template<int i> struct It { int64 v; It(int64 x = -1) : v(x) {} };
template<int ... I> static void sized(kv::Rng & R, std::integer_sequence<int, I...>)
{
	const int n = (int)sizeof...(I); const int64 x = (int64)R.below(1000000); Tuple<It<I>...> t{It<I>(x + I * I)...}; const Tuple<It<I>...> c(t); Tuple<It<I>...> a{It<I>(-5)...}; a = c; int wrong = 0;
	{ int _[] = {0, (wrong += t.template get<I>().v != x + I * I || c.template get<I>().v != x + I * I || a.template get<I>().v != x + I * I || &t.template get<It<I>>() != &t.template get<I>() || &c.template get<It<I>>() != &c.template get<I>(), 0)...}; (void)_; } EXPECT(!wrong, "tuple-index", "%d of the %d items of a tuple are not what they were given", wrong, n);
	EXPECT(t.getCount() == (uint64)n && c.getLength() == (uint64)n && a.getSize() == (uint64)n, "tuple-count", "a tuple of %d items reports %llu", n, (unsigned long long)t.getCount());
	{ int _[] = {0, (a.template get<I>().v += 7, 0)...}; (void)_; } { int _[] = {0, (wrong += a.template get<It<I>>().v != x + I * I + 7 || c.template get<I>().v != x + I * I, 0)...}; (void)_; } EXPECT(!wrong, "tuple-index", "%d of the %d items of a tuple share their storage", wrong, n);
	if (n > 8) COV("tuple:wide");
}
static void tuples(kv::Rng & R)
{
	switch (R.below(10)) { case 0: sized(R, std::make_integer_sequence<int, 1>()); break; case 1: sized(R, std::make_integer_sequence<int, 2>()); break; case 2: sized(R, std::make_integer_sequence<int, 3>()); break; case 3: sized(R, std::make_integer_sequence<int, 4>()); break; case 4: sized(R, std::make_integer_sequence<int, 5>()); break; case 5: sized(R, std::make_integer_sequence<int, 6>()); break; case 6: sized(R, std::make_integer_sequence<int, 7>()); break; case 7: sized(R, std::make_integer_sequence<int, 9>()); break; case 8: sized(R, std::make_integer_sequence<int, 12>()); break; default: sized(R, std::make_integer_sequence<int, 17>()); break; }
	{
		static const int N = 3; T8 * t[N]; M8 m[N]; const int steps = 4 + (int)R.below(20);
		auto build = [&](const M8 & v) { if (R.chance(1, 2)) { COV("tuple:rvalues"); return new T8{v.a, S(v.s), TR(v.t), v.d, v.b, v.c, TA(v.u), v.p}; } COV("tuple:lvalues"); int32 a = v.a, b = v.b; const String s = S(v.s); String s2(s); TR x(v.t); const float64 d = v.d; int8 c = v.c; TA u(v.u); int64 * p = v.p; T8 * r = new T8{a, s2, x, d, b, c, u, p}; EXPECT(x.get() == v.t && u.get() == v.u && s2.getLength() == v.s.size(), "tuple-source", "building a tuple changed the values it was given"); return r; };
		for (int i = 0; i < N; ++i) { m[i] = m8(R); t[i] = build(m[i]); }
		for (int q = 0; q < steps; ++q)
		{
			const int i = (int)R.below(N), j = (int)R.below(N), op = (int)R.below(12); const M8 v = m8(R); kv::T("tuple %d (%d) op %d: %d \"%s\" %d %g %d", i, j, op, v.a, v.s.c_str(), v.t, v.d, v.c); const char * w = "";
			switch (op)
			{
				case 0: w = "write by index"; t[i]->get<0>() = v.a; m[i].a = v.a; break;
				case 1: w = "write by index"; t[i]->get<1>() = S(v.s); m[i].s = v.s; break;
				case 2: w = "write by type"; t[i]->get<TR>() = TR(v.t); m[i].t = v.t; break;
				case 3: w = "write by type"; t[i]->get<float64>() = v.d; m[i].d = v.d; break;
				case 4: w = "write by index"; t[i]->get<4>() = v.b; t[i]->get<5>() = v.c; m[i].b = v.b; m[i].c = v.c; break;
				case 5: w = "write by type"; t[i]->get<int32>() = v.a; t[i]->get<TA>() = TA(v.u); t[i]->get<int64 *>() = v.p; m[i].a = v.a; m[i].u = v.u; m[i].p = v.p; break;
				case 6: { w = "copy"; COV("tuple:copy"); T8 * n = R.chance(1, 2) ? new T8(*t[j]) : new T8(*(const T8 *)t[j]); delete t[i]; t[i] = n; m[i] = m[j]; break; }
				case 7: w = "assign"; COV("tuple:assign"); *t[i] = *(const T8 *)t[j]; m[i] = m[j]; break;
				case 8: if (i != j) { w = "move-assign"; COV("tuple:move"); *t[i] = move(*t[j]); m[i] = m[j]; delete t[j]; m[j] = v; t[j] = build(v); } break;
				case 9: if (i != j) { w = "move-construct"; T8 * n = new T8(move(*t[j])); delete t[i]; t[i] = n; m[i] = m[j]; delete t[j]; m[j] = v; t[j] = build(v); } break;
				case 10: { w = "replace"; delete t[i]; m[i] = v; t[i] = build(v); break; }
				default: { w = "small tuples"; Tuple<String> a{S(v.s)}; Tuple<String> b(a); b.get<0>() += 'x'; eqs(a.get<0>(), v.s, w); eqs(b.get<String>(), v.s + "x", w); Tuple<int32, int32, int32> c{v.a, v.b, 3}, d(c); d.get<1>() = 5; EXPECT(c.get<0>() == v.a && c.get<1>() == v.b && c.get<2>() == 3 && c.get<int32>() == v.a && d.get<1>() == 5 && d.get<0>() == v.a, "tuple-index", "a tuple of three equal types"); const auto & cc = c; EXPECT(&c.get<int32>() == &c.get<0>() && &cc.get<int32>() == &c.get<0>() && &cc.get<2>() == &c.get<2>(), "tuple-type", "three equal types"); Tuple<int32, int32> two{v.a, v.b}; const auto & ct = two; EXPECT(&two.get<int32>() == &two.get<0>() && &ct.get<int32>() == &two.get<0>() && ct.get<1>() == v.b, "tuple-type", "two equal types"); Tuple<int8, TR, TR> tt{v.c, TR(v.t), TR(v.u)}; const auto & ctt = tt; EXPECT(&tt.get<TR>() == &tt.get<1>() && &ctt.get<TR>() == &tt.get<1>() && ctt.get<2>().get() == v.u, "tuple-type", "two equal types at the end"); EXPECT(c.getCount() == 3 && a.getCount() == 1, "tuple-count", "count"); Tuple<int8, TR, int8> e{v.c, TR(v.t), (int8)(v.c + 1)}; EXPECT(e.get<0>() == v.c && e.get<2>() == (int8)(v.c + 1) && e.get<TR>().get() == v.t, "tuple-index", "a tuple of mixed sizes"); COV("tuple:small"); break; }
			}
			for (int z = 0; z < N; ++z) check8(*t[z], m[z], w);
			EXPECT(kv::L.live == 2 * N, "lifetime", "%s: %llu tracked items are alive instead of %d", w, (unsigned long long)kv::L.live, 2 * N);
			kv::state(kv::mix(op * 64 + i * 8 + j));
		}
		kv::nontrivial(); for (auto p : t) delete p;
	}
	kv::expectNoLive("after the tuples were destroyed");
}

// ---- pair
struct Down { template<typename X> int32 operator()(const X & a, const X & b) const { return a < b ? 700 : b < a ? -3 : 0; } };
template<typename A, typename B, typename C> static void pair(kv::Rng & R, bool descending)
{
	using P = Pair<A, B, C>; using EA = Elem<A>; using EB = Elem<B>;
	{
		const int n = 2 + (int)R.below(6); std::vector<std::pair<int, int>> m; std::vector<P *> p; kv::T("pairs of %s and %s", EA::name(), EB::name());
		for (int i = 0; i < n; ++i) { const int k = (int)R.below(5), v = (int)R.below(1000); kv::T(" (%d, %d)", k, v); m.push_back({k, v}); if (R.chance(1, 2)) p.push_back(new P(EA::mk(k), EB::mk(v))); else { const A a = EA::mk(k); B b = EB::mk(v); p.push_back(new P(a, b)); EXPECT(EB::val(b) == v, "pair-source", "building a pair changed its source"); } }
		for (int z = 0; z < 6; ++z)
		{
			const int i = (int)R.below(n), j = (int)R.below(n), v = (int)R.below(1000);
			switch (R.below(4))
			{
				case 0: p[i]->second = EB::mk(v); m[i].second = v; kv::T("second of %d = %d", i, v); break;
				case 1: p[i]->getVal() = EB::mk(v); m[i].second = v; kv::T("value of %d = %d", i, v); break;
				case 2: *p[i] = *(const P *)p[j]; m[i] = m[j]; kv::T("%d = %d", i, j); COV("pair:assign"); break;
				default: { P c(*p[j]); c.second = EB::mk(v); EXPECT(EB::val(c.second) == v && EA::val(c.first) == m[j].first, "pair", "copy"); COV("pair:copy"); break; }
			}
		}
		for (int i = 0; i < n; ++i)
		{
			const P & c = *p[i];
			EXPECT(EA::val(c.first) == m[i].first && EA::val(c.getKey()) == m[i].first && &c.getKey() == &c.first, "pair", "the key of a pair is not the value it was given");
			EXPECT(EB::val(c.second) == m[i].second && EB::val(c.getVal()) == m[i].second && &c.getVal() == &c.second && &p[i]->getVal() == &c.second, "pair", "the value of a pair is not the value it was given");
			for (int j = 0; j < n; ++j)
			{
				const P & d = *p[j]; int want = (m[i].first > m[j].first) - (m[i].first < m[j].first); if (descending) want = -want;
				auto sg = [](int32 x) { return (x > 0) - (x < 0); };
				EXPECT((c == d) == (want == 0) && (c != d) == (want != 0) && (c < d) == (want < 0) && (c > d) == (want > 0) && (c <= d) == (want <= 0) && (c >= d) == (want >= 0), "pair-order", "the operators on pairs with keys %d and %d disagree with the order of the keys", m[i].first, m[j].first);
				typename P::FindPair f; EXPECT(sg(f(c, d)) == want && sg(f(c, d.first)) == want && sg(f(c.first, d)) == want, "pair-order", "comparing pairs and keys %d and %d disagrees with the order of the keys", m[i].first, m[j].first);
				if (!want) COV("pair:equal-keys"); else COV("pair:different-keys");
			}
		}
		kv::nontrivial(); kv::state(kv::mix(kv::G.traceHash)); for (auto x : p) delete x;
	}
	kv::expectNoLive("after the pairs were destroyed");
}
static void pairs(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: pair<int32, String, ThreeWayCompare>(R, false); break;
		case 1: pair<TR, int32, ThreeWayCompare>(R, false); break;
		case 2: pair<int32, TR, Down>(R, true); break;
		case 3: pair<uint64, TA, ThreeWayCompare>(R, false); break;
		case 4: pair<int32, int32, Down>(R, true); break;
		default: pair<TR, String, Down>(R, true); break;
	}
}

// ---- static array
template<typename T, uint64 n, typename E = Elem<T>> static void checkArray(StaticArray<T, n> & a, const int * v, const char * w)
{
	const StaticArray<T, n> & c = a;
	EXPECT(c.getCount() == n, "count", "%s: a static array of %llu reports %llu", w, (unsigned long long)n, (unsigned long long)c.getCount());
	for (uint64 i = 0; i < n; ++i) EXPECT(E::val(a[i]) == v[i] && E::val(c[i]) == v[i] && *a + i == &a[i] && *c + i == &a[i], "static-array", "%s: element %llu of %llu is not the value it was given", w, (unsigned long long)i, (unsigned long long)n);
}
template<typename T, uint64 n> static void sarray(kv::Rng & R)
{
	using E = Elem<T>; using A = StaticArray<T, n>;
	{
		int v[n], u[n]; T src[n]; for (uint64 i = 0; i < n; ++i) { v[i] = (int)R.below(1000); u[i] = v[i]; src[i] = E::mk(v[i]); }
		kv::T("static array of %llu %s from %d", (unsigned long long)n, E::name(), v[0]);
		A a((const T *)src), b(*(const A *)&a); checkArray<T, n>(a, v, "from a buffer"); checkArray<T, n>(b, v, "copy");
		A l(a); checkArray<T, n>(l, v, "copy of a variable"); { A cr(move(*(const A *)&a)); checkArray<T, n>(cr, v, "copy of a constant temporary"); checkArray<T, n>(a, v, "constant source"); } auto ml = makeStaticArray((const T (&)[n])src); checkArray<T, n>(ml, v, "makeStaticArray");
		for (int z = 0; z < 8; ++z) { const uint64 i = R.below(n); u[i] = (int)R.below(1000); kv::T("[%llu] = %d", (unsigned long long)i, u[i]); b[i] = E::mk(u[i]); checkArray<T, n>(b, u, "write"); checkArray<T, n>(a, v, "write to the copy"); }
		l = b; checkArray<T, n>(l, u, "assignment"); A m(move(b)); checkArray<T, n>(m, u, "move"); EXPECT(b.getCount() == n, "static-array", "a fixed-size array counts %llu of %llu elements after it was moved from", (unsigned long long)b.getCount(), (unsigned long long)n); { A w; w = move(m); checkArray<T, n>(w, u, "move assignment"); EXPECT(m.getCount() == n, "static-array", "a fixed-size array counts %llu of %llu elements after it was moved from", (unsigned long long)m.getCount(), (unsigned long long)n); m = w; checkArray<T, n>(m, u, "assignment after a move"); } COV("static-array"); if (n > 1) kv::nontrivial(); kv::state(kv::mix(n));
	}
	kv::expectNoLive("after the arrays were destroyed");
}
static void items(kv::Rng & R)
{
	const int a = (int)R.below(1000), b = (int)R.below(1000), c = (int)R.below(1000); kv::T("static arrays of %d %d %d", a, b, c); kv::nontrivial();
	{
		int v[5] = {a, b, c, 0, 0}; StaticArray<int32, 3> x{a, b, c}; checkArray<int32, 3>(x, v, "from items"); StaticArray<int32, 5> y{a, b, c}; checkArray<int32, 5>(y, v, "from fewer items"); const StaticArray<TR, 3> z{TR(a), TR(b), TR(c)}; StaticArray<TR, 3> zz(z); checkArray<TR, 3>(zz, v, "from items");
		StaticArray<int32, 1> one{a}; checkArray<int32, 1>(one, v, "from one item"); int w[7] = {}; StaticArray<int32, 7> d; checkArray<int32, 7>(d, w, "default"); StaticArray<String, 2> s{String{"ab"}, Elem<String>::mk(c)}; eqs(s[0], "ab", "from items"); EXPECT(Elem<String>::val(s[1]) == c, "static-array", "text items");
		constexpr StaticArray<int32, 4> k{4, 3, 2, 1}; static_assert(k.getCount() == 4 && k[0] == 4 && k[3] == 1, ""); COV("items");
	}
	kv::expectNoLive("after the arrays were destroyed");
}
static void arrays(kv::Rng & R)
{
	if (R.chance(1, 60)) { COV("static-array:long"); if (R.chance(1, 2)) sarray<int32, 300>(R); else sarray<Pod3, 70001>(R); return; }
	switch (R.below(8))
	{
		case 0: sarray<int32, 1>(R); break; case 1: sarray<int32, 17>(R); break; case 2: sarray<TR, 3>(R); break; case 3: sarray<String, 5>(R); break;
		case 4: sarray<Pod3, 8>(R); break; case 5: sarray<TA, 2>(R); break; case 6: sarray<uint64, 64>(R); break; default: items(R);
	}
}

// ---- names: all concatenations of up to three of a family of names
#define NAMES(X) X(n0, "") X(n1, "a") X(n2, "Korin") X(n3, "::") X(n4, "a somewhat longer name with spaces, 0123456789") X(n5, "<\"quoted\">\n") X(n6, "x\0y") X(n7, "State#")
#define DEFN(n, s) static constexpr Name n = s;
#define DEFS(n, s) std::string(s, sizeof(s) - 1),
NAMES(DEFN)
static const std::string nameText[] = { NAMES(DEFS) };
static constexpr const Name * const nameObj[] = {&n0, &n1, &n2, &n3, &n4, &n5, &n6, &n7};
static void name(const Name & n, const std::string & want, const char * w)
{
	EXPECT(n.getLength() == want.size(), "name", "%s: length %llu instead of %zu", w, (unsigned long long)n.getLength(), want.size());
	for (size_t i = 0; i < want.size(); ++i) EXPECT(n[i] == want[i] && (*n)[i] == want[i], "name", "%s: character %zu differs", w, i);
	EXPECT((*n)[want.size()] == 0, "name", "%s: not terminated", w);
}
template<const Name & a, const Name & b> static void join2(size_t i, size_t j) { name(JOIN_NAME(a, b), nameText[i] + nameText[j], "join of two"); name(JOIN_NAME(a, n3, b, n3, a), nameText[i] + "::" + nameText[j] + "::" + nameText[i], "join of five"); name(JOIN_NAME(b, a, b), nameText[j] + nameText[i] + nameText[j], "join of three"); name(JOIN_NAME(a), nameText[i], "join of one"); }
template<const Name & a> static void join1(size_t i, size_t j)
{
	switch (j) { case 0: join2<a, n0>(i, j); break; case 1: join2<a, n1>(i, j); break; case 2: join2<a, n2>(i, j); break; case 3: join2<a, n3>(i, j); break; case 4: join2<a, n4>(i, j); break; case 5: join2<a, n5>(i, j); break; case 6: join2<a, n6>(i, j); break; default: join2<a, n7>(i, j); }
}
// ---- long names: lengths around the powers of two
#define L16(c) c "bcdefghijklmno" "\n"
#define L64(c) L16(c) L16("-") L16("=") L16("+")
#define L256(c) L64(c) L64("0") L64("1") L64("2")
#define L1K(c) L256(c) L256("3") L256("4") L256("5")
#define L4K(c) L1K(c) L1K("6") L1K("7") L1K("8")
#define L16K(c) L4K(c) L4K("9") L4K("[") L4K("]")
#define LONGNAMES(X) X(l0, L64("A") L64("B") L64("C") L16("D") L16("E") L16("F") "fifteen chars..") X(l1, L256("G")) X(l2, L256("H") "!") X(l3, L1K("I") "tail") X(l4, L16K("J") L16K("K") L16K("L") L16K("M") "beyond")
LONGNAMES(DEFN)
static const std::string longText[] = { LONGNAMES(DEFS) };
template<const Name & a> static void longJoins(size_t i)
{
	name(a, longText[i], "a long name"); name(JOIN_NAME(a, n3), longText[i] + "::", "join of a long name"); name(JOIN_NAME(n2, a), "Korin" + longText[i], "join of a long name"); name(JOIN_NAME(a, l2, a), longText[i] + longText[2] + longText[i], "join of long names");
	String s(a); eqs(s, longText[i], "string from a long name"); COV("name:long");
}
// Many short parts
static void manyParts()
{
	name(JOIN_NAME(n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n2, n1), [] { std::string s; for (int i = 0; i < 20; ++i) s += "Korin"; return s + "a"; }(), "join of 21");
}
static void longNames(kv::Rng & R)
{
	const size_t i = R.below(6); kv::T("long name %zu", i); kv::nontrivial();
	switch (i) { case 0: longJoins<l0>(0); break; case 1: longJoins<l1>(1); break; case 2: longJoins<l2>(2); break; case 3: longJoins<l3>(3); break; case 4: longJoins<l4>(4); break; default: manyParts(); }
}
static void names(kv::Rng & R)
{
	if (R.chance(1, 40)) { longNames(R); return; }
	const size_t i = R.below(8), j = R.below(8); kv::T("names %zu and %zu", i, j); kv::state(kv::mix(i * 8 + j)); COV("name:joined");
	switch (i) { case 0: join1<n0>(i, j); break; case 1: join1<n1>(i, j); break; case 2: join1<n2>(i, j); break; case 3: join1<n3>(i, j); break; case 4: join1<n4>(i, j); break; case 5: join1<n5>(i, j); break; case 6: join1<n6>(i, j); break; default: join1<n7>(i, j); }
	name(*nameObj[i], nameText[i], "name from a literal");
	{
		const std::string t = text(R); Name n(t.c_str(), t.size()); name(n, t, "name from a buffer"); String s(n); eqs(s, t, "string from a name"); if (t.size() > 2) kv::nontrivial(); kv::T("%s", t.c_str());
		const sizet part = R.below(t.size() + 1); Name p(t.c_str(), part); EXPECT(p.getLength() == part, "name", "length of a part"); String ps(p); eqs(ps, t.substr(0, part), "string from a part");
		StaticArray<ansichar, 24> buf; for (int q = 0; q < 23; ++q) buf[q] = (char)('A' + R.below(26)); Name b(buf); name(b, std::string(*buf, 23), "name from a static array"); Name cpy(b); name(cpy, std::string(*buf, 23), "copy of a name");
	}
	name(TypeDebugInfo<int32>::debugName, "int32", "type name"); name(TypeDebugInfo<uint64>::debugName, "uint64", "type name"); name(TypeDebugInfo<void>::debugName, "void", "type name");
}
KV_MAIN({"tuples", tuples, true}, {"pairs", pairs, true}, {"arrays", arrays, true}, {"names", names, true})
