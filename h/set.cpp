// Set membership and algebra (C10) and comparison operators (C11) against
// reference sets.
#include "elems.h"
#include <vector>
#include <set>
#include <algorithm>
#include "containers/set.h"

/// Descending; the magnitude of what it returns carries no meaning, and runs over the whole range of the result type
static int32 magnitude(int64 gap, int32 sign) { const int32 up[6] = {1, 76, 255, 65536, 0x20000000, 0x7fffffff}; const int32 m = up[gap % 6]; return sign > 0 ? m : m == 0x7fffffff ? -m - 1 : -m; }
struct DescSet { int32 operator()(int32 a, int32 b) const { return a < b ? magnitude((int64)b - a, 1) : a > b ? magnitude((int64)a - b, -1) : 0; } };

template<typename T, typename CmpT = ThreeWayCompare>
struct SetWork
{
	using E = Elem<T>; using SetT = Set<T, CmpT>; typedef std::set<int> Ref;
	static const int NA = 3; static constexpr bool desc = __is_same(CmpT, DescSet), text = __is_same(T, String);
	kv::Rng & R; SetT * a[NA]; Ref m[NA]; int range; bool big;
	explicit SetWork(kv::Rng & r) : R(r) { for (auto & x : a) x = new SetT(); big = R.chance(1, 60); range = big ? 20000 : R.chance(1, 3) ? 6 : R.chance(1, 2) ? 24 : 2000; }
	~SetWork() { for (auto & x : a) delete x; }
	static String text_(int v) { if constexpr (text) return E::mk(v); else return String(); }
	static std::vector<int> seq(const Ref & r) { std::vector<int> v(r.begin(), r.end()); if (text) std::sort(v.begin(), v.end(), [](int x, int y) { return strcmp(*text_(x), *text_(y)) < 0; }); if (desc) std::reverse(v.begin(), v.end()); return v; }
	int item() { return (int)R.below(range); }

	void same(const SetT & x, const Ref & r, const char * op)
	{
		const std::vector<int> s = seq(r); const size_t n = s.size(); size_t i = 0; kv::u64 h = kv::mix(n);
		EXPECT(x.getSize() == n && x.getCount() == n && x.getNumItems() == n, "size", "%s: size is %llu, expected %llu", op, (unsigned long long)x.getSize(), (unsigned long long)n);
		for (const auto & e : x) { const int v = E::val(e); EXPECT(i < n && v == s[i], "content", "%s: item %llu is %d, expected %d of %llu", op, (unsigned long long)i, v, i < n ? s[i] : -1, (unsigned long long)n); h = kv::mix(h ^ (kv::u64)v); ++i; }
		EXPECT(i == n, "content", "%s: iteration visits %llu of %llu items", op, (unsigned long long)i, (unsigned long long)n);
		const auto & t = x.getTree(); EXPECT(t.getNumNodes() == n && &t == &((SetT &)x).getTree(), "size", "%s: the underlying tree has %llu nodes, expected %llu", op, (unsigned long long)t.getNumNodes(), (unsigned long long)n);
		kv::state(h);
	}
	void check(int k, const char * op)
	{
		SetT & x = *a[k]; const SetT & cx = x; const Ref & r = m[k]; same(cx, r, op);
		const std::vector<int> s = seq(r); size_t i = 0; for (auto & e : x) { EXPECT(i < s.size() && E::val(e) == s[i], "content", "%s: mutable iteration", op); ++i; } EXPECT(i == s.size(), "content", "%s: mutable iteration visits %llu", op, (unsigned long long)i);
		if (!s.empty())
		{
			auto b = x.begin(E::mk(s[s.size() - 1])); EXPECT(b != x.end(), "membership", "%s: the last item is not found", op); i = s.size();
			while (b != x.end()) { EXPECT(i > 0, "content", "%s: backward iteration visits too many items", op); --i; EXPECT(E::val(*b) == s[i], "content", "%s: backward iteration differs at %llu", op, (unsigned long long)i); if (i & 1) --b; else b--; }
			EXPECT(i == 0, "content", "%s: backward iteration stops %llu items early", op, (unsigned long long)i);
		}
		int q[4]; bool in[4]; for (int j = 0; j < 4; ++j) { q[j] = s.size() && j < 2 && R.chance(1, 2) ? s[R.below(s.size())] : R.chance(1, 8) ? -1 : R.chance(1, 8) ? range : item(); in[j] = r.count(q[j]); }
		const T k0 = E::mk(q[0]), k1 = E::mk(q[1]), k2 = E::mk(q[2]), k3 = E::mk(q[3]);
		EXPECT(cx.get(k0) == in[0] && cx.get(k3) == in[3], "membership", "%s: get(%d) is %d", op, q[0], cx.get(k0));
		T out = E::mk(-7); const bool ok = x.get(k0, out); EXPECT(ok == in[0] && E::val(out) == (in[0] ? q[0] : -7), "membership", "%s: get(%d, out) returns %d and delivers %d", op, q[0], ok, E::val(out));
		{
			const int c = 2 + (int)R.below(8); int v[9]; bool some = false, every = true; for (int j = 0; j < 9; ++j) { v[j] = s.size() && R.chance(3, 4) ? s[R.below(s.size())] : item(); if (j < c) { const bool is = r.count(v[j]); some |= is; every &= is; } }
			bool any = false, all = false; kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { any = cx.any(e...); all = cx.all(e...); });
			EXPECT(any == some && all == every, "membership", "%s: any and all of %d items from %d on are %d and %d", op, c, v[0], any, all);
			const int w = range + 9; if (!r.count(w)) { const T no = E::mk(w); bool one = false; const int at = (int)R.below(c); kv::spread(c, [&](int i) { return i == at ? E::mk(v[0]) : no; }, [&](auto && ...e) { one = cx.any(e...); }); EXPECT(one == (r.count(v[0]) > 0), "membership", "%s: any of %d items of which one, %d, may be present is %d", op, c, v[0], one); }
		}
		EXPECT(cx.any(k0) == in[0], "membership", "%s: any(%d) is %d", op, q[0], cx.any(k0));
		EXPECT(cx.any(k0, k1) == (in[0] || in[1]), "membership", "%s: any(%d, %d) is %d", op, q[0], q[1], cx.any(k0, k1));
		EXPECT(cx.any(k0, k1, k2, k3) == (in[0] || in[1] || in[2] || in[3]), "membership", "%s: any of four", op);
		EXPECT(cx.all(k0) == in[0] && cx.all(k0, k1) == (in[0] && in[1]), "membership", "%s: all(%d, %d) is %d", op, q[0], q[1], cx.all(k0, k1));
		EXPECT(cx.all(k0, k1, k2, k3) == (in[0] && in[1] && in[2] && in[3]), "membership", "%s: all of four", op);
		for (int j = 0; j < 4; ++j) COV(in[j] ? "member" : "not-member"); { T o2 = E::mk(-7); const bool ok2 = cx.get(k1, o2); EXPECT(ok2 == in[1] && E::val(o2) == (in[1] ? q[1] : -7), "membership", "%s: const get(%d, out) returns %d", op, q[1], ok2); }
		size_t c = 0; for (auto b = x.begin(k0), e = x.end(k0); b != e; ++b) { EXPECT(b != x.end() && E::val(*b) == q[0], "range", "%s: range of item %d", op, q[0]); ++c; } EXPECT(c == (in[0] ? 1u : 0u), "range", "%s: range of item %d has %llu", op, q[0], (unsigned long long)c);
		c = 0; for (auto b = cx.begin(k1), e = cx.end(k1); b != e; ++b) ++c; EXPECT(c == (in[1] ? 1u : 0u), "range", "%s: const range of item %d has %llu", op, q[1], (unsigned long long)c);
	}
	Ref algebra(int op, const Ref & l, const Ref & r)
	{
		Ref o;
		if (op == 0) std::set_union(l.begin(), l.end(), r.begin(), r.end(), std::inserter(o, o.end()));
		else if (op == 1) std::set_intersection(l.begin(), l.end(), r.begin(), r.end(), std::inserter(o, o.end()));
		else std::set_difference(l.begin(), l.end(), r.begin(), r.end(), std::inserter(o, o.end()));
		return o;
	}
	void step()
	{
		const int k = (int)R.below(NA); SetT & x = *a[k]; Ref & r = m[k]; const size_t n = r.size();
		#define OP(name, ...) do { char b_[96]; snprintf(b_, sizeof(b_), __VA_ARGS__); kv::T("s%d.%s", k, b_); COV("op:" name); } while (0)
		switch (R.below(23))
		{
			case 0: case 1: { const int v = item(); const bool had = r.count(v); OP("set", "set(%d), %s", v, had ? "present" : "absent"); if (R.chance(1, 2)) { T & ref = x.set(E::mk(v)); EXPECT(E::val(ref) == v, "returned-ref", "set returns %d", E::val(ref)); } else { const T e = E::mk(v); x.set(e); EXPECT(E::val(e) == v, "argument-altered", "set altered its argument"); } r.insert(v); break; }
			case 2: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = item(); OP("set-many", "set(%d items from %d)", c, v[0]); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.set(static_cast<decltype(e)>(e)...); }); r.insert(v, v + c); break; } else { const int v[3] = {item(), item(), item()}; OP("set-multi", "set(%d,%d,%d)", v[0], v[1], v[2]); T e = E::mk(v[1]); x.set(E::mk(v[0]), e, E::mk(v[2])); r.insert(v, v + 3); EXPECT(E::val(e) == v[1], "argument-altered", "set of several items altered an lvalue argument"); break; }
			case 3: case 4: { const int v = n && R.chance(2, 3) ? seq(r)[R.below(n)] : item(); const bool had = r.count(v); OP("remove", "remove(%d), %s", v, had ? "present" : "absent"); bool ok; if (R.chance(1, 2)) ok = x.remove(E::mk(v)); else { T out = E::mk(-3); ok = x.remove(E::mk(v), out); EXPECT(E::val(out) == (had ? v : -3), "remove-value", "remove delivers %d", E::val(out)); } EXPECT(ok == had, "remove-result", "remove returns %d for an item %s", ok, had ? "present" : "absent"); r.erase(v); break; }
			case 5: case 6: case 7: case 8: case 9:
			{
				const int j = R.chance(1, 8) ? k : (int)R.below(NA), op = (int)R.below(3); const char * names[] = {"+=", "*=", "-="};
				OP("in-place", "%s s%d (%llu, %llu)%s", names[op], j, (unsigned long long)n, (unsigned long long)m[j].size(), j == k ? " itself" : ""); COV(op == 0 ? "union" : op == 1 ? "intersection" : "difference"); if (j == k) COV("self-operand"); if (!n || m[j].empty()) COV("empty-operand");
				const Ref e = algebra(op, r, m[j]); SetT & ret = op == 0 ? (x += *(const SetT *)a[j]) : op == 1 ? (x *= *(const SetT *)a[j]) : (x -= *(const SetT *)a[j]);
				EXPECT(&ret == &x, "returned-ref", "compound operator returns another object"); r = e; check(j, "right operand"); break;
			}
			case 10: case 11: case 12: case 13:
			{
				const int i = (int)R.below(NA), j = R.chance(1, 6) ? i : (int)R.below(NA), op = (int)R.below(3); const char * names = "+*-";
				OP("value", "= s%d %c s%d (%llu, %llu)", i, names[op], j, (unsigned long long)m[i].size(), (unsigned long long)m[j].size()); COV(op == 0 ? "union-value" : op == 1 ? "intersection-value" : "difference-value");
				const Ref e = algebra(op, m[i], m[j]); const SetT & l = *a[i], & rr = *a[j]; const SetT res = op == 0 ? l + rr : op == 1 ? l * rr : l - rr; same(res, e, "result"); check(i, "left operand"); check(j, "right operand");
				if (R.chance(1, 2)) { x = res; r = e; }
				break;
			}
			case 14: { const int j = (int)R.below(NA); OP("copy-assign", "= s%d", j); x = *(const SetT *)a[j]; r = Ref(m[j]); break; }
			case 15: { const int j = (int)R.below(NA); OP("copy-construct", "replaced by a copy of s%d", j); SetT * c = new SetT(*(const SetT *)a[j]); Ref cr = m[j]; delete a[k]; a[k] = c; m[k] = cr; break; }
			case 16: { const int j = (int)R.below(NA); OP("move-assign", "= move(s%d)", j); x = ::move(*a[j]); if (j != k) { r = m[j]; m[j].clear(); check(j, "moved-from set"); } break; }
			case 17: if (n)
			{
				const std::vector<int> s = seq(r); const size_t p = R.below(n); const int v = s[p], what = (int)R.below(4); OP("own-item", "own item %d, %s", v, what == 0 ? "set" : what == 1 ? "removed" : what == 2 ? "removed with its value" : "asked for"); auto it = x.begin(); for (size_t i = 0; i < p; ++i) ++it; T & own = *it;
				if (what == 0) { T & ref = x.set(own); EXPECT(&ref == &own && E::val(own) == v, "returned-ref", "setting an own item returns another one, %d", E::val(ref)); }
				else if (what == 1) { const bool ok = x.remove(own); EXPECT(ok, "remove-result", "remove of an own item returns false"); r.erase(v); }
				else if (what == 2) { T out = E::mk(-3); const bool ok = x.remove(own, out); EXPECT(ok && E::val(out) == v, "remove-value", "remove of an own item returns %d and delivers %d", ok, E::val(out)); r.erase(v); }
				else { T out = E::mk(-3); const bool ok = x.get(own, out) && x.get(own) && x.any(own) && x.all(own); EXPECT(ok && E::val(out) == v && E::val(own) == v, "membership", "own item %d is not found or delivered as %d", v, E::val(out)); }
				break;
			}
			case 18:
			{
				const int i = (int)R.below(NA), j = (int)R.below(NA), o1 = (int)R.below(3), o2 = (int)R.below(3), form = (int)R.below(4); const char * names = "+*-";
				OP("chained", "= (s%d %c s%d) %c %s, form %d", i, names[o1], j, names[o2], form == 1 ? "(itself)" : "itself", form);
				auto of = [](int o, const SetT & p, const SetT & q) -> SetT { return o == 0 ? p + q : o == 1 ? p * q : p - q; };
				const Ref inner = algebra(o1, m[i], m[j]); Ref e;
				if (form == 0) { e = algebra(o2, inner, r); x = of(o2, of(o1, *a[i], *a[j]), x); }
				else if (form == 1) { e = algebra(o2, r, inner); x = of(o2, x, of(o1, *a[i], *a[j])); }
				else if (form == 2) { e = algebra(o2, algebra(o1, r, m[i]), m[j]); auto in = [](int o, SetT & p, const SetT & q) -> SetT & { return o == 0 ? p += q : o == 1 ? p *= q : p -= q; }; if (i == k || j == k) { Ref t = algebra(o1, r, m[i]); e = algebra(o2, t, j == k ? t : m[j]); } SetT & ret = in(o2, in(o1, x, *a[i]), *a[j]); EXPECT(&ret == &x, "returned-ref", "chained compound operators return another object"); }
				else { const Ref e0 = algebra(o1, r, m[i]); e = algebra(o2, e0, m[j]); x = of(o2, of(o1, x, *a[i]), *a[j]); }
				r = e; for (int q = 0; q < NA; ++q) check(q, "chained operators"); break;
			}
			default: { const int c = 1 + (int)R.below(big ? 700 : range < 30 ? 6 : 40); const int from = item(), st = 1 + (int)R.below(3); OP("fill", "fill %d from %d by %d", c, from, st); for (int i = 0; i < c; ++i) { const int v = (from + i * st) % range; x.set(E::mk(v)); r.insert(v); } break; }
		}
		#undef OP
		if (n > 4) kv::nontrivial();
		for (int j = 0; j < NA; ++j) if (j == k || R.chance(1, 8)) check(j, "after the last operation");
		if (m[k].size() > 1000) COV("items:large");
		if (m[k].size() > (big ? 3000 : 300)) { delete a[k]; a[k] = new SetT(); m[k].clear(); }
	}
	static void run(kv::Rng & R)
	{
		int steps = 8 + (int)R.below(kv::G.thorough ? 200 : 60);
		kv::T("set of %s%s, %d steps", E::name(), desc ? " descending" : "", steps);
		{ SetWork w(R); if (w.big && steps > 40) steps = 40; for (int i = 0; i < steps; ++i) w.step(); for (int j = 0; j < NA; ++j) w.check(j, "at the end"); }
		kv::expectNoLive("after the sets were destroyed");
	}

	// ------------------------------------------------------------ C11
	static void pairs(kv::Rng & R)
	{
		const int range = R.chance(1, 30) ? 100 + (int)R.below(600) : 1 + (int)R.below(R.chance(1, 2) ? 4 : 12); if (range > 299) COV("pair:large"); const int ns = 4; Ref m[ns]; SetT s[ns];
		for (int i = 0; i < ns; ++i)
		{
			const int kind = (int)R.below(6); 
			if (i && kind == 0) m[i] = m[i - 1];									// equal
			else if (i && kind == 1) { m[i] = m[i - 1]; m[i].insert(range + i); }	// prefix of the other
			else if (i && kind == 2) { m[i] = m[i - 1]; if (!m[i].empty()) m[i].erase(m[i].begin()); }
			else if (i && kind == 3) { m[i] = m[i - 1]; if (!m[i].empty()) { auto it = m[i].end(); m[i].erase(--it); } }
			else if (kind == 4) ;													// empty
			else for (int c = (int)R.below(range + 1); c > 0; --c) m[i].insert((int)R.below(range));
			std::vector<int> v(m[i].begin(), m[i].end()); for (size_t j = v.size(); j > 1; --j) std::swap(v[j - 1], v[R.below(j)]);
			std::string t; for (int e : v) { s[i].set(E::mk(e)); t += " " + std::to_string(e); }
			// Shape the tree through removals as well
			if (R.chance(1, 3)) { s[i].set(E::mk(range + 50)); s[i].remove(E::mk(range + 50)); }
			kv::T("s%d = {%s }", i, t.c_str());
		}
		for (int i = 0; i < ns; ++i) for (int j = 0; j < ns; ++j)
		{
			const SetT & l = s[i], & r = s[j]; const Ref & a = m[i], & b = m[j];
			const bool eq = a == b, le = std::includes(b.begin(), b.end(), a.begin(), a.end()), ge = std::includes(a.begin(), a.end(), b.begin(), b.end());
			COV(eq ? "pair:equal" : le ? "pair:contained" : ge ? "pair:contains" : "pair:incomparable"); if (i == j) COV("pair:same-object"); if (a.empty() != b.empty()) COV("pair:empty");
			EXPECT((l == r) == eq, "equality", "s%d == s%d is %d", i, j, l == r); EXPECT((l != r) == !eq, "equality", "s%d != s%d is %d", i, j, l != r);
			EXPECT((l <= r) == le, "inclusion", "s%d <= s%d is %d", i, j, l <= r); EXPECT((l >= r) == ge, "inclusion", "s%d >= s%d is %d", i, j, l >= r);
			EXPECT((l < r) == (le && !eq), "strict-inclusion", "s%d < s%d is %d", i, j, l < r); EXPECT((l > r) == (ge && !eq), "strict-inclusion", "s%d > s%d is %d", i, j, l > r);
			if (!eq && a.size() && b.size()) kv::nontrivial();
			kv::state(kv::mix(a.size() * 64 + b.size()) ^ kv::mix(eq * 4 + le * 2 + ge));
		}
		for (int i = 0; i < ns; ++i) { kv::Rng r2(1); std::vector<int> q = seq(m[i]); size_t k = 0; for (const auto & e : (const SetT &)s[i]) { EXPECT(k < q.size() && E::val(e) == q[k], "altered", "comparison altered an operand"); ++k; } EXPECT(k == q.size(), "altered", "comparison altered an operand"); }
	}
};

static void algebra(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: case 1: SetWork<int32>::run(R); break;
		case 2: SetWork<int32, DescSet>::run(R); break;
		case 3: SetWork<String>::run(R); break;
		case 4: SetWork<kv::Tracked<>>::run(R); break;
		default: SetWork<uint64>::run(R); break;
	}
}
static void compare(kv::Rng & R)
{
	switch (R.below(5))
	{
		case 0: case 1: SetWork<int32>::pairs(R); break;
		case 2: SetWork<int32, DescSet>::pairs(R); break;
		case 3: SetWork<String>::pairs(R); break;
		default: SetWork<kv::Tracked<>>::pairs(R); break;
	}
	kv::expectNoLive("after the sets were destroyed");
}
KV_MAIN({"algebra", algebra, true}, {"compare", compare, true})
