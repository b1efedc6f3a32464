// Containers of elements that can be moved but not copied, mirrored on standard
// containers of their values, with every element lifetime-tracked.
#include "elems.h"
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include "containers/array.h"
#include "containers/list.h"
#include "containers/tree.h"
#include "containers/map.h"
#include "containers/set.h"

struct MO
{
	kv::Tracked<> t; explicit MO(int x = -1) : t(x) {} MO(MO && o) : t(move(o.t)) {} MO & operator=(MO && o) { t = move(o.t); return *this; } MO(const MO &) = delete; MO & operator=(const MO &) = delete;
	int get() const { return t.get(); }
};
struct Cmp { int32 operator()(const MO & a, const MO & b) const { const int x = a.get(), y = b.get(); return (x > y) - (x < y); } };
static void none() { EXPECT(!kv::L.copies && !kv::L.copyAssigns, "copy", "an element was copied"); }
template<typename C> static void same(C & x, const std::vector<int> & r, const char * what)
{
	uint64 i = 0; for (auto & e : x) { EXPECT(i < r.size() && e.get() == r[i], "content", "%s: element %llu is %d", what, (unsigned long long)i, e.get()); ++i; }
	EXPECT(i == r.size(), "content", "%s: %llu elements instead of %llu", what, (unsigned long long)i, (unsigned long long)r.size());
}
static void array(kv::Rng & R)
{
	{
		Array<MO> * a = R.chance(1, 2) ? new Array<MO>() : new Array<MO>(R.below(20) + 1); std::vector<int> r; const int steps = 10 + (int)R.below(70); kv::T("array, %d steps", steps); COV("move-only:array"); MO out(-9);
		for (int q = 0; q < steps; ++q)
		{
			const uint64 n = a->getCount(), at = R.below(n + 1); const int x = (int)R.below(10000), op = (int)R.below(13); kv::T("op %d of %llu at %llu: %d", op, (unsigned long long)n, (unsigned long long)at, x);
			switch (op)
			{
				case 0: case 1: EXPECT(a->add(MO(x)).get() == x, "reference", "add"); r.push_back(x); break;
				case 2: EXPECT(a->insertAt(at, MO(x)).get() == x, "reference", "insertAt"); r.insert(r.begin() + at, x); break;
				case 3: EXPECT(a->insertFirst(MO(x)).get() == x, "reference", "insertFirst"); r.insert(r.begin(), x); break;
				case 4: a->insertLast(MO(x), MO(x + 1), MO(x + 2)); for (int i = 0; i < 3; ++i) r.push_back(x + i); break;
				case 5: a->insertFirst(MO(x), MO(x + 1)); r.insert(r.begin(), {x, x + 1}); break;
				case 6: a->insertAt(at, MO(x), MO(x + 1), MO(x + 2), MO(x + 3)); r.insert(r.begin() + at, {x, x + 1, x + 2, x + 3}); break;
				case 7: if (at < n) { const uint64 k = R.below(n - at + 1); a->removeAt(at, k); r.erase(r.begin() + at, r.begin() + at + k); } break;
				case 8: if (n) { int want; switch (R.below(3)) { case 0: a->popFirst(out); want = r[0]; r.erase(r.begin()); break; case 1: a->popLast(out); want = r[n - 1]; r.pop_back(); break; default: { const uint64 i = at < n ? at : 0; a->popAt(i, out); want = r[i]; r.erase(r.begin() + i); } } EXPECT(out.get() == want, "content", "popped %d instead of %d", out.get(), want); } break;
				case 9: if (at < n) { (*a)[at] = MO(x); r[at] = x; } break;
				case 10: { Array<MO> * b = new Array<MO>(move(*a)); EXPECT(!a->getCount(), "content", "a moved-from array has elements"); delete a; a = b; break; }
				case 11: { Array<MO> b; for (uint64 i = R.below(9); i > 0; --i) b.add(MO(1)); b = move(*a); same(b, r, "move assignment"); *a = move(b); break; }
				default: if (R.chance(1, 6)) { if (R.chance(1, 2)) a->empty(); else a->reset(); r.clear(); } else { EXPECT((*a)(n, MO(x)).get() == x, "reference", "call"); r.push_back(x); } break;
			}
			same(*a, r, "after an operation"); EXPECT(kv::L.live == r.size() + 1, "lifetime", "%llu elements are alive instead of %llu", (unsigned long long)kv::L.live - 1, (unsigned long long)r.size()); none();
			if (r.size() > 8) { kv::nontrivial(); COV("move-only:array-grown"); } kv::state(kv::mix(r.size() * 16 + op));
		}
		delete a;
		Array<Array<MO>> nested; for (int i = 0; i < 10; ++i) { Array<MO> in; for (int z = 0; z < i; ++z) in.add(MO(z)); const MO * p = *in; nested.add(move(in)); EXPECT(*nested[i] == p, "content", "an array moved into another one was rebuilt"); }
		for (int i = 0; i < 10; ++i) { EXPECT((int)nested[i].getCount() == i, "content", "nested arrays"); for (int z = 0; z < i; ++z) EXPECT(nested[i][z].get() == z, "content", "nested arrays"); } none();
	}
	kv::expectNoLive("after the array was destroyed");
}
static void list(kv::Rng & R)
{
	{
		List<MO> * a = new List<MO>(); std::vector<int> r; const int steps = 10 + (int)R.below(50); kv::T("list, %d steps", steps); COV("move-only:list"); MO out(-9);
		for (int q = 0; q < steps; ++q)
		{
			const uint64 n = r.size(); const int x = (int)R.below(10000), op = (int)R.below(9); kv::T("op %d of %llu: %d", op, (unsigned long long)n, x);
			switch (op)
			{
				case 0: a->pushBack(MO(x)); r.push_back(x); break;
				case 1: a->pushFront(MO(x)); r.insert(r.begin(), x); break;
				case 2: a->pushBack(MO(x), MO(x + 1), MO(x + 2)); for (int i = 0; i < 3; ++i) r.push_back(x + i); break;
				case 3: if (n) { const int want = r[0]; EXPECT(a->popFront(out) && out.get() == want, "content", "popped %d instead of %d", out.get(), want); r.erase(r.begin()); } break;
				case 4: if (n) { const int want = r[n - 1]; EXPECT(a->popBack(out) && out.get() == want, "content", "popped %d instead of %d", out.get(), want); r.pop_back(); } break;
				case 5: if (n) { uint64 at = R.below(n); auto it = a->begin(); for (uint64 i = 0; i < at; ++i) ++it; a->remove(it); r.erase(r.begin() + at); } break;
				case 6: { List<MO> * b = new List<MO>(move(*a)); delete a; a = b; break; }
				case 7: { List<MO> b; for (uint64 i = R.below(5); i > 0; --i) b.pushBack(MO(1)); b = move(*a); same(b, r, "move assignment"); *a = move(b); break; }
				default: if (n) { (*a->begin()) = MO(x); r[0] = x; } break;
			}
			same(*a, r, "after an operation"); EXPECT(kv::L.live == r.size() + 1, "lifetime", "%llu elements are alive instead of %llu", (unsigned long long)kv::L.live - 1, (unsigned long long)r.size()); none();
			if (r.size() > 4) kv::nontrivial(); kv::state(kv::mix(r.size() * 16 + op));
		}
		delete a;
	}
	kv::expectNoLive("after the list was destroyed");
}
static void ordered(kv::Rng & R)
{
	{
		BinaryTree<MO, Cmp> t; std::multiset<int> rt; Map<int32, MO> m; std::map<int, int> rm; Map<MO, int32, Cmp> k; std::map<int, int> rk; Set<MO, Cmp> s; std::set<int> rs; const int steps = 10 + (int)R.below(60), range = 1 + (int)R.below(40); kv::T("ordered, %d steps", steps); COV("move-only:ordered");
		for (int q = 0; q < steps; ++q)
		{
			const int x = (int)R.below(range), y = (int)R.below(1000), op = (int)R.below(14); kv::T("op %d: %d %d", op, x, y);
			switch (op)
			{
				case 0: t.insert(MO(x)); rt.insert(x); break;
				case 1: t.insertUnique(MO(x)); if (!rt.count(x)) rt.insert(x); break;
				case 2: t.insert(MO(x), MO(y)); rt.insert(x); rt.insert(y); break;
				case 3: if (rt.size()) { t.remove(t.begin()); rt.erase(rt.begin()); } break;
				case 4: { BinaryTree<MO, Cmp> u(move(t)); t = move(u); break; }
				case 5: m[x] = MO(y); rm[x] = y; break;
				case 6: m.insert(x, MO(y)); rm[x] = y; break;
				case 7: { MO o(-9); EXPECT(m.pop(x, o) == (rm.count(x) > 0) && o.get() == (rm.count(x) ? rm[x] : -9), "content", "popped %d", o.get()); rm.erase(x); break; }
				case 8: { Map<int32, MO> u(move(m)); m = move(u); break; }
				case 9: k[MO(x)] = y; rk[x] = y; break;
				case 10: k.insert(MO(x), y); rk[x] = y; EXPECT(k.remove(MO(y)) == (rk.erase(y) > 0), "content", "removing a key"); break;
				case 11: s.set(MO(x)); s.set(MO(y), MO(y + 1)); rs.insert(x); rs.insert(y); rs.insert(y + 1); break;
				case 12: { MO o(-9); EXPECT(s.remove(MO(x), o) == (rs.erase(x) > 0) && (o.get() == x || o.get() == -9), "content", "removed %d", o.get()); EXPECT(s.remove(MO(y)) == (rs.erase(y) > 0), "content", "removing an item"); break; }
				default: { Set<MO, Cmp> u; u.set(MO(x)); u.set(MO(y)); if (R.chance(1, 4)) { s *= u; std::set<int> z; for (int v : {x, y}) if (rs.count(v)) z.insert(v); rs = z; } else { s -= u; rs.erase(x); rs.erase(y); } Set<MO, Cmp> w(move(s)); s = move(w); break; }
			}
			same(t, std::vector<int>(rt.begin(), rt.end()), "tree"); same(s, std::vector<int>(rs.begin(), rs.end()), "set");
			auto i = rm.begin(); for (auto & p : m) { EXPECT(i != rm.end() && p.first == i->first && p.second.get() == i->second, "content", "a pair of a map"); ++i; } EXPECT(i == rm.end() && m.getCount() == rm.size(), "content", "size of a map");
			auto j = rk.begin(); for (auto & p : k) { EXPECT(j != rk.end() && p.first.get() == j->first && p.second == j->second, "content", "a pair of a map"); ++j; } EXPECT(j == rk.end() && k.getCount() == rk.size(), "content", "size of a map");
			const kv::u64 want = rt.size() + rm.size() + rk.size() + rs.size(); EXPECT(kv::L.live == want, "lifetime", "%llu elements are alive instead of %llu", (unsigned long long)kv::L.live, (unsigned long long)want); none();
			if (want > 8) kv::nontrivial(); kv::state(kv::mix(want * 16 + op));
		}
	}
	kv::expectNoLive("after the containers were destroyed");
}
KV_MAIN({"array", array, true}, {"list", list, true}, {"ordered", ordered, true})
