// Linked list against a reference sequence, with link-level invariants.
#include "elems.h"
#include <vector>
#include "containers/list.h"

template<typename T>
struct ListWork
{
	using E = Elem<T>; using Ref = std::vector<int>; using ListT = List<T>;
	static const int NA = 3;
	kv::Rng & R; ListT * a[NA]; Ref m[NA]; int nextv; bool big, huge = false;

	explicit ListWork(kv::Rng & r) : R(r), nextv(1), big(R.chance(1, 20)) { if constexpr (E::bulk) huge = R.chance(1, 300); for (auto & x : a) x = new ListT(); }
	~ListWork() { for (auto & x : a) delete x; }
	int fresh() { return R.chance(1, 4) ? (int)R.below(20) : nextv++; }

	void check(int k, const char * op)
	{
		ListT & x = *a[k]; const ListT & cx = x; const Ref & r = m[k]; const uint64 n = r.size();
		EXPECT(cx.getLength() == n, "length", "%s: length is %llu, expected %llu", op, (unsigned long long)x.getLength(), (unsigned long long)n);
		EXPECT(!!x.getHead() == (n > 0) && !!x.getTail() == (n > 0), "ends", "%s: head %p and tail %p of a list of %llu", op, (void *)x.getHead(), (void *)x.getTail(), (unsigned long long)n);
		EXPECT(x.getHead() == cx.getHead() && x.getTail() == cx.getTail(), "ends", "%s: accessors disagree", op);
		// Links, forward then backward
		uint64 i = 0; const Link<T> * last = 0; kv::u64 h = kv::mix(n);
		for (const Link<T> * l = cx.getHead(); l; last = l, l = l->next, ++i)
		{
			EXPECT(i < n, "links", "%s: more than %llu links reachable from the head", op, (unsigned long long)n);
			EXPECT(l->prev == last, "links", "%s: backward link of element %llu is wrong", op, (unsigned long long)i);
			const int v = E::val(l->data); h = kv::mix(h ^ (kv::u64)v);
			EXPECT(v == r[i], "content", "%s: element %llu is %d, expected %d", op, (unsigned long long)i, v, r[i]);
		}
		EXPECT(i == n && cx.getTail() == last, "links", "%s: %llu of %llu links, tail is %s", op, (unsigned long long)i, (unsigned long long)n, cx.getTail() == last ? "right" : "another link");
		kv::state(h);
		i = n; const Link<T> * nxt = 0;
		for (const Link<T> * l = cx.getTail(); l; nxt = l, l = l->prev)
		{
			EXPECT(i > 0, "links", "%s: more than %llu links reachable from the tail", op, (unsigned long long)n); --i;
			EXPECT(l->next == nxt && E::val(l->data) == r[i], "links", "%s: backward walk differs at %llu", op, (unsigned long long)i);
		}
		EXPECT(i == 0 && nxt == cx.getHead(), "links", "%s: backward walk stops early", op);
		// Iterators
		i = 0; for (auto & e : x) { EXPECT(i < n && E::val(e) == r[i], "iteration", "%s: iteration differs at %llu", op, (unsigned long long)i); ++i; } EXPECT(i == n, "iteration", "%s: iteration visits %llu", op, (unsigned long long)i);
		i = 0; for (auto it = cx.begin(); it != cx.end(); it++) { EXPECT(i < n && E::val(*it) == r[i] && it.operator->() == &*it, "iteration", "%s: const iteration differs at %llu", op, (unsigned long long)i); ++i; } EXPECT(i == n, "iteration", "%s: const iteration visits %llu", op, (unsigned long long)i);
		if (n > 1)
		{
			auto it = x.begin(); auto o1 = it++; EXPECT(o1 == x.begin() && E::val(*it) == r[1], "iteration", "%s: post-increment", op);
			auto o2 = it--; EXPECT(E::val(*o2) == r[1] && it == x.begin(), "iteration", "%s: post-decrement", op);
			EXPECT(&*++it == &x.getHead()->next->data && &*--it == &x.getHead()->data, "iteration", "%s: pre-increment and decrement", op);
		}
	}

	void step()
	{
		const int k = (int)R.below(NA); ListT & x = *a[k]; Ref & r = m[k]; const uint64 n = r.size();
		#define OP(name, ...) do { char b_[96]; snprintf(b_, sizeof(b_), __VA_ARGS__); kv::T("l%d.%s", k, b_); COV("op:" name); } while (0)
		switch (huge && R.chance(1, 5) ? 27 : R.below(28))
		{
			case 0: case 1: { const int v = fresh(); OP("pushBack", "pushBack(%d)", v); T & ref = x.pushBack(E::mk(v)); r.push_back(v); EXPECT(x.getTail() && &ref == &x.getTail()->data, "returned-ref", "pushBack returns a reference to another element"); break; }
			case 2: { const int v = fresh(); OP("pushFront", "pushFront(%d)", v); T & ref = x.pushFront(E::mk(v)); r.insert(r.begin(), v); EXPECT(x.getHead() && &ref == &x.getHead()->data, "returned-ref", "pushFront returns a reference to another element"); break; }
			case 3: { const int v = fresh(); OP("push-lvalue", "push lvalue %d", v); T item = E::mk(v); const T citem = E::mk(v); if (R.chance(1, 2)) { x.pushBack(item); x.pushBack(citem); r.push_back(v); r.push_back(v); } else { x.pushFront(item); x.pushFront(citem); r.insert(r.begin(), 2, v); } EXPECT(E::val(item) == v && E::val(citem) == v, "argument-altered", "push altered its lvalue argument"); break; }
			case 4: case 5: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = fresh(); OP("pushBack-many", "pushBack(%d values from %d)", c, v[0]); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.pushBack(static_cast<decltype(e)>(e)...); }); r.insert(r.end(), v, v + c); break; } else { const int v[3] = {fresh(), fresh(), fresh()}; OP("pushBack-multi", "pushBack(%d,%d,%d)", v[0], v[1], v[2]); T item = E::mk(v[1]); x.pushBack(E::mk(v[0]), item, E::mk(v[2])); r.insert(r.end(), v, v + 3); EXPECT(E::val(item) == v[1], "argument-altered", "pushBack of several values altered an lvalue argument"); break; }
			case 6: case 7: if (R.chance(1, 3)) { const int c = 2 + (int)R.below(8); int v[9]; for (int & e : v) e = fresh(); OP("pushFront-many", "pushFront(%d values from %d)", c, v[0]); kv::spread(c, [&](int i) { return E::mk(v[i]); }, [&](auto && ...e) { x.pushFront(static_cast<decltype(e)>(e)...); }); for (int i = 0; i < c; ++i) r.insert(r.begin(), v[i]); break; } else { const int v[3] = {fresh(), fresh(), fresh()}; OP("pushFront-multi", "pushFront(%d,%d,%d)", v[0], v[1], v[2]); T item = E::mk(v[0]); x.pushFront(item, E::mk(v[1]), E::mk(v[2])); for (int e : v) r.insert(r.begin(), e); EXPECT(E::val(item) == v[0], "argument-altered", "pushFront of several values altered an lvalue argument"); break; }
			case 8: if (n) { const uint64 i = R.below(n); OP("push-own", "push own element %llu", (unsigned long long)i); const int v = r[i]; auto it = x.begin(); for (uint64 j = 0; j < i; ++j) ++it; if (R.chance(1, 2)) { x.pushBack(*it); r.push_back(v); } else { x.pushFront(*it); r.insert(r.begin(), v); } } break;
			case 9: case 10: case 11: case 12: if (n && !R.chance(1, 16))
			{
				const uint64 i = R.chance(1, 4) ? 0 : R.chance(1, 3) ? n - 1 : R.below(n); const bool link = R.chance(1, 2);
				OP("remove", "remove %s %llu of %llu", link ? "link" : "iterator", (unsigned long long)i, (unsigned long long)n); COV(n == 1 ? "remove:only" : i == 0 ? "remove:head" : i == n - 1 ? "remove:tail" : "remove:inner");
				if (link) { Link<T> * l = x.getHead(); for (uint64 j = 0; j < i; ++j) l = l->next; x.remove(l); }
				else { auto it = x.begin(); for (uint64 j = 0; j < i; ++j) ++it; x.remove(it); }
				r.erase(r.begin() + i);
			} else { OP("remove-end", "remove(end)"); x.remove(x.end()); } break;
			case 13: { OP("removeBack", "removeBack of %llu", (unsigned long long)n); const bool ok = x.removeBack(); EXPECT(ok == (n > 0), "pop-result", "removeBack returns %d on %llu elements", ok, (unsigned long long)n); if (n) r.pop_back(); break; }
			case 14: { OP("removeFront", "removeFront of %llu", (unsigned long long)n); const bool ok = x.removeFront(); EXPECT(ok == (n > 0), "pop-result", "removeFront returns %d on %llu elements", ok, (unsigned long long)n); if (n) r.erase(r.begin()); break; }
			case 15: { OP("popBack", "popBack of %llu", (unsigned long long)n); T out = E::mk(-5); const bool ok = x.popBack(out); EXPECT(ok == (n > 0), "pop-result", "popBack returns %d", ok); EXPECT(E::val(out) == (n ? r.back() : -5), "pop-value", "popBack delivers %d", E::val(out)); if (n) r.pop_back(); break; }
			case 16: { OP("popFront", "popFront of %llu", (unsigned long long)n); T out = E::mk(-5); const bool ok = x.popFront(out); EXPECT(ok == (n > 0), "pop-result", "popFront returns %d", ok); EXPECT(E::val(out) == (n ? r.front() : -5), "pop-value", "popFront delivers %d", E::val(out)); if (n) r.erase(r.begin()); break; }
			case 17: if (R.chance(1, 3)) { OP("empty", "empty()"); x.empty(); r.clear(); } break;
			case 18: case 19: { const int j = (int)R.below(NA); OP("copy-assign", "= l%d (%llu <- %llu)", j, (unsigned long long)n, (unsigned long long)m[j].size()); COV(m[j].size() < n ? "copy-assign:shrink" : "copy-assign:grow"); ListT & ret = (x = *(const ListT *)a[j]); EXPECT(&ret == &x, "returned-ref", "copy assignment returns another object"); r = Ref(m[j]); check(j, "copy-assign source"); break; }
			case 20: { const int j = (int)R.below(NA); OP("move-assign", "= move(l%d)", j); ListT & ret = (x = ::move(*a[j])); EXPECT(&ret == &x, "returned-ref", "move assignment returns another object"); if (j != k) { r = m[j]; m[j].clear(); check(j, "moved-from list"); } break; }
			case 21: { const int j = (int)R.below(NA); OP("copy-construct", "replaced by a copy of l%d", j); ListT * c = new ListT(*(const ListT *)a[j]); Ref cr = m[j]; delete a[k]; a[k] = c; m[k] = cr; break; }
			case 22: { const int j = (int)R.below(NA); OP("move-construct", "move-constructed from l%d", j); ListT * c = new ListT(::move(*a[j])); Ref cr = m[j]; m[j].clear(); check(j, "moved-from list"); delete a[k]; a[k] = c; m[k] = cr; break; }
			case 23: { Ref v; for (uint64 i = R.size(12); i-- > 0;) v.push_back(fresh()); OP("iterator-construct", "constructed from %llu values", (unsigned long long)v.size()); std::vector<T> src; src.reserve(v.size()); for (int e : v) src.push_back(E::mk(e)); delete a[k]; a[k] = new ListT((const T *)src.data(), (const T *)src.data() + src.size()); r = v; for (uint64 i = 0; i < v.size(); ++i) EXPECT(E::val(src[i]) == v[i], "argument-altered", "source values altered"); break; }
			case 24: if (n) { const uint64 i = R.below(n); const int v = fresh(); OP("write", "element %llu = %d", (unsigned long long)i, v); auto it = x.begin(); for (uint64 j = 0; j < i; ++j) ++it; *it = E::mk(v); r[i] = v; } break;
			case 25:
				if constexpr (__is_same(T, int32) || __is_same(T, uint64))
				{
					if (n > 5000) break; OP("toString", "toString()"); String s = x.toString(); EXPECT(strlen(*s) == s.getLength(), "to-string", "toString is not a proper string");
				}
				break;
			default: { const int v = fresh(); const uint64 c = huge ? 30000 + R.below(45000) : 1 + R.below(big ? 700 : 12); OP("push-many", "push %llu from %d", (unsigned long long)c, v); for (uint64 i = 0; i < c; ++i) { x.pushBack(E::mk(v + (int)i)); r.push_back(v + (int)i); } break; }
		}
		#undef OP
		if (r.size() > 4) kv::nontrivial();
		if (r.size() > 65536) COV("elements:huge");
		if (r.size() > (huge ? 160000 : 2000)) { a[k]->empty(); r.clear(); }
		for (int j = 0; j < NA; ++j) if (j == k || R.chance(1, 8)) check(j, "after the last operation");
	}

	static void run(kv::Rng & R)
	{
		int steps = 8 + (int)R.below(kv::G.thorough ? 160 : 60);
		kv::T("list of %s, %d steps", E::name(), steps);
		{ ListWork w(R); if (w.huge) steps = 20; for (int i = 0; i < steps; ++i) w.step(); for (int j = 0; j < NA; ++j) w.check(j, "at the end"); }
		kv::expectNoLive("after the lists were destroyed");
	}
};

static void values(kv::Rng & R) { switch (R.below(4)) { case 0: ListWork<int32>::run(R); break; case 1: ListWork<uint64>::run(R); break; case 2: ListWork<PodDef>::run(R); break; default: ListWork<CopyOnly>::run(R); } }
static void owning(kv::Rng & R) { switch (R.below(4)) { case 0: case 1: ListWork<kv::Tracked<>>::run(R); break; case 2: ListWork<kv::Tracked<1, 32>>::run(R); break; default: ListWork<String>::run(R); } }
KV_MAIN({"values", values, true}, {"owning", owning, true})
