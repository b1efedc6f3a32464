// Copies are independent: snapshots of every other value around each mutation,
// and differential comparison of copies with containers built from scratch.
#include "drive.h"

template<typename C>
struct Copies
{
	using A = Ad<C>; static const int N = 3;
	static std::string show(const Snap & s) { std::string t; for (size_t i = 0; i < s.size() && i < 40; ++i) t += " " + std::to_string(s[i]); return t; }
	static void same(const C & x, const Snap & e, const char * key, const char * what)
	{
		const Snap g = A::snap(x);
		EXPECT(g == e, key, "%s %s:%s, expected%s", A::name(), what, show(g).c_str(), show(e).c_str());
	}
	static void run(kv::Rng & R)
	{
		C * x[N]; for (auto & e : x) e = new C();
		const int steps = 6 + (int)R.below(kv::G.thorough ? 120 : 40); kv::T("copies of %s, %d steps", A::name(), steps);
		for (int s = 0; s < steps; ++s)
		{
			const int k = (int)R.below(N), j = (int)R.below(N);
			Snap before[N]; for (int i = 0; i < N; ++i) before[i] = A::snap(*x[i]);
			int touched = k, moved = -1;
			switch (R.below(9))
			{
				case 0: case 1:
				{
					kv::T("x%d = x%d", k, j); const uint64 a = A::count(*x[k]), b = A::count(*x[j]); COV(k == j ? "self-copy-assign" : a > b ? (b ? "copy-assign-shrink" : "copy-assign-empty") : a < b ? (a ? "copy-assign-grow" : "copy-assign-to-empty") : "copy-assign-equal");
					auto && ret = (*x[k] = *(const C *)x[j]); EXPECT((const void *)&ret == (const void *)x[k], "returned-ref", "copy assignment returns another object");
					same(*x[k], before[j], "copy-value", "after copy assignment"); if (a + b > 6) kv::nontrivial(); break;
				}
				case 2:
				{
					kv::T("x%d = move(x%d)", k, j); COV(k == j ? "self-move-assign" : "move-assign");
					*x[k] = ::move(*x[j]); same(*x[k], before[j], "move-value", "after move assignment"); if (k != j) moved = j; break;
				}
				case 3: { kv::T("x%d replaced by a copy of x%d", k, j); COV("copy-construct"); C * c = new C(*(const C *)x[j]); same(*c, before[j], "copy-value", "after copy construction"); same(*x[j], before[j], "source-altered", "source of a copy"); delete x[k]; x[k] = c; same(*c, before[j], "not-independent", "copy whose source was destroyed or replaced"); break; }
				case 4: { kv::T("x%d move constructed from x%d", k, j); COV("move-construct"); C * c = new C(::move(*x[j])); same(*c, before[j], "move-value", "after move construction"); if (j == k) { delete x[k]; x[k] = c; } else { delete x[k]; x[k] = c; moved = j; } break; }
				case 5:
				{
					// A copy behaves under further operations as a container built from its values
					kv::T("differential on a copy of x%d", j); COV("differential");
					C copy(*(const C *)x[j]); if (R.chance(1, 2)) { C other; for (int q = (int)R.below(6); q > 0; --q) A::step(R, other); other = *(const C *)x[j]; copy = other; } else if (R.chance(1, 2)) { C tmp(*(const C *)x[j]); copy = ::move(tmp); }
					C fresh; A::build(fresh, A::values(*x[j])); same(fresh, before[j], "harness-build", "rebuilt");
					const kv::u64 seed = R.next(); kv::Rng r1(seed), r2(seed); const int c = 1 + (int)R.below(8);
					for (int q = 0; q < c; ++q) { A::step(r1, copy); A::step(r2, fresh); }
					{ const Snap e = A::snap(fresh); same(copy, e, "copy-behaviour", "copy under further operations"); }
					touched = -1; break;
				}
				default: kv::T("x%d", k); for (int q = 1 + (int)R.below(4); q > 0; --q) A::step(R, *x[k]); COV("mutate"); break;
			}
			for (int i = 0; i < N; ++i) if (i != touched && i != moved) same(*x[i], before[i], "not-independent", "bystander or source altered");
			if (moved >= 0)
			{
				if (A::emptiesSource) { EXPECT(A::count(*x[moved]) == 0, "moved-from", "%s not empty after it was moved from", A::name()); C e; same(*x[moved], A::snap(e), "moved-from", "moved from"); }
				// Reusable: behaves as a fresh one after it is rebuilt
				const Snap other = A::snap(*x[touched]); if (A::emptiesSource) A::build(*x[moved], before[moved].size() > 1 ? A::values(*x[touched]) : Snap());  else *x[moved] = C();
				if (A::emptiesSource && before[moved].size() > 1) { same(*x[moved], other, "moved-from", "rebuilt after it was moved from"); COV("reused"); }
				same(*x[touched], other, "not-independent", "receiver of a move after its source was reused");
			}
			kv::state(kv::mix(A::count(*x[0]) * 10007 + A::count(*x[1]) * 101 + A::count(*x[2])));
			if (A::count(*x[k]) > 400) { delete x[k]; x[k] = new C(); }
		}
		for (auto e : x) delete e;
	}
};
template<typename T> static void all(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: Copies<Array<T>>::run(R); break;
		case 1: Copies<List<T>>::run(R); break;
		case 2: Copies<BinaryTree<T>>::run(R); break;
		case 3: Copies<Map<T, T>>::run(R); break;
		case 4: Copies<Set<T>>::run(R); break;
		default: Copies<String>::run(R); break;
	}
}
static void copies(kv::Rng & R)
{
	switch (R.below(3)) { case 0: all<int32>(R); break; case 1: all<kv::Tracked<>>(R); break; default: all<String>(R); break; }
	kv::expectNoLive("after the containers were destroyed");
}

/// Values that own containers of their own kind: documents, scenes, syntax trees
template<template<typename> class BoxT> struct Doc
{
	typedef BoxT<Doc> Box; int v; kv::Tracked<> t; typename Box::C * kids;
	explicit Doc(int x = 0) : v(x), t(x), kids(0) {}
	Doc(const Doc & o) : v(o.v), t(o.t), kids(o.kids ? new typename Box::C(*o.kids) : 0) {}
	Doc(Doc && o) : v(o.v), t(::move(o.t)), kids(o.kids) { o.kids = 0; }
	Doc & operator=(const Doc & o) { if (this != &o) { typename Box::C * k = o.kids ? new typename Box::C(*o.kids) : 0; v = o.v; t = o.t; delete kids; kids = k; } return *this; }
	Doc & operator=(Doc && o) { if (this != &o) { typename Box::C * k = o.kids; o.kids = 0; const int w = o.v; kv::Tracked<> u(::move(o.t)); delete kids; kids = k; v = w; t = ::move(u); } return *this; }
	~Doc() { EXPECT(t.v == v || t.moved, "element", "the element %d holds %d when it ends", v, t.v); delete kids; }
	bool operator<(const Doc & o) const { return v < o.v; } bool operator>(const Doc & o) const { return v > o.v; } bool operator==(const Doc & o) const { return v == o.v; }
};
struct Plan { int v; std::vector<Plan> kids; std::string text() const { std::string s = std::to_string(v); if (kids.size()) { s += "("; for (auto & k : kids) s += k.text() + " "; s += ")"; } return s; } };
template<typename T> struct InArray { typedef Array<T> C; static void put(C & c, T && x) { c.add(::move(x)); } static T & of(T & e) { return e; } static uint64 count(const C & c) { return c.getCount(); } static const char * name() { return "array"; } };
template<typename T> struct InList { typedef List<T> C; static void put(C & c, T && x) { c.pushBack(::move(x)); } static T & of(T & e) { return e; } static uint64 count(const C & c) { return c.getLength(); } static const char * name() { return "list"; } };
template<typename T> struct InTree { typedef BinaryTree<T> C; static void put(C & c, T && x) { c.insert(::move(x)); } static T & of(T & e) { return e; } static uint64 count(const C & c) { return c.getNumNodes(); } static const char * name() { return "tree"; } };
template<typename T> struct InSet { typedef Set<T> C; static void put(C & c, T && x) { c.set(::move(x)); } static T & of(const T & e) { return const_cast<T &>(e); } static uint64 count(const C & c) { return c.getSize(); } static const char * name() { return "set"; } };
template<typename T> struct InMap { typedef Map<int32, T> C; static void put(C & c, T && x) { const int k = x.v; c.insert(k, ::move(x)); } template<typename P> static T & of(P & e) { return e.second; } static uint64 count(const C & c) { return c.getCount(); } static const char * name() { return "map"; } };

template<template<typename> class BoxT> struct Owned
{
	typedef Doc<BoxT> D; typedef BoxT<D> B; typedef typename B::C C;
	static Plan plan(kv::Rng & R, int v, int depth)
	{
		Plan p{v, {}}; const int n = depth ? (int)R.below(depth > 2 ? 6 : 4) : 0;
		for (int i = 0; i < n; ++i) p.kids.push_back(plan(R, v * 7 + i + 1, depth - 1));
		return p;
	}
	static C * boxOf(const Plan & p) { C * c = new C(); for (auto & k : p.kids) { D d(k.v); if (k.kids.size()) d.kids = boxOf(k); B::put(*c, ::move(d)); } return c; }
	static void same(C & c, const std::vector<Plan> & e, const char * what)
	{
		EXPECT(B::count(c) == e.size(), "owned-value", "%s %s: %llu elements, expected %zu", B::name(), what, (unsigned long long)B::count(c), e.size());
		size_t i = 0; for (auto & x : c) { D & d = B::of(x); EXPECT(i < e.size() && d.v == e[i].v && d.t.v == e[i].v, "owned-value", "%s %s: element %zu is %d, expected %s", B::name(), what, i, d.v, i < e.size() ? e[i].text().c_str() : "none"); if (d.kids) same(*d.kids, e[i].kids, what); else EXPECT(!e[i].kids.size(), "owned-value", "%s %s: element %zu lost what it holds", B::name(), what, i); ++i; }
	}
	static void run(kv::Rng & R)
	{
		Plan p = plan(R, 0, 4); C * c = boxOf(p); kv::T("%s of %s", B::name(), p.text().c_str()); same(*c, p.kids, "built");
		for (int s = 0; s < 12; ++s)
		{
			if (!p.kids.size()) break;
			// An element that holds elements of its own
			const int at = (int)R.below(p.kids.size()); auto it = c->begin(); for (int i = 0; i < at; ++i) ++it; D * d = &B::of(*it); Plan * q = &p.kids[at]; C * box = d->kids; int depth = 1;
			while (box && R.chance(1, 2) && q->kids.size()) { const int a = (int)R.below(q->kids.size()); auto jt = box->begin(); for (int i = 0; i < a; ++i) ++jt; d = &B::of(*jt); q = &q->kids[a]; box = d->kids; ++depth; }
			switch (R.below(5))
			{
				case 0: if (box) { kv::T("= move of what %d holds", q->v); COV(depth > 1 ? "owned:move-deep" : "owned:move"); kv::nontrivial(); const std::vector<Plan> k = q->kids; *c = ::move(*box); p.kids = k; } break;
				case 1: if (box) { kv::T("= copy of what %d holds", q->v); COV("owned:copy"); const std::vector<Plan> k = q->kids; C copy(*(const C *)box); *c = copy; p.kids = k; } break;
				case 2: if (box) { kv::T("%d takes what was moved out", q->v); COV("owned:through"); const std::vector<Plan> k = q->kids; C held(::move(*box)); *c = ::move(held); p.kids = k; } break;
				case 3: { kv::T("whole into %d", q->v); COV("owned:whole"); C whole(*(const C *)c); const std::vector<Plan> k = p.kids; if (!d->kids) d->kids = new C(); *d->kids = whole; q->kids = k; if (p.text().size() > 6000) { delete c; p.kids.clear(); c = new C(); } break; }
				case 4: if (box) { kv::T("swap with what %d holds", q->v); COV("owned:move-out"); std::vector<Plan> k; k.swap(q->kids); C out(::move(*box)); same(out, k, "moved out"); } break;
			}
			same(*c, p.kids, "afterwards"); kv::state(std::hash<std::string>()(p.text()));
		}
		delete c; kv::expectNoLive("after the documents were destroyed");
	}
};
static void owned(kv::Rng & R)
{
	switch (R.below(5)) { case 0: Owned<InArray>::run(R); break; case 1: Owned<InList>::run(R); break; case 2: Owned<InTree>::run(R); break; case 3: Owned<InSet>::run(R); break; default: Owned<InMap>::run(R); break; }
}
KV_MAIN({"copies", copies, true}, {"owned", owned, true})
