// Lifetime monitor: every element is a tracked object; live elements are
// compared with the elements the containers hold after each operation.
#include "drive.h"

/// Every other way to construct a container
template<typename T> static Array<T> * construct(kv::Rng & R, Array<T> *)
{
	using E = Elem<T>;
	switch (R.below(3))
	{
		case 0: { const uint64 c = R.below(12); return new Array<T>(c + R.below(5), c); }
		case 1: { StaticArray<T, 3> s{E::mk(1), E::mk(2), E::mk(3)}; return new Array<T>(s); }
		default: { std::vector<T> v; v.reserve(12); for (uint64 c = R.below(12); c > 0; --c) v.push_back(E::mk((int)c)); return new Array<T>((const T *)v.data(), v.size(), R.below(4)); }
	}
}
template<typename T> static List<T> * construct(kv::Rng & R, List<T> *) { using E = Elem<T>; std::vector<T> v; v.reserve(12); for (uint64 c = R.below(12); c > 0; --c) v.push_back(E::mk((int)c)); return new List<T>((const T *)v.data(), (const T *)v.data() + v.size()); }
template<typename C> static C * construct(kv::Rng &, C *) { return new C(); }

template<typename C>
static void drive(kv::Rng & R)
{
	using A = Ad<C>; const int N = 3; C * x[N]; for (auto & e : x) e = new C(); bool big = false;
	const int steps = 6 + (int)R.below(kv::G.thorough ? 150 : 50);
	kv::T("lifetimes in %s, %d steps", A::name(), steps);
	for (int s = 0; s < steps; ++s)
	{
		const int k = (int)R.below(N), j = (int)R.below(N);
		switch (R.below(10))
		{
			case 0: kv::T("x%d = x%d", k, j); COV("copy-assign"); if (k == j) COV("self-assign"); *x[k] = *(const C *)x[j]; break;
			case 1: kv::T("x%d = move(x%d)", k, j); COV("move-assign"); *x[k] = ::move(*x[j]); break;
			case 2: { kv::T("x%d replaced by a copy of x%d", k, j); COV("copy-construct"); C * c = new C(*(const C *)x[j]); delete x[k]; x[k] = c; break; }
			case 3: { kv::T("x%d move constructed from x%d", k, j); COV("move-construct"); C * c = new C(::move(*x[j])); delete x[k]; x[k] = c; break; }
			case 4: if (R.chance(1, 3)) { kv::T("x%d constructed anew", k); COV("construct"); C * c = construct(R, (C *)0); delete x[k]; x[k] = c; break; }
			default: kv::T("x%d", k); for (int q = 1 + (int)R.below(4); q > 0; --q) A::step(R, *x[k]); break;
		}
		kv::u64 held = 0; for (auto e : x) held += A::count(*e);
		EXPECT(kv::L.live == held, kv::L.live > held ? "element-leak" : "element-dead", "%s: %llu elements are alive while the containers hold %llu", A::name(), (unsigned long long)kv::L.live, (unsigned long long)held);
		if (held > 12) kv::nontrivial();
		if (held > 600) { delete x[k]; x[k] = new C(); }
		kv::state(kv::mix(held) ^ kv::mix(kv::L.constructed - kv::L.destroyed + A::count(*x[k])));
	}
	for (auto e : x) delete e;
	kv::expectNoLive("after the containers were destroyed");
	COVN("elements-constructed", 0); COVN("elements-constructed", kv::L.constructed); kv::L.constructed = 0; COVN("elements-copied", kv::L.copies); COVN("elements-moved", kv::L.moves); COVN("elements-assigned", kv::L.assigns); kv::L.copies = kv::L.moves = kv::L.assigns = 0;
}
template<typename T> static void all(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: case 1: drive<Array<T>>(R); break;
		case 2: drive<List<T>>(R); break;
		case 3: drive<BinaryTree<T>>(R); break;
		case 4: drive<Map<T, T>>(R); break;
		default: drive<Set<T>>(R); break;
	}
}
static void lifetimes(kv::Rng & R) { if (R.chance(3, 4)) all<kv::Tracked<>>(R); else all<kv::Tracked<2, 32>>(R); }
KV_MAIN({"lifetimes", lifetimes, true})
